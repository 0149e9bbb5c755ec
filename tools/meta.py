#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, state=state))


VAL = 'The expression tree is known to the monitor independently of the library; the reference evaluator uses binary128 arithmetic with running error bounds and exact arithmetic modulo 2^61-1 where the expression is rational, so points it cannot decide are counted, not judged. '
UT = 'The unit tests fix a few hundred hand-written expressions with their expected results; the claim quantifies over every expression tree and every point, where rare combinations of rewriting rules interact. '

prop('C01', 'Arithmetic and its automatic simplification preserve the value',
     'An expression built with addition, subtraction, multiplication, division, negation, powers and square roots from numbers, constants, symbols and functions denotes the same real value as the formula it was built from, at every point where that formula has a real value and where the result is defined. Automatic simplification never turns a formula with real values into Undefined or into something without a real value at all of those points (the documented domain narrowings, a root of a quotient as quotient of roots and the logarithm of an even power as multiple of a logarithm, are allowed). Positive symbols take positive values only; floating point numbers agree up to rounding.',
     ['inputs'], 'all finite expression trees of exact numbers (of any size), constants, floating point numbers, plain and positive symbols, and all real values of the symbols',
     UT, ['src/sumsimpl.cpp', 'src/productsimpl.cpp', 'src/powersimpl.cpp', 'src/numpowersimpl.cpp', 'src/sum.cpp', 'src/product.cpp', 'src/power.cpp', 'src/number.cpp', 'src/var.cpp'],
     [('recursive simplification of sums, products and powers', 'src/sumsimpl.cpp, src/productsimpl.cpp, src/powersimpl.cpp'), ('merging of numeric powers', 'src/numpowersimpl.cpp')],
     ['return values of the operators and of pow() and sqrt()'], 'runtime monitor: online value oracle on generated construction histories', VAL)

prop('C02', 'Elementary functions denote their real value and resolve special values',
     'sin, cos, tan, asin, acos, atan, atan2 and log of any argument, and sums, products and powers of them, have the value of the mathematical function wherever it is real, including all reductions of arguments by periods and symmetries and the inversion of one function by another. The sine, cosine and tangent of integer multiples of pi/12 are resolved to an exact expression without functions, or to Undefined at a pole. A defined value is never replaced by Undefined.',
     ['inputs'], 'all function arguments: rational multiples of pi of any size, fractions, roots, floating point numbers, symbolic expressions, other functions; all real values of the symbols',
     UT + 'The tables of special values are sampled only within the first full turn.', ['src/trigonometric.cpp', 'src/logarithm.cpp', 'src/numtrigosimpl.cpp', 'src/function.cpp', 'src/productsimpl.cpp', 'src/sumsimpl.cpp'],
     [('reduction of arguments and lookup of special values', 'src/numtrigosimpl.cpp'), ('simplification of functions of functions', 'src/trigonometric.cpp, src/logarithm.cpp'), ('contraction of squares and quotients of sine and cosine', 'src/sumsimpl.cpp, src/productsimpl.cpp')],
     ['return values of the functions and of arithmetic with them'], 'runtime monitor: online value oracle, exhaustive over the table of special angles', VAL)

prop('C03', 'Expansion preserves the value and leaves nothing to expand',
     'expand() returns an expression with the same value as its argument, and the result contains no sum as a factor of a product and no sum raised to a positive integer power outside of function arguments, denominators and other powers. Expanding the result again changes nothing unless denominators contain sums.',
     ['inputs'], 'all expressions and all real values of their symbols', UT, ['src/sum.cpp', 'src/product.cpp', 'src/power.cpp', 'src/baseptrlistfct.cpp'],
     [('expansion of products and of powers with integer exponents', 'src/product.cpp, src/power.cpp, src/baseptrlistfct.cpp')], ['return value of expand()'], 'runtime monitor: online value and shape oracle', VAL)

prop('C04', 'Normalization and simplification preserve the value',
     'normal(), simplify() and the quotient of numerator() and denominator() have the same value as their argument wherever it is defined, for every kind of expression (with roots, functions and symbolic exponents, too). The results contain no symbol that the argument does not contain. The result of simplify() is not more complex than the more complex one of expanded and normal form.',
     ['inputs'], 'all expressions and all real values of their symbols', UT, ['src/fraction.cpp', 'src/gcd.cpp', 'src/powernormal.cpp', 'src/symbolmap.cpp', 'src/functions.cpp', 'src/sum.cpp', 'src/product.cpp', 'src/power.cpp'],
     [('fractions with cancellation of the greatest common divisor', 'src/fraction.cpp'), ('temporary symbols for irrational parts', 'src/symbolmap.cpp, src/powernormal.cpp')], ['return values of normal() and simplify()'], 'runtime monitor: online value oracle', VAL)

prop('C05', 'Normal form decides identity of rational functions and cancels common factors',
     'For expressions built from exact numbers and symbols with addition, subtraction, multiplication, division and integer powers, normal() yields zero if and only if the expression is identically zero, and numerator() divided by denominator() is the function with no common polynomial factor left.',
     ['inputs'], 'all rational functions with rational coefficients of any size in any number of symbols (generated: up to three symbols)', UT + 'Greatest common divisors of multivariate polynomials have case distinctions and degree drops that depend on the particular polynomials.',
     ['src/fraction.cpp', 'src/gcd.cpp', 'src/primitivegcd.cpp', 'src/subresultantgcd.cpp', 'src/poly.cpp', 'src/polyinfo.cpp', 'src/cache.cpp'],
     [('polynomial division and greatest common divisors', 'src/poly.cpp, src/gcd.cpp, src/subresultantgcd.cpp, src/primitivegcd.cpp'), ('cancellation', 'src/fraction.cpp')], ['return values of normal(), numerator(), denominator()'],
     'runtime monitor: exact modular evaluation and independent gcd oracle', 'Exact: identity and coprimality are decided by evaluation and univariate gcds modulo 2^61-1 at random points, so a wrong verdict has a probability of less than 1e-12 per case.')

prop('C06', 'Substitution replaces a part by another everywhere and by value',
     'subst() of a symbol by an expression yields the value that the argument takes if the symbol has the value of that expression, and the symbol does not occur in the result unless the new expression contains it. Substituting a power or function by a symbol yields an expression that has the old value if the symbol has the value of the replaced part.',
     ['inputs'], 'all expressions, all symbols and parts of them, all replacements that respect the sign of a positive symbol, and all real values of the remaining symbols', UT, ['src/basefct.cpp', 'src/base.cpp', 'src/sum.cpp', 'src/product.cpp', 'src/power.cpp', 'src/function.cpp', 'src/trigonometric.cpp', 'src/logarithm.cpp', 'src/symbol.cpp'],
     [('recursive substitution with automatic simplification', 'src/sum.cpp, src/product.cpp, src/power.cpp, src/trigonometric.cpp, src/logarithm.cpp')], ['return value of subst()'], 'runtime monitor: online value oracle', VAL)

prop('C07', 'Differentiation yields the derivative',
     'diff() with respect to a symbol returns an expression with the value of the partial derivative wherever the expression is differentiable there, for every combination of sums, products, powers with constant and symbolic exponents and all functions, and for repeated derivatives. The derivative with respect to a symbol that does not occur is zero.',
     ['inputs'], 'all expressions, all symbols of them and all real values of the symbols', UT, ['src/sum.cpp', 'src/product.cpp', 'src/power.cpp', 'src/trigonometric.cpp', 'src/logarithm.cpp', 'src/symbol.cpp', 'src/functions.cpp'],
     [('sum, product, power and chain rule', 'src/sum.cpp, src/product.cpp, src/power.cpp, src/trigonometric.cpp, src/logarithm.cpp')], ['return value of diff()'], 'runtime monitor: online value oracle against an independent derivative', VAL)

prop('C08', 'Equality, hashes and canonical order are coherent',
     'Equality of expressions is an equivalence relation that agrees with inequality, with structural identity and with the printed form, and equal expressions have equal hashes, so they find each other in hashed containers. Addition and multiplication commute: two operands in either order give equal results. Sums and products of exact operands without numeric roots, without powers of numbers with symbolic exponent and (for products) without sums as factors or roots of what may be negative do not depend on the order and association of any number of operands.',
     ['inputs', 'histories'], 'all exact expressions except Undefined, all pairs of them, all orders and associations of building a sum or product', UT + 'The order of operands is defined by pairwise rules for all pairs of types; transitivity is a statement about all triples.',
     ['src/order.cpp', 'src/base.cpp', 'src/sum.cpp', 'src/product.cpp', 'src/power.cpp', 'src/function.cpp', 'src/sumsimpl.cpp', 'src/productsimpl.cpp', 'src/numeric.cpp', 'src/symbol.cpp', 'src/name.cpp'],
     [('order relation of operands', 'src/order.cpp'), ('structural comparison and hash computation', 'src/base.cpp and its subclasses')], ['operators == and !=, std::hash, unordered containers, printed form'], 'runtime monitor: differential replay of construction orders', 'The oracle compares observable results only (==, hash, printed form, operands); the classes excluded from association independence are stated in the property.')

prop('C09', 'Parsing accepts exactly the documented grammar and builds its meaning',
     'parse() of a string that is an expression in usual notation (integers of any length, decimal numbers, symbols with optional subscript, pi and euler, the elementary functions by name in any case, parentheses, the operators + - * / and ^ with usual precedence, powers binding to the right and tighter than a sign, ASCII white space between tokens) returns the expression this notation denotes. For every other string, including any with trailing or missing parts and non-ASCII characters, it returns nothing. It never throws, crashes or depends on what has been parsed before.',
     ['inputs'], 'all byte strings', 'Tests parse some dozens of strings; the claim quantifies over all strings, in particular malformed ones and unusual nesting.', ['src/parser.cpp', 'src/functions.cpp'],
     [('recursive grammar with an operand stack', 'src/parser.cpp')], ['return value of parse()'], 'runtime monitor: differential oracle (independent recognizer and evaluator)', 'An independent recursive descent recognizer decides membership and meaning. ' + VAL)

prop('C10', 'Exact numbers are computed and converted exactly',
     'Sums, differences, products, quotients and integer powers of integers and fractions of any size are exact and in lowest terms, a root of a number stays exact and its power leads back to that number, and rational roots of small numbers are resolved. Conversion to int yields the value or throws std::overflow_error if it is out of range and std::domain_error if it is not an integer, and conversion to double yields the nearest value within rounding. Floating point numbers keep their value, and integral ones are integers.',
     ['inputs'], 'all arithmetic trees over integers and fractions of any size, and all numbers as conversion arguments', 'Tests use a few small and some big numbers; carries, sign combinations, common factors and the limits of the primitive types are sampled only.',
     ['src/number.cpp', 'src/int.cpp', 'src/numberfct.cpp', 'src/numeric.cpp', 'src/primefac.cpp', 'src/numpowersimpl.cpp', 'src/var.cpp'], [('rational arithmetic over big integers', 'src/number.cpp'), ('prime factorization for roots', 'src/primefac.cpp, src/numpowersimpl.cpp')],
     ['printed digits, type(), numerator() and denominator(), conversions'], 'runtime monitor: differential oracle (GMP)', 'GMP is trusted; comparison is digit by digit.')

prop('C11', 'Solving, inverting and determinants are exact; singular matrices are reported',
     'For a regular matrix, solve() returns the vector that satisfies the equations exactly, invert() the inverse and determinant() the determinant, for all supported container types, any pattern of skipped rows and columns, and entries that are numbers, symbols or rational functions. For a singular matrix solve() and invert() throw std::invalid_argument, and determinant() throws it or returns zero. Inputs that are not results, including skipped entries, stay untouched.',
     ['inputs', 'configurations'], 'all square matrices of exact entries, all right hand sides and all skip patterns (generated: up to dimension five)', 'Tests contain some fixed systems; which pivots vanish after elimination depends on the particular entries.',
     ['include/tsym/solve.h', 'src/solve.cpp', 'src/ludecomp.h', 'src/directsolve.cpp', 'src/stdvecwrapper.h'], [('LU decomposition with pivoting', 'src/ludecomp.h'), ('direct solution of small systems', 'src/directsolve.cpp'), ('container adaptors', 'include/tsym/solve.h, include/tsym/traits.h')],
     ['result containers, exceptions, input containers after the call'], 'runtime monitor: exact modular oracle with independent elimination', 'Exact evaluation modulo 2^61-1 at random points.')

prop('C12', 'Sign predicates never contradict the value',
     'If isPositive() or isNegative() holds for an expression, its value is greater or less than zero, respectively, at every point of its domain where positive symbols are positive; both never hold at once. For exact numbers and symbols declared positive the predicates decide.',
     ['inputs'], 'all expressions and all real values of their symbols', UT, ['src/number.cpp', 'src/numeric.cpp', 'src/constant.cpp', 'src/sum.cpp', 'src/product.cpp', 'src/power.cpp', 'src/trigonometric.cpp', 'src/logarithm.cpp', 'src/symbol.cpp', 'src/base.cpp'],
     [('recursive sign rules', 'isPositive and isNegative of all expression classes')], ['return values of isPositive() and isNegative()'], 'runtime monitor: online sign oracle', VAL)

prop('C13', 'Undefined propagates and is never resurrected',
     'An operation that has no real value for any values of the symbols (division by zero, logarithm of a number that is not positive, even root of a negative number, arcus sine or cosine outside of [-1, 1], tangent at a pole) yields Undefined. Every operation with an Undefined operand yields Undefined, and Undefined is not equal to anything, including itself.',
     ['inputs', 'histories'], 'all expressions with an undefined part at any position, directly or after substitution', UT, ['src/undefined.cpp', 'src/sumsimpl.cpp', 'src/productsimpl.cpp', 'src/powersimpl.cpp', 'src/trigonometric.cpp', 'src/logarithm.cpp', 'src/numtrigosimpl.cpp', 'src/basefct.cpp'],
     [('undefined operands end every simplification', 'src/sum.cpp, src/product.cpp, src/power.cpp, src/trigonometric.cpp, src/logarithm.cpp')], ['type() of results'], 'runtime monitor: propagation oracle on poisoned construction histories', VAL)

try:
    exec(open(os.path.join(HERE, 'tools', 'meta2.py')).read())
except FileNotFoundError:
    pass

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    P.sort(key=lambda p: p['pid'])
    for p in P:
        assert len(p['title']) <= 80, p['pid']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        f.write(json.dumps({'id': p['pid'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')

m = {'version': 1, 'setup_cmd': 'bash build.sh fast && bash build.sh san',
     'checks': [{'property': p['pid'], 'quick_cmd': 'python3 check.py ' + p['pid'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['pid'], 'technique': p['technique'], 'level': 'exploration',
                 'level_note': p['note'] + 'Exploration: the property held on all executions observed; evidence lists how many and of which kind.'} for p in P],
     'not_applicable': []}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
