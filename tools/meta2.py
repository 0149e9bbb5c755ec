HIST = 'Tests run short fixed sequences; the claim quantifies over all histories of calls. '
prop('C14', 'No history of calls corrupts memory or hits undefined behaviour',
     'Whatever public functions are called in whatever sequence with whatever expressions, texts and numbers of moderate size, no call accesses memory that it must not access, uses an object after its end, relies on undefined arithmetic or an invalid iterator or ends the process. Documented exceptions are the only way to leave a function other than by returning.',
     ['inputs', 'histories'], 'all finite histories of calls of the public functions, including failing ones, on shared and temporary expressions', HIST + 'They are not run with instrumentation, so that they pass whatever memory is accessed, as long as the results agree.',
     ['src/baseptr.cpp', 'src/base.cpp', 'src/number.cpp', 'src/var.cpp', 'src/parser.cpp', 'src/printer.cpp', 'src/symbolmap.cpp', 'src/name.cpp', 'src/solve.cpp', 'src/cache.h'],
     [('shared ownership of expressions', 'src/base.h, src/baseptr.h'), ('lists of operands with iterators kept during modification', 'src/sumsimpl.cpp, src/productsimpl.cpp, src/numpowersimpl.cpp')], ['absence of sanitizer reports, signals and unexpected exceptions'],
     'AddressSanitizer, UndefinedBehaviorSanitizer and checked containers on random call histories', 'Reports of the instrumentation are the oracle; uninitialised memory is out of its reach. ')

prop('C15', 'Results do not depend on former calls, and operands never change',
     'A function called with equal arguments returns the same printed result the first time in a process, repeatedly, and after any other calls, and it never changes its arguments or any other existing expression, except for the left operand of an assignment. Symbols that the library creates internally never show up in a result.',
     ['histories'], 'all finite histories of calls of the public functions', HIST + 'A fixed order of tests in one process cannot reveal what caches, internal symbols and shared operands keep from one call to another.',
     ['src/cache.h', 'src/symbolmap.cpp', 'src/symbol.cpp', 'src/fraction.cpp', 'src/gcd.cpp', 'src/poly.cpp', 'src/baseptrlistfct.cpp', 'src/var.cpp'],
     [('caches of results', 'src/cache.h and its users'), ('temporary symbols', 'src/symbol.cpp, src/symbolmap.cpp')], ['printed results in a used and in a fresh process, operands before and after a call'],
     'runtime monitor: differential replay of histories in used and fresh processes', 'The oracle is agreement of two executions of the real code, one of them in a process that has never called the library. ',
     [('caches', 'results of former calls, keyed by operands', 'src/cache.h'), ('temporary symbols', 'numbered stand-ins for irrational parts', 'src/symbol.cpp')])

prop('C17', 'Messages reach exactly the installed logger',
     'Every message of the library is delivered to the logger that is installed at that time, with its severity, source file, line and text, and to no other one; an installed logger is owned and released when it is replaced. The default logger prints warnings and errors to the standard output and nothing else, and the library writes nothing on its own.',
     ['histories', 'configurations'], 'all finite histories of calls and all installed loggers', 'Tests replace the logger by a silent one and do not look at what is delivered.', ['include/tsym/logger.h', 'src/logger.cpp', 'src/logging.h', 'src/var.cpp', 'src/parser.cpp', 'src/functions.cpp'],
     [('exchangeable logger instance', 'src/logger.cpp')], ['calls of the logger, standard output and error'], 'runtime monitor: recording loggers and watched file descriptors', 'The recording logger sees every delivery. ',
     [('installed logger', 'receiver of all messages', 'src/logger.cpp')])

prop('C18', 'Every operation returns for small arguments',
     'Every public operation on small expressions (numbers of moderate size, a few operands, low total degree) returns within seconds and with moderate memory, whatever classes of expressions are combined; there is no argument on which rewriting rules undo each other for ever. Linear systems are included up to dimension two.',
     ['inputs'], 'all expressions of up to four inner nodes with a total degree of up to six', 'Tests terminate on what they contain; that the rewriting rules terminate is a statement about all expressions.', ['src/sumsimpl.cpp', 'src/productsimpl.cpp', 'src/powersimpl.cpp', 'src/numpowersimpl.cpp', 'src/fraction.cpp', 'src/gcd.cpp', 'src/functions.cpp', 'src/primefac.cpp'],
     [('simplification to a fixed point', 'src/sumsimpl.cpp, src/productsimpl.cpp'), ('simplification as repeated expansion and normalization', 'src/functions.cpp')], ['return of the call, CPU time, allocations'], 'runtime monitor: watchdog on CPU time and memory', 'A hang is confirmed by a repetition with a four times larger limit before it is reported. ')

prop('C19', 'Printed expressions mean what they are',
     'The sequence of calls to a print engine is well-formed (matching delimiters, a denominator after each numerator) and denotes the value of the printed expression, with parentheses wherever precedence requires them; the ASCII and Unicode texts agree with it up to the letters. The ASCII text of an expression without floating point numbers is accepted by parse() and leads back to the same value, and to an equal expression for a rational function of plain symbols that is expanded.',
     ['inputs'], 'all expressions and all print engines', 'Tests compare some texts; where parentheses, signs and fractions go depends on the combination of all classes of expressions.', ['src/printer.cpp', 'src/plaintextprintengine.cpp', 'include/tsym/printengine.h', 'src/var.cpp', 'src/parser.cpp'],
     [('traversal of an expression to print events', 'src/printer.cpp'), ('text engine', 'src/plaintextprintengine.cpp')], ['events of a print engine, printed texts, parse() of them'], 'runtime monitor: trace specification of print events and independent interpretation', VAL)

prop('C21', 'Repeated work does not accumulate memory',
     'Repeating the same calls on rational functions again and again occupies no more memory than performing them a few times: everything a call allocates is released with its results, except for what is cached for equal arguments.',
     ['histories'], 'all finite histories of calls with rational functions, linear systems, parsing and printing', HIST + 'The unit tests count bytes for some calls only.', ['src/baseptr.cpp', 'src/base.cpp', 'src/cache.h', 'src/number.cpp', 'src/parser.cpp', 'src/solve.cpp', 'src/var.cpp'],
     [('shared ownership of expressions', 'src/base.h'), ('caches keyed by operands', 'src/cache.h')], ['number of allocated blocks'], 'runtime monitor: conservation of allocated blocks', 'All allocations of the process are counted; growth in three consecutive repetitions is a violation. ')

prop('C16', 'Queries describe the structure, and the structure is canonical',
     'type(), name(), operands(), has() and collectSymbols() agree with each other for an expression and all of its parts, and an operand is always less complex than the whole. Sums and products are flat, without neutral, undefined or more than one numeric operand, powers are not trivial, and fractions are in lowest terms with positive denominator. Substituting what does not occur changes nothing, and an expression composed again from its operands is equal to the original (products of several numeric roots, of roots of equal bases and of a constant with a sum excepted).',
     ['inputs'], 'all expressions, as built or as result of expansion or normalization, and all of their parts', UT, ['src/base.cpp', 'src/functions.cpp', 'src/sum.cpp', 'src/product.cpp', 'src/power.cpp', 'src/function.cpp', 'src/symbol.cpp', 'src/numeric.cpp', 'src/var.cpp', 'src/namefct.cpp'],
     [('flattening of operands', 'src/sumsimpl.cpp, src/productsimpl.cpp'), ('recursive search', 'src/base.cpp')], ['return values of the query functions'], 'runtime monitor: structural invariants on all nodes of observed expressions', 'The tree is walked via operands() only; the excepted products are stated in the property. ')

prop('C20', 'Numeric evaluation yields the value of every constant expression',
     'Conversion to double of an expression without symbols, as built or after all of its symbols have been substituted by numbers, yields its real value within rounding. Conversion of an expression with symbols or of Undefined throws std::domain_error, and so does conversion to int of anything whose value is not integral.',
     ['inputs'], 'all expressions without symbols, and all substitutions of all symbols by numbers', UT, ['src/number.cpp', 'src/numeric.cpp', 'src/sum.cpp', 'src/product.cpp', 'src/power.cpp', 'src/constant.cpp', 'src/trigonometric.cpp', 'src/logarithm.cpp', 'src/var.cpp'],
     [('recursive numeric evaluation', 'numericEval of all expression classes')], ['return values and exceptions of the conversions'], 'runtime monitor: online value oracle', VAL)

prop('C22', 'Symbols and numbers are constructed exactly as given',
     'An expression constructed from a name is the symbol of that name, positive if and only if requested, and symbols are equal if and only if names (however the subscript is written) and positivity are equal; one constructed from digits is that integer, whatever its size. Any other text, in particular a malformed one, yields Undefined and never an exception. An int, two ints (in lowest terms, Undefined for a zero denominator) and a double construct that number.',
     ['inputs'], 'all texts, all pairs of int, all finite doubles', 'Tests construct some dozens of symbols and numbers; the claim quantifies over all texts, in particular almost correct ones, and the limits of int.', ['src/var.cpp', 'src/parser.cpp', 'src/symbol.cpp', 'src/numeric.cpp', 'src/number.cpp', 'src/namefct.cpp', 'src/name.cpp'],
     [('constructors with parsing of names', 'src/var.cpp, src/parser.cpp'), ('pool of symbols', 'src/symbol.cpp')], ['type(), name(), isPositive(), equality, printed digits'], 'runtime monitor: differential oracle (independent recognizer)', 'An independent recognizer decides what a text denotes. ')

prop('C23', 'Expressions are values, and all forms of an operator agree',
     'Copies, moves and assignments of expressions are independent of each other, compound assignment (also of an object to itself) yields what the binary operator yields, operators with plain int or double operands behave as with converted operands, and subtraction and division are addition of the negative and multiplication with the inverse. Zero and one are neutral, a factor of zero annihilates, and expressions without nested sums and powers of numbers with symbolic exponents cancel with their negative, rational functions without nested sums also with their inverse.',
     ['inputs', 'histories'], 'all pairs of defined expressions and all int operands (products with several roots of the same base excepted)', UT, ['include/tsym/var.h', 'src/var.cpp', 'src/sum.cpp', 'src/product.cpp', 'src/power.cpp', 'src/sumsimpl.cpp', 'src/productsimpl.cpp'],
     [('operators of the value type', 'src/var.cpp')], ['results of all operator forms and their printed form'], 'runtime monitor: agreement of all forms of the same operation', 'The oracle is agreement of two results of the real code, and the neutral and inverse elements. ')
