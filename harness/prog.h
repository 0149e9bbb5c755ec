// Random histories of library calls ("programs"): a pool of expressions and a sequence of steps, each of
// which calls one or more public functions on members of the pool and may add its result to the pool.
#pragma once
#include <sys/wait.h>
#include <array>
#include "props.h"

namespace mon {
    namespace prog {
        using namespace gen;
        enum Op { ADD, SUB, MUL, DIV, POW, SQRT, NEG, SIN, COS, TAN, ASIN, ACOS, ATAN, ATAN2, LOG, EXPAND, NORMAL, SIMPLIFY, SUBSTSYM, DIFF, REPARSE, GARBAGE, PRINT, INSPECT, SOLVE, INVERT, COMPOUND, CONVERT, CONSTRUCT, DIFFANY, NUMDEN, SUBSTPART, COUNT };
        inline const char* opName(int k)
        {
            static const char* n[] = {"+", "-", "*", "/", "pow", "sqrt", "neg", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "log", "expand", "normal", "simplify", "subst", "diff", "parse(print)", "parse(garbage)", "print", "inspect", "solve", "invert", "compound assignment", "convert", "construct", "diff(any)", "numerator", "subst(part)"};
            return n[k];
        }
        inline long long code(int op, int i, int j, int k) { return op + 64*(i + 64*(j + 64LL*k)); }

        inline Case make(Rng& r, int maxSteps, int exprSize, bool doubles)
        {
            Case c;
            Profile p = pickProfile(r, exprSize);
            if (doubles && r.chance(8)) p = dbls(std::min(exprSize, 3));
            p.atan2 = true;
            p.twins = r.chance(10);
            Gen g(r, p);
            const int n = r.range(2, 4);
            for (int i = 0; i < n; ++i) c.e.push_back(g.tree(r.range(0, exprSize)));
            const int steps = r.range(2, maxSteps);
            for (int i = 0; i < steps; ++i) {
                static const std::vector<int> heavyOps{EXPAND, NORMAL, SIMPLIFY, SUBSTSYM, DIFF, NUMDEN, SOLVE, INVERT, REPARSE};
                const int op = r.chance(45) ? r.pick(heavyOps) : r.range(0, COUNT - 1);
                c.n.push_back(code(op, r.range(0, 63), r.range(0, 63), r.range(0, 63)));
            }
            return c;
        }

        struct NullEngine : tsym::PrintEngine {
            using SV = std::string_view;
            size_t n = 0;
            PrintEngine& symbol(SV a, SV b, SV c) override { n += a.size() + b.size() + c.size(); return *this; }
            PrintEngine& positiveSymbol(SV a, SV b, SV c) override { n += a.size() + b.size() + c.size(); return *this; }
            PrintEngine& functionName(SV a) override { n += a.size(); return *this; }
            PrintEngine& floatingPoint(double) override { return *this; }
            PrintEngine& integer(long long) override { return *this; }
            PrintEngine& integer(SV a) override { for (char x : a) n += static_cast<unsigned char>(x); return *this; }
            PrintEngine& undefined() override { return *this; }
            PrintEngine& plusSign() override { return *this; }
            PrintEngine& minusSign() override { return *this; }
            PrintEngine& unaryMinusSign() override { return *this; }
            PrintEngine& timesSign() override { return *this; }
            PrintEngine& divisionSign() override { return *this; }
            PrintEngine& comma() override { return *this; }
            PrintEngine& openNumerator(bool) override { return *this; }
            PrintEngine& closeNumerator(bool) override { return *this; }
            PrintEngine& openDenominator(bool) override { return *this; }
            PrintEngine& closeDenominator(bool) override { return *this; }
            PrintEngine& openScalarExponent() override { return *this; }
            PrintEngine& closeScalarExponent() override { return *this; }
            PrintEngine& openCompositeExponent() override { return *this; }
            PrintEngine& closeCompositeExponent() override { return *this; }
            PrintEngine& openSquareRoot() override { return *this; }
            PrintEngine& closeSquareRoot() override { return *this; }
            PrintEngine& openParentheses() override { return *this; }
            PrintEngine& closeParentheses() override { return *this; }
        };

        // doubles print with six digits
        inline std::string text(const Var& v) { return tio::ascii(v); }
        inline bool tooLarge(const Var& v, unsigned limit) { return tsym::complexity(v) > limit; }
        inline bool exponentOk(const Var& e)
        {
            switch (e.type()) {
                case Var::Type::INT: { const std::string s = tio::ascii(e); return s.size() < 4 && std::abs(atoi(s.c_str())) <= 5; }
                case Var::Type::FRACTION: { const std::string s = tio::ascii(e); return s.size() < 6; }
                case Var::Type::DOUBLE: return std::fabs(static_cast<double>(e)) < 5;
                default:
                    // constants with a large value
                    try { return std::fabs(static_cast<double>(e)) < 8; } catch (std::domain_error&) { return true; }
            }
        }

        // whether exponents stay moderate if a symbol gets the value v
        inline bool exponentsOkWith(const A& a, const Var& symbol, const Var& v)
        {
            double value;
            try { value = static_cast<double>(v); } catch (std::domain_error&) { return !any(a, [](const Node& n) { return n.k == K::POW && any(n.ops[1], [](const Node& m) { return m.k == K::POW; }); }); }
            const A sym = tio::toAst(symbol);
            return !any(a, [&](const Node& n) {
                if (n.k != K::POW || isConstant(n.ops[1])) return false;
                std::map<std::string, bool> names;
                symbols(n.ops[1], names);
                Env env;
                for (auto& [k, p] : names) env[k] = 1;
                env[(sym->pos ? "+" : "") + sym->s] = value;
                const Val x = evaluate(n.ops[1], env);
                return x.st != Val::OK || fabsq(x.v) > 100;
            });
        }

        // linear systems and normal forms of anything but rational functions may take very long
        inline bool rational(const Var& v)
        {
            return !any(tio::toAst(v), [](const Node& n) { return !(n.k == K::INT || n.k == K::FRAC || n.k == K::SYM || n.k == K::ADD || n.k == K::MUL || (n.k == K::POW && n.ops[1]->k == K::INT)); });
        }
        inline bool tooLargeForNormal(const Var& v) { return tooLarge(v, 50) && tooLarge(v, rational(v) ? 120 : 50); }

        struct Result {
            std::vector<std::string> transcript;
            std::string modified; // an operand that was changed by an operation
            size_t performed = 0;
        };

        // One step; appends to the pool. What the step computed is returned as a text.
        inline std::string step(std::vector<Var>& pool, long long c, bool& did, bool allowDoubles = true)
        {
            const int op = static_cast<int>(c%64);
            const size_t ni = static_cast<size_t>(c/64%64), nj = static_cast<size_t>(c/4096%64), nk = static_cast<size_t>(c/262144%64);
            const size_t i = ni%pool.size(), j = nj%pool.size();
            const Var x = pool[i], y = pool[j];
            did = true;
            auto keep = [&](const Var& r) { std::string t = text(r); if (!isUndef(r) && !tooLarge(r, 400)) { if (pool.size() < 10) pool.push_back(r); else pool[nk%pool.size()] = r; } return t; };
            switch (op) {
                case ADD: return keep(x + y);
                case SUB: return keep(x - y);
                case MUL: return keep(x*y);
                case DIV: return keep(x/y);
                case POW: if (!exponentOk(y) || tooLarge(x, 150)) { did = false; return ""; } return keep(tsym::pow(x, y));
                case SQRT: return keep(tsym::sqrt(x));
                case NEG: return keep(-x);
                case SIN: return keep(tsym::sin(x));
                case COS: return keep(tsym::cos(x));
                case TAN: return keep(tsym::tan(x));
                case ASIN: return keep(tsym::asin(x));
                case ACOS: return keep(tsym::acos(x));
                case ATAN: return keep(tsym::atan(x));
                case ATAN2: return keep(tsym::atan2(x, y));
                case LOG: return keep(tsym::log(x));
                case EXPAND: if (tooLarge(x, 150)) { did = false; return ""; } return keep(tsym::expand(x));
                case NORMAL: if (tooLargeForNormal(x)) { did = false; return ""; } return keep(tsym::normal(x));
                case SIMPLIFY: if (tooLargeForNormal(x)) { did = false; return ""; } return keep(tsym::simplify(x));
                case SUBSTSYM: {
                    const auto s = tsym::collectSymbols(x);
                    if (s.empty() || tooLarge(x, 150)) { did = false; return ""; }
                    static const std::vector<Var> to{Var(0), Var(1), Var(2), Var(-1), Var(1, 2), Var(7)};
                    const bool num = nk%2;
                    if (!num && !exponentOk(y)) { did = false; return ""; }
                    if (!exponentsOkWith(tio::toAst(x), s[nk%s.size()], num ? to[nj%to.size()] : y)) { did = false; return ""; }
                    return keep(tsym::subst(x, s[nk%s.size()], num ? to[nj%to.size()] : y));
                }
                case DIFF: {
                    const auto s = tsym::collectSymbols(x);
                    if (s.empty() || tooLarge(x, 200)) { did = false; return ""; }
                    return keep(tsym::diff(x, s[nk%s.size()]));
                }
                case REPARSE: { const auto p = tsym::parse(text(x)); return p ? keep(*p) : "-"; }
                case GARBAGE: {
                    std::string t = text(x);
                    static const std::vector<std::string> ins{"(", ")", "*", "^", "_{", " ", "atan2(a", "sin(", "1e", ".", "\xc3", std::string(1, '\0'), ",", "-", "+", "/"};
                    t.insert(nj%(t.size() + 1), ins[nk%ins.size()]);
                    if (nk > 40) t.resize(t.size()/2);
                    size_t carets = 0, digits = 0, run = 0;
                    for (char ch : t) { carets += ch == '^'; run = isdigit(static_cast<unsigned char>(ch)) ? run + 1 : 0; digits = std::max(digits, run); }
                    if (carets > 0 && digits > 1) { did = false; return ""; }
                    const auto p = tsym::parse(t);
                    return p ? text(*p) : "-";
                }
                case PRINT: {
                    std::ostringstream o;
                    tsym::PlaintextPrintEngine u(o), a(o, tsym::PlaintextPrintEngine::CharSet::ASCII);
                    NullEngine n;
                    tsym::print(u, x);
                    tsym::print(a, y);
                    tsym::print(n, x);
                    o << x << y << x.type() << y.type();
                    return o.str() + std::to_string(n.n);
                }
                case INSPECT: {
                    std::string t;
                    for (auto& o : tsym::operands(x)) t += text(o) + ";";
                    for (auto& o : tsym::collectSymbols(y)) t += tsym::name(o) + ";";
                    t += std::to_string(tsym::complexity(x)) + (tsym::has(x, y) ? "h" : "-") + (tsym::isPositive(x) ? "p" : "-") + (tsym::isNegative(x) ? "n" : "-") + (x == y ? "e" : "-") + (x != y ? "d" : "-") + tsym::name(x);
                    if ((x == y) && std::hash<Var>()(x) != std::hash<Var>()(y)) t += "hash!";
                    return t;
                }
                case SOLVE: case INVERT: {
                    const size_t n = 1 + nk%3;
                    for (auto& v : pool) if (tooLarge(v, 30)) { did = false; return ""; }
                    std::vector<std::vector<Var>> A(n, std::vector<Var>(n));
                    std::vector<Var> b(n), s(n);
                    for (size_t p = 0; p < n; ++p) { b[p] = pool[(nj + p)%pool.size()]; for (size_t q = 0; q < n; ++q) A[p][q] = (p*q + ni)%3 == 0 ? pool[(ni + p + 2*q)%pool.size()] : Var(static_cast<int>((ni*(p + 1) + nj*(q + 2))%7) - 2); }
                    for (auto& row : A) for (auto& e : row) if (!rational(e)) { did = false; return ""; }
                    for (auto& e : b) if (!rational(e)) { did = false; return ""; }
                    std::string t;
                    const auto algo = nk%2 ? tsym::Algo::Gauss : tsym::Algo::GaussLCPivot;
                    try {
                        if (op == SOLVE) { tsym::solve(A, b, s, n, algo); for (auto& e : s) t += text(e) + ";"; keep(s[0]); }
                        else { t = text(tsym::determinant(A, n, algo)); tsym::invert(A, n, algo); for (auto& row : A) for (auto& e : row) t += ";" + text(e); keep(A[0][n - 1]); }
                    } catch (std::invalid_argument&) { t = "singular"; }
                    return t;
                }
                case COMPOUND: {
                    Var z = x;
                    z += y; z -= x; z *= y; z /= (isUndef(y) ? Var(2) : y);
                    Var w = x;
                    w += w; w *= Var(1, 2);
                    Var q = w;
                    q -= q;
                    q = std::move(w);
                    q = static_cast<const Var&>(q);
                    Var d = z;
                    d /= d;
                    return text(z) + ";" + text(q) + ";" + text(d) + ";" + keep(+z);
                }
                case CONVERT: {
                    std::string t;
                    try { t = std::to_string(static_cast<int>(x)); } catch (std::overflow_error&) { t = "o"; } catch (std::domain_error&) { t = "d"; }
                    try { char b[40]; snprintf(b, sizeof b, "%.9g", static_cast<double>(y)); t += b; } catch (std::domain_error&) { t += "d"; }
                    return t;
                }
                case CONSTRUCT: {
                    static const std::vector<std::string> s{"a", "b_1", "c_{12}", "", "1a", "17", "-4", "a_", "tmp#1", "\xce\xb1", "123456789012345678901234567890", "a b", "a_{", "alpha", "0x10", "007", "pi", "1.5", "a^2", " a "};
                    const Var v(s[nk%s.size()]), w(s[nj%s.size()], Var::Sign::POSITIVE);
                    const Var f(static_cast<int>(ni) - 30, static_cast<int>(nj) - 3), z;
                    return text(v) + text(w) + text(f) + text(z) + keep(v);
                }
                case DIFFANY: if (tooLarge(x, 100)) { did = false; return ""; } return keep(tsym::diff(x, y));
                case NUMDEN: if (nk == 63 ? tooLarge(x, 130) : tooLargeForNormal(x)) { did = false; return ""; } { std::string t = text(tsym::denominator(x)); return t + ";" + keep(tsym::numerator(x)); }
                case SUBSTPART: {
                    Var part = x;
                    for (size_t k = 0; k < 1 + nk%2; ++k) { const auto o = tsym::operands(part); if (o.empty()) break; part = o[nj%o.size()]; }
                    if (tooLarge(x, 150) || !exponentOk(y)) { did = false; return ""; }
                    if (part.type() == Var::Type::INT || part.type() == Var::Type::FRACTION || part.type() == Var::Type::DOUBLE) { did = false; return ""; }
                    return keep(tsym::subst(x, part, y));
                }
                default: did = false; return "";
            }
        }
        // All calls on the initial pool, in the given order; the results in the order of the calls in the case
        inline std::vector<std::string> independent(const Case& c, const std::vector<size_t>& order)
        {
            std::vector<Var> pool;
            for (auto& e : c.e) { Var v = tio::build(e); if (!isUndef(v)) pool.push_back(v); }
            if (pool.empty()) pool.push_back(Var("a"));
            std::vector<std::string> r(c.n.size());
            for (size_t k : order) {
                std::vector<Var> p = pool;
                bool did = false;
                r[k] = std::string(opName(static_cast<int>(c.n[k]%64))) + ": " + step(p, c.n[k], did);
                for (size_t i = pool.size(); i < p.size(); ++i) r[k] += " = " + ref::str(tio::toAst(p[i]));
            }
            return r;
        }
        inline std::vector<size_t> orderOf(const Case& c, int kind)
        {
            std::vector<size_t> o(c.n.size());
            for (size_t i = 0; i < o.size(); ++i) o[i] = i;
            if (kind == 1) std::reverse(o.begin(), o.end());
            if (kind == 2) { Rng r(salt(c)); for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[r.below(i)]); }
            return o;
        }
        // calls of few functions with similar arguments: an expression, the same with a symbol replaced by its twin, one of its parts...
        inline Case makeSimilar(Rng& r, int maxCalls)
        {
            Case c;
            Profile p = pickProfile(r, r.range(1, 4));
            p.atan2 = true;
            p.twins = r.chance(60);
            if (p.nPlain == 0 && p.twins) p.nPlain = 1;
            Gen g(r, p);
            const A e = g.tree(r.range(1, 4));
            c.e.push_back(e);
            std::function<A(const A&, int)> vary = [&](const A& a, int kind) -> A {
                if (a->k == K::SYM && kind == 0 && r.chance(60)) return mkSym(a->s, !a->pos);
                if (a->k == K::SYM && kind == 1 && r.chance(50)) return g.leaf();
                if (a->k == K::INT && kind == 2) return mkInt(r.range(-3, 3));
                if (a->ops.empty()) return a;
                auto n = std::make_shared<Node>(*a);
                for (auto& o : n->ops) if (n->k != K::POW || &o == &n->ops[0]) o = vary(o, kind);
                return n;
            };
            c.e.push_back(vary(e, r.range(0, 2)));
            if (r.chance(50)) c.e.push_back(r.chance(50) ? mul(e, c.e[1]) : r.chance(50) ? add(e, c.e[1]) : neg(e));
            c.e.push_back(r.chance(60) ? g.leaf() : g.tree(1));
            static const std::vector<int> heavy{DIFF, DIFF, SUBSTSYM, SUBSTPART, NORMAL, EXPAND, SIMPLIFY, NUMDEN, DIFFANY, MUL, ADD, DIV, INSPECT, CONVERT};
            std::vector<int> few;
            for (int i = r.range(1, 3); i > 0; --i) { int op = r.chance(70) ? r.pick(heavy) : r.range(0, COUNT - 1); few.push_back(op == CONSTRUCT ? DIFF : op); }
            for (int i = r.range(3, maxCalls); i > 0; --i) c.n.push_back(code(r.pick(few), r.range(0, 3), r.range(0, 3), r.range(0, 63)));
            return c;
        }
        inline Result run(const Case& c, bool watchOperands)
        {
            Result r;
            std::vector<Var> pool;
            for (auto& e : c.e) { Var v = tio::build(e); r.transcript.push_back(text(v)); if (!isUndef(v)) pool.push_back(v); }
            if (pool.empty()) pool.push_back(Var("a"));
            const std::hash<Var> h;
            for (auto n : c.n) {
                std::vector<Var> before;
                std::vector<std::string> texts;
                std::vector<size_t> hashes;
                if (watchOperands) for (auto& v : pool) { before.push_back(v); texts.push_back(text(v)); hashes.push_back(h(v)); }
                bool did = false;
                std::string t = step(pool, n, did);
                if (did) { ++r.performed; r.transcript.push_back(std::string(opName(static_cast<int>(n%64))) + ": " + t); }
                for (size_t k = 0; k < before.size(); ++k)
                    if (text(before[k]) != texts[k] || h(before[k]) != hashes[k]) { r.modified = std::string(opName(static_cast<int>(n%64))) + " turned " + texts[k] + " into " + text(before[k]); return r; }
            }
            return r;
        }
    }
}
