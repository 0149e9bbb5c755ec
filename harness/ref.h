// Reference model: an expression AST that knows nothing about tsym, its evaluation over the reals in
// two floating point precisions, and its symbolic derivative.
#pragma once
#include <quadmath.h>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace ref {
    enum class K : int {
        INT, FRAC, DBL, SYM, PI, EULER, UNDEF,
        NEG, ADD, SUB, MUL, DIV, POW, SQRT, LOG, SIN, COS, TAN, ASIN, ACOS, ATAN, ATAN2,
        EXPAND, NORMAL, SIMPLIFY, SUBST, DIFF, // reference semantics only; SUBST(e, sym, to), DIFF(e, sym)
        COUNT
    };

    inline const char* kname(K k)
    {
        static const char* n[] = {"int", "frac", "dbl", "sym", "pi", "euler", "undef", "neg", "add", "sub", "mul",
          "div", "pow", "sqrt", "log", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "expand", "normal",
          "simplify", "subst", "diff"};
        return n[static_cast<int>(k)];
    }

    struct Node;
    using A = std::shared_ptr<const Node>;

    struct Node {
        K k;
        std::string s; // INT digits / FRAC numerator / SYM name
        std::string t; // FRAC denominator
        double d = 0;
        bool pos = false; // SYM
        std::vector<A> ops;
    };

    inline A mk(K k, std::vector<A> ops)
    {
        auto n = std::make_shared<Node>();
        n->k = k;
        n->ops = std::move(ops);
        return n;
    }
    inline A mkInt(const std::string& s) { auto n = std::make_shared<Node>(); n->k = K::INT; n->s = s; return n; }
    inline A mkInt(long long v) { return mkInt(std::to_string(v)); }
    inline A mkFrac(const std::string& a, const std::string& b) { auto n = std::make_shared<Node>(); n->k = K::FRAC; n->s = a; n->t = b; return n; }
    inline A mkFrac(long long a, long long b) { return mkFrac(std::to_string(a), std::to_string(b)); }
    inline A mkDbl(double d) { auto n = std::make_shared<Node>(); n->k = K::DBL; n->d = d; return n; }
    inline A mkSym(const std::string& s, bool pos) { auto n = std::make_shared<Node>(); n->k = K::SYM; n->s = s; n->pos = pos; return n; }
    inline A mkPi() { return mk(K::PI, {}); }
    inline A mkE() { return mk(K::EULER, {}); }
    inline A mkUndef() { return mk(K::UNDEF, {}); }
    inline A add(A a, A b) { return mk(K::ADD, {a, b}); }
    inline A sub(A a, A b) { return mk(K::SUB, {a, b}); }
    inline A mul(A a, A b) { return mk(K::MUL, {a, b}); }
    inline A div(A a, A b) { return mk(K::DIV, {a, b}); }
    inline A pow(A a, A b) { return mk(K::POW, {a, b}); }
    inline A neg(A a) { return mk(K::NEG, {a}); }

    inline std::string hexDouble(double d) { char b[64]; snprintf(b, sizeof b, "%a", d); return b; }

    // -- serialisation: s-expressions -------------------------------------------------------------
    inline void ser(const A& a, std::string& out)
    {
        switch (a->k) {
            case K::INT: out += a->s; return;
            case K::FRAC: out += "(frac " + a->s + " " + a->t + ")"; return;
            case K::DBL: out += "(dbl " + hexDouble(a->d) + ")"; return;
            case K::SYM: out += a->pos ? "+" + a->s : a->s; return;
            default: break;
        }
        out += "(";
        out += kname(a->k);
        for (auto& o : a->ops) { out += " "; ser(o, out); }
        out += ")";
    }
    inline std::string str(const A& a) { std::string s; ser(a, s); return s; }

    struct Reader {
        const std::string& s;
        size_t p = 0;
        void ws() { while (p < s.size() && s[p] == ' ') ++p; }
        std::string tok()
        {
            ws();
            std::string r;
            while (p < s.size() && s[p] != ' ' && s[p] != ')' && s[p] != '(') r += s[p++];
            if (r.empty()) throw std::runtime_error("bad s-expression: " + s);
            return r;
        }
        A read()
        {
            ws();
            if (p < s.size() && s[p] == '(') {
                ++p;
                const std::string h = tok();
                A r;
                if (h == "frac") { auto a = tok(); auto b = tok(); r = mkFrac(a, b); }
                else if (h == "dbl") r = mkDbl(strtod(tok().c_str(), nullptr));
                else {
                    int k = -1;
                    for (int i = 0; i < static_cast<int>(K::COUNT); ++i) if (h == kname(static_cast<K>(i))) k = i;
                    if (k < 0) throw std::runtime_error("bad operator " + h);
                    std::vector<A> ops;
                    ws();
                    while (p < s.size() && s[p] != ')') { ops.push_back(read()); ws(); }
                    r = mk(static_cast<K>(k), ops);
                }
                ws();
                if (p >= s.size() || s[p] != ')') throw std::runtime_error("missing )");
                ++p;
                return r;
            }
            std::string t = tok();
            if (isdigit(static_cast<unsigned char>(t[0])) || (t[0] == '-' && t.size() > 1)) return mkInt(t);
            if (t[0] == '+') return mkSym(t.substr(1), true);
            return mkSym(t, false);
        }
    };
    inline A parseA(const std::string& s) { Reader r{s}; return r.read(); }

    inline size_t size(const A& a) { size_t n = 1; for (auto& o : a->ops) n += size(o); return n; }
    inline size_t depth(const A& a) { size_t n = 0; for (auto& o : a->ops) n = std::max(n, depth(o)); return n + 1; }
    inline bool any(const A& a, const std::function<bool(const Node&)>& f)
    {
        if (f(*a)) return true;
        for (auto& o : a->ops) if (any(o, f)) return true;
        return false;
    }
    inline bool hasDouble(const A& a) { return any(a, [](const Node& n) { return n.k == K::DBL; }); }
    inline bool isConstant(const A& a) { return !any(a, [](const Node& n) { return n.k == K::SYM; }); }
    inline void symbols(const A& a, std::map<std::string, bool>& out)
    {
        if (a->k == K::SYM) out[(a->pos ? "+" : "") + a->s] = a->pos;
        for (auto& o : a->ops) symbols(o, out);
    }
    inline void kinds(const A& a, std::set<int>& out) { out.insert(static_cast<int>(a->k)); for (auto& o : a->ops) kinds(o, out); }

    // -- symbolic derivative and substitution (by a symbol) on the AST ------------------------------
    inline bool isSym(const A& a, const A& s) { return a->k == K::SYM && a->s == s->s && a->pos == s->pos; }
    inline bool dependsOn(const A& a, const A& s) { return any(a, [&](const Node& n) { return n.k == K::SYM && n.s == s->s && n.pos == s->pos; }); }

    A lower(const A& a); // removes EXPAND.. DIFF nodes

    inline A D(const A& a, const A& s)
    {
        if (!dependsOn(a, s)) return mkInt(0);
        auto& o = a->ops;
        auto one = mkInt(1), two = mkInt(2);
        switch (a->k) {
            case K::SYM: return one;
            case K::NEG: return neg(D(o[0], s));
            case K::ADD: return add(D(o[0], s), D(o[1], s));
            case K::SUB: return sub(D(o[0], s), D(o[1], s));
            case K::MUL: return add(mul(D(o[0], s), o[1]), mul(o[0], D(o[1], s)));
            case K::DIV: return sub(div(D(o[0], s), o[1]), div(mul(o[0], D(o[1], s)), mul(o[1], o[1])));
            case K::POW:
                if (!dependsOn(o[1], s)) return mul(mul(o[1], pow(o[0], sub(o[1], one))), D(o[0], s));
                if (!dependsOn(o[0], s)) return mul(mul(a, mk(K::LOG, {o[0]})), D(o[1], s));
                return mul(a, add(mul(D(o[1], s), mk(K::LOG, {o[0]})), div(mul(o[1], D(o[0], s)), o[0])));
            case K::SQRT: return div(D(o[0], s), mul(two, a));
            case K::LOG: return div(D(o[0], s), o[0]);
            case K::SIN: return mul(mk(K::COS, o), D(o[0], s));
            case K::COS: return neg(mul(mk(K::SIN, o), D(o[0], s)));
            case K::TAN: return div(D(o[0], s), pow(mk(K::COS, o), two));
            case K::ASIN: return div(D(o[0], s), mk(K::SQRT, {sub(one, pow(o[0], two))}));
            case K::ACOS: return neg(div(D(o[0], s), mk(K::SQRT, {sub(one, pow(o[0], two))})));
            case K::ATAN: return div(D(o[0], s), add(one, pow(o[0], two)));
            case K::ATAN2: // y, x
                return div(sub(mul(o[1], D(o[0], s)), mul(o[0], D(o[1], s))), add(pow(o[0], two), pow(o[1], two)));
            default: return D(lower(a), s);
        }
    }
    inline A substSym(const A& a, const A& s, const A& to)
    {
        if (isSym(a, s)) return to;
        if (a->ops.empty()) return a;
        auto n = std::make_shared<Node>(*a);
        for (auto& o : n->ops) o = substSym(o, s, to);
        return n;
    }
    inline A lower(const A& a)
    {
        if (a->ops.empty()) return a;
        switch (a->k) {
            case K::EXPAND: case K::NORMAL: case K::SIMPLIFY: return lower(a->ops[0]);
            case K::SUBST: return substSym(lower(a->ops[0]), a->ops[1], lower(a->ops[2]));
            case K::DIFF: return D(lower(a->ops[0]), a->ops[1]);
            default: {
                auto n = std::make_shared<Node>(*a);
                for (auto& o : n->ops) o = lower(o);
                return n;
            }
        }
    }

    // -- evaluation: ball arithmetic with 113 bit midpoints -------------------------------------------
    using Q = __float128;
    using L = long double;
    using Env = std::map<std::string, double>;

    // The library is inconsistent in the range of atan2: resolvable constants are mapped to [0, 2*pi), others
    // to (-pi, pi]. Both are the same angle. A third mode models a known finding, where the quadrant is lost
    // (see known_findings.json). The mode per atan2 node is given by its serialisation.
    enum Atan2Mode { FULL_CIRCLE, SYMMETRIC, QUADRANT_LOST };
    using Modes = std::map<std::string, int>;

    struct Val {
        enum St { OK, UNDEF, UNRELIABLE } st = UNDEF;
        Q v = 0;
        L e = 0; // the exact value is in [v - e, v + e]
    };
    inline L abs_(Q x) { return fabsl(static_cast<L>(x)); }

    struct Eval {
        const Env& env;
        const Modes* modes = nullptr;
        L opErr = 0; // additional error of every operation, relative to max(1, |v|)
        bool dyadic = false; // keeps track of sums and products that are exact (for points with small dyadic coordinates)
        static bool small(const Val& x) { return x.e == 0 && abs_(x.v) < 1e8L && rintq(x.v*4096) == x.v*4096; }
        static constexpr L ulp = 1e-33L;

        static Val undef() { return {Val::UNDEF, 0, 0}; }
        static Val unsure() { return {Val::UNRELIABLE, 0, 0}; }
        Val ok(Q v, L e) const
        {
            const L m = abs_(v);
            if (!std::isfinite(m) || !std::isfinite(e) || m > 1e300L) return unsure();
            e = e*1.0001L + m*ulp;
            if (opErr > 0) e += opErr*std::max<L>(1, m);
            if (e > 1e-3L*std::max<L>(1, m)) return unsure();
            return {Val::OK, v, e};
        }
        Val exact(Q v) const { return {Val::OK, v, 0}; }
        static bool mayBeZero(const Val& x) { return abs_(x.v) <= x.e; }
        // Exactly zero. Rounding noise around zero is not, as nothing can be concluded from it
        static bool isNil(const Val& x) { return x.v == 0 && x.e == 0; }

        Val run(const A& a) const
        {
            switch (a->k) {
                case K::INT: return number(strtoflt128(a->s.c_str(), nullptr), a->s.size());
                case K::FRAC: { if (const Val q{Val::OK, strtoflt128(a->s.c_str(), nullptr)/strtoflt128(a->t.c_str(), nullptr), 0}; dyadic && small(q)) return q; Val r = ok(strtoflt128(a->s.c_str(), nullptr)/strtoflt128(a->t.c_str(), nullptr), 0); r.e *= 3; return r; }
                case K::DBL: return opErr > 0 ? ok(a->d, 1e-15L*fabsl(a->d)) : exact(a->d);
                case K::SYM: {
                    auto it = env.find((a->pos ? "+" : "") + a->s);
                    if (it != env.end()) return exact(it->second);
                    // any other name: a value that depends on the name and the point
                    auto any = env.begin();
                    uint64_t h = 1469598103934665603ULL;
                    for (unsigned char c : a->s) h = (h ^ c)*1099511628211ULL;
                    if (any != env.end()) { uint64_t b; memcpy(&b, &any->second, 8); h = (h ^ (b >> 20))*0x9E3779B97F4A7C15ULL; }
                    h ^= h >> 29;
                    return exact(0.3 + static_cast<double>(h%100003)/100003*2.4);
                }
                case K::PI: return ok(M_PIq, 0);
                case K::EULER: return ok(M_Eq, 0);
                case K::UNDEF: return undef();
                case K::EXPAND: case K::NORMAL: case K::SIMPLIFY: case K::SUBST: case K::DIFF: return run(lower(a));
                default: break;
            }
            std::vector<Val> o;
            o.reserve(a->ops.size());
            bool bad = false;
            if (modes && modes->count("narrow") && (a->k == K::SQRT || a->k == K::POW)) {
                const Val n = a->k == K::SQRT ? ok(0.5Q, 0) : run(a->ops[1]);
                if (n.st == Val::OK && (n.v != rintq(n.v) || n.e > 0) && negativePart(a->ops[0])) return unsure();
            }
            // a quotient of roots x^n/y^n with negative x and y stands for (x/y)^n
            std::vector<Val> paired(a->ops.size(), unsure());
            if (modes && modes->count("rootquot") && a->k == K::MUL) {
                int n = 0;
                for (size_t i = 0; i < a->ops.size(); ++i) {
                    if (a->ops[i]->k != K::POW) continue;
                    const Val b = run(a->ops[i]->ops[0]), e = run(a->ops[i]->ops[1]);
                    if (b.st != Val::OK || e.st != Val::OK || b.v >= 0 || abs_(b.v) <= 4*b.e || abs_(e.v - rintq(e.v)) <= e.e) continue;
                    paired[i] = power({Val::OK, -b.v, b.e}, e);
                    ++n;
                }
                if (n < 2 || n%2) paired.assign(a->ops.size(), unsure());
            }
            for (size_t i = 0; i < a->ops.size(); ++i) {
                const A& x = a->ops[i];
                o.push_back(paired[i].st == Val::OK ? paired[i] : run(x));
                if (o.back().st == Val::UNDEF) return undef();
                bad |= o.back().st == Val::UNRELIABLE;
            }
            if (bad) return unsure();
            const Val r = apply(a, o);
            // The library resolves functions by comparing double precision numbers with a tolerance
            if (static_cast<int>(a->k) >= static_cast<int>(K::LOG) && r.st == Val::OK && (abs_(o[0].v) > 1e7L || abs_(o.back().v) > 1e7L)) return unsure();
            if (static_cast<int>(a->k) >= static_cast<int>(K::LOG) && r.st == Val::OK)
                for (const Val* x : {&r, static_cast<const Val*>(&o[0]), static_cast<const Val*>(&o.back())})
                    for (L special : {0.0L, 1.0L})
                        if (const L d = fabsl(abs_(x->v) - special); d < 1e-8L && d > x->e + (special > 0 ? ulp : 0)) return unsure();
            return r;
        }
        Val number(Q v, size_t digits) const { return digits <= 33 ? exact(v) : ok(v, 0); }

        Val apply(const A& a, const std::vector<Val>& o) const
        {
            switch (a->k) {
                case K::NEG: return {Val::OK, -o[0].v, o[0].e};
                case K::ADD: {
                    Q s = 0;
                    L e = 0;
                    if (dyadic && std::all_of(o.begin(), o.end(), small)) { for (auto& x : o) s += x.v; return exact(s); }
                    for (auto& x : o) { s += x.v; e += x.e + ulp*(abs_(x.v) + abs_(s)); }
                    return ok(s, e);
                }
                case K::SUB: return ok(o[0].v - o[1].v, o[0].e + o[1].e + ulp*(abs_(o[0].v) + abs_(o[1].v)));
                case K::MUL: { Val r = o[0]; for (size_t i = 1; i < o.size() && r.st == Val::OK; ++i) r = mul(r, o[i]); return r; }
                case K::DIV: { Val i = inv(o[1]); return i.st == Val::OK ? mul(o[0], i) : i; }
                case K::POW: return power(o[0], o[1]);
                case K::SQRT: return root(o[0]);
                case K::LOG: {
                    Q x = o[0].v;
                    if (modes && modes->count("narrow") && negativePart(a->ops[0])) return unsure();
                    if (x < 0 && modes && modes->count("logabs")) x = -x;
                    if (isNil(o[0])) return undef();
                    if (abs_(x) <= 2*o[0].e) return unsure();
                    return x < 0 ? undef() : ok(logq(x), 2*o[0].e/abs_(x));
                }
                case K::SIN: return farOut(o[0]) ? unsure() : ok(sinq(o[0].v), o[0].e + ulp);
                case K::COS: return farOut(o[0]) ? unsure() : ok(cosq(o[0].v), o[0].e + ulp);
                case K::TAN: {
                    if (farOut(o[0])) return unsure();
                    const L c = abs_(cosq(o[0].v));
                    if (c <= o[0].e + ulp) return unsure();
                    if (c <= 4*o[0].e) return unsure();
                    return ok(tanq(o[0].v), 4*(o[0].e + ulp)/(c*c));
                }
                case K::ASIN: return inverse(o[0], asinq);
                case K::ACOS: return inverse(o[0], acosq);
                case K::ATAN: return ok(atanq(o[0].v), o[0].e);
                case K::ATAN2: return atan2Value(o[0], o[1], a);
                default: return unsure();
            }
        }
        // The library decides signs by means of double precision, which is meaningless for huge angles
        static bool farOut(const Val& x) { return x.e > 0.01L || abs_(x.v) > 1e5L; }
        // log(b^(2n)) = 2n*log(b) is real for positive b only; same for sqrt(a/b) = sqrt(a)/sqrt(b)
        bool negativePart(const A& a) const
        {
            if (a->ops.empty()) { const Val v = run(a); return a->k == K::SYM && v.v < 0; }
            if (const Val v = run(a); v.st != Val::OK || v.v <= 0) return true;
            for (auto& o : a->ops) if (negativePart(o)) return true;
            return false;
        }
        Val mul(const Val& x, const Val& y) const { if (dyadic && small(x) && small(y)) return exact(x.v*y.v); return ok(x.v*y.v, abs_(x.v)*y.e + abs_(y.v)*x.e + x.e*y.e + 1e-4900L); }
        Val inv(const Val& x) const
        {
            if (isNil(x)) return undef();
            if (abs_(x.v) <= 2*x.e) return unsure();
            return ok(1/x.v, 2*x.e/(abs_(x.v)*abs_(x.v)));
        }
        Val root(const Val& x) const
        {
            if (mayBeZero(x)) return ok(0, sqrtl(2*x.e));
            if (x.v < 0) return undef();
            return ok(sqrtq(x.v), x.e/sqrtl(abs_(x.v)));
        }
        Val inverse(const Val& x, Q (*f)(Q)) const
        {
            if (abs_(x.v) > 1 + x.e) return undef();
            if (x.e > 0 && fabsl(abs_(x.v) - 1) <= x.e) return unsure(); // the library's rounding may leave the domain
            auto at = [&](Q y) { return f(y > 1 ? 1 : y < -1 ? -1 : y); };
            const Q c = at(x.v);
            return ok(c, std::max(abs_(at(x.v + static_cast<Q>(x.e)) - c), abs_(at(x.v - static_cast<Q>(x.e)) - c)));
        }
        Val power(const Val& x, const Val& y) const
        {
            const Q n = rintq(y.v);
            const bool integer = abs_(y.v - n) <= y.e;
            if (integer && y.e > 0 && (!isNil({Val::OK, y.v - n, y.e}) || x.e > 0)) { if (x.v <= 0 || mayBeZero(x)) return unsure(); }
            if (isNil(x)) {
                if (y.v - static_cast<Q>(y.e) <= 0) return undef();
                return ok(0, powl(2*x.e, static_cast<L>(y.v)));
            }
            if (abs_(x.v) <= 2*x.e) return unsure();
            if (x.v < 0 && !integer) return undef();
            if (dyadic && small(x) && y.e == 0 && integer && n >= 1 && n <= 6) { Q p = 1; for (int k = 0; k < static_cast<int>(n); ++k) p *= x.v; return exact(p); }
            const Q p = powq(x.v < 0 ? -x.v : x.v, integer && y.e < 1e-28L ? n : y.v);
            const bool odd = x.v < 0 && fabsq(fmodq(n, 2)) == 1;
            const L lx = fabsl(logl(abs_(x.v)));
            const L rel = 2*x.e/abs_(x.v)*abs_(y.v) + y.e*lx + ulp*(2 + lx*abs_(y.v));
            if (rel > 0.1L) return unsure();
            return ok(odd ? -p : p, abs_(p)*rel*1.2L);
        }
        bool doesNotVary(const A& a, const Val& x, const Val& y) const
        {
            if (isConstant(a)) return true;
            Env other;
            for (auto& [k, v] : env) other[k] = 0.93*v;
            const Eval ev{other, modes, opErr};
            const Val y2 = ev.run(a->ops[0]), x2 = ev.run(a->ops[1]);
            auto same = [](const Val& p, const Val& q) { return q.st != Val::OK || abs_(p.v - q.v) <= 2*(p.e + q.e) + 1e-25L; };
            return same(x, x2) && same(y, y2);
        }
        Val atan2Value(Val y, Val x, const A& a) const
        {
            if (isNil(x) && isNil(y)) return undef();
            if (isNil(x)) x.v = 0; else if (mayBeZero(x)) return unsure();
            if (isNil(y)) y.v = 0; else if (mayBeZero(y)) return unsure();
            int mode = FULL_CIRCLE;
            if (modes) if (auto it = modes->find(str(a)); it != modes->end()) mode = it->second;
            const L m = abs_(x.v)*abs_(x.v) + abs_(y.v)*abs_(y.v), e = 2*(abs_(x.v)*y.e + abs_(y.v)*x.e)/m;
            if (mode == QUADRANT_LOST && x.v < 0 && doesNotVary(a, x, y)) return ok(atanq(y.v/x.v), e);
            Q r = atan2q(y.v, x.v);
            if (r < 0 && mode == FULL_CIRCLE) r += 2*M_PIq;
            return ok(r, e);
        }
    };

    inline void atan2Nodes(const A& a, std::set<std::string>& out) { if (a->k == K::ATAN2) out.insert(str(a)); for (auto& o : a->ops) atan2Nodes(o, out); }

    inline Val evaluate(const A& a, const Env& env, const Modes* modes = nullptr, L opErr = 0) { return Eval{env, modes, opErr}.run(a); }
    // Doubles: every operation may be off by 1e-14 (the library rounds doubles to nearby short decimals)
    constexpr L doubleOpErr = 1e-14L;

    // -- exact evaluation of rational functions in the field of integers modulo 2^61 - 1 ----------------
    struct Mod {
        static constexpr uint64_t p = (1ull << 61) - 1;
        using U = unsigned __int128;
        static uint64_t mul(uint64_t a, uint64_t b) { return static_cast<uint64_t>(static_cast<U>(a)*b%p); }
        static uint64_t add(uint64_t a, uint64_t b) { const uint64_t s = a + b; return s >= p ? s - p : s; }
        static uint64_t neg(uint64_t a) { return a ? p - a : 0; }
        static uint64_t pow(uint64_t b, uint64_t e) { uint64_t r = 1; for (; e; e >>= 1, b = mul(b, b)) if (e & 1) r = mul(r, b); return r; }
        static uint64_t inv(uint64_t a) { return pow(a, p - 2); }
        static uint64_t fromStr(const std::string& s)
        {
            uint64_t r = 0;
            for (char c : s) if (c != '-') r = add(mul(r, 10), static_cast<uint64_t>(c - '0'));
            return s[0] == '-' ? neg(r) : r;
        }
        // The value of a symbol at a point; symbols and points are independent
        static uint64_t symbol(const std::string& key, uint64_t point)
        {
            uint64_t h = 1469598103934665603ULL ^ (point*0x9E3779B97F4A7C15ULL);
            for (unsigned char c : key) h = (h ^ c)*1099511628211ULL;
            h ^= h >> 31; h *= 0xBF58476D1CE4E5B9ULL; h ^= h >> 27; h *= 0x94D049BB133111EBULL; h ^= h >> 31;
            return h%p;
        }
        // false: not a rational function, or a division by zero
        static bool eval(const A& a, uint64_t point, uint64_t& r)
        {
            uint64_t x, y;
            switch (a->k) {
                case K::INT: r = fromStr(a->s); return true;
                case K::FRAC: y = fromStr(a->t); if (!y) return false; r = mul(fromStr(a->s), inv(y)); return true;
                case K::SYM: r = symbol((a->pos ? "+" : "") + a->s, point); return true;
                case K::NEG: if (!eval(a->ops[0], point, x)) return false; r = neg(x); return true;
                case K::ADD: r = 0; for (auto& o : a->ops) { if (!eval(o, point, x)) return false; r = add(r, x); } return true;
                case K::MUL: r = 1; for (auto& o : a->ops) { if (!eval(o, point, x)) return false; r = mul(r, x); } return true;
                case K::SUB: if (!eval(a->ops[0], point, x) || !eval(a->ops[1], point, y)) return false; r = add(x, neg(y)); return true;
                case K::DIV: if (!eval(a->ops[0], point, x) || !eval(a->ops[1], point, y) || !y) return false; r = mul(x, inv(y)); return true;
                case K::POW: {
                    const A& e = a->ops[1];
                    std::string n;
                    if (e->k == K::INT) n = e->s;
                    else if (e->k == K::FRAC && (e->t == "1" || std::atoll(e->s.c_str())%std::atoll(e->t.c_str()) == 0)) n = std::to_string(std::atoll(e->s.c_str())/std::atoll(e->t.c_str()));
                    else return false;
                    if (n.size() > 9 || !eval(a->ops[0], point, x)) return false;
                    const long long k = std::atoll(n.c_str());
                    if (x == 0 && k <= 0) return false;
                    r = pow(k < 0 ? inv(x) : x, static_cast<uint64_t>(k < 0 ? -k : k));
                    return true;
                }
                default: return false;
            }
        }
    };
    inline std::string qstr(Q v) { char b[64]; quadmath_snprintf(b, sizeof b, "%.25Qg", v); return b; }

    // 0 equal, 1 different, 2 cannot be judged
    inline int compare(const Val& a, const Val& b, Q rel)
    {
        if (a.st != Val::OK || b.st != Val::OK) return 2;
        const Q m = fabsq(a.v) > fabsq(b.v) ? fabsq(a.v) : fabsq(b.v);
        const L e = a.e + b.e;
        if (e > 1e-6L*abs_(m) && e > 1e-12L) return 2; // too wide to mean anything
        return fabsq(a.v - b.v) <= rel*m + 2*static_cast<Q>(e) ? 0 : 1;
    }
}
