#pragma once
#include "core.h"

namespace mon {
    struct Agreement {
        int compared = 0, refOk = 0, lost = 0, unreliable = 0, exact = 0, integral = 0;
        bool mismatch = false;
        std::string detail;
    };
    inline std::string envStr(const Env& e, const A& a)
    {
        std::map<std::string, bool> s;
        symbols(a, s);
        std::string r;
        for (auto& [k, p] : s) { char b[64]; auto it = e.find(k); snprintf(b, sizeof b, " %s=%.17g", k.c_str(), it == e.end() ? NAN : it->second); r += b; }
        return r;
    }
    // Compares the value of two expressions at the standard set of points
    inline Agreement agree(const A& expected, const A& got, uint64_t salt, Q tol, const Modes* modes = nullptr, const Modes* gotModes = nullptr, int points = gen::nPoints)
    {
        Agreement g;
        Rng r(salt);
        const A want = lower(expected);
        const bool dbl = hasDouble(want);
        for (uint64_t pt = 1; pt <= 2; ++pt) {
            uint64_t x, y;
            if (!Mod::eval(want, pt, x)) break;
            if (got->k == K::UNDEF || !Mod::eval(got, pt, y)) break;
            ++g.exact; ++g.refOk; ++g.compared;
            if (x != y && !g.mismatch) { g.mismatch = true; g.detail = "the exact values modulo 2^61 - 1 differ"; }
        }
        if (g.exact) return g;
        const bool constant = isConstant(want) && isConstant(got);
        for (int k = 0; k < (constant ? 1 : points); ++k) {
            const Env env = gen::point(r, k);
            const Val x = evaluate(want, env, modes, dbl ? doubleOpErr : 0), y = evaluate(got, env, gotModes, dbl ? doubleOpErr : 0);
            if (x.st == Val::OK) { ++g.refOk; if (y.st == Val::UNDEF) ++g.lost; }
            if (x.st == Val::UNRELIABLE || y.st == Val::UNRELIABLE) ++g.unreliable;
            int c = compare(x, y, tol);
            if (c == 1 && dbl && fabsq(x.v - y.v) <= 20*static_cast<Q>(x.e + y.e)) c = 0;
            if (c != 2) ++g.compared;
            if (c == 1 && !g.mismatch) { g.mismatch = true; g.detail = "expected " + qstr(x.v) + ", got " + qstr(y.v) + " at" + envStr(env, want); }
        }
        // powers of what is negative have a value for symbolic exponents as well, if these become integers
        if (!constant && !dbl && points == gen::nPoints && any(want, [](const Node& n) { return n.k == K::POW && !isConstant(n.ops[1]); }))
            for (int k = 0; k < 4; ++k) {
                const Env env = gen::point(r, gen::exactPoint);
                const Val x = Eval{env, modes, 0, true}.run(want), y = Eval{env, gotModes, 0, true}.run(got);
                const int c = compare(x, y, tol);
                if (c != 2) { ++g.compared; ++g.integral; }
                if (c == 1 && !g.mismatch) { g.mismatch = true; g.detail = "expected " + qstr(x.v) + ", got " + qstr(y.v) + " at" + envStr(env, want); }
            }
        return g;
    }
    inline bool isUndef(const Var& v) { return v.type() == Var::Type::UNDEFINED; }
    inline uint64_t salt(const Case& c) { return gen::hashStr(c.str()); }

    // Floating point numbers in the library are zero if they are tiny, so large numbers aren't combined with them
    inline bool wildDouble(const A& a)
    {
        if (!hasDouble(a)) return false;
        return any(a, [](const Node& n) { return (n.k == K::INT || n.k == K::FRAC) && std::fabs(atof(n.s.c_str())) > 50; })
          || any(a, [](const Node& n) { return n.k == K::POW && n.ops[1]->k == K::INT && std::fabs(atof(n.ops[1]->s.c_str())) > 3; });
    }

    // The shared oracle of all value preserving operations
    inline Verdict sameValue(const A& expected, const Var& result, uint64_t s, const std::string& what)
    {
        const A got = tio::toAst(result);
        if (wildDouble(expected)) return skipped("large numbers along with floating point numbers");
        if (hasDouble(expected) || hasDouble(got)) count("with floating point numbers");
        const Q tol = hasDouble(expected) ? 1e-9Q : 1e-15Q;
        const Agreement g = agree(expected, got, s, tol);
        count("value comparisons", static_cast<uint64_t>(g.compared));
        if (g.exact) count("exact comparisons modulo 2^61 - 1", static_cast<uint64_t>(g.exact));
        if (g.unreliable) count("points judged numerically unreliable", static_cast<uint64_t>(g.unreliable));
        if (g.integral) count("values at points with small dyadic numbers", static_cast<uint64_t>(g.integral));
        if (g.lost) count("points outside the result's real domain", static_cast<uint64_t>(g.lost));
        if (g.mismatch || (g.refOk && g.lost == g.refOk)) {
            // other ranges of atan2, and the known loss of its quadrant
            std::set<std::string> nodes;
            atan2Nodes(lower(expected), nodes);
            if (!nodes.empty() && nodes.size() <= 6) {
                std::vector<std::string> v(nodes.begin(), nodes.end());
                int combos = 1;
                for (size_t i = 0; i < v.size(); ++i) combos *= 3;
                for (int pass = 0; pass < 2; ++pass)
                    for (int c = 1; c < combos; ++c) {
                        Modes m;
                        bool lostQuadrant = false;
                        for (size_t i = 0, k = static_cast<size_t>(c); i < v.size(); ++i, k /= 3) { m[v[i]] = static_cast<int>(k%3); lostQuadrant |= k%3 == QUADRANT_LOST; }
                        if (lostQuadrant != (pass == 1)) continue;
                        const Agreement h = agree(expected, got, s, tol, &m);
                        if (h.mismatch || (h.refOk && h.lost == h.refOk)) continue;
                        if (!lostQuadrant) { count("atan2 in the symmetric range"); return h.compared ? held() : skipped("no comparable point"); }
                        return known("atan2-quadrant", what + " = " + tio::ascii(result) + ": " + g.detail);
                    }
            }
        }
        if (!g.mismatch && g.refOk && g.lost == g.refOk) {
            static const Modes narrow{{"narrow", 1}};
            const Agreement h = agree(expected, got, s, tol, &narrow);
            if (!h.mismatch && !(h.refOk && h.lost == h.refOk)) { count("domain narrowed (log(x^(2n)) = 2n*log(x), sqrt(x/y) = sqrt(x)/sqrt(y))"); return h.compared ? held() : skipped("no comparable point"); }
        }
        if (g.mismatch) return violated(what + " = " + tio::ascii(result) + ": " + g.detail);
        if (isUndef(result) && g.refOk) return violated(what + " is Undefined, although it has a real value");
        if (got->k != K::UNDEF && g.refOk && g.lost == g.refOk) {
            // log(x^(2n)) = 2*n*log(x) narrows the domain; the value then has to be that of 2*n*log(|x|)
            static const Modes logabs{{"logabs", 1}};
            const Agreement h = agree(expected, got, s, tol, nullptr, &logabs);
            if (!h.mismatch && h.compared && h.lost < h.refOk) { count("domain narrowed by log(x^(2n)) = 2n*log(x)"); return held(); }
        }
        if (got->k != K::UNDEF && g.refOk && g.lost == g.refOk) {
            static const Modes rootquot{{"rootquot", 1}};
            const Agreement h = agree(expected, got, s, tol, nullptr, &rootquot);
            if (!h.mismatch && h.compared && h.lost < h.refOk) { count("domain narrowed by (x/y)^n = x^n/y^n"); return held(); }
        }
        if (got->k != K::UNDEF && g.refOk && g.lost == g.refOk) return violated(what + " = " + tio::ascii(result) + " has no real value where the expression has one");
        if (g.compared == 0) return skipped("no comparable point");
        return held();
    }
    inline gen::Profile pickProfile(Rng& r, int n)
    {
        using namespace gen;
        switch (r.below(10)) {
            case 0: return poly(n);
            case 1: return ratfun(n);
            case 2: return surd(n);
            case 3: return surdsym(n);
            case 4: return possym(n);
            case 5: return plainpow(n);
            case 6: return bignum(n);
            case 7: return general(n);
            case 8: return fn(n);
            default: return constant(n);
        }
    }
}
