// Seeded generator of reference expressions. All randomness comes from splitmix64 streams keyed by
// (seed, property, case index), so that a case is reproducible from those three values.
#pragma once
#include "ref.h"

namespace gen {
    using namespace ref;

    struct Rng {
        uint64_t s;
        explicit Rng(uint64_t seed) : s(seed) {}
        uint64_t next()
        {
            s += 0x9E3779B97F4A7C15ULL;
            uint64_t z = s;
            z = (z ^ (z >> 30))*0xBF58476D1CE4E5B9ULL;
            z = (z ^ (z >> 27))*0x94D049BB133111EBULL;
            return z ^ (z >> 31);
        }
        uint64_t below(uint64_t n) { return n ? next()%n : 0; }
        int range(int a, int b) { return a + static_cast<int>(below(static_cast<uint64_t>(b - a + 1))); }
        bool chance(int percent) { return below(100) < static_cast<uint64_t>(percent); }
        double unit() { return static_cast<double>(next() >> 11)*0x1p-53; }
        double uni(double a, double b) { return a + (b - a)*unit(); }
        template <class C> auto pick(const C& c) { return c[below(c.size())]; }
    };

    inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b*0xD1342543DE82EF95ULL + 0x632BE59BD9B4E019ULL)); r.next(); return r.next(); }
    inline uint64_t hashStr(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) h = (h ^ c)*1099511628211ULL; return h; }

    struct Profile {
        const char* name;
        int size;          // approximate number of inner nodes
        int nPlain, nPos;  // number of plain and of positive symbols
        bool fns, fracExp, symExp, consts, doubles, big, division, roots;
        bool atan2 = false;
        bool twins = false; // positive symbols with the names of plain ones
    };

    inline const std::vector<std::string>& plainNames() { static const std::vector<std::string> v{"a", "b", "c", "x_1", "alpha", "Zz"}; return v; }
    inline const std::vector<std::string>& posNames() { static const std::vector<std::string> v{"p", "q", "r_2"}; return v; }

    struct Gen {
        Rng& rng;
        Profile pf;
        std::vector<A> pool; // sub-expressions that may be repeated, to provoke like terms and cancellation
        std::vector<A> syms;

        Gen(Rng& r, const Profile& p) : rng(r), pf(p)
        {
            const size_t off = rng.below(plainNames().size());
            for (int i = 0; i < p.nPlain; ++i) syms.push_back(mkSym(plainNames()[(off + static_cast<size_t>(i))%plainNames().size()], false));
            const size_t off2 = rng.below(posNames().size());
            for (int i = 0; i < p.nPos; ++i) {
                if (p.twins && i < p.nPlain) syms.push_back(mkSym(syms[static_cast<size_t>(i)]->s, true));
                else syms.push_back(mkSym(posNames()[(off2 + static_cast<size_t>(i))%posNames().size()], true));
            }
        }

        A smallInt(int lo, int hi) { return mkInt(static_cast<long long>(rng.range(lo, hi))); }

        A integer()
        {
            if (pf.big && rng.chance(20)) {
                std::string s(static_cast<size_t>(rng.range(10, 45)), '0');
                for (auto& c : s) c = static_cast<char>('0' + rng.below(10));
                if (s[0] == '0') s[0] = '3';
                return mkInt((rng.chance(30) ? "-" : "") + s);
            }
            static const std::vector<int> favour{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 18, 25, 27, 32, 36, 49, 64, 72, 100, 108, 121, 128, 243, 324, 360, 500, 720, 1000, 1024};
            int v = rng.chance(70) ? rng.range(1, 6) : rng.pick(favour);
            if (rng.chance(2)) v = 0;
            return mkInt(static_cast<long long>(rng.chance(30) ? -v : v));
        }
        A frac()
        {
            static const std::vector<int> den{2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12};
            int d = rng.pick(den);
            return mkFrac(rng.chance(35) ? -rng.range(1, 13) : rng.range(1, 13), d);
        }
        A number()
        {
            if (pf.doubles && rng.chance(30)) return mkDbl(dbl());
            return rng.chance(65) ? integer() : frac();
        }
        double dbl()
        {
            double v = rng.uni(0.4, 3.0);
            if (rng.chance(30)) v = rng.range(4, 30)/8.0; // exactly representable
            return rng.chance(30) ? -v : v;
        }
        A exponent()
        {
            const int c = static_cast<int>(rng.below(100));
            if (pf.symExp && c < 15 && !syms.empty()) return rng.chance(50) ? rng.pick(syms) : mul(smallInt(-3, 3), rng.pick(syms));
            if (pf.fracExp && c < 60) { static const std::vector<int> den{2, 2, 2, 3, 3, 4, 5, 6}; return mkFrac(rng.range(1, 7)*(rng.chance(35) ? -1 : 1), rng.pick(den)); }
            int e = rng.range(1, 4);
            if (rng.chance(10)) e = rng.range(4, 7);
            if (pf.doubles) e = rng.range(1, 2);
            if (pf.division && rng.chance(35)) e = -e;
            if (rng.chance(2)) e = 0;
            return mkInt(static_cast<long long>(e));
        }
        A leaf()
        {
            const int c = static_cast<int>(rng.below(100));
            if (pf.consts && c < 12) return rng.chance(70) ? mkPi() : mkE();
            if (!syms.empty() && c < 72) return rng.pick(syms);
            return number();
        }
        A coefficient()
        {
            A c = number();
            if (pf.roots && rng.chance(50)) c = rng.chance(50) ? mk(K::SQRT, {number()}) : mul(c, ref::pow(smallInt(2, 12), exponent()));
            if (pf.consts && rng.chance(20)) c = mul(c, rng.chance(70) ? mkPi() : mkE());
            if (!syms.empty() && rng.chance(15)) c = mul(c, rng.pick(syms));
            return c;
        }
        A fnArg(int n)
        {
            // often something with a special value
            if (rng.chance(30)) {
                static const std::vector<int> den{1, 2, 3, 4, 5, 6, 8, 10, 12};
                return mul(mkFrac(rng.range(-14, 14), rng.pick(den)), mkPi());
            }
            return tree(n);
        }
        A tree(int n)
        {
            if (n <= 0) {
                if (!pool.empty() && rng.chance(25)) return rng.pick(pool);
                return leaf();
            }
            A r;
            const int left = static_cast<int>(rng.below(static_cast<uint64_t>(n)));
            const int c = static_cast<int>(rng.below(100));
            if (pf.fns && c < 14) {
                static const std::vector<K> f{K::SIN, K::COS, K::TAN, K::ASIN, K::ACOS, K::ATAN, K::LOG, K::LOG, K::SIN, K::COS, K::ATAN2, K::ATAN2};
                const K k = rng.pick(f);
                if (k == K::ATAN2 && !pf.atan2) r = mk(K::ATAN, {fnArg(n - 1)});
                else if (k == K::ATAN2) r = mk(k, {tree(left), tree(n - 1 - left)});
                else r = mk(k, {fnArg(n - 1)});
            } else if (pf.roots && c < 20) r = mk(K::SQRT, {tree(n - 1)});
            else if (c < 26) r = neg(tree(n - 1));
            else if (c < 46 && (!pf.doubles || n <= 2)) r = ref::pow(tree(n - 1), exponent());
            else if (c < 64) r = mul(tree(left), tree(n - 1 - left));
            else if (c < 74 && pf.division) r = div(tree(left), tree(n - 1 - left));
            else if (c < 84) r = sub(tree(left), tree(n - 1 - left));
            else if (c < 88 && n >= 2) { // like terms
                const A t = tree(left);
                r = rng.chance(70) ? add(mul(coefficient(), t), mul(coefficient(), t)) : sub(mul(coefficient(), t), mul(t, coefficient()));
            }
            else r = add(tree(left), tree(n - 1 - left));
            if (pool.size() < 6 || rng.chance(20)) { if (pool.size() >= 6) pool[rng.below(6)] = r; else pool.push_back(r); }
            return r;
        }
        A expr() { return tree(rng.range(1, pf.size)); }
    };

    //                                  name      size pl pos  fns    frac   symE   const  dbl    big    div    roots
    inline Profile poly(int n)   { return {"poly",   n, 3, 0, false, false, false, false, false, false, false, false}; }
    inline Profile ratfun(int n) { return {"ratfun", n, 3, 0, false, false, false, false, false, false, true,  false}; }
    inline Profile surd(int n)   { return {"surd",   n, 0, 0, false, true,  false, false, false, false, true,  true}; }
    inline Profile surdsym(int n){ return {"surdsym",n, 1, 1, false, true,  false, false, false, false, true,  true}; }
    inline Profile possym(int n) { return {"possym", n, 0, 3, false, true,  true,  true,  false, false, true,  true}; }
    inline Profile plainpow(int n){return {"plainpow",n,2, 1, false, true,  true,  true,  false, false, true,  true}; }
    inline Profile constant(int n){return {"const",  n, 0, 0, true,  true,  false, true,  false, false, true,  true}; }
    inline Profile general(int n){ return {"general",n, 2, 1, true,  true,  true,  true,  false, false, true,  true}; }
    inline Profile fn(int n)     { return {"fn",     n, 2, 1, true,  false, false, true,  false, false, true,  false}; }
    inline Profile bignum(int n) { return {"big",    n, 2, 0, false, false, false, false, false, true,  true,  false}; }
    inline Profile dbls(int n)   { return {"dbl",    n, 2, 1, false, false, false, true,  true,  false, true,  false}; }

    constexpr int exactPoint = 100;
    // Evaluation points: all symbols any test expression may contain
    inline Env point(Rng& rng, int kind)
    {
        Env e;
        auto val = [&](bool pos) {
            double v;
            if (kind == exactPoint) { // makes exponents integers, bases negative ones of odd roots and so on
                static const std::vector<double> e{1, 2, 3, 0.5, 1.5, 0.25, 4, 2.5};
                v = rng.pick(e)*(rng.chance(50) ? -1 : 1);
                return pos ? std::fabs(v) : v;
            }
            switch (kind%6) {
                case 0: v = rng.uni(0.3, 2.7); break;
                case 1: v = rng.uni(0.3, 2.7)*(rng.chance(50) ? -1 : 1); break;
                case 2: v = rng.uni(0.03, 0.6)*(rng.chance(50) ? -1 : 1); break;
                case 3: v = rng.uni(1.1, 5.0)*(rng.chance(30) ? -1 : 1); break;
                case 4: v = -rng.uni(0.3, 2.7); break;
                default: v = rng.uni(0.03, 0.95); break;
            }
            return pos ? std::fabs(v) : v;
        };
        for (auto& n : plainNames()) e[n] = val(false);
        for (auto& n : posNames()) e["+" + n] = val(true);
        for (const char* n : {"f1", "f2", "u_{12}", "w"}) e[n] = val(false);
        for (const char* n : {"g1", "g2"}) e[std::string("+") + n] = val(true);
        for (auto& n : plainNames()) e["+" + n] = val(true);
        return e;
    }
    constexpr int nPoints = 6;
}
