// Bridge between the reference model and tsym; uses tsym's public interface only.
#pragma once
#include <optional>
#include <sstream>
#include "gen.h"
#include "tsym/tsym.h"

namespace tio {
    using tsym::Var;
    using ref::A;
    using ref::K;

    struct Malformed : std::runtime_error { using std::runtime_error::runtime_error; };

    inline std::string ascii(const Var& v)
    {
        std::ostringstream s;
        tsym::PlaintextPrintEngine e(s, tsym::PlaintextPrintEngine::CharSet::ASCII);
        tsym::print(e, v);
        return s.str();
    }
    inline std::string stream(const Var& v) { std::ostringstream s; s << v; return s.str(); }

    inline bool fitsInt(const std::string& s) { if (s.size() > 11) return false; long long v = atoll(s.c_str()); return v >= -2147483648LL && v <= 2147483647LL; }
    inline Var bigInt(const std::string& s)
    {
        if (fitsInt(s)) return Var(static_cast<int>(atoll(s.c_str())));
        return s[0] == '-' ? -Var(s.substr(1)) : Var(s);
    }

    inline Var leafVar(const A& a)
    {
        switch (a->k) {
            case K::INT: return bigInt(a->s);
            case K::FRAC: return fitsInt(a->s) && fitsInt(a->t) ? Var(static_cast<int>(atoll(a->s.c_str())), static_cast<int>(atoll(a->t.c_str()))) : bigInt(a->s)/bigInt(a->t);
            case K::DBL: return Var(a->d);
            case K::SYM: return a->pos ? Var(a->s, Var::Sign::POSITIVE) : Var(a->s);
            case K::PI: return tsym::pi();
            case K::EULER: return tsym::euler();
            case K::UNDEF: return tsym::log(Var(0));
            default: throw std::logic_error("leafVar");
        }
    }
    inline Var applyOp(K k, const std::vector<Var>& o)
    {
        switch (k) {
            case K::NEG: return -o[0];
            case K::ADD: { Var r = o[0]; for (size_t i = 1; i < o.size(); ++i) r += o[i]; return r; }
            case K::SUB: return o[0] - o[1];
            case K::MUL: { Var r = o[0]; for (size_t i = 1; i < o.size(); ++i) r *= o[i]; return r; }
            case K::DIV: return o[0]/o[1];
            case K::POW: return tsym::pow(o[0], o[1]);
            case K::SQRT: return tsym::sqrt(o[0]);
            case K::LOG: return tsym::log(o[0]);
            case K::SIN: return tsym::sin(o[0]);
            case K::COS: return tsym::cos(o[0]);
            case K::TAN: return tsym::tan(o[0]);
            case K::ASIN: return tsym::asin(o[0]);
            case K::ACOS: return tsym::acos(o[0]);
            case K::ATAN: return tsym::atan(o[0]);
            case K::ATAN2: return tsym::atan2(o[0], o[1]);
            case K::EXPAND: return tsym::expand(o[0]);
            case K::NORMAL: return tsym::normal(o[0]);
            case K::SIMPLIFY: return tsym::simplify(o[0]);
            case K::SUBST: return tsym::subst(o[0], o[1], o[2]);
            case K::DIFF: return tsym::diff(o[0], o[1]);
            default: throw std::logic_error("apply");
        }
    }
    inline Var build(const A& a)
    {
        if (a->ops.empty()) return leafVar(a);
        std::vector<Var> o;
        for (auto& x : a->ops) o.push_back(build(x));
        return applyOp(a->k, o);
    }

    // Independent walk over a Var: structure as visible via type(), operands(), name() and printing.
    inline A toAst(const Var& v, int depth = 0)
    {
        if (depth > 400) throw Malformed("nesting too deep");
        const auto ops = tsym::operands(v);
        auto sub = [&](size_t expected) {
            std::vector<A> r;
            if (expected && ops.size() != expected) throw Malformed("unexpected number of operands in " + ascii(v));
            for (auto& o : ops) r.push_back(toAst(o, depth + 1));
            return r;
        };
        switch (v.type()) {
            case Var::Type::INT: {
                const std::string s = ascii(v);
                for (size_t i = 0; i < s.size(); ++i) if (!(isdigit(static_cast<unsigned char>(s[i])) || (i == 0 && s[i] == '-'))) throw Malformed("INT prints as " + s);
                return ref::mkInt(s);
            }
            case Var::Type::FRACTION: {
                const std::string n = ascii(tsym::numerator(v)), d = ascii(tsym::denominator(v));
                return ref::mkFrac(n, d);
            }
            case Var::Type::DOUBLE: return ref::mkDbl(static_cast<double>(v));
            case Var::Type::SYMBOL: return ref::mkSym(tsym::name(v), tsym::isPositive(v));
            case Var::Type::CONSTANT: {
                const std::string n = tsym::name(v);
                if (n == "pi") return ref::mkPi();
                if (n == "e" || n == "euler") return ref::mkE();
                throw Malformed("unknown constant " + n);
            }
            case Var::Type::UNDEFINED: return ref::mkUndef();
            case Var::Type::SUM: { auto s = sub(0); if (s.size() < 2) throw Malformed("sum with less than two operands"); return ref::mk(K::ADD, s); }
            case Var::Type::PRODUCT: { auto s = sub(0); if (s.size() < 2) throw Malformed("product with less than two operands"); return ref::mk(K::MUL, s); }
            case Var::Type::POWER: return ref::mk(K::POW, sub(2));
            case Var::Type::FUNCTION: {
                const std::string n = tsym::name(v);
                static const std::map<std::string, K> m{{"sin", K::SIN}, {"cos", K::COS}, {"tan", K::TAN}, {"asin", K::ASIN}, {"acos", K::ACOS}, {"atan", K::ATAN}, {"atan2", K::ATAN2}, {"log", K::LOG}};
                auto it = m.find(n);
                if (it == m.end()) throw Malformed("unknown function " + n);
                return ref::mk(it->second, sub(it->second == K::ATAN2 ? 2 : 1));
            }
        }
        throw Malformed("unknown type");
    }
}
