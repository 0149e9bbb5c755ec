// An independent recursive descent recognizer of expressions in usual notation. It shares nothing with
// the library. In extended mode, `+name`, `name` (any characters) and `#hex` are a positive symbol, a
// symbol and a floating point number.
#pragma once
#include <optional>
#include "ref.h"

namespace rd {
    using namespace ref;

    class Parser {
      public:
        Parser(const std::string& s, bool extended) : s(s), ext(extended) {}
        std::optional<A> run()
        {
            for (unsigned char c : s) if (c >= 128) return std::nullopt;
            A r = expression();
            ws();
            if (!r || p != s.size()) return std::nullopt;
            return r;
        }
        bool extremeExponent = false; // a decimal number that doesn't fit
        int doubles = 0;
        std::vector<A> powers; // also those of a prefix of a text that isn't well-formed

      private:
        const std::string& s;
        const bool ext;
        size_t p = 0;

        static bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
        static bool digit(char c) { return c >= '0' && c <= '9'; }
        static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
        static bool alnum(char c) { return digit(c) || alpha(c); }
        char at(size_t i) const { return i < s.size() ? s[i] : '\0'; }
        bool have(size_t i) const { return i < s.size(); }
        void ws() { while (p < s.size() && space(s[p])) ++p; }
        bool lit(char c) { ws(); if (have(p) && s[p] == c) { ++p; return true; } return false; }

        A expression()
        {
            lit('+');
            A l = summand();
            while (l) {
                if (lit('+')) { A r = summand(); if (!r) return nullptr; l = add(l, r); }
                else if (lit('-')) { A r = summand(); if (!r) return nullptr; l = sub(l, r); }
                else break;
            }
            return l;
        }
        A summand()
        {
            A l = signedFactor();
            while (l) {
                if (lit('*')) { A r = signedFactor(); if (!r) return nullptr; l = mul(l, r); }
                else if (lit('/')) { A r = signedFactor(); if (!r) return nullptr; l = ref::div(l, r); }
                else break;
            }
            return l;
        }
        A signedFactor()
        {
            if (lit('-')) { A x = factor(); return x ? neg(x) : nullptr; }
            return factor();
        }
        A factor()
        {
            A b = operand();
            const size_t save = p;
            if (b && lit('^')) {
                if (A e = factor()) { powers.push_back(ref::pow(b, e)); return powers.back(); }
                p = save; // what precedes is still evaluated, the caller then fails at the operator
            }
            return b;
        }
        A operand()
        {
            ws();
            if (!have(p)) return nullptr;
            const char c = s[p];
            if (c == '(') {
                ++p;
                A e = expression();
                return e && lit(')') ? e : nullptr;
            }
            if (ext && c == '`') {
                const size_t end = s.find('`', p + 1);
                if (end == std::string::npos) return nullptr;
                const std::string t = s.substr(p + 1, end - p - 1);
                p = end + 1;
                if (t.empty()) return nullptr;
                if (t[0] == '#') return mkDbl(strtod(t.c_str() + 1, nullptr));
                return t[0] == '+' ? mkSym(t.substr(1), true) : mkSym(t, false);
            }
            if (alpha(c)) return word();
            if (digit(c) || c == '.') return number();
            return nullptr;
        }
        A word()
        {
            const size_t start = p;
            size_t q = p;
            while (have(q) && alnum(s[q])) ++q;
            std::string w = s.substr(start, q - start), low = w;
            for (auto& c : low) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c - 'A' + 'a');
            // function call?
            static const std::map<std::string, K> fn{{"sin", K::SIN}, {"cos", K::COS}, {"tan", K::TAN}, {"asin", K::ASIN}, {"acos", K::ACOS}, {"atan", K::ATAN}, {"log", K::LOG}, {"sqrt", K::SQRT}, {"atan2", K::ATAN2}};
            if (auto f = fn.find(low); f != fn.end()) {
                size_t k = q;
                while (have(k) && space(s[k])) ++k;
                if (have(k) && s[k] == '(') {
                    p = k + 1;
                    A x = expression();
                    if (!x) return nullptr;
                    if (f->second == K::ATAN2) {
                        if (!lit(',')) return nullptr;
                        A y = expression();
                        return y && lit(')') ? mk(K::ATAN2, {x, y}) : nullptr;
                    }
                    return lit(')') ? mk(f->second, {x}) : nullptr;
                }
            }
            p = q;
            const bool sub = at(q) == '_';
            if (!sub && low == "pi") return mkPi();
            if (!sub && low == "euler") return mkE();
            if (!sub) return mkSym(w, false);
            std::string subscript;
            if (at(q + 1) == '{') {
                size_t k = q + 2;
                while (have(k) && alnum(s[k])) subscript += s[k++];
                if (subscript.empty() || at(k) != '}') return nullptr;
                p = k + 1;
            } else {
                if (!have(q + 1) || !alnum(s[q + 1])) return nullptr;
                subscript = s[q + 1];
                p = q + 2;
            }
            return mkSym(w + "_" + (subscript.size() == 1 ? subscript : "{" + subscript + "}"), false);
        }
        A number()
        {
            size_t q = p;
            while (have(q) && digit(s[q])) ++q;
            const bool whole = q > p;
            bool dot = false, frac = false;
            if (at(q) == '.') {
                dot = true;
                size_t k = q + 1;
                while (have(k) && digit(s[k])) { ++k; frac = true; }
                if (!whole && !frac) return nullptr;
                q = k;
            }
            bool exponent = false;
            if (at(q) == 'e' || at(q) == 'E') {
                size_t k = q + 1;
                if (at(k) == '+' || at(k) == '-') ++k;
                if (have(k) && digit(s[k])) {
                    exponent = true;
                    while (have(k) && digit(s[k])) ++k;
                    const std::string digits = s.substr(q + 1, k - q - 1);
                    if (std::labs(digits.size() > 6 ? 999999L : atol(digits.c_str())) > 90) extremeExponent = true;
                    q = k;
                }
            }
            const std::string t = s.substr(p, q - p);
            p = q;
            if (!dot && !exponent) {
                size_t k = 0;
                while (k + 1 < t.size() && t[k] == '0') ++k;
                return mkInt(t.substr(k));
            }
            ++doubles;
            if (t.size() > 60) extremeExponent = true;
            return mkDbl(strtod(t.c_str(), nullptr));
        }
    };
}
