// C16 structure, C20 numeric evaluation, C22 construction from texts and numbers, C23 value semantics
#include <unordered_set>
#include "props.h"
#include "rd.h"

namespace mon {
    namespace {
        using namespace gen;
        using T = Var::Type;

        // -- C16 ------------------------------------------------------------------------------------
        bool same(const A& a, const A& b) { return ref::str(a) == ref::str(b); }
        std::string typeName(const Var& v) { std::ostringstream s; s << v.type(); return s.str(); }
        bool isNumber(const Var& v) { return v.type() == T::INT || v.type() == T::FRACTION || v.type() == T::DOUBLE; }
        Var again(const Var& v)
        {
            const auto o = tsym::operands(v);
            switch (v.type()) {
                case T::SUM: return tio::applyOp(K::ADD, o);
                case T::PRODUCT: return tio::applyOp(K::MUL, o);
                case T::POWER: return tsym::pow(o[0], o[1]);
                case T::FUNCTION: return tio::applyOp(tio::toAst(v)->k, o);
                case T::SYMBOL: return tsym::isPositive(v) ? Var(tsym::name(v), Var::Sign::POSITIVE) : Var(tsym::name(v));
                case T::INT: return tio::bigInt(tio::ascii(v));
                case T::FRACTION: return tsym::numerator(v)/tsym::denominator(v);
                case T::DOUBLE: return Var(static_cast<double>(v));
                case T::CONSTANT: return tsym::name(v) == "pi" ? tsym::pi() : tsym::euler();
                default: return v;
            }
        }
        // every node of the expression, checked on its own
        std::string malformed(const Var& v, uint64_t& nodes)
        {
            ++nodes;
            const auto o = tsym::operands(v);
            const std::string t = tio::ascii(v);
            if (v.type() == T::UNDEFINED) return "undefined part";
            const bool named = v.type() == T::SYMBOL || v.type() == T::FUNCTION || v.type() == T::CONSTANT;
            if (named == tsym::name(v).empty()) return "the name of " + t + " is '" + tsym::name(v) + "'";
            static const std::map<T, std::string> names{{T::SUM, "Sum"}, {T::PRODUCT, "Product"}, {T::POWER, "Power"}, {T::SYMBOL, "Symbol"}, {T::CONSTANT, "Constant"}, {T::FUNCTION, "Function"}, {T::INT, "Integer"}, {T::FRACTION, "Fraction"}, {T::DOUBLE, "Double"}, {T::UNDEFINED, "Undefined"}};
            if (typeName(v) != names.at(v.type())) return "the type of " + t + " is printed as " + typeName(v);
            if (o.empty() != (isNumber(v) || v.type() == T::SYMBOL || v.type() == T::CONSTANT)) return t + " has " + std::to_string(o.size()) + " operands";
            if (v.type() == T::FRACTION) {
                const Var n = tsym::numerator(v), d = tsym::denominator(v);
                if (n.type() != T::INT || d.type() != T::INT || !tsym::isPositive(d) || d == Var(1)) return "malformed fraction " + t;
            }
            if (v.type() == T::SUM || v.type() == T::PRODUCT) {
                size_t numbers = 0;
                for (auto& x : o) {
                    if (x.type() == v.type()) return "the operand " + tio::ascii(x) + " of " + t + " has the same type";
                    numbers += isNumber(x);
                    if (isNumber(x) && (x == Var(0) || (v.type() == T::PRODUCT && x == Var(1)))) return "neutral operand in " + t;
                }
                if (numbers > 1) return "more than one number in " + t;
            }
            if (v.type() == T::POWER && (o[0] == Var(1) || o[0] == Var(0) || o[1] == Var(0) || o[1] == Var(1))) return "trivial power " + t;
            if (v.type() == T::POWER && isNumber(o[0]) && o[1].type() == T::INT) return "power of a number " + t;
            for (auto& x : o) {
                if (tsym::complexity(x) >= tsym::complexity(v)) return "the operand " + tio::ascii(x) + " has a complexity of " + std::to_string(tsym::complexity(x)) + ", " + t + " " + std::to_string(tsym::complexity(v));
                if (!tsym::has(v, x)) return t + " doesn't have its operand " + tio::ascii(x);
                const std::string m = malformed(x, nodes);
                if (!m.empty()) return m;
            }
            return "";
        }
        void subtrees(const A& a, std::unordered_set<std::string>& out) { out.insert(ref::str(a)); for (auto& o : a->ops) subtrees(o, out); }

        // Products whose form depends on the order of multiplication: a number times a sum is multiplied out
        // if there is no other factor yet, numeric roots are merged pairwise, and so are roots of what may be negative
        bool ambiguous(const A& a)
        {
            return any(a, [](const Node& n) {
                if (n.k != K::MUL) return false;
                int num = 0, sum = 0, root = 0;
                std::set<std::string> bases;
                bool twice = false;
                for (auto& o : n.ops) {
                    num += o->k == K::INT || o->k == K::FRAC || o->k == K::DBL;
                    sum += o->k == K::ADD;
                    root += o->k == K::POW && (o->ops[0]->k == K::INT || o->ops[0]->k == K::FRAC);
                    twice |= !bases.insert(ref::str(o->k == K::POW ? o->ops[0] : o)).second;
                }
                return ((num + root) && sum) || root > 1 || (root && num) || twice;
            });
        }

        Register c16({"C16", "expressions of all classes, as built, expanded or normalized, with all of their parts: names, types, operands, complexity, has(), collectSymbols(), substitution of what doesn't occur or by itself, and reconstruction from the operands; non-trivial: an expression with three nodes at least",
          [](Rng& r, uint64_t) {
              Case c;
              Profile p = pickProfile(r, r.range(1, 6));
              if (r.chance(8)) p = dbls(4);
              p.atan2 = true;
              p.twins = r.chance(25);
              Gen g(r, p);
              c.e = {g.expr(), g.tree(r.range(0, 2))};
              c.n.push_back(static_cast<long long>(r.below(6)));
              return c;
          },
          [](const Case& c) {
              Var v = tio::build(c.e[0]);
              const Var w = tio::build(c.e[1]);
              if (c.n[0] == 1) v = tsym::expand(v);
              if (c.n[0] == 2 && size(c.e[0]) < 12) v = tsym::normal(v);
              if (isUndef(v) || isUndef(w)) return skipped("undefined");
              const std::string text = tio::ascii(v);
              uint64_t nodes = 0;
              const std::string m = malformed(v, nodes);
              if (!m.empty()) return violated(text + ": " + m);
              count("nodes", nodes);
              const A a = tio::toAst(v);
              const bool amb = ambiguous(a);
              std::unordered_set<std::string> parts;
              subtrees(a, parts);
              std::map<std::string, bool> syms;
              symbols(a, syms);
              std::set<std::string> found;
              for (auto& s : tsym::collectSymbols(v)) {
                  if (s.type() != T::SYMBOL) return violated("collectSymbols(" + text + ") contains " + tio::ascii(s));
                  if (!found.insert((tsym::isPositive(s) ? "+" : "") + tsym::name(s)).second) return violated("collectSymbols(" + text + ") contains " + tio::ascii(s) + " twice");
                  if (!tsym::has(v, s)) return violated(text + " doesn't have its symbol " + tio::ascii(s));
                  if (tsym::subst(v, s, s) != v && !hasDouble(a)) count("rebuilt differently by substitution of a symbol by itself");
              }
              if (found.size() != syms.size()) return violated("collectSymbols(" + text + ") contains " + std::to_string(found.size()) + " instead of " + std::to_string(syms.size()) + " symbols");
              for (auto& s : syms) if (!found.count(s.first)) return violated("collectSymbols(" + text + ") lacks " + s.first);
              if (!hasDouble(a)) {
                  const A b = tio::toAst(w);
                  if (!hasDouble(b)) {
                      const bool has = tsym::has(v, w);
                      if (has != (parts.count(ref::str(b)) > 0)) return violated("has(" + text + ", " + tio::ascii(w) + ") is " + (has ? "true" : "false"));
                      count(has ? "part that occurs" : "part that doesn't occur");
                      if (!has && !amb && tsym::subst(v, w, Var("absent")) != v) return violated("subst(" + text + ", " + tio::ascii(w) + ", absent) = " + tio::ascii(tsym::subst(v, w, Var("absent"))) + ", although the part doesn't occur");
                  }
              }
              if (tsym::has(v, Var("absent"))) return violated(text + " has an absent symbol");
              if (tsym::subst(v, v, w) != w) return violated("subst(" + text + ", itself, " + tio::ascii(w) + ") = " + tio::ascii(tsym::subst(v, v, w)));
              if (!amb && !hasDouble(a)) count("rebuilt from operands");
              if (!amb && !hasDouble(a) && again(v) != v) return violated(text + " of its operands is " + tio::ascii(again(v)));
              if (size(a) >= 3) nontrivial();
              observed(gen::hashStr(text));
              return held();
          },
          400000, 8000000, 400, 2});

        // -- C20 ------------------------------------------------------------------------------------
        Register c20({"C20", "conversion to double of expressions without symbols (numbers, constants, roots and functions of them), as built or after all symbols are substituted by numbers, and of expressions with symbols; non-trivial: the converted value of an expression that isn't a number was compared with the reference value",
          [](Rng& r, uint64_t) {
              Case c;
              const int k = static_cast<int>(r.below(10));
              Profile p = k < 4 ? constant(r.range(1, 7)) : k < 5 ? surd(r.range(1, 7)) : k < 6 ? bignum(r.range(1, 4)) : pickProfile(r, r.range(1, 6));
              if (r.chance(10)) p = dbls(4);
              p.atan2 = r.chance(50);
              Gen g(r, p);
              c.e.push_back(g.expr());
              if (r.chance(15)) { // extreme numbers
                  auto extreme = [&]() -> A {
                      const std::string z = "1" + std::string(static_cast<size_t>(r.range(1, 28)), '0');
                      const A t = r.chance(50) ? mkInt(z) : mkFrac("1", z), u = mul(g.number(), t);
                      return r.chance(40) ? add(g.number(), u) : r.chance(30) ? mk(K::SQRT, {u}) : u;
                  };
                  static const std::vector<K> f{K::SIN, K::COS, K::TAN, K::ASIN, K::ACOS, K::ATAN, K::LOG, K::LOG, K::SQRT};
                  const A x = mk(r.pick(f), {extreme()});
                  c.e[0] = r.chance(50) ? x : r.chance(30) ? mk(K::ATAN2, {extreme(), extreme()}) : r.chance(50) ? add(x, g.tree(1)) : mul(x, extreme());
              }
              for (auto& s : g.syms) { c.e.push_back(s); c.e.push_back(s->pos ? mkFrac(r.range(1, 20), r.range(1, 9)) : mkFrac(r.range(-20, 20), r.range(1, 9))); }
              c.n.push_back(r.chance(85));
              return c;
          },
          [](const Case& c) {
              Var v = tio::build(c.e[0]);
              if (isUndef(v)) return skipped("undefined");
              if (c.n[0]) for (size_t k = 1; k + 1 < c.e.size(); k += 2) v = tsym::subst(v, tio::build(c.e[k]), tio::build(c.e[k + 1]));
              const A a = tio::toAst(v);
              const std::string text = tio::ascii(v);
              double d = 0;
              bool thrown = false;
              try { d = static_cast<double>(v); } catch (const std::domain_error&) { thrown = true; }
              // conversion to int: exact integers only
              bool intThrown = false;
              int i = 0;
              try { i = static_cast<int>(v); } catch (const std::domain_error&) { intThrown = true; } catch (const std::overflow_error&) { intThrown = v.type() != T::INT; if (v.type() != T::INT && !(std::fabs(d) > 2e9)) return violated("conversion of " + text + " to int: overflow"); }
              if (v.type() != T::INT && !intThrown && (thrown || !(std::fabs(i - d) < 1e-6*std::max(1.0, std::fabs(d))))) return violated("conversion of " + text + " to int yields " + std::to_string(i));
              if (v.type() == T::INT && intThrown) return violated("conversion of " + text + " to int fails");
              if (isUndef(v) || !isConstant(a)) {
                  if (!thrown) return violated("conversion of " + text + " to double yields " + std::to_string(d));
                  count("conversions that fail as they have to");
                  return held();
              }
              if (any(a, [](const Node& n) { return n.k == K::ATAN2; })) count("with atan2");
              const Val x = evaluate(a, {}, nullptr, 0), e = evaluate(a, {}, nullptr, doubleOpErr);
              if (x.st != Val::OK || e.st != Val::OK) return skipped("no reliable value");
              if (thrown) return violated("conversion of " + text + " to double fails");
              const Q diff = fabsq(x.v - static_cast<Q>(d)), tol = 20*static_cast<Q>(e.e) + 1e-11Q*fmaxq(1, fabsq(x.v));
              if (!(diff <= tol)) return violated("conversion of " + text + " to double yields " + std::to_string(d) + " instead of " + qstr(x.v));
              count("values compared");
              if (!isNumber(v)) nontrivial();
              return held();
          },
          600000, 12000000, 400, 2});

        // -- C22 ------------------------------------------------------------------------------------
        std::string nameText(Rng& r)
        {
            static const std::string al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", an = al + "0123456789";
            static const std::vector<std::string> special{"pi", "Pi", "euler", "sin", "log", "sqrt", "e", "alpha", "Omega", "tmp", "pi2", "atan2", "E", "eulers", "sinus", "tmp1", "a"};
            std::string s;
            if (r.chance(15)) s = r.pick(special);
            else { s = al[r.below(al.size())]; for (int k = r.range(0, 4); k > 0; --k) s += an[r.below(an.size())]; }
            if (r.chance(45)) {
                std::string t(1, an[r.below(an.size())]);
                if (r.chance(50)) { for (int k = r.range(0, 3); k > 0; --k) t += an[r.below(an.size())]; s += "_{" + t + "}"; } else s += "_" + t;
            }
            return s;
        }
        std::string digits(Rng& r)
        {
            std::string s;
            for (int k = r.chance(70) ? r.range(1, 11) : r.range(11, 60); k > 0; --k) s += static_cast<char>('0' + r.below(10));
            return (r.chance(20) ? "-" : "") + s;
        }
        Register c22({"C22", "random names with and without subscript, integers of up to 60 digits, texts of both kinds after random edits, small expressions, pairs of int and doubles incl. extreme and not finite ones; non-trivial: a symbol, an integer beyond 32 bit, a rejected text or a fraction",
          [](Rng& r, uint64_t) {
              Case c;
              const int k = static_cast<int>(r.below(10));
              std::string s = k < 4 ? nameText(r) : k < 6 ? digits(r) : k < 7 ? nameText(r) + (r.chance(50) ? "+" : "*") + digits(r) : nameText(r);
              if (k >= 7) {
                  static const std::string junk = "_{}^*+-/().,;: \t\n\\$%&!?\"'#@~|<>=0a\xc3\xa4\x80";
                  for (int n = r.range(1, 2); n > 0; --n) { const size_t at = r.below(s.size() + 1); if (r.chance(30) && at < s.size()) s.erase(at, 1); else s.insert(at, 1, junk[r.below(junk.size())]); }
                  if (r.chance(3)) s.clear();
              }
              c.s = {s, r.chance(50) ? nameText(r) : s};
              static const std::vector<int> edge{0, 1, -1, 2, -2, 2147483647, -2147483647, -2147483647 - 1, 65536, -65536, 46341};
              auto num = [&] { return r.chance(40) ? r.pick(edge) : r.chance(50) ? r.range(-20, 20) : static_cast<int>(r.below(4294967296ULL) - 2147483648ULL); };
              c.n = {num(), num()};
              return c;
          },
          [](const Case& c) {
              const std::string s = c.s.size() > 0 ? c.s[0] : "", t = c.s.size() > 1 ? c.s[1] : "";
              auto construct = [](const std::string& x, bool pos) { return pos ? Var(x, Var::Sign::POSITIVE) : Var(x); };
              std::vector<std::string> names;
              for (auto& x : {s, t}) {
                  rd::Parser rp(x, false);
                  const auto want = rp.run();
                  A a = want ? *want : nullptr;
                  if (a && a->k == K::NEG && a->ops[0]->k == K::INT) a = mkInt(a->ops[0]->s == "0" ? "0" : "-" + a->ops[0]->s);
                  const bool composed = a && !a->ops.empty();
                  const Var v = construct(x, false), p = construct(x, true);
                  const auto parsed = tsym::parse(x);
                  std::string q;
                  if (a && a->k == K::SYM) {
                      if (v.type() != T::SYMBOL || tsym::name(v) != a->s || tsym::isPositive(v) || tsym::isNegative(v)) return violated("symbol from '" + x + "' is " + tio::ascii(v) + " with the name " + tsym::name(v));
                      if (p.type() != T::SYMBOL || tsym::name(p) != a->s || !tsym::isPositive(p) || tsym::isNegative(p)) return violated("positive symbol from '" + x + "' is " + tio::ascii(p) + " with the name " + tsym::name(p));
                      if (v == p || !(v != p) || v - p == Var(0)) return violated("the symbol " + x + " and the positive one are equal");
                      if (!(v == construct(x, false)) || !(p == construct(x, true)) || !(*parsed == v)) return violated("symbols of the same name " + x + " differ");
                      if (std::hash<Var>()(v) != std::hash<Var>()(*parsed)) return violated("hashes of the same symbol " + x + " differ");
                      count("symbols");
                      nontrivial();
                      q = a->s;
                  } else if (a && a->k == K::INT) {
                      if (v.type() != T::INT || tio::ascii(v) != a->s) return violated("integer from '" + x + "' is " + tio::ascii(v));
                      if (!(v == p)) return violated("integer from '" + x + "' as positive is " + tio::ascii(p));
                      count("integers");
                      if (a->s.size() > 11) nontrivial();
                  } else if (!want) {
                      if (!isUndef(v) || !isUndef(p)) return violated("the malformed '" + x + "' yields " + tio::ascii(isUndef(v) ? p : v));
                      count("malformed texts");
                      nontrivial();
                  } else if (!composed || (parsed && parsed->type() != T::SYMBOL && parsed->type() != T::INT)) {
                      if (a->k == K::DBL) { count("decimal numbers"); continue; }
                      if (!isUndef(v) || !isUndef(p)) return violated("'" + x + "' is neither a symbol nor an integer, but yields " + tio::ascii(isUndef(v) ? p : v));
                      count("neither symbol nor integer");
                      nontrivial();
                  }
                  names.push_back(q);
              }
              if (names.size() == 2 && !names[0].empty() && !names[1].empty() && (construct(s, false) == construct(t, false)) != (names[0] == names[1])) return violated("symbols from '" + s + "' and '" + t + "': wrong equality");
              // numbers
              const int n = static_cast<int>(c.n[0]), d = static_cast<int>(c.n[1]);
              if (Var() != Var(0) || Var().type() != T::INT) return violated("default constructed expression is " + tio::ascii(Var()));
              const Var vn(n);
              if (vn.type() != T::INT || tio::ascii(vn) != std::to_string(n) || static_cast<int>(vn) != n) return violated("integer from " + std::to_string(n) + " is " + tio::ascii(vn));
              const Var f(n, d);
              const std::string fs = std::to_string(n) + "/" + std::to_string(d);
              if (d == 0) {
                  if (!isUndef(f)) return violated(fs + " is " + tio::ascii(f));
                  count("zero denominators");
                  return held();
              }
              long long p = n, q = d;
              const long long g = std::__gcd(std::llabs(p), std::llabs(q));
              p /= g; q /= g;
              if (q < 0) { p = -p; q = -q; }
              if (f.type() != (q == 1 ? T::INT : T::FRACTION) || tio::ascii(f) != std::to_string(p) + (q == 1 ? "" : "/" + std::to_string(q))) return violated(fs + " is " + tio::ascii(f));
              if (tio::ascii(tsym::numerator(f)) != std::to_string(p) || tio::ascii(tsym::denominator(f)) != std::to_string(q)) return violated("numerator or denominator of " + fs + " is wrong");
              count("fractions");
              nontrivial();
              const double x = static_cast<double>(n)/d;
              if (static_cast<double>(Var(x)) != x) return violated("floating point number " + std::to_string(x) + " is " + tio::ascii(Var(x)));
              return held();
          },
          400000, 8000000, 400, 2});

        // -- C23 ------------------------------------------------------------------------------------
        Register c23({"C23", "pairs of expressions of all classes, with all forms of the arithmetic operators (binary, unary, compound, with the same object on both sides, with plain int and double operands), copies, moves, assignments and neutral elements; non-trivial: none of both expressions is a number",
          [](Rng& r, uint64_t) {
              Case c;
              Profile p = pickProfile(r, r.range(1, 5));
              if (r.chance(8)) p = dbls(3);
              p.atan2 = true;
              Gen g(r, p);
              c.e = {g.expr(), g.tree(r.range(0, 4))};
              c.n = {r.chance(80) ? r.range(-9, 9) : r.range(-100000, 100000)};
              return c;
          },
          [](const Case& c) {
              const Var x = tio::build(c.e[0]), y = tio::build(c.e[1]);
              if (isUndef(x) || isUndef(y)) return skipped("undefined");
              const std::string tx = tio::ascii(x), ty = tio::ascii(y);
              const A ax = tio::toAst(x), ay = tio::toAst(y);
              for (auto& a : {ax, ay}) // roots of what may be negative are contracted pairwise only
                  if (any(a, [](const Node& k) { std::set<std::string> b; if (k.k == K::MUL) for (auto& o : k.ops) if (!b.insert(ref::str(o->k == K::POW ? o->ops[0] : o)).second) return true; return false; })) return skipped("powers of the same base");
              const int n = static_cast<int>(c.n[0]);
              const bool dbl = hasDouble(c.e[0]) || hasDouble(c.e[1]);
              std::string error;
              auto same = [&](const Var& a, const Var& b, const char* what) {
                  count("comparisons");
                  if (isUndef(a) && isUndef(b)) return;
                  if (error.empty() && (a != b || tio::ascii(a) != tio::ascii(b))) error = std::string(what) + " for x = " + tx + ", y = " + ty + ", n = " + std::to_string(n) + ": " + tio::ascii(a) + " and " + tio::ascii(b);
              };
              { Var z = x; z += y; same(z, x + y, "x += y"); z = x; z -= y; same(z, x - y, "x -= y"); z = x; z *= y; same(z, x*y, "x *= y"); z = x; z /= y; same(z, x/y, "x /= y"); }
              { Var z = x; z += z; same(z, x + x, "x += x"); z = x; z -= z; same(z, x - x, "x -= x"); z = x; z *= z; same(z, x*x, "x *= x"); z = x; z /= z; same(z, x/x, "x /= x"); }
              { Var z = x, w = z, v(w); z += y; same(w, x, "copy"); w = w; same(w, x, "self assignment"); w *= y; same(v, x, "copy of a copy"); const Var m = std::move(v); same(m, x, "move"); v = y; same(v, y, "assignment after move"); std::swap(z, w); same(w, x + y, "swap"); }
              { Var z = x; Var& r1 = (z += y); Var& r2 = (r1 -= y); if (&r1 != &z || &r2 != &z) error = "compound assignment doesn't return its left operand"; }
              same(+x, x, "+x");
              if (&(+x) != &x) error = "+x isn't x";
              same(x + n, x + Var(n), "x + n");
              same(n + x, Var(n) + x, "n + x");
              same(x - n, x - Var(n), "x - n");
              same(n*x, Var(n)*x, "n*x");
              same(x/n, x/Var(n), "x/n");
              same(x + 0.5, x + Var(0.5), "x + 0.5");
              same(x + 0, x, "x + 0");
              same(0 + x, x, "0 + x");
              same(x - 0, x, "x - 0");
              same(x*1, x, "x*1");
              same(1*x, x, "1*x");
              same(x/1, x, "x/1");
              same(x*0, 0, "x*0");
              same(0*x, 0, "0*x");
              same(tsym::pow(x, 1), x, "x^1");
              same(tsym::pow(1, x), 1, "1^x");
              same(tsym::sqrt(x), tsym::pow(x, Var(1, 2)), "sqrt(x)");
              same(0 - x, -x, "0 - x");
              same(x - y, x + (-y), "x - y");
              same(x/y, x*tsym::pow(y, -1), "x/y");
              same(x + (-x), x - x, "x + (-x)");
              if (!dbl) {
                  // a number times a sum is multiplied out, roots of what may be negative aren't contracted
                  const A a = tio::toAst(x);
                  bool nested = false, rational = !any(a, [](const Node& k) { return !(k.k == K::INT || k.k == K::FRAC || k.k == K::SYM || k.k == K::ADD || k.k == K::MUL || (k.k == K::POW && k.ops[1]->k == K::INT)); });
                  for (auto& o : a->ops) nested |= any(o, [](const Node& k) { return k.k == K::ADD; });
                  const bool numPow = any(a, [](const Node& k) { return k.k == K::POW && (k.ops[0]->k == K::INT || k.ops[0]->k == K::FRAC) && k.ops[1]->k != K::FRAC; });
                  if (!nested && !numPow) { count("additive inverses"); same(x - x, 0, "x - x"); same(-(-x), x, "-(-x)"); }
                  if (x != Var(0) && rational && !nested) {
                      count("multiplicative inverses"); same(x/x, 1, "x/x"); same(tsym::pow(x, 0), 1, "x^0"); same(x*x, tsym::pow(x, 2), "x*x"); }
              }
              if (x == Var(0) && !isUndef(y/x)) error = ty + " divided by zero is " + tio::ascii(y/x);
              if (tio::ascii(x) != tx || tio::ascii(y) != ty) error = "operand changed: " + tx + ", " + ty;
              if (!error.empty()) return violated(error);
              observed(gen::hashStr(tx + "," + ty));
              if (!isNumber(x) && !isNumber(y)) nontrivial();
              return held();
          },
          150000, 3000000, 400, 2});
    }
}
