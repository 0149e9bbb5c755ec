// C01 arithmetic, C02 elementary functions, C03 expand, C04 normal and simplify, C06 subst, C07 diff
#include "props.h"

namespace mon {
    namespace {
        using namespace gen;

        Profile arithmeticProfile(Rng& r)
        {
            const int n = r.chance(70) ? r.range(1, 6) : r.range(6, 12);
            switch (r.below(9)) {
                case 0: return poly(n);
                case 1: return ratfun(n);
                case 2: return surd(n);
                case 3: return surdsym(n);
                case 4: return possym(n);
                case 5: return plainpow(n);
                case 6: return bignum(n);
                case 7: return dbls(std::min(n, 4));
                default: return general(n);
            }
        }
        // the known loss of atan2's quadrant belongs to C02
        Verdict elsewhere(Verdict v) { return v.st == Verdict::KNOWN ? skipped("quadrant of atan2 lost, see C02") : v; }
        Verdict judged(Verdict v, bool interesting)
        {
            if (interesting && (v.st == Verdict::HELD || v.st == Verdict::KNOWN)) nontrivial();
            return v;
        }

        Register c01({"C01", "random arithmetic expression trees over integers, fractions, big integers, surds, constants, floating point numbers, functions, plain and positive symbols; non-trivial: the built expression was compared with the reference value at one point at least and the tree has two inner nodes or more",
          [](Rng& r, uint64_t) { Profile p = arithmeticProfile(r); p.twins = r.chance(15); p.atan2 = r.chance(50); Gen g(r, p); Case c; c.e.push_back(g.expr()); return c; },
          [](const Case& c) {
              const Var v = tio::build(c.e[0]);
              return judged(elsewhere(sameValue(c.e[0], v, salt(c), "expression")), size(c.e[0]) > 3);
          },
          700000, 12000000});

        // -- C02 ------------------------------------------------------------------------------------
        const std::vector<K>& allFns() { static const std::vector<K> f{K::SIN, K::COS, K::TAN, K::ASIN, K::ACOS, K::ATAN, K::LOG}; return f; }

        A sq(long long n) { return mk(K::SQRT, {mkInt(n)}); }
        // values with a known arcus sine, cosine or tangent
        const std::vector<A>& specialValues()
        {
            static const std::vector<A> v = [] {
                std::vector<A> b{mkInt(0), mkInt(1), mkFrac(1, 2), div(sq(2), mkInt(2)), mk(K::SQRT, {mkFrac(1, 2)}), div(sq(3), mkInt(2)), sq(3), div(sq(3), mkInt(3)), div(mkInt(1), sq(3)),
                  div(sub(sq(6), sq(2)), mkInt(4)), div(add(sq(6), sq(2)), mkInt(4)), div(sub(sq(3), mkInt(1)), mul(mkInt(2), sq(2))), div(add(mkInt(1), sq(3)), mul(mkInt(2), sq(2))),
                  sub(mkInt(2), sq(3)), add(mkInt(2), sq(3)), sub(sq(2), mkInt(1)), add(sq(2), mkInt(1)), div(sub(sq(5), mkInt(1)), mkInt(4)), div(add(sq(5), mkInt(1)), mkInt(4)),
                  mk(K::SQRT, {sub(mkFrac(5, 8), div(sq(5), mkInt(8)))}), mk(K::SQRT, {add(mkFrac(5, 8), div(sq(5), mkInt(8)))}), mk(K::SQRT, {sub(mkInt(5), mul(mkInt(2), sq(5)))}), mk(K::SQRT, {add(mkInt(5), mul(mkInt(2), sq(5)))}),
                  mk(K::SQRT, {sub(mkInt(1), div(mkInt(2), sq(5)))}), mk(K::SQRT, {add(mkInt(1), div(mkInt(2), sq(5)))}), div(mk(K::SQRT, {sub(mkInt(2), sq(2))}), mkInt(2)), div(mk(K::SQRT, {add(mkInt(2), sq(2))}), mkInt(2)), sub(mkInt(1), div(mkInt(2), sq(5)))};
                std::vector<A> all = b;
                for (auto& x : b) all.push_back(neg(x));
                return all;
            }();
            return v;
        }
        A anglePart(Rng& r)
        {
            static const std::vector<int> den{1, 2, 3, 4, 5, 6, 8, 10, 12};
            const int k = r.chance(80) ? r.range(-40, 40) : r.range(-100000, 100000);
            return mul(mkFrac(k, r.pick(den)), mkPi());
        }
        A fnTerm(Rng& r, Gen& g, int depth)
        {
            const int c = static_cast<int>(r.below(100));
            A arg;
            if (depth > 0 && c < 30) arg = fnTerm(r, g, depth - 1);
            else if (c < 45) arg = anglePart(r);
            else if (c < 60) arg = r.pick(specialValues());
            else if (c < 66) arg = add(anglePart(r), g.leaf());
            else if (c < 72) arg = mkDbl(g.dbl()*(r.chance(50) ? 0.3 : 1));
            else if (c < 80) arg = mkFrac(r.range(-40, 40), r.range(1, 41));
            else arg = g.tree(r.range(0, 3));
            if (r.chance(12)) arg = neg(arg);
            if (r.chance(15)) return mk(K::ATAN2, r.chance(50) ? std::vector<A>{arg, g.tree(r.range(0, 2))} : std::vector<A>{r.pick(specialValues()), arg});
            return mk(r.pick(allFns()), {arg});
        }

        Register c02({"C02", "sin, cos, tan, asin, acos, atan, atan2 and log of multiples of pi/12, pi/10 and pi/8, of all their exactly representable values, of fractions, floating point numbers, symbols, symbolic expressions and of each other, with arithmetic around them; non-trivial: the result was compared with the reference value at one point at least",
          [](Rng& r, uint64_t i) {
              Case c;
              Profile p = r.chance(40) ? constant(4) : fn(4);
              p.atan2 = true;
              Gen g(r, p);
              if (i < 7*81*4) { // the table of special angles, in full
                  static const int den[] = {12, 10, 8, 6};
                  c.e.push_back(mk(allFns()[i%7], {mul(mkFrac(static_cast<int>(i/7%81) - 40, den[i/567]), mkPi())}));
              } else if (i < 7*81*4 + 7*specialValues().size()) c.e.push_back(mk(allFns()[i%7], {specialValues()[(i - 2268)/7]}));
              else if (r.chance(60)) c.e.push_back(fnTerm(r, g, 2));
              else {
                  A a = fnTerm(r, g, 1), b = r.chance(60) ? fnTerm(r, g, 1) : g.tree(r.range(0, 2));
                  if (r.chance(30) && (a->k == K::SIN || a->k == K::COS)) b = mk(a->k == K::SIN ? K::COS : K::SIN, a->ops);
                  const int k = static_cast<int>(r.below(6)), e = r.chance(50) ? 2 : r.range(1, 5);
                  const A q = r.chance(50) ? g.number() : mul(g.number(), g.leaf());
                  c.e.push_back(k == 0 ? add(a, b) : k == 1 ? sub(a, b) : k == 2 ? mul(a, b) : k == 3 ? div(a, b) : k == 4 ? add(mul(r.chance(60) ? mkInt(1) : q, ref::pow(a, mkInt(e))), mul(r.chance(60) ? mkInt(1) : q, ref::pow(b, mkInt(r.chance(80) ? e : r.range(1, 5))))) : ref::pow(a, g.exponent()));
              }
              return c;
          },
          [](const Case& c) {
              const Var v = tio::build(c.e[0]);
              const A& a = c.e[0];
              if (a->ops.size() == 1 && a->ops[0]->k == K::MUL && a->ops[0]->ops[1]->k == K::PI && (a->k == K::SIN || a->k == K::COS || a->k == K::TAN) && a->ops[0]->ops[0]->k == K::FRAC) {
                  // exactly representable special values
                  const long long k = atoll(a->ops[0]->ops[0]->s.c_str()), d = atoll(a->ops[0]->ops[0]->t.c_str());
                  if ((12*k)%d == 0 && std::llabs(k) < 1000) {
                      const A got = tio::toAst(v);
                      count("special angles");
                      if (got->k != K::UNDEF && any(got, [](const Node& n) { return static_cast<int>(n.k) >= static_cast<int>(K::LOG); })) return violated(ref::str(a) + " isn't resolved exactly: " + tio::ascii(v));
                  }
              }
              return judged(sameValue(a, v, salt(c), "expression"), true);
          },
          250000, 5000000});

        // -- C03 ------------------------------------------------------------------------------------
        // positive integer exponent of a sum, or a product with a sum as factor: not expanded
        std::string notExpanded(const A& a)
        {
            auto isPosInt = [](const A& x) { return x->k == K::INT && x->s[0] != '-'; };
            if (a->k == K::POW && a->ops[0]->k == K::ADD && isPosInt(a->ops[1])) return ref::str(a);
            if (a->k == K::MUL) for (auto& o : a->ops) if (o->k == K::ADD) return ref::str(a);
            if (a->k == K::ADD || a->k == K::MUL) for (auto& o : a->ops) if (auto s = notExpanded(o); !s.empty()) return s;
            return "";
        }
        Register c03({"C03", "expand() of products and powers of sums in all expression classes; non-trivial: the result was compared with the reference value and the argument's printed form differs from the result's",
          [](Rng& r, uint64_t) {
              Profile p = pickProfile(r, r.range(2, 8));
              if (r.chance(40)) p = poly(r.range(3, 9));
              p.twins = r.chance(15);
              p.atan2 = r.chance(50);
              Gen g(r, p);
              Case c;
              A a = g.expr();
              if (r.chance(60)) a = mul(a, r.chance(50) ? g.tree(r.range(1, 3)) : ref::pow(add(g.leaf(), g.leaf()), mkInt(static_cast<long long>(r.range(2, 4)))));
              c.e.push_back(a);
              return c;
          },
          [](const Case& c) {
              const Var v = tio::build(c.e[0]);
              const Var x = tsym::expand(v);
              if (v != x || isUndef(v)) count("changed by expand");
              Verdict r = sameValue(c.e[0], x, salt(c), "expand(" + tio::ascii(v) + ")");
              if (r.st == Verdict::VIOLATED) {
                  // an error of the construction isn't one of expand()
                  if (sameValue(c.e[0], v, salt(c), "").st == Verdict::VIOLATED) return skipped("construction already wrong");
                  return r;
              }
              if (isUndef(x)) return skipped("undefined");
              if (const std::string s = notExpanded(tio::toAst(x)); !s.empty()) return violated("expand(" + tio::ascii(v) + ") = " + tio::ascii(x) + " still contains " + s);
              const bool sumInDenominator = any(tio::toAst(x), [](const Node& n) { return n.k == K::POW && n.ops[0]->k == K::ADD; });
              if (const Var xx = tsym::expand(x); !sumInDenominator && xx != x) return violated("expand isn't idempotent: " + tio::ascii(x) + " -> " + tio::ascii(xx));
              return judged(elsewhere(r), tio::ascii(v) != tio::ascii(x));
          },
          200000, 4000000, 400, 1.5});

        // -- C04 ------------------------------------------------------------------------------------
        Register c04({"C04", "normal() and simplify() of expressions of all classes; non-trivial: both results were compared with the reference value and one differs from the argument",
          [](Rng& r, uint64_t) {
              Profile p = pickProfile(r, r.range(1, 5));
              if (r.chance(30)) p = ratfun(r.range(2, 6));
              p.twins = r.chance(15);
              p.atan2 = r.chance(50);
              Gen g(r, p);
              Case c;
              if (r.chance(8)) { // roots of even powers of what may be negative
                  static const std::vector<K> f{K::SIN, K::COS, K::TAN, K::ASIN, K::ACOS, K::ATAN, K::LOG};
                  Profile q = possym(2);
                  q.nPlain = 2;
                  Gen h(r, q);
                  const int k = r.range(1, 2);
                  A x = r.chance(70) ? h.leaf() : add(h.leaf(), h.leaf());
                  if (r.chance(70)) x = mk(r.pick(f), {x});
                  const A y = ref::pow(x, mkInt(2*k));
                  A e = y;
                  switch (r.below(4)) {
                      case 0: e = mul(y, h.tree(r.range(0, 2))); break;
                      case 1: e = add(y, mul(y, h.tree(r.range(0, 1)))); break;
                      case 2: e = div(y, h.tree(r.range(0, 2))); break;
                      default: break;
                  }
                  e = ref::pow(e, mkFrac(r.chance(80) ? 1 : 3, 2*k));
                  if (r.chance(40)) e = r.chance(50) ? add(e, h.leaf()) : div(e, add(x, h.leaf()));
                  c.e.push_back(e);
              } else if (p.division && r.chance(p.name == std::string("ratfun") ? 70 : 35)) { // fractions that need a common denominator, or cancel
                  p.size = 2;
                  auto sum = [&] { return p.roots && r.chance(50) ? g.leaf() : r.chance(70) ? (r.chance(50) ? add(g.tree(r.range(0, 1)), g.tree(r.range(0, 1))) : sub(g.tree(r.range(0, 1)), g.tree(r.range(0, 1)))) : g.tree(r.range(0, 2)); };
                  const A x = sum(), y = sum(), z = sum(), w = sum();
                  A e;
                  switch (r.below(6)) {
                      case 0: e = add(div(x, y), div(z, w)); break;
                      case 1: e = sub(div(x, y), div(z, r.chance(50) ? y : w)); break;
                      case 2: e = div(mul(x, y), mul(r.chance(50) ? x : w, z)); break;
                      case 3: e = div(add(mul(x, y), mul(x, z)), add(x, r.chance(50) ? x : w)); break;
                      case 4: e = div(add(x, div(y, z)), sub(w, div(x, z))); break;
                      default: e = div(sub(ref::pow(x, mkInt(2)), ref::pow(y, mkInt(2))), add(x, y)); break;
                  }
                  if (p.fns && r.chance(40)) { static const std::vector<K> f{K::SIN, K::COS, K::TAN, K::ASIN, K::ACOS, K::ATAN, K::LOG}; e = mk(r.pick(f), {e}); }
                  if (p.fracExp && r.chance(25)) e = ref::pow(e, g.exponent());
                  c.e.push_back(e);
              } else c.e.push_back(g.expr());
              return c;
          },
          [](const Case& c) {
              const Var v = tio::build(c.e[0]);
              const Var n = tsym::normal(v), s = tsym::simplify(v);
              if (sameValue(c.e[0], v, salt(c), "").st == Verdict::VIOLATED) return skipped("construction already wrong");
              Verdict r = sameValue(c.e[0], n, salt(c), "normal(" + tio::ascii(v) + ")");
              if (r.st == Verdict::VIOLATED) return r;
              Verdict q = sameValue(c.e[0], s, salt(c), "simplify(" + tio::ascii(v) + ")");
              if (q.st == Verdict::VIOLATED) return q;
              for (auto* w : {&n, &s})
                  for (auto& sym : tsym::collectSymbols(*w)) {
                      std::map<std::string, bool> have;
                      symbols(c.e[0], have);
                      if (!have.count((tsym::isPositive(sym) ? "+" : "") + tsym::name(sym))) return violated("foreign symbol " + tsym::name(sym) + " in the result " + tio::ascii(*w));
                  }
              if (!isUndef(v)) { // numerator and denominator make the same fraction
                  const Var num = tsym::numerator(v), den = tsym::denominator(v);
                  if (!isUndef(num) && !isUndef(den)) {
                      const Agreement f = agree(tio::toAst(n), ref::div(tio::toAst(num), tio::toAst(den)), salt(c), hasDouble(c.e[0]) ? 1e-9Q : 1e-15Q);
                      if (f.mismatch) return violated("numerator(" + tio::ascii(v) + ") = " + tio::ascii(num) + ", denominator: " + tio::ascii(den) + ": " + f.detail);
                      if (f.compared) count("numerators and denominators compared");
                  } else if (!isUndef(n)) return violated("numerator or denominator of " + tio::ascii(v) + " is Undefined");
              }
              if (!isUndef(s) && tsym::complexity(s) > std::max(tsym::complexity(tsym::expand(v)), tsym::complexity(n))) return violated("simplify(" + tio::ascii(v) + ") = " + tio::ascii(s) + " is more complex than both of the expanded and the normal form");
              return judged(elsewhere(r.st == Verdict::HELD ? r : q), n != v || s != v);
          },
          60000, 2000000, 400, 0.7});

        // -- C06 ------------------------------------------------------------------------------------
        Register c06({"C06", "subst() of symbols by numbers, symbols and expressions, and of powers and functions by symbols; non-trivial: the substituted part occurs in the argument and the result was compared with the reference value",
          [](Rng& r, uint64_t) {
              Profile p = pickProfile(r, r.range(1, 6));
              while (p.nPlain + p.nPos == 0) p = pickProfile(r, r.range(1, 6));
              p.doubles = false;
              p.twins = r.chance(20);
              p.atan2 = true;
              Gen g(r, p);
              Case c;
              const A e = g.expr();
              const A s = r.pick(g.syms);
              A to;
              const int k = static_cast<int>(r.below(8));
              if (k == 0) to = mkInt(r.range(0, 3));
              else if (k == 1) to = g.number();
              else if (k == 2) to = r.chance(50) ? mkPi() : mkE();
              else if (k == 3) to = r.pick(g.syms);
              else if (k == 4) to = s->pos ? mkSym("g1", true) : mkSym("f1", false);
              else to = g.tree(r.range(1, 3));
              if (s->pos) to = k == 4 ? to : r.chance(50) ? mkSym("g1", true) : mkInt(r.range(1, 9)); // keep the assumption
              c.e = {e, s, to};
              c.n.push_back(r.chance(25));
              return c;
          },
          [](const Case& c) {
              if (c.n[0]) { // replace a composite part, and put it back
                  const Var v = tio::build(c.e[0]);
                  std::vector<Var> parts;
                  std::function<void(const Var&)> walk = [&](const Var& x) {
                      if (x.type() == Var::Type::FUNCTION || x.type() == Var::Type::POWER) parts.push_back(x);
                      for (auto& o : tsym::operands(x)) walk(o);
                  };
                  walk(v);
                  if (parts.empty()) return skipped("no composite part");
                  const Var from = parts[salt(c)%parts.size()];
                  const Var w = tsym::isPositive(from) ? Var("g1", Var::Sign::POSITIVE) : Var("w");
                  const Var there = tsym::subst(v, from, w);
                  if (isUndef(there)) return skipped("undefined");
                  if (tsym::has(there, from)) count("replaced part emerges again"); // by simplification of what surrounds it
                  const A back = substSym(tio::toAst(there), tio::toAst(w), tio::toAst(from));
                  const A orig = tio::toAst(v);
                  const Agreement g = agree(orig, back, salt(c), 1e-15Q);
                  if (g.mismatch && elsewhere(sameValue(back, v, salt(c), "")).st != Verdict::VIOLATED) return skipped("atan2");
                  if (g.mismatch) return violated("subst(" + tio::ascii(v) + ", " + tio::ascii(from) + ", " + tio::ascii(w) + ") = " + tio::ascii(there) + ": " + g.detail);
                  count("composite parts replaced");
                  if (g.compared) nontrivial();
                  return g.compared ? held() : skipped("no comparable point");
              }
              const A want = mk(K::SUBST, {c.e[0], c.e[1], c.e[2]});
              const Var v = tio::build(c.e[0]), s = tio::build(c.e[1]), to = tio::build(c.e[2]);
              if (sameValue(c.e[0], v, salt(c), "").st == Verdict::VIOLATED || sameValue(c.e[2], to, salt(c), "").st == Verdict::VIOLATED) return skipped("construction already wrong");
              if (isUndef(v)) return skipped("undefined");
              const Var x = tsym::subst(v, s, to);
              const std::string what = "subst(" + tio::ascii(v) + ", " + tio::ascii(s) + ", " + tio::ascii(to) + ")";
              // the construction may already have cancelled what isn't defined for the new value
              const A ref = mk(K::SUBST, {tio::toAst(v), c.e[1], c.e[2]});
              Verdict r = sameValue(ref, x, salt(c), what);
              if (r.st != Verdict::VIOLATED && !tsym::has(to, s) && tsym::has(x, s)) return violated(what + " = " + tio::ascii(x) + " still contains " + tio::ascii(s));
              return judged(elsewhere(r), tsym::has(v, s));
          },
          1000000, 15000000});

        // -- C07 ------------------------------------------------------------------------------------
        Register c07({"C07", "diff() with respect to a symbol for expressions of all classes incl. functions and symbolic exponents, twice in a quarter of the cases; non-trivial: the expression depends on the symbol and the derivative was compared with the reference derivative",
          [](Rng& r, uint64_t) {
              Profile p = pickProfile(r, r.range(1, 5));
              while (p.nPlain + p.nPos == 0) p = pickProfile(r, r.range(1, 5));
              p.atan2 = true;
              p.twins = r.chance(15);
              Gen g(r, p);
              Case c;
              c.e = {g.expr(), r.pick(g.syms)};
              c.n.push_back(r.chance(25) ? 2 : 1);
              return c;
          },
          [](const Case& c) {
              const Var v = tio::build(c.e[0]), s = tio::build(c.e[1]);
              if (sameValue(c.e[0], v, salt(c), "").st != Verdict::HELD) return skipped("construction not comparable");
              A want = mk(K::DIFF, {c.e[0], c.e[1]});
              Var d = tsym::diff(v, s);
              if (c.n[0] == 2) { want = mk(K::DIFF, {want, c.e[1]}); if (size(lower(want)) > 4000) return skipped("too large"); d = tsym::diff(d, s); }
              if (isUndef(v)) return skipped("undefined");
              Verdict r = sameValue(want, d, salt(c), "diff(" + tio::ascii(v) + ", " + tio::ascii(s) + (c.n[0] == 2 ? ", twice)" : ")"));
              return judged(elsewhere(r), dependsOn(c.e[0], c.e[1]));
          },
          600000, 10000000});
    }
}
