// C05 rational functions: recognition of zero, numerator and denominator; C11 linear algebra
#include <array>
#include "props.h"

namespace mon {
    namespace {
        using namespace gen;

        // -- rewriting of rational functions into mathematically equal ones -----------------------------
        A shuffleOps(const A& a, Rng& r)
        {
            auto n = std::make_shared<Node>(*a);
            for (auto& o : n->ops) o = shuffleOps(o, r);
            const A x = n;
            switch (n->k) {
                case K::ADD: case K::MUL: if (r.chance(50)) std::swap(n->ops[0], n->ops[1]); break;
                case K::SUB: if (r.chance(50)) return add(n->ops[0], neg(n->ops[1])); break;
                case K::DIV: if (r.chance(40)) return mul(n->ops[0], ref::pow(n->ops[1], mkInt(-1))); break;
                case K::NEG: if (r.chance(50)) return mul(mkInt(-1), n->ops[0]); break;
                case K::POW:
                    if (n->ops[1]->k == K::INT && (n->ops[1]->s == "2" || n->ops[1]->s == "3") && r.chance(60)) {
                        A p = mul(n->ops[0], n->ops[0]);
                        return n->ops[1]->s == "3" ? mul(p, n->ops[0]) : p;
                    }
                    break;
                default: break;
            }
            // distribute
            if (n->k == K::MUL && (n->ops[1]->k == K::ADD || n->ops[1]->k == K::SUB) && r.chance(60)) return mk(n->ops[1]->k, {mul(n->ops[0], n->ops[1]->ops[0]), mul(n->ops[0], n->ops[1]->ops[1])});
            if (n->k == K::DIV && (n->ops[0]->k == K::ADD || n->ops[0]->k == K::SUB) && r.chance(60)) return mk(n->ops[0]->k, {div(n->ops[0]->ops[0], n->ops[1]), div(n->ops[0]->ops[1], n->ops[1])});
            return n;
        }
        A rewritten(const A& a, Rng& r, Gen& g)
        {
            A b = shuffleOps(a, r);
            if (r.chance(40)) b = shuffleOps(b, r);
            switch (r.below(5)) {
                case 0: { const A q = add(g.leaf(), g.leaf()); b = div(mul(b, q), q); break; }
                case 1: { const A q = g.tree(2); b = add(sub(b, q), q); break; }
                case 2: { const A q = sub(mul(g.leaf(), g.leaf()), mkInt(static_cast<long long>(r.range(1, 5)))); b = mul(div(b, q), q); break; }
                case 3: { const A u = g.leaf(), w = add(g.leaf(), mkInt(7)); b = add(b, sub(div(mkInt(1), mul(u, w)), div(div(mkInt(1), w), u))); break; }
                default: break;
            }
            return b;
        }
        bool isRatFun(const A& a)
        {
            return !any(a, [](const Node& n) {
                if (n.k == K::POW) return n.ops[1]->k != K::INT;
                return !(n.k == K::INT || n.k == K::FRAC || n.k == K::SYM || n.k == K::ADD || n.k == K::SUB || n.k == K::MUL || n.k == K::DIV || n.k == K::NEG);
            });
        }
        bool isPolynomial(const A& a) { return isRatFun(a) && !any(a, [](const Node& n) { return n.k == K::DIV || (n.k == K::POW && n.ops[1]->s[0] == '-'); }); }

        // univariate polynomials modulo 2^61 - 1, all other symbols replaced by pseudo random values
        using Poly = std::vector<uint64_t>;
        void trim(Poly& p) { while (!p.empty() && p.back() == 0) p.pop_back(); }
        Poly padd(const Poly& a, const Poly& b, bool minus) { Poly r(std::max(a.size(), b.size()), 0); for (size_t i = 0; i < a.size(); ++i) r[i] = a[i]; for (size_t i = 0; i < b.size(); ++i) r[i] = Mod::add(r[i], minus ? Mod::neg(b[i]) : b[i]); trim(r); return r; }
        Poly pmul(const Poly& a, const Poly& b) { if (a.empty() || b.empty()) return {}; Poly r(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] = Mod::add(r[i + j], Mod::mul(a[i], b[j])); trim(r); return r; }
        bool toPoly(const A& a, const A& x, uint64_t point, Poly& r)
        {
            Poly q;
            switch (a->k) {
                case K::SYM: if (isSym(a, x)) { r = {0, 1}; return true; }
                    [[fallthrough]];
                case K::INT: case K::FRAC: { uint64_t v; if (!Mod::eval(a, point, v)) return false; r = {v}; trim(r); return true; }
                case K::ADD: r.clear(); for (auto& o : a->ops) { if (!toPoly(o, x, point, q)) return false; r = padd(r, q, false); } return true;
                case K::SUB: if (!toPoly(a->ops[0], x, point, r) || !toPoly(a->ops[1], x, point, q)) return false; r = padd(r, q, true); return true;
                case K::NEG: if (!toPoly(a->ops[0], x, point, q)) return false; r = padd({}, q, true); return true;
                case K::MUL: r = {1}; for (auto& o : a->ops) { if (!toPoly(o, x, point, q)) return false; r = pmul(r, q); if (r.size() > 400) return false; } return true;
                case K::POW: {
                    if (a->ops[1]->k != K::INT || a->ops[1]->s[0] == '-' || a->ops[1]->s.size() > 2) return false;
                    if (!toPoly(a->ops[0], x, point, q)) return false;
                    r = {1};
                    for (int i = atoi(a->ops[1]->s.c_str()); i > 0; --i) { r = pmul(r, q); if (r.size() > 400) return false; }
                    return true;
                }
                default: return false;
            }
        }
        size_t gcdDegree(Poly a, Poly b)
        {
            trim(a); trim(b);
            while (!b.empty()) {
                while (a.size() >= b.size()) {
                    const uint64_t f = Mod::mul(a.back(), Mod::inv(b.back()));
                    const size_t s = a.size() - b.size();
                    for (size_t i = 0; i < b.size(); ++i) a[i + s] = Mod::add(a[i + s], Mod::neg(Mod::mul(f, b[i])));
                    trim(a);
                    if (a.empty()) break;
                }
                std::swap(a, b);
            }
            return a.empty() ? 0 : a.size() - 1;
        }

        Register c05({"C05", "random rational functions with integer, fraction and big coefficients in up to three symbols, differences of a rational function and a rewritten form of it, and random perturbations of such differences; the normal form is judged by exact evaluation and univariate gcds modulo 2^61 - 1; non-trivial: a vanishing difference that isn't already zero without normal(), or a normal form with a denominator that isn't a number",
          [](Rng& r, uint64_t) {
              Profile p = r.chance(15) ? bignum(4) : ratfun(4);
              p.nPlain = r.range(1, 3);
              if (r.chance(20)) p.nPos = 1;
              Gen g(r, p);
              Case c;
              const A e = g.tree(r.range(1, 5));
              const int k = static_cast<int>(r.below(10));
              if (k < 6) c.e.push_back(sub(e, rewritten(e, r, g)));
              else if (k < 7) c.e.push_back(add(sub(e, rewritten(e, r, g)), r.chance(50) ? mkFrac(1, static_cast<long long>(r.range(1, 1000))) : g.tree(1)));
              else if (k < 8) c.e.push_back(mul(sub(rewritten(e, r, g), e), g.tree(2)));
              else if (k < 9 && r.chance(50)) { // numerators that make up a multiple of a factor of their denominator
                  const A d = r.chance(70) ? add(g.leaf(), g.tree(r.range(0, 1))) : g.tree(2), n = g.tree(r.range(0, 2)), q = r.chance(50) ? d : mul(d, g.tree(r.range(0, 2)));
                  const A h = r.chance(30) ? g.number() : g.tree(r.range(0, 2)), m = sub(mul(d, h), n);
                  c.e.push_back(r.chance(70) ? add(div(n, q), div(m, q)) : r.chance(50) ? sub(div(n, q), div(neg(m), q)) : add(add(div(n, q), div(g.leaf(), q)), add(div(m, q), h)));
              }
              else if (k < 9) { const A q = rewritten(g.tree(2), r, g); c.e.push_back(div(mul(e, q), mul(g.tree(2), q))); }
              else c.e.push_back(g.tree(r.range(2, 7)));
              return c;
          },
          [](const Case& c) {
              const A& a = c.e[0];
              const Var v = tio::build(a);
              if (isUndef(v)) return skipped("undefined");
              uint64_t x[3];
              bool ok = true, zero = true;
              for (uint64_t i = 0; i < 3; ++i) { ok = ok && Mod::eval(a, 11 + i, x[i]); zero = zero && ok && x[i] == 0; }
              if (!ok) return skipped("division by zero");
              const Var n = tsym::normal(v);
              const Var z(0);
              if (zero) {
                  count("vanishing expressions");
                  if (n != z) return violated("normal(" + tio::ascii(v) + ") = " + tio::ascii(n) + " although the expression vanishes identically");
                  if (tsym::simplify(v) != z) return violated("simplify(" + tio::ascii(v) + ") = " + tio::ascii(tsym::simplify(v)) + " although the expression vanishes identically");
                  if (v != z) nontrivial();
                  return held();
              }
              if (n == z) return violated("normal(" + tio::ascii(v) + ") is zero, but the expression isn't");
              const Var num = tsym::numerator(n), den = tsym::denominator(n);
              const A an = tio::toAst(n), anum = tio::toAst(num), aden = tio::toAst(den);
              if (!isRatFun(an)) return violated("normal(" + tio::ascii(v) + ") = " + tio::ascii(n) + " isn't a rational function");
              for (uint64_t i = 0; i < 3; ++i) {
                  uint64_t y, p, q;
                  if (!Mod::eval(an, 11 + i, y)) return violated("normal(" + tio::ascii(v) + ") = " + tio::ascii(n) + " isn't defined where the argument is");
                  if (y != x[i]) return violated("normal(" + tio::ascii(v) + ") = " + tio::ascii(n) + " has a different value modulo 2^61 - 1");
                  if (!Mod::eval(anum, 11 + i, p) || !Mod::eval(aden, 11 + i, q) || q == 0 || Mod::mul(p, Mod::inv(q)) != y) return violated("numerator " + tio::ascii(num) + " and denominator " + tio::ascii(den) + " don't make up " + tio::ascii(n));
              }
              // same for the argument itself
              const A bnum = tio::toAst(tsym::numerator(v)), bden = tio::toAst(tsym::denominator(v));
              uint64_t p, q;
              if (!Mod::eval(bnum, 11, p) || !Mod::eval(bden, 11, q) || q == 0 || Mod::mul(p, Mod::inv(q)) != x[0]) return violated("numerator(" + tio::ascii(v) + ") = " + tio::ascii(tsym::numerator(v)) + " and denominator " + tio::ascii(tsym::denominator(v)) + " don't make up the expression");
              if (!isPolynomial(anum) || !isPolynomial(aden)) return violated("numerator " + tio::ascii(num) + " or denominator " + tio::ascii(den) + " of the normal form of " + tio::ascii(v) + " isn't a polynomial");
              std::map<std::string, bool> syms;
              symbols(aden, syms);
              auto commonFactor = [](const A& u, const A& w) -> std::string {
                  std::map<std::string, bool> in;
                  symbols(w, in);
                  for (auto& [key, pos] : in) {
                      const A s = mkSym(pos ? key.substr(1) : key, pos);
                      Poly f, g;
                      bool common = true;
                      for (uint64_t pt = 21; pt < 23; ++pt) {
                          if (!toPoly(u, s, pt, f) || !toPoly(w, s, pt, g)) { common = false; break; }
                          count("gcds modulo 2^61 - 1");
                          common = common && gcdDegree(f, g) > 0;
                      }
                      if (common) return key;
                  }
                  return "";
              };
              if (const auto key = commonFactor(anum, aden); !key.empty()) return violated("numerator and denominator of normal(" + tio::ascii(v) + ") = " + tio::ascii(n) + " have a common factor that contains " + key);
              if (const auto key = commonFactor(bnum, bden); !key.empty()) return violated("numerator and denominator of " + tio::ascii(v) + ", " + tio::ascii(tsym::numerator(v)) + " and " + tio::ascii(tsym::denominator(v)) + ", have a common factor that contains " + key);
              { // the normal form as it is
                  std::vector<A> above, below;
                  for (auto& o : an->k == K::MUL ? an->ops : std::vector<A>{an})
                      if (o->k == K::POW && o->ops[1]->k == K::INT && o->ops[1]->s[0] == '-') below.push_back(ref::pow(o->ops[0], mkInt(o->ops[1]->s.substr(1))));
                      else above.push_back(o);
                  if (!above.empty() && !below.empty())
                      if (const auto key = commonFactor(mk(K::MUL, above), mk(K::MUL, below)); !key.empty()) return violated("normal(" + tio::ascii(v) + ") = " + tio::ascii(n) + " can be cancelled by a factor that contains " + key);
              }
              if (!syms.empty()) { count("normal forms with a denominator"); nontrivial(); }
              return held();
          },
          150000, 3000000, 400, 2});

        // -- C11 ------------------------------------------------------------------------------------
        struct CallMatrix { // operator()(i, j)
            std::vector<Var> v; size_t n;
            Var& operator()(size_t i, size_t j) { return v[i*n + j]; }
            const Var& operator()(size_t i, size_t j) const { return v[i*n + j]; }
        };
        struct CallVector {
            std::vector<Var> v;
            Var& operator()(size_t i) { return v[i]; }
            const Var& operator()(size_t i) const { return v[i]; }
        };
        using M = std::vector<std::vector<Var>>;
        using MM = std::vector<std::vector<uint64_t>>;

        bool evalM(const M& a, uint64_t pt, MM& r)
        {
            r.assign(a.size(), std::vector<uint64_t>(a.size()));
            for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a.size(); ++j) if (!Mod::eval(tio::toAst(a[i][j]), pt, r[i][j])) return false;
            return true;
        }
        uint64_t detMod(MM m)
        {
            uint64_t d = 1;
            const size_t n = m.size();
            for (size_t c = 0; c < n; ++c) {
                size_t p = c;
                while (p < n && m[p][c] == 0) ++p;
                if (p == n) return 0;
                if (p != c) { std::swap(m[p], m[c]); d = Mod::neg(d); }
                d = Mod::mul(d, m[c][c]);
                const uint64_t iv = Mod::inv(m[c][c]);
                for (size_t i = c + 1; i < n; ++i) {
                    const uint64_t f = Mod::mul(m[i][c], iv);
                    for (size_t j = c; j < n; ++j) m[i][j] = Mod::add(m[i][j], Mod::neg(Mod::mul(f, m[c][j])));
                }
            }
            return d;
        }

        // n[0] dimension, n[1] container kind, n[2] algorithm, n[3] bit mask of skipped rows
        Register c11({"C11", "square systems of dimension 1 to 5 with integer, fraction, symbolic and rational function entries, some of them rank deficient by construction, some with zero pivots, skipped rows and columns, four kinds of containers and results replacing the right hand side, zeros in disguise, both algorithms; solutions, inverses and determinants are checked by exact evaluation modulo 2^61 - 1 against an independent elimination; non-trivial: dimension two or more after skipping",
          [](Rng& r, uint64_t) {
              Case c;
              int n = r.chance(70) ? r.range(1, 3) : r.range(2, 5);
              Profile p = ratfun(1);
              const int kind = static_cast<int>(r.below(5)); // 0 integers, 1 fractions, 2 some symbols, 3 all symbolic, 4 rational functions
              if (kind >= 2 && n > 3) n = r.chance(20) && kind == 2 ? 4 : 3;
              if (kind == 4 && n == 3 && r.chance(70)) n = 2;
              p.nPlain = r.range(1, n > 2 && kind > 2 ? 2 : 3);
              Gen g(r, p);
              const int zeros = r.chance(50) ? 30 : r.chance(50) ? 60 : 5;
              auto entry = [&]() -> A {
                  if (r.chance(zeros)) {
                      if (kind < 2 || !r.chance(20)) return mkInt(0);
                      // a zero in disguise, unknown before simplification
                      const A u = g.leaf(), v = g.leaf(), w = r.chance(50) ? g.leaf() : mkInt(static_cast<long long>(r.range(1, 9)));
                      switch (r.below(3)) {
                          case 0: return sub(mul(u, add(v, w)), add(mul(u, v), mul(u, w)));
                          case 1: return sub(mul(add(u, v), sub(u, v)), sub(mul(u, u), mul(v, v)));
                          default: return sub(div(u, add(v, w)), div(mul(u, mkInt(2)), add(mul(v, mkInt(2)), mul(mkInt(2), w))));
                      }
                  }
                  switch (kind) {
                      case 0: return mkInt(static_cast<long long>(r.range(-9, 9)));
                      case 1: return mkFrac(static_cast<long long>(r.range(-9, 9)), static_cast<long long>(r.range(1, 7)));
                      case 2: return r.chance(30) ? g.leaf() : mkInt(static_cast<long long>(r.range(-4, 4)));
                      case 3: return r.chance(n > 2 ? 85 : 60) ? g.leaf() : add(g.leaf(), g.leaf());
                      default: return r.chance(n > 2 ? 20 : 60) ? g.tree(1) : g.leaf();
                  }
              };
              std::vector<std::vector<A>> m(static_cast<size_t>(n), std::vector<A>(static_cast<size_t>(n)));
              for (auto& row : m) for (auto& x : row) x = entry();
              const size_t un = static_cast<size_t>(n);
              if (r.chance(25) && n > 1) { // rank deficient: a row is a combination of others, written differently
                  const size_t k = r.below(un), i = (k + 1)%un, j = (k + 2)%un;
                  const A f = entry(), h = n > 2 ? entry() : mkInt(0);
                  for (size_t q = 0; q < un; ++q) m[k][q] = n > 2 ? add(mul(f, m[i][q]), mul(h, m[j][q])) : mul(f, m[i][q]);
              }
              for (auto& row : m) for (auto& x : row) c.e.push_back(x);
              for (int i = 0; i < n; ++i) c.e.push_back(entry());
              c.n = {n, r.range(0, 4), r.range(0, 1), r.chance(25) ? static_cast<long long>(r.below(1u << n)) : 0, r.range(0, 2)};
              return c;
          },
          [](const Case& c) {
              const size_t n = static_cast<size_t>(c.n[0]);
              if (c.e.size() != n*n + n) return skipped("malformed case");
              const auto algo = c.n[2] ? tsym::Algo::Gauss : tsym::Algo::GaussLCPivot;
              M a(n, std::vector<Var>(n));
              std::vector<Var> b(n);
              for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { a[i][j] = tio::build(c.e[i*n + j]); if (isUndef(a[i][j])) return skipped("undefined"); }
              for (size_t i = 0; i < n; ++i) { b[i] = tio::build(c.e[n*n + i]); if (isUndef(b[i])) return skipped("undefined"); }
              std::vector<bool> skip(n, false);
              std::vector<size_t> use;
              for (size_t i = 0; i < n; ++i) { skip[i] = (c.n[3] >> i) & 1; if (!skip[i]) use.push_back(i); }
              const size_t k = use.size();
              if (k == 0) return skipped("all rows skipped");
              M sub(k, std::vector<Var>(k));
              for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < k; ++j) sub[i][j] = a[use[i]][use[j]];
              MM m;
              uint64_t det = 0, pt = 31;
              bool any = false, singular = true;
              for (uint64_t q = 31; q < 34; ++q) { MM t; if (!evalM(sub, q, t)) continue; any = true; const uint64_t d = detMod(t); if (d) { singular = false; det = d; m = t; pt = q; break; } m = t; pt = q; }
              if (!any) return skipped("not a rational function");
              const bool skipping = k != n;
              const std::string algoName = c.n[2] ? " (Gauss)" : " (GaussLCPivot)";
              std::string text = "[";
              for (auto& row : sub) { for (auto& x : row) text += tio::ascii(x) + ", "; text += "; "; }
              text += "]" + algoName;
              count(singular ? "singular systems" : "regular systems");

              CallMatrix ca{{}, n};
              for (auto& row : a) for (auto& x : row) ca.v.push_back(x);
              Var raw[8][8], rawb[8], rawx[8];
              for (size_t i = 0; i < n; ++i) { rawb[i] = b[i]; for (size_t j = 0; j < n; ++j) raw[i][j] = a[i][j]; }
              CallVector cb{b}, cx{std::vector<Var>(n, Var("f1"))};
              std::vector<Var> x(n, Var("f1"));
              for (size_t i = 0; i < n; ++i) rawx[i] = Var("f1");
              auto untouched = [&]() {
                  for (size_t i = 0; i < n; ++i) {
                      if (b[i] != cb.v[i] || rawb[i] != b[i] || tio::build(c.e[n*n + i]) != b[i]) return false;
                      for (size_t j = 0; j < n; ++j) { const Var y = tio::build(c.e[i*n + j]); if (y != a[i][j] || y != ca.v[i*n + j] || y != raw[i][j]) return false; }
                  }
                  return true;
              };
              const int what = static_cast<int>(c.n[4]);
              if (what == 0) {
                  bool threw = false;
                  try {
                      const int dim = static_cast<int>(n);
                      switch (c.n[1]) {
                          case 0: if (skipping) tsym::solve(a, b, x, skip, n, algo); else tsym::solve(a, b, x, n, algo); break;
                          case 1: if (skipping) tsym::solve(ca, cb, cx, skip, n, algo); else tsym::solve(ca, cb, cx, n, algo); x = cx.v; break;
                          case 2: if (skipping) tsym::solve(raw, rawb, rawx, skip, dim, algo); else tsym::solve(raw, rawb, rawx, dim, algo); for (size_t i = 0; i < n; ++i) x[i] = rawx[i]; break;
                          case 4: // the result replaces the right hand side
                              if (skipping) tsym::solve(a, b, b, skip, n, algo); else tsym::solve(a, b, b, n, algo);
                              x = b;
                              for (size_t i = 0; i < n; ++i) if (skip[i]) { if (b[i] != cb.v[i]) return violated("solve() wrote to a skipped row " + text); x[i] = Var("f1"); }
                              break;
                          default: if (skipping) tsym::solve(a, cb, x, skip, n, algo); else tsym::solve(a, cb, x, n, algo); break;
                      }
                  } catch (std::invalid_argument&) { threw = true; }
                  if (c.n[1] == 4) b = cb.v;
                  if (!untouched()) return violated("solve() changed its input " + text);
                  if (threw != singular) return violated(std::string("solve() ") + (threw ? "rejects a regular system " : "accepts a singular system ") + text);
                  if (threw) { if (k > 1) nontrivial(); return held(); }
                  std::vector<uint64_t> xm(k);
                  for (size_t i = 0; i < k; ++i) if (!Mod::eval(tio::toAst(x[use[i]]), pt, xm[i])) return violated("solution isn't a rational function or undefined: " + tio::ascii(x[use[i]]) + " of " + text);
                  for (size_t i = 0; i < n; ++i) if (skip[i] && x[i] != Var("f1")) return violated("solve() wrote to a skipped row " + text);
                  for (size_t i = 0; i < k; ++i) {
                      uint64_t s = 0, rhs;
                      for (size_t j = 0; j < k; ++j) s = Mod::add(s, Mod::mul(m[i][j], xm[j]));
                      if (!Mod::eval(tio::toAst(b[use[i]]), pt, rhs)) return skipped("right hand side undefined");
                      if (s != rhs) return violated("solution of " + text + " doesn't fulfil equation " + std::to_string(i) + ", x_0 = " + tio::ascii(x[use[0]]));
                  }
                  count("solutions checked");
              } else if (what == 1) {
                  Var d;
                  bool threw = false;
                  try { switch (c.n[1]) {
                      case 0: d = skipping ? tsym::determinant(a, skip, n, algo) : tsym::determinant(a, n, algo); break;
                      case 1: d = skipping ? tsym::determinant(ca, skip, n, algo) : tsym::determinant(ca, n, algo); break;
                      case 2: d = skipping ? tsym::determinant(raw, skip, static_cast<int>(n), algo) : tsym::determinant(raw, static_cast<int>(n), algo); break;
                      default: d = skipping ? tsym::determinant(a, skip, n, algo) : tsym::determinant(a, n, algo); break;
                  } } catch (std::invalid_argument&) { threw = true; }
                  if (!untouched()) return violated("determinant() changed its input " + text);
                  if (threw && !singular) return violated("determinant() rejects the regular matrix " + text);
                  if (singular) { if (!threw && d != Var(0)) return violated("determinant of the singular matrix " + text + " is " + tio::ascii(d)); }
                  else { uint64_t y; if (!Mod::eval(tio::toAst(d), pt, y) || y != det) return violated("determinant of " + text + " is " + tio::ascii(d) + ", which is wrong"); }
                  count("determinants checked");
              } else {
                  bool threw = false;
                  M inv = a;
                  try {
                      switch (c.n[1]) {
                          case 0: if (skipping) tsym::invert(inv, skip, n, algo); else tsym::invert(inv, n, algo); break;
                          case 1: { CallMatrix t = ca; if (skipping) tsym::invert(t, skip, n, algo); else tsym::invert(t, n, algo); for (size_t i = 0; i < n*n; ++i) inv[i/n][i%n] = t.v[i]; break; }
                          case 2: { Var t[8][8]; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) t[i][j] = a[i][j]; if (skipping) tsym::invert(t, skip, static_cast<int>(n), algo); else tsym::invert(t, static_cast<int>(n), algo); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) inv[i][j] = t[i][j]; break; }
                          default: if (skipping) tsym::invert(inv, skip, n, algo); else tsym::invert(inv, n, algo);
                      }
                  } catch (std::invalid_argument&) { threw = true; }
                  if (threw != singular) return violated(std::string("invert() ") + (threw ? "rejects a regular matrix " : "accepts a singular matrix ") + text);
                  if (threw) { if (k > 1) nontrivial(); return held(); }
                  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if ((skip[i] || skip[j]) && inv[i][j] != a[i][j]) return violated("invert() wrote to a skipped row or column " + text);
                  M is(k, std::vector<Var>(k));
                  for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < k; ++j) is[i][j] = inv[use[i]][use[j]];
                  MM im;
                  if (!evalM(is, pt, im)) return violated("the inverse of " + text + " isn't a rational function or undefined");
                  for (size_t i = 0; i < k; ++i)
                      for (size_t j = 0; j < k; ++j) {
                          uint64_t s = 0;
                          for (size_t q = 0; q < k; ++q) s = Mod::add(s, Mod::mul(m[i][q], im[q][j]));
                          if (s != (i == j ? 1u : 0u)) return violated("the product of " + text + " and its inverse isn't the identity");
                      }
                  count("inverses checked");
              }
              if (k > 1) nontrivial();
              return held();
          },
          60000, 1200000, 400, 2});
    }
}
