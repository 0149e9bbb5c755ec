// C10 exact numbers and conversions, C12 sign predicates, C13 Undefined
#include <gmpxx.h>
#include <climits>
#include "props.h"

namespace mon {
    namespace {
        using namespace gen;

        // -- C10 ------------------------------------------------------------------------------------
        std::string bigDigits(Rng& r)
        {
            switch (r.below(8)) {
                case 0: return std::to_string(r.below(10));
                case 1: return std::to_string(r.below(100000));
                case 2: { static const std::vector<std::string> e{"2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1000", "1001", "999", "65536", "46341", "46340", "3037000500", "340282366920938463463374607431768211456", "1000000", "99999"}; return r.pick(e); }
                case 3: { mpz_class z = 1; z <<= static_cast<unsigned>(r.range(1, 200)); z += r.range(-2, 2); if (z < 0) z = 0; return z.get_str(); }
                case 4: return std::to_string(r.next());
                default: {
                    std::string s(static_cast<size_t>(r.range(1, r.chance(80) ? 25 : 90)), '0');
                    for (auto& c : s) c = static_cast<char>('0' + r.below(10));
                    const auto p = s.find_first_not_of('0');
                    return p == std::string::npos ? "0" : s.substr(p);
                }
            }
        }
        A bigLeaf(Rng& r)
        {
            const std::string n = (r.chance(40) ? "-" : "") + bigDigits(r);
            if (r.chance(35)) { std::string d = bigDigits(r); if (d == "0") d = "7"; return mkFrac(n == "-0" ? "0" : n, d); }
            return mkInt(n == "-0" ? "0" : n);
        }
        A bigTree(Rng& r, int n)
        {
            if (n <= 0) return bigLeaf(r);
            const int l = static_cast<int>(r.below(static_cast<uint64_t>(n)));
            switch (r.below(10)) {
                case 0: return neg(bigTree(r, n - 1));
                case 1: case 2: return ref::pow(bigTree(r, std::min(1, n - 1)), mkInt(static_cast<long long>(r.range(-5, 7))));
                case 3: case 4: return div(bigTree(r, l), bigTree(r, n - 1 - l));
                case 5: case 6: return mul(bigTree(r, l), bigTree(r, n - 1 - l));
                case 7: return sub(bigTree(r, l), bigTree(r, n - 1 - l));
                default: return add(bigTree(r, l), bigTree(r, n - 1 - l));
            }
        }
        bool exact(const A& a, mpq_class& q) // false: division by zero
        {
            mpq_class x, y;
            switch (a->k) {
                case K::INT: q = mpq_class(mpz_class(a->s)); return true;
                case K::FRAC: q = mpq_class(mpz_class(a->s), mpz_class(a->t)); if (q.get_den() == 0) return false; q.canonicalize(); return true;
                case K::NEG: if (!exact(a->ops[0], x)) return false; q = -x; return true;
                case K::ADD: q = 0; for (auto& o : a->ops) { if (!exact(o, x)) return false; q += x; } return true;
                case K::MUL: q = 1; for (auto& o : a->ops) { if (!exact(o, x)) return false; q *= x; } return true;
                case K::SUB: if (!exact(a->ops[0], x) || !exact(a->ops[1], y)) return false; q = x - y; return true;
                case K::DIV: if (!exact(a->ops[0], x) || !exact(a->ops[1], y) || y == 0) return false; q = x/y; return true;
                case K::POW: {
                    if (a->ops[1]->k != K::INT || !exact(a->ops[0], x)) return false;
                    long e = atol(a->ops[1]->s.c_str());
                    if (x == 0 && e < 0) return false;
                    if (e < 0) { x = 1/x; e = -e; }
                    mpz_class n, d;
                    mpz_pow_ui(n.get_mpz_t(), x.get_num_mpz_t(), static_cast<unsigned long>(e));
                    mpz_pow_ui(d.get_mpz_t(), x.get_den_mpz_t(), static_cast<unsigned long>(e));
                    q = mpq_class(n, d);
                    q.canonicalize();
                    return true;
                }
                default: return false;
            }
        }
        // n[0] = 1: doubles (e: one DBL), 2: perfect powers; otherwise exact arithmetic
        Register c10({"C10", "arithmetic trees over integers up to 2^200 and fractions, compared digit by digit with GMP, conversions to int and double with their documented exceptions, exact and irrational roots of integers, construction from floating point numbers; non-trivial: a number with more than ten digits, a fraction, a root or a floating point number was judged",
          [](Rng& r, uint64_t) {
              Case c;
              const int k = static_cast<int>(r.below(10));
              if (k < 7) { c.e.push_back(bigTree(r, r.range(0, 6))); c.n.push_back(0); }
              else if (k < 8) { // doubles of all magnitudes
                  double d;
                  switch (r.below(5)) {
                      case 0: d = r.uni(-10, 10); break;
                      case 1: d = std::ldexp(r.uni(-1, 1), r.range(-20, 300)); break;
                      case 2: d = static_cast<double>(r.range(-100000, 100000))/static_cast<double>(r.pick(std::vector<int>{1, 2, 4, 5, 8, 10, 100, 1000})); break;
                      case 3: d = static_cast<double>(static_cast<int64_t>(r.next())); break;
                      default: d = static_cast<double>(r.range(-100, 100)) + r.pick(std::vector<double>{0, 0.5, 0.25, 0.125, 1e-3, 0.1, 1.0/3});
                  }
                  c.e.push_back(mkDbl(d));
                  c.n.push_back(1);
              } else { // n-th root of b^m
                  const long long b = r.range(0, 60), m = r.range(1, 6), n = r.range(2, 6), d = r.chance(30) ? r.range(2, 12) : 1;
                  c.n = {2, b, m, n, d, r.chance(20) ? 1 : 0};
                  if (r.chance(35)) { // perfect powers of any size, or their neighbours
                      const long long big = r.chance(50) ? r.range(2, 2000) : r.chance(60) ? r.range(2000, 2000000) : static_cast<long long>(r.below(4000000000));
                      c.n[1] = big;
                      c.n[2] = r.chance(70) ? n : m;
                      c.n.push_back(r.chance(30) ? 0 : r.chance(60) ? r.range(-3, 3) : r.range(-2000, 2000));
                  }
              }
              return c;
          },
          [](const Case& c) {
              if (c.n[0] == 0) {
                  mpq_class q;
                  const Var v = tio::build(c.e[0]);
                  if (!exact(c.e[0], q)) { count("undefined"); return isUndef(v) ? held() : violated("a division by zero yields " + tio::ascii(v)); }
                  const std::string text = tio::ascii(v), want = q.get_str();
                  if (text != want) return violated("got " + text + " instead of " + want);
                  if (tio::stream(v) != want) return violated("streamed as " + tio::stream(v) + " instead of " + want);
                  const bool isInt = q.get_den() == 1;
                  if (v.type() != (isInt ? Var::Type::INT : Var::Type::FRACTION)) return violated(want + " has the wrong type");
                  if (tio::ascii(tsym::numerator(v)) != q.get_num().get_str() || tio::ascii(tsym::denominator(v)) != q.get_den().get_str()) return violated("numerator or denominator of " + want + " is wrong");
                  if (tsym::isPositive(v) != (q > 0) || tsym::isNegative(v) != (q < 0)) return violated("sign of " + want + " is wrong");
                  // conversions
                  std::string got;
                  try { got = std::to_string(static_cast<int>(v)); }
                  catch (std::overflow_error&) { got = "overflow"; }
                  catch (std::domain_error&) { got = "domain"; }
                  const std::string exp = !isInt ? "domain" : q > INT_MAX || q < INT_MIN ? "overflow" : want;
                  if (got != exp) return violated("conversion of " + want + " to int: " + got + " instead of " + exp);
                  count("conversions to int");
                  if (mpz_sizeinbase(q.get_num_mpz_t(), 2) < 1000 && mpz_sizeinbase(q.get_den_mpz_t(), 2) < 1000) {
                      const double d = static_cast<double>(v), e = q.get_d(); // q.get_d() truncates
                      if (!(std::fabs(d - e) <= 4*std::numeric_limits<double>::epsilon()*std::fabs(e) + std::numeric_limits<double>::denorm_min())) { char b[100]; snprintf(b, sizeof b, "%.17g instead of %.17g", d, e); return violated("conversion of " + want + " to double: " + b); }
                      count("conversions to double");
                  }
                  // the printed form denotes the same number again, equality is exact
                  if (isInt && q >= 0) { if (Var(want) != v) return violated("Var(\"" + want + "\") isn't equal to the result with the same digits"); }
                  if (v == v + Var(1, 1000000007) || v + Var(1) == v || !(v - v == Var(0))) return violated("equality of " + want + " isn't exact");
                  if (want.size() > 10 || !isInt) nontrivial();
                  return held();
              }
              if (c.n[0] == 1) {
                  const double d = c.e[0]->d;
                  const Var v(d);
                  const double back = static_cast<double>(v);
                  if (!(std::fabs(back - d) <= 1e-10*std::max(1.0, std::fabs(d)))) { char b[100]; snprintf(b, sizeof b, "%.17g becomes %.17g", d, back); return violated(b); }
                  if (v.type() != Var::Type::DOUBLE && v.type() != Var::Type::INT && v.type() != Var::Type::FRACTION) return violated("a floating point number has the wrong type");
                  if (d == std::floor(d) && std::fabs(d) < 1e9) {
                      if (v.type() != Var::Type::INT || v != Var(static_cast<int>(d))) return violated("the integral floating point number " + std::to_string(d) + " isn't an integer");
                  }
                  if (v.type() == Var::Type::DOUBLE) { bool threw = false; try { (void)static_cast<int>(v); } catch (std::domain_error&) { threw = true; } if (!threw) return violated("conversion of a floating point number to int doesn't throw a std::domain_error"); }
                  if (std::fabs(d) > 1e-6 && (tsym::isPositive(v) != (d > 0) || tsym::isNegative(v) != (d < 0))) return violated("sign of a floating point number is wrong");
                  nontrivial();
                  return held();
              }
              const long b = static_cast<long>(c.n[1]), m = static_cast<long>(c.n[2]), n = static_cast<long>(c.n[3]), den = static_cast<long>(c.n[4]);
              mpz_class base;
              mpz_ui_pow_ui(base.get_mpz_t(), static_cast<unsigned long>(b), static_cast<unsigned long>(m));
              if (c.n.size() > 6) { base += static_cast<long>(c.n[6]); if (base < 1) base = 1; count("large numbers around perfect powers"); }
              const Var x = Var(base.get_str())/Var(static_cast<int>(den));
              const bool inverse = c.n[5] && base != 0;
              const Var v = tsym::pow(x, Var(inverse ? -1 : 1, static_cast<int>(n)));
              mpq_class q(base, den);
              q.canonicalize();
              if (inverse) q = 1/q;
              mpz_class rn, rd;
              const bool en = mpz_root(rn.get_mpz_t(), q.get_num_mpz_t(), static_cast<unsigned long>(n)), ed = mpz_root(rd.get_mpz_t(), q.get_den_mpz_t(), static_cast<unsigned long>(n));
              const std::string what = "root " + std::to_string(n) + " of " + q.get_str();
              const double want = std::pow(q.get_d(), 1.0/static_cast<double>(n));
              const A got = tio::toAst(v);
              const Val val = evaluate(got, Env{});
              if (val.st != Val::OK || std::fabs(static_cast<double>(val.v) - want) > 1e-12*std::max(want, 1e-300)) return violated(what + " = " + tio::ascii(v) + " is wrong");
              if (hasDouble(got)) return violated(what + " = " + tio::ascii(v) + " isn't exact");
              // up to the limit of prime factorization, roots are resolved
              if (en && ed && q.get_num() <= 1000 && q.get_den() <= 1000) {
                  mpq_class r(rn, rd);
                  r.canonicalize();
                  if (tio::ascii(v) != r.get_str()) return violated(what + " = " + tio::ascii(v) + " isn't resolved to " + r.get_str());
                  count("resolved roots");
              }
              // the n-th power leads back
              const Var back = tsym::pow(v, Var(static_cast<int>(n)));
              if (tio::ascii(back) != q.get_str()) return violated("power " + std::to_string(n) + " of the " + what + " = " + tio::ascii(v) + " is " + tio::ascii(back));
              nontrivial();
              return held();
          },
          400000, 8000000});

        // -- C12 ------------------------------------------------------------------------------------
        Register c12({"C12", "isPositive() and isNegative() of expressions of all classes, compared with the sign of the value at points where all positive symbols are positive; non-trivial: one of both predicates holds for an expression that isn't a number, and a value with reliable sign was observed",
          [](Rng& r, uint64_t) {
              Profile p = pickProfile(r, r.range(1, 6));
              if (r.chance(40)) { p = possym(r.range(1, 6)); if (r.chance(50)) p.nPlain = 1; p.fns = r.chance(40); }
              Gen g(r, p);
              Case c;
              A a = g.expr();
              if (r.chance(15)) a = ref::pow(a, mkInt(static_cast<long long>(r.range(-4, 4))));
              if (r.chance(10)) a = mk(r.pick(std::vector<K>{K::SIN, K::COS, K::TAN, K::ASIN, K::ACOS, K::ATAN, K::LOG}), {a});
              c.e.push_back(a);
              return c;
          },
          [](const Case& c) {
              const Var v = tio::build(c.e[0]);
              const bool pos = tsym::isPositive(v), neg = tsym::isNegative(v);
              if (isUndef(v)) return pos || neg ? violated("Undefined has a sign") : skipped("undefined");
              if (pos && neg) return violated(tio::ascii(v) + " is both positive and negative");
              const A a = tio::toAst(v);
              if (hasDouble(a)) return skipped("floating point numbers");
              const bool constant = isConstant(a);
              Rng r(salt(c));
              bool seen = false;
              for (int k = 0; k < (constant ? 1 : 14); ++k) {
                  const Env env = gen::point(r, k < 8 ? k : exactPoint);
                  const Val x = k < 8 ? evaluate(a, env) : Eval{env, nullptr, 0, true}.run(a);
                  if (x.st != Val::OK) continue;
                  const bool p = x.v > 0 && static_cast<L>(x.v) > 10*x.e, n = x.v < 0 && -static_cast<L>(x.v) > 10*x.e;
                  if (!p && !n) continue;
                  seen = true;
                  count("signs compared");
                  if ((pos && n) || (neg && p)) return violated(tio::ascii(v) + " is said to be " + (pos ? "positive" : "negative") + ", but is " + qstr(x.v) + " at" + envStr(env, a));
                  if (constant && fabsq(x.v) > 1e-9Q && fabsq(x.v) < 1e9Q && pos == neg) return violated("the sign of the constant " + tio::ascii(v) + " isn't decided");
              }
              if (tsym::isPositive(-v) && pos) return violated("both " + tio::ascii(v) + " and its negative are positive");
              if ((pos || neg) && seen && v.type() != Var::Type::INT && v.type() != Var::Type::FRACTION) nontrivial();
              return seen ? held() : skipped("no reliable sign");
          },
          400000, 8000000});

        // -- C13 ------------------------------------------------------------------------------------
        // something without a real value, recognisable without a proof of zero equivalence
        A undefinedSeed(Rng& r, Gen& g)
        {
            auto negConst = [&]() -> A { return r.chance(60) ? mkInt(static_cast<long long>(-r.range(1, 50))) : r.chance(50) ? mkFrac(static_cast<long long>(-r.range(1, 20)), static_cast<long long>(r.range(1, 9))) : neg(mkPi()); };
            auto outside = [&]() -> A { A x = r.chance(50) ? mkInt(static_cast<long long>(r.range(2, 30))) : mkFrac(static_cast<long long>(r.range(10, 30)), static_cast<long long>(r.range(1, 9))); return r.chance(50) ? neg(x) : x; };
            const A zero = r.chance(50) ? mkInt(0) : [&] { const A t = g.leaf(); return sub(t, t); }();
            switch (r.below(9)) {
                case 0: return div(g.tree(r.range(0, 2)), zero);
                case 1: return mk(K::LOG, {zero});
                case 2: return mk(K::LOG, {negConst()});
                case 3: return mk(r.chance(50) ? K::ASIN : K::ACOS, {outside()});
                case 4: return mk(K::TAN, {mul(mkFrac(static_cast<long long>(2*r.range(-30, 30) + 1), 2), mkPi())});
                case 5: return mk(K::SQRT, {negConst()});
                case 6: return ref::pow(zero, mkInt(static_cast<long long>(-r.range(1, 5))));
                case 7: return ref::pow(negConst(), mkFrac(static_cast<long long>(2*r.range(0, 4) + 1), static_cast<long long>(r.pick(std::vector<int>{2, 4, 6, 8}))));
                default: return mk(K::ATAN2, {mkInt(0), mkInt(0)});
            }
        }
        // puts x at the place of a random leaf
        A plant(const A& a, const A& x, Rng& r)
        {
            if (a->ops.empty()) return x;
            auto n = std::make_shared<Node>(*a);
            const size_t i = r.below(n->ops.size());
            n->ops[i] = plant(n->ops[i], x, r);
            return n;
        }
        Register c13({"C13", "expressions with a subexpression that has no real value (division by zero, logarithm of what isn't positive, even root of a negative number, arcus functions outside of [-1, 1], poles of the tangent) at a random position, and symbolic expressions turned into such by substitution; non-trivial: the undefined part lies at least one operation deep",
          [](Rng& r, uint64_t) {
              Profile p = pickProfile(r, r.range(1, 6));
              p.atan2 = true;
              Gen g(r, p);
              Case c;
              const A seed = undefinedSeed(r, g), e = g.tree(r.range(0, 6));
              if (seed->k == K::TAN || r.chance(70)) { c.e = {plant(e, seed, r), seed}; c.n.push_back(0); }
              else { // f(..., w, ...) with w := what makes it undefined
                  const A w = mkSym("w", false);
                  A f, to = mkInt(0);
                  switch (r.below(4)) {
                      case 0: f = div(add(g.leaf(), mkInt(1)), w); break;
                      case 1: f = mk(K::LOG, {w}); break;
                      case 2: f = ref::pow(w, mkInt(static_cast<long long>(-r.range(1, 4)))); break;
                      default: f = mk(r.chance(50) ? K::ASIN : K::ACOS, {w}); to = mkInt(static_cast<long long>(r.range(2, 9)));
                  }
                  c.e = {add(mkSym("alpha", false), f), w, to};
                  c.n.push_back(1);
              }
              return c;
          },
          [](const Case& c) {
              if (c.n[0] == 1) {
                  const Var v = tio::build(c.e[0]);
                  if (isUndef(v)) return skipped("undefined before");
                  Rng pr(1);
                  for (int k = 0; k < 3; ++k) if (evaluate(lower(mk(K::SUBST, {tio::toAst(v), c.e[1], c.e[2]})), gen::point(pr, k)).st != Val::UNDEF) return skipped("defined after substitution");
                  const Var x = tsym::subst(v, tio::build(c.e[1]), tio::build(c.e[2]));
                  if (!isUndef(x)) return violated("subst(" + tio::ascii(v) + ", w, " + ref::str(c.e[2]) + ") = " + tio::ascii(x) + " isn't Undefined");
                  nontrivial();
                  return held();
              }
              Rng pr(1);
              for (int k = 0; k < 3; ++k) if (evaluate(lower(c.e[1]), gen::point(pr, k)).st == Val::OK) return skipped("malformed case");
              if (ref::str(c.e[0]).find(ref::str(c.e[1])) == std::string::npos) return skipped("malformed case");
              const Var seed = tio::build(c.e[1]);
              if (!isUndef(seed)) return violated(ref::str(c.e[1]) + " is " + tio::ascii(seed) + ", not Undefined");
              const Var v = tio::build(c.e[0]);
              if (!isUndef(v)) return violated(ref::str(c.e[0]) + " with an undefined part is " + tio::ascii(v));
              // all operations are total, and Undefined stays
              const Var a("a");
              const std::vector<std::pair<const char*, Var>> r{{"expand", tsym::expand(v)}, {"normal", tsym::normal(v)}, {"simplify", tsym::simplify(v)}, {"diff", tsym::diff(v, a)}, {"subst", tsym::subst(v, a, Var(2))},
                {"+", v + a}, {"+", a + v}, {"-", a - v}, {"*", v*Var(0)}, {"*", Var(0)*v}, {"*", a*v}, {"/", v/a}, {"/", a/v}, {"/", Var(0)/v}, {"-", -v}, {"pow", tsym::pow(v, Var(0))}, {"pow", tsym::pow(Var(1), v)}, {"pow", tsym::pow(Var(0), v)}, {"sqrt", tsym::sqrt(v)},
                {"sin", tsym::sin(v)}, {"atan2", tsym::atan2(v, a)}, {"atan2", tsym::atan2(a, v)}, {"log", tsym::log(v)}, {"subst to", tsym::subst(a + Var(1), a, v)}, {"numerator", tsym::numerator(v)}};
              for (auto& [what, x] : r) {
                  count("operations on Undefined");
                  if (!isUndef(x)) return violated(std::string(what) + " of Undefined is " + tio::ascii(x));
              }
              if (v == v || !(v != v) || v == a || !(v != a) || v == seed) return violated("Undefined is equal to something");
              if (tio::ascii(v) != "Undefined" || tio::stream(v) != "Undefined") return violated("Undefined is printed as " + tio::ascii(v));
              if (!tsym::operands(v).empty() || !tsym::collectSymbols(v).empty() || tsym::isPositive(v) || tsym::isNegative(v) || tsym::has(v, a)) return violated("Undefined isn't atomic");
              if (std::hash<Var>()(v) != std::hash<Var>()(seed)) return violated("hashes of Undefined differ");
              for (int k = 0; k < 2; ++k) {
                  bool threw = false;
                  try { if (k) (void)static_cast<int>(v); else (void)static_cast<double>(v); } catch (std::domain_error&) { threw = true; }
                  if (!threw) return violated("conversion of Undefined doesn't throw a std::domain_error");
              }
              if (size(c.e[0]) > size(c.e[1])) nontrivial();
              return held();
          },
          200000, 4000000});
    }
}
