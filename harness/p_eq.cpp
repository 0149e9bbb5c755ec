// C08: equality, hashes, canonical order
#include <unordered_map>
#include <unordered_set>
#include "props.h"

namespace mon {
    namespace {
        using namespace gen;

        // combines v[order] by repeated binary operations in a random association
        Var combine(std::vector<Var> v, bool product, Rng& r)
        {
            while (v.size() > 1) {
                const size_t i = r.below(v.size());
                Var x = v[i];
                v.erase(v.begin() + static_cast<long>(i));
                const size_t j = r.below(v.size());
                switch (r.below(3)) {
                    case 0: v[j] = product ? v[j]*x : v[j] + x; break;
                    case 1: v[j] = product ? x*v[j] : x + v[j]; break;
                    default: if (product) v[j] *= x; else v[j] += x;
                }
            }
            return v[0];
        }

        // Known finding root-order: numeric powers like 7^(1/3) and 13^(2/3) with equal denominators in the
        // exponents that can't be contracted stay in the order of their multiplication
        bool isRoot(const A& a) { return a->k == K::POW && (a->ops[0]->k == K::INT || a->ops[0]->k == K::FRAC) && a->ops[1]->k == K::FRAC; }
        A sortRoots(const A& a)
        {
            if (a->ops.empty()) return a;
            auto n = std::make_shared<Node>(*a);
            for (auto& o : n->ops) o = sortRoots(o);
            if (n->k == K::MUL) {
                std::vector<A> roots;
                for (auto& o : n->ops) if (isRoot(o)) roots.push_back(o);
                std::sort(roots.begin(), roots.end(), [](const A& x, const A& y) { return ref::str(x) < ref::str(y); });
                size_t i = 0;
                for (auto& o : n->ops) if (isRoot(o)) o = roots[i++];
            }
            return n;
        }
        bool differInRootOrderOnly(const Var& x, const Var& y)
        {
            const A p = tio::toAst(x), q = tio::toAst(y);
            return ref::str(p) != ref::str(q) && ref::str(sortRoots(p)) == ref::str(sortRoots(q));
        }
        // the exponent of such a power takes up numeric factors only if they are next to it
        bool numberToSymbolicPower(const A& a) { return any(a, [](const Node& n) { return n.k == K::POW && isConstant(n.ops[0]) && !isConstant(n.ops[1]); }); }
        // the same holds for roots of numbers, and for roots of what may be negative
        bool fractionalPower(const A& a) { return any(a, [](const Node& n) { return n.k == K::POW && n.ops[1]->k == K::FRAC && !(n.ops[0]->k == K::SYM && n.ops[0]->pos) && n.ops[0]->k != K::PI && n.ops[0]->k != K::EULER; }); }

        Register c08({"C08", "two to six exact operands of one expression class, summed up and multiplied in random orders and associations, all intermediate expressions used as keys of hashed containers; non-trivial: two different orders were combined into a result with two operands at least",
          [](Rng& r, uint64_t) {
              Case c;
              Profile p;
              switch (r.below(6)) {
                  case 0: p = poly(4); break;
                  case 1: p = ratfun(4); break;
                  case 2: p = fn(3); p.atan2 = true; break;
                  case 3: p = possym(3); break;
                  case 4: p = bignum(3); break;
                  default: p = general(3); p.atan2 = true;
              }
              p.twins = r.chance(20);
              Gen g(r, p);
              const int n = r.range(2, 6);
              for (int i = 0; i < n; ++i) c.e.push_back(g.tree(r.range(0, 3)));
              c.n.push_back(r.chance(50));
              c.n.push_back(static_cast<long long>(r.next() >> 2));
              return c;
          },
          [](const Case& c) {
              Rng r(static_cast<uint64_t>(c.n[1]));
              const bool product = c.n[0];
              std::vector<Var> v, again;
              for (auto& e : c.e) v.push_back(tio::build(e));
              for (auto& e : c.e) again.push_back(tio::build(e));
              const std::hash<Var> h;
              for (size_t i = 0; i < v.size(); ++i) {
                  if (isUndef(v[i])) return skipped("undefined");
                  if (!(v[i] == again[i]) || v[i] != again[i]) return violated("the same expression built twice isn't equal: " + tio::ascii(v[i]) + " / " + tio::ascii(again[i]));
                  if (h(v[i]) != h(again[i])) return violated("the same expression built twice has different hashes: " + tio::ascii(v[i]));
                  const Var copy(v[i]);
                  if (copy != v[i] || h(copy) != h(v[i])) return violated("a copy differs: " + tio::ascii(v[i]));
              }
              // pairwise coherence
              for (size_t i = 0; i < v.size(); ++i)
                  for (size_t j = 0; j < v.size(); ++j) {
                      const bool eq = v[i] == v[j];
                      count("equality decisions");
                      if (eq == (v[i] != v[j])) return violated("== and != agree for " + tio::ascii(v[i]) + " and " + tio::ascii(v[j]));
                      if (eq != (v[j] == v[i])) return violated("== isn't symmetric for " + tio::ascii(v[i]) + " and " + tio::ascii(v[j]));
                      if (eq && h(v[i]) != h(v[j])) return violated("equal, but different hashes: " + tio::ascii(v[i]));
                      if (eq && tio::ascii(v[i]) != tio::ascii(v[j])) return violated("equal, but printed differently: " + tio::ascii(v[i]) + " and " + tio::ascii(v[j]));
                      if (eq && i != j) count("equal pairs");
                      const std::string si = ref::str(tio::toAst(v[i])), sj = ref::str(tio::toAst(v[j]));
                      if (eq != (si == sj)) return violated(std::string(eq ? "equal" : "not equal") + " although the structures " + (si == sj ? "are identical: " : "differ: ") + si + " and " + sj);
                      if (eq) continue;
                      if (h(v[i]) == h(v[j])) count("hash collisions of different expressions");
                  }
              // hashed containers
              std::unordered_map<Var, size_t> map;
              std::unordered_set<Var> set;
              for (size_t i = 0; i < v.size(); ++i) { map[v[i]] = i; set.insert(v[i]); }
              for (size_t i = 0; i < v.size(); ++i) if (!map.count(again[i]) || !(v[map[again[i]]] == v[i]) || !set.count(again[i])) return violated("not found in a hashed container: " + tio::ascii(v[i]));
              // binary operations commute
              for (size_t i = 0; i < v.size(); ++i)
                  for (size_t j = 0; j < i; ++j) {
                      const Var x = product ? v[i]*v[j] : v[i] + v[j], y = product ? v[j]*v[i] : v[j] + v[i];
                      if (isUndef(x) && isUndef(y)) continue;
                      count("commuted operations");
                      if (x != y && differInRootOrderOnly(x, y)) return known("root-order", tio::ascii(x) + " and " + tio::ascii(y));
                      if (x != y || h(x) != h(y)) return violated(std::string(product ? "product" : "sum") + " of " + tio::ascii(v[i]) + " and " + tio::ascii(v[j]) + " isn't commutative: " + tio::ascii(x) + " and " + tio::ascii(y));
                  }
              // numbers are distributed over a sum if there is no other factor, which depends on the order
              if (product)
                  for (auto& x : v) {
                      std::function<bool(const A&)> sumFactor = [&](const A& y) {
                          if (y->k == K::ADD) return true;
                          if (y->k == K::POW) return sumFactor(y->ops[0]);
                          if (y->k == K::MUL) for (auto& o : y->ops) if (sumFactor(o)) return true;
                          return false;
                      };
                      if (sumFactor(tio::toAst(x))) return held();
                  }
              // the result of a sum or product doesn't depend on the order
              for (auto& x : v) if (const A a = tio::toAst(x); numberToSymbolicPower(a) || (product ? fractionalPower(a) : any(a, [](const Node& n) { return n.k == K::POW && (n.ops[0]->k == K::INT || n.ops[0]->k == K::FRAC); }))) return held();
              std::vector<Var> res;
              for (int k = 0; k < 4; ++k) {
                  std::vector<Var> w = v;
                  for (size_t i = w.size(); i > 1; --i) std::swap(w[i - 1], w[r.below(i)]);
                  res.push_back(combine(w, product, r));
              }
              bool inexact = false;
              for (auto& x : res) inexact |= isUndef(x) || hasDouble(tio::toAst(x));
              if (inexact) return skipped("undefined or inexact result");
              for (size_t k = 1; k < res.size(); ++k) {
                  count("orders compared");
                  if (res[k] != res[0] && differInRootOrderOnly(res[k], res[0])) return known("root-order", tio::ascii(res[0]) + " and " + tio::ascii(res[k]));
                  if (res[k] != res[0]) return violated(std::string(product ? "product" : "sum") + " depends on the order of its operands: " + tio::ascii(res[0]) + " and " + tio::ascii(res[k]));
                  if (h(res[k]) != h(res[0])) return violated("hash depends on the order of the operands: " + tio::ascii(res[0]));
                  if (tio::ascii(res[k]) != tio::ascii(res[0])) return violated("equal results are printed differently: " + tio::ascii(res[0]) + " and " + tio::ascii(res[k]));
              }
              observed(gen::hashStr(tio::ascii(res[0])));
              if (tsym::operands(res[0]).size() > 1) nontrivial();
              return held();
          },
          300000, 5000000});
    }
}
