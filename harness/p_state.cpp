// C14 memory safety, C15 purity, C17 logging, C18 termination, C21 no growth
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <iostream>
#include "prog.h"

namespace mon {
    namespace {
        using namespace gen;

        void countSteps(const Case& c) { for (auto n : c.n) count(std::string("calls: ") + prog::opName(static_cast<int>(n%64))); }

        // -- C14 ------------------------------------------------------------------------------------
        Register c14({"C14", "random histories of two to ten calls of all public functions on a pool of expressions of all classes, incl. malformed texts, undefined results, self assignment, conversions and linear systems, in a build with AddressSanitizer, UndefinedBehaviorSanitizer and checked standard library containers; any report or abnormal end of the process is a violation; non-trivial: two calls at least were performed",
          [](Rng& r, uint64_t) { return r.chance(25) ? prog::make(r, 10, r.range(1, 6), true) : prog::make(r, 6, r.range(1, 4), true); },
          [](const Case& c) {
              const auto r = prog::run(c, false);
              countSteps(c);
              count("library calls", r.performed);
              std::string all;
              for (auto& t : r.transcript) all += t;
              observed(gen::hashStr(all));
              if (r.performed >= 2) nontrivial();
              return held();
          },
          10000, 400000, 200, 3, false, 100, true});

        // -- C15 ------------------------------------------------------------------------------------
        std::string joined(const prog::Result& r) { std::string s; for (auto& t : r.transcript) s += t + "\n"; return s; }
        RegisterTask c15task("transcript", [](const std::string& s) { return joined(prog::run(Case::parse(s), false)); });
        // the same after some other calls, each of which creates an internal symbol
        RegisterTask c15later("transcript later", [](const std::string& s) {
            const Case c = Case::parse(s);
            for (int k = c.s.empty() ? 0 : atoi(c.s[0].c_str()); k > 0; --k) { const Var f = tsym::sin(Var("w_" + std::to_string(k%10))); tsym::normal((f*f - 1)/(f + 1) + k); }
            return joined(prog::run(c, false));
        });

        std::string lines(const std::vector<std::string>& v) { std::string s; for (auto& t : v) s += t + "\n"; return s; }
        RegisterTask c15independent("independent", [](const std::string& s) { const Case c = Case::parse(s.substr(1)); return lines(prog::independent(c, prog::orderOf(c, s[0] - '0'))); });

        Register c15({"C15", "random histories of calls on a pool of expressions, performed after up to 200 other histories in the same process, twice, and in a process that has never used the library; the printed results of all calls have to be the same, and no operand may change; and sets of calls with similar arguments (also symbols that differ in nothing but positivity), performed in different orders in one process and in fresh ones; non-trivial: three calls at least were performed",
          [](Rng& r, uint64_t) {
              if (r.chance(50)) { Case c = prog::makeSimilar(r, 10); c.s = {"0", "similar"}; return c; }
              Case c = prog::make(r, 6, r.range(1, 4), true);
              if (r.chance(30)) { // two irrational parts above and below the fraction bar
                  Gen g(r, r.chance(50) ? surdsym(2) : general(2));
                  auto part = [&] { return r.chance(50) ? mk(K::SQRT, {add(g.leaf(), g.leaf())}) : mk(r.chance(50) ? K::SIN : K::LOG, {g.leaf()}); };
                  auto root = [&](const A& a) { return ref::pow(a, mkFrac(r.range(1, 5), r.range(2, 6))); };
                  const A x = g.leaf(), p = r.chance(50) ? root(x) : part(), q = r.chance(50) ? root(x) : part();
                  const A den = r.chance(60) ? sub(p, q) : add(mul(mkInt(r.range(-5, 5)), p), q), num = r.chance(50) ? sub(g.leaf(), p) : add(g.leaf(), g.leaf());
                  c.e.push_back(r.chance(50) ? div(num, den) : sub(div(num, den), div(g.leaf(), mul(g.leaf(), den))));
                  c.n.push_back(prog::code(prog::NUMDEN, static_cast<int>(c.e.size()) - 1, 0, 63));
              }
              c.s.push_back(std::to_string(r.chance(60) ? r.range(2, 10) : 0));
              return c;
          },
          [](const Case& c) {
              if (c.s.size() > 1) {
                  const std::string a = lines(prog::independent(c, prog::orderOf(c, 0)));
                  for (int k = 0; k < 4; ++k) {
                      const auto b = k == 0 ? std::optional<std::string>("+" + lines(prog::independent(c, prog::orderOf(c, 1)))) : inFreshProcess("independent", std::to_string(k%3) + c.str());
                      if (!b) return skipped("no result from the fresh process");
                      if ((*b)[0] == 'X') return violated("exception in a fresh process: " + *b);
                      std::istringstream x(a), y(b->substr(1));
                      std::string l, m;
                      while (std::getline(x, l) && std::getline(y, m)) if (l != m) return violated("a result depends on former calls: " + l + " instead of " + m);
                      count("sets of calls performed in another order");
                  }
                  countSteps(c);
                  observed(gen::hashStr(a));
                  if (c.n.size() >= 3) nontrivial();
                  return held();
              }
              const auto warm = prog::run(c, true);
              if (!warm.modified.empty()) return violated("an operand was changed: " + warm.modified);
              const auto again = prog::run(c, false);
              const std::string a = joined(warm), b = joined(again);
              if (a.find("tmp#") != std::string::npos && std::none_of(c.n.begin(), c.n.end(), [](long long n) { return n%64 == prog::CONSTRUCT; })) return violated("temporary symbol in a result: " + a);
              for (size_t k = 0; k < warm.transcript.size(); ++k) if (k >= again.transcript.size() || warm.transcript[k] != again.transcript[k]) return violated("the same calls have different results the second time: " + warm.transcript[k] + " and " + (k < again.transcript.size() ? again.transcript[k] : "nothing"));
              const auto fresh = inFreshProcess("transcript", c.str());
              if (!fresh) return skipped("no result from the fresh process");
              if ((*fresh)[0] == 'X') return violated("exception in a fresh process: " + *fresh);
              auto differs = [&](const std::string& u) {
                  std::istringstream x(u), y(fresh->substr(1));
                  std::string l, m;
                  while (std::getline(x, l) && std::getline(y, m) && l == m) {}
                  return violated("the result depends on the history of the process: " + l + " instead of " + m);
              };
              if (fresh->substr(1) != a) return differs(a);
              if (!c.s.empty() && atoi(c.s[0].c_str()) > 0) {
                  const auto later = inFreshProcess("transcript later", c.str());
                  if (!later) return skipped("no result from the fresh process");
                  count("replayed after a few other calls");
                  if (*later != *fresh) return differs(later->substr(1));
              }
              countSteps(c);
              observed(gen::hashStr(a));
              if (warm.performed >= 3) nontrivial();
              return held();
          },
          20000, 400000, 200, 3, false, 100, true});

        // -- C17 ------------------------------------------------------------------------------------
        struct Recorder : tsym::Logger {
            std::vector<LogEvent>& ev;
            int& alive;
            Recorder(std::vector<LogEvent>& e, int& a) : ev(e), alive(a) { ++alive; }
            ~Recorder() override { --alive; }
            void on(int l, const Message& m) const { ev.push_back({l, m.ident, m.file, m.payload, m.line}); }
            void debug(const Message& m) const override { on(0, m); }
            void info(const Message& m) const override { on(1, m); }
            void warning(const Message& m) const override { on(2, m); }
            void error(const Message& m) const override { on(3, m); }
            void critical(const Message& m) const override { on(4, m); }
        };
        struct Muted : tsym::Logger {
            void warning(const Message&) const override {}
            void error(const Message&) const override {}
            void critical(const Message&) const override {}
        };
        // what is written to the file descriptors 1 and 2 by f
        std::string written(const std::function<void()>& f)
        {
            std::cout.flush();
            std::cerr.flush();
            fflush(nullptr);
            const int mem = memfd_create("out", 0), o1 = dup(1), o2 = dup(2);
            dup2(mem, 1);
            dup2(mem, 2);
            try { f(); } catch (...) { dup2(o1, 1); dup2(o2, 2); close(o1); close(o2); close(mem); throw; }
            std::cout.flush();
            std::cerr.flush();
            fflush(nullptr);
            dup2(o1, 1);
            dup2(o2, 2);
            std::string s(static_cast<size_t>(lseek(mem, 0, SEEK_END)), 0);
            lseek(mem, 0, SEEK_SET);
            if (!s.empty() && read(mem, &s[0], s.size()) < 0) s = "?";
            close(o1); close(o2); close(mem);
            return s;
        }
        Register c17({"C17", "random histories of calls, many of them illegal (division by zero, invalid names and texts, derivatives with respect to what isn't a symbol), once with each of three loggers: a recording one, the default one and one that discards everything; file descriptors 1 and 2 are watched; non-trivial: one message at least was logged",
          [](Rng& r, uint64_t) {
              Case c = prog::make(r, 6, r.range(1, 4), true);
              for (int k = r.range(1, 3); k > 0; --k) {
                  static const std::vector<int> noisy{prog::CONSTRUCT, prog::DIFFANY, prog::GARBAGE, prog::LOG, prog::DIV, prog::CONVERT, prog::SUBSTSYM, prog::SIMPLIFY};
                  c.n.push_back(prog::code(r.pick(noisy), r.range(0, 63), r.range(0, 63), r.range(0, 63)));
              }
              return c;
          },
          [](const Case& c) {
              int alive = 0;
              std::vector<LogEvent> first, second, other;
              prog::run(c, false); // caches are filled, such that the following runs log the same
              auto rec = std::make_unique<Recorder>(first, alive);
              const tsym::Logger* ptr = rec.get();
              tsym::Logger::setInstance(std::move(rec));
              if (&tsym::Logger::getInstance() != ptr) return violated("the installed logger isn't the active one");
              auto withStream = [&](std::string& s) { // standard output is watched at both levels
                  std::ostringstream buf;
                  auto* old = std::cout.rdbuf(buf.rdbuf());
                  try { prog::run(c, false); } catch (...) { std::cout.rdbuf(old); throw; }
                  std::cout.rdbuf(old);
                  s = buf.str();
              };
              std::string s1, s2, s3, w;
              prog::Result r;
              w = written([&] { r = prog::run(c, false); });
              if (!w.empty()) return violated("written to standard output or error despite of another logger: " + w);
              tsym::Logger::setInstance(std::make_unique<Recorder>(other, alive));
              if (alive != 1) return violated("the former logger isn't released");
              const size_t n1 = first.size();
              withStream(s1);
              if (first.size() != n1) return violated("the former logger still gets messages");
              if (!s1.empty()) return violated("written to the standard output stream despite of another logger: " + s1);
              if (other.size() != n1) return violated("the same calls log " + std::to_string(n1) + " and " + std::to_string(other.size()) + " messages");
              std::string expected;
              for (auto& e : first) {
                  count(std::string("messages: ") + (e.level == 0 ? "debug" : e.level == 1 ? "info" : e.level == 2 ? "warning" : e.level == 3 ? "error" : "critical"));
                  if (e.payload.empty() || e.file.empty() || e.line <= 0 || e.ident != "tsym" || e.file.find('/') != std::string::npos) return violated("incomplete message: " + e.ident + ", " + e.file + ":" + std::to_string(e.line) + ", " + e.payload);
                  if (e.level >= 2) expected += e.payload + "\n";
                  observed(gen::hashStr(e.file + std::to_string(e.line)));
              }
              tsym::Logger::setInstance(std::make_unique<tsym::Logger>());
              if (alive != 0) return violated("the former logger isn't released");
              withStream(s2);
              if (s2 != expected) return violated("the default logger prints '" + s2 + "' instead of the warnings and errors '" + expected + "'");
              tsym::Logger::setInstance(std::make_unique<Muted>());
              withStream(s3);
              if (!s3.empty()) return violated("a logger that discards everything prints '" + s3 + "'");
              if (!first.empty()) nontrivial();
              return held();
          },
          30000, 500000, 200, 3, false, 100, true});

        // -- C18 ------------------------------------------------------------------------------------
        // bound of the degree that expansion or normalization may lead to
        double degree(const A& a)
        {
            double d = 0, sum = 0;
            for (auto& o : a->ops) { const double x = degree(o); d = std::max(d, x); sum += x; }
            switch (a->k) {
                case K::SYM: case K::PI: case K::EULER: return 1;
                case K::ADD: case K::SUB: case K::MUL: case K::DIV: return sum;
                case K::POW: { double e = a->ops[1]->k == K::INT ? std::fabs(atof(a->ops[1]->s.c_str())) : a->ops[1]->k == K::FRAC ? std::max(std::fabs(atof(a->ops[1]->s.c_str())), std::fabs(atof(a->ops[1]->t.c_str()))) : 2; return std::max(d, 1.0)*std::max(1.0, e); }
                case K::SQRT: return 2*std::max(d, 1.0);
                default: return std::max(d, 1.0);
            }
        }
        Register c18({"C18", "every public operation on small expressions of all classes (up to four inner nodes, total degree up to six); a case whose operations don't all return within 12 s of CPU time and, repeated alone, within 48 s or 4 GB of memory is a violation; non-trivial: two operations at least returned",
          [](Rng& r, uint64_t) {
              for (;;) {
                  Case c = prog::make(r, 6, r.range(1, 4), true);
                  double d = 0;
                  for (auto& e : c.e) d = std::max(d, degree(e));
                  if (d <= 6) return c;
              }
          },
          [](const Case& c) {
              const unsigned long long s = steps();
              std::vector<Var> pool;
              for (auto& e : c.e) { const Var v = tio::build(e); if (!isUndef(v)) pool.push_back(v); }
              if (pool.empty()) pool.push_back(Var("a"));
              size_t performed = 0;
              for (auto n : c.n) { // each one on the expressions as built
                  if ((n%64 == prog::SOLVE || n%64 == prog::INVERT) && n/262144%64%3 == 2) continue; // systems of dimension one and two
                  std::vector<Var> p = pool;
                  bool did = false;
                  prog::step(p, n, did);
                  performed += did;
                  if (did) count(std::string("returned: ") + prog::opName(static_cast<int>(n%64)));
              }
              const unsigned long long n = steps() - s;
              count("allocations", n);
              count(n < 1000 ? "effort below 1e3 allocations" : n < 10000 ? "effort below 1e4 allocations" : n < 100000 ? "effort below 1e5 allocations" : n < 1000000 ? "effort below 1e6 allocations" : n < 10000000 ? "effort below 1e7 allocations" : "effort above 1e7 allocations");
              if (performed >= 2) nontrivial();
              return held();
          },
          200000, 3000000, 400, 12, true, 100, true});

        // -- C21 ------------------------------------------------------------------------------------
        Register c21({"C21", "random histories of calls, repeated five times in the same process; the number of allocated blocks after the third, fourth and fifth repetition is compared; non-trivial: two calls at least were performed",
          [](Rng& r, uint64_t) { // rational functions, since caches keep temporary symbols of everything else
              Case c;
              Gen g(r, r.chance(50) ? ratfun(4) : r.chance(50) ? poly(4) : bignum(3));
              for (int i = r.range(2, 4); i > 0; --i) c.e.push_back(g.tree(r.range(0, 4)));
              for (int i = r.range(2, 8); i > 0; --i) {
                  static const std::vector<int> ops{prog::ADD, prog::SUB, prog::MUL, prog::DIV, prog::NEG, prog::EXPAND, prog::NORMAL, prog::SIMPLIFY, prog::SUBSTSYM, prog::DIFF, prog::REPARSE, prog::GARBAGE, prog::PRINT, prog::INSPECT, prog::SOLVE, prog::INVERT, prog::COMPOUND, prog::CONVERT, prog::CONSTRUCT, prog::DIFFANY, prog::NUMDEN};
                  c.n.push_back(prog::code(r.pick(ops), r.range(0, 63), r.range(0, 63), r.range(0, 63)));
              }
              return c;
          },
          [](const Case& c) {
              long long live[6];
              size_t performed = 0;
              for (int k = 0; k < 6; ++k) {
                  { const auto r = prog::run(c, false); performed = r.performed; }
                  live[k] = liveAllocations();
              }
              if (live[5] == 0) return skipped("not observable");
              count("repetitions", 6);
              if (live[5] > live[4] && live[4] > live[3] && live[3] > live[2]) return violated("memory grows with every repetition by " + std::to_string(live[5] - live[4]) + " blocks");
              if (live[5] == live[3]) count("steady");
              countSteps(c);
              if (performed >= 2) nontrivial();
              return held();
          },
          40000, 800000, 400, 2, false, 100, true});
    }
}
