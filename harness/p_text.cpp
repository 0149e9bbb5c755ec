// C09 parsing, C19 printing
#include "props.h"
#include "rd.h"

namespace mon {
    namespace {
        using namespace gen;

        // -- rendering of a reference expression as a string, with random freedom ----------------------
        struct Text {
            Rng& r;
            int spaces; // percent
            std::string sp() { if (!r.chance(spaces)) return ""; static const std::vector<const char*> v{" ", " ", " ", "  ", "\t", "\n", " \r\n"}; return r.pick(v); }
            std::string caseOf(std::string s)
            {
                if (r.chance(15)) for (auto& c : s) if (r.chance(50)) c = static_cast<char>(toupper(c));
                return s;
            }
            std::string paren(const std::string& s) { return "(" + sp() + s + sp() + ")"; }
            // level: 0 expression, 1 summand, 2 signed factor, 3 factor (base of nothing), 4 operand
            std::string go(const A& a, int level)
            {
                if (r.chance(4)) return paren(go(a, 0));
                switch (a->k) {
                    case K::INT: if (a->s[0] == '-') { const std::string t = "-" + sp() + zeros() + a->s.substr(1); return level <= 2 ? t : paren(t); } return zeros() + a->s;
                    case K::FRAC: { const std::string t = go(mkInt(a->s), 2) + sp() + "/" + sp() + go(mkInt(a->t), 2); return level <= 1 ? t : paren(t); }
                    case K::DBL: { char b[64]; snprintf(b, sizeof b, r.chance(50) ? "%.3f" : r.chance(50) ? "%.15g" : "%.6e", std::fabs(a->d)); std::string t = b; if (t.find_first_of(".e") == std::string::npos) t += "."; if (a->d < 0) { t = "-" + t; return level <= 2 ? t : paren(t); } return t; }
                    case K::SYM: return a->s.size() > 2 && a->s[1] == '_' && r.chance(30) ? a->s.substr(0, 2) + "{" + a->s.substr(2) + "}" : a->s;
                    case K::PI: return caseOf("pi");
                    case K::EULER: return caseOf("euler");
                    case K::NEG: { const std::string t = "-" + sp() + go(a->ops[0], 3); return level <= 2 ? t : paren(t); }
                    case K::ADD: case K::SUB: { const std::string t = (r.chance(5) ? "+" + sp() : "") + go(a->ops[0], r.chance(50) && (a->ops[0]->k == K::ADD || a->ops[0]->k == K::SUB) ? 1 : a->ops[0]->k == K::ADD || a->ops[0]->k == K::SUB ? plain0(a) : 1) + sp() + (a->k == K::ADD ? "+" : "-") + sp() + go(a->ops[1], 1); return level <= 0 ? t : paren(t); }
                    case K::MUL: case K::DIV: { const std::string t = go(a->ops[0], a->ops[0]->k == K::MUL || a->ops[0]->k == K::DIV ? 1 : 2) + sp() + (a->k == K::MUL ? "*" : "/") + sp() + go(a->ops[1], 2); return level <= 1 ? t : paren(t); }
                    case K::POW: { const std::string t = go(a->ops[0], 4) + sp() + "^" + sp() + go(a->ops[1], 3); return level <= 3 ? t : paren(t); }
                    case K::ATAN2: return caseOf("atan2") + sp() + "(" + sp() + go(a->ops[0], 0) + sp() + "," + sp() + go(a->ops[1], 0) + sp() + ")";
                    default: return caseOf(kname(a->k)) + sp() + "(" + sp() + go(a->ops[0], 0) + sp() + ")";
                }
            }
            int plain0(const A&) { return 1; }
            std::string zeros() { return r.chance(3) ? std::string(static_cast<size_t>(r.range(1, 3)), '0') : ""; }
        };
        std::string randomName(Rng& r)
        {
            static const std::string al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", an = al + "0123456789";
            static const std::vector<std::string> close{"pi2", "Pi_1", "eulerx", "euler_{10}", "sin", "cosh", "atan2", "atan22", "sqrt_2", "log_{e1}", "e", "E", "nan", "inf", "infinity", "e1", "tmp", "p", "eule", "epi", "alpha_1", "a_{b2c}", "asin_a", "x0"};
            if (r.chance(35)) return r.pick(close);
            std::string s(1, al[r.below(al.size())]);
            for (int k = r.range(0, 4); k > 0; --k) s += an[r.below(an.size())];
            if (r.chance(30)) s += "_" + std::string(1, an[r.below(an.size())]);
            else if (r.chance(20)) { s += "_{"; for (int k = r.range(2, 5); k > 0; --k) s += an[r.below(an.size())]; s += "}"; }
            return s;
        }
        A rename(const A& a, const std::map<std::string, std::string>& m)
        {
            auto n = std::make_shared<Node>(*a);
            if (a->k == K::SYM) { n->pos = false; if (auto it = m.find(a->s); it != m.end()) n->s = it->second; }
            for (auto& o : n->ops) o = rename(o, m);
            return n;
        }
        std::string mutate(std::string s, Rng& r)
        {
            static const std::string al = "()()+-*/^^_{}.,eE0123456789 abxPIpi\t\n;!'\"#%&=<>[]|~$@?:\\";
            for (int k = r.range(1, 3); k > 0; --k) {
                const size_t i = r.below(s.size() + 1);
                switch (r.below(7)) {
                    case 0: if (i < s.size()) s.erase(i, 1); break;
                    case 1: s.insert(i, 1, al[r.below(al.size())]); break;
                    case 2: if (i < s.size()) s[i] = al[r.below(al.size())]; break;
                    case 3: if (s.size() > 1) { const size_t n = r.below(std::min<size_t>(6, s.size() - 1)) + 1; const size_t j = r.below(s.size() - n + 1); s.insert(i, s.substr(j, n)); } break;
                    case 4: if (i + 1 < s.size()) std::swap(s[i], s[i + 1]); break;
                    case 5: if (r.chance(50)) s.resize(i); else s.erase(0, i); break;
                    default: { static const std::vector<std::string> t{"\xc3\xa4", std::string(1, '\0'), "\x80", "\xff", "\x7f", "\x01", " ", "sin", "atan2(", "1e", "1e5", ".5", "5.", "..", "--", "+-", "**", "^-", "a_", "_{1}", "pi", "()", "(+", "3!"}; s.insert(i, r.pick(t)); }
                }
            }
            return s;
        }
        // numbers that are too large to be dealt with are no matter of parsing
        bool heavy(const A& a, double& log2)
        {
            // log2: bound of the magnitude of constants below
            double m = 0, l;
            std::vector<double> ls;
            for (auto& o : a->ops) { if (heavy(o, l)) return true; ls.push_back(l); m = std::max(m, l); }
            log2 = m;
            if (a->k == K::INT) log2 = 3.4*static_cast<double>(a->s.size());
            if (a->k == K::DBL) log2 = std::max(4.0, std::log2(std::fabs(a->d) + 1));
            if (a->k == K::ADD || a->k == K::SUB) log2 = m + 1;
            if (a->k == K::MUL || a->k == K::DIV) log2 = ls[0] + ls[1];
            if (a->k == K::POW) {
                if (!isConstant(a->ops[1])) log2 = ls[0] + ls[1];
                else {
                    if (ls[1] > 9) return true;
                    log2 = (ls[0] + 1)*std::exp2(ls[1]);
                }
            }
            return log2 > 600;
        }

        Register c09({"C09", "random expressions rendered as text in random notation (white space, case, redundant parentheses and zeros, all kinds of names), texts of the same kind after one to three random edits, sequences of random tokens and deeply nested texts; non-trivial: an accepted text with an operator whose value was compared, or a rejected one that differs from an accepted one in a few characters",
          [](Rng& r, uint64_t) {
              Case c;
              const int kind = static_cast<int>(r.below(20));
              std::string s;
              if (kind == 19) { // token soup
                  static const std::vector<std::string> t{"a", "b", "x_1", "pi", "euler", "1", "2", "17", "0.5", "1e3", "3.", ".25", "+", "-", "*", "/", "^", "(", ")", "(", ")", "+", "-", "*", "sin(", "cos(", "sqrt(", "log(", "atan2(", ",", ")", ")", " ", "\t", "_", "{", "}"};
                  for (int k = r.range(1, 9); k > 0; --k) s += r.pick(t);
              } else if (kind == 18) { // deep nesting
                  const int n = r.range(2, 60);
                  s = "a";
                  for (int k = 0; k < n; ++k)
                      switch (r.below(6)) {
                          case 0: s = "-(" + s + ")"; break;
                          case 1: s = "(" + s + "+" + std::to_string(k) + ")"; break;
                          case 2: s = "sin(" + s + ")"; break;
                          default: s = "(" + s + ")";
                      }
              } else {
                  Profile p = pickProfile(r, r.range(1, 6));
                  if (r.chance(15)) p = dbls(3);
                  p.atan2 = r.chance(50);
                  Gen g(r, p);
                  A a = g.tree(r.range(0, p.size));
                  std::map<std::string, std::string> m;
                  if (r.chance(50)) for (auto& x : g.syms) m[x->s] = randomName(r);
                  Text t{r, r.chance(50) ? 0 : r.range(5, 40)};
                  s = t.go(rename(a, m), 0);
                  if (r.chance(10)) s = t.sp() + " " + s + " ";
              }
              if (kind < 9 || (kind >= 18 && r.chance(30))) s = mutate(s, r);
              c.s.push_back(s);
              c.n.push_back(kind < 9 ? 1 : 0);
              return c;
          },
          [](const Case& c) {
              const std::string& s = c.s.empty() ? std::string() : c.s[0];
              rd::Parser rp(s, false);
              const std::optional<A> want = rp.run();
              double l2 = 0;
              if (want && heavy(*want, l2)) return skipped("large numbers");
              for (auto& x : rp.powers) if (heavy(x, l2)) return skipped("large numbers");
              if (rp.extremeExponent) return skipped("decimal number out of range");
              const auto got = tsym::parse(s);
              count(want ? "texts in the grammar" : "texts not in the grammar");
              if (!want) {
                  if (got) return violated("accepted as " + tio::ascii(*got) + " although it is malformed: " + s);
                  if (c.n[0] == 1) nontrivial();
                  return held();
              }
              if (!got) return violated("rejected, although it is well-formed: " + s);
              // independent of what was parsed before
              if (salt(c)%6 == 0) {
              const auto bad = tsym::parse("(" + s), other = tsym::parse("1+(2*b)"), again = tsym::parse(s);
              if (bad) return violated("accepted with an additional opening parenthesis: " + s);
              if (!other || tio::ascii(*other) != "1 + 2*b") return violated("parsing depends on what was parsed before");
              if (!again || (!isUndef(*got) && !(*again == *got)) || tio::ascii(*again) != tio::ascii(*got)) return violated("parsing twice gives different results: " + s);
              count("texts parsed again after others");
              }
              const A& a = *want;
              std::map<std::string, bool> have;
              symbols(a, have);
              for (auto& x : tsym::collectSymbols(*got)) {
                  if (tsym::isPositive(x)) return violated("a parsed symbol is positive: " + s);
                  if (!have.count(tsym::name(x))) return violated("symbol " + tsym::name(x) + " in the result of parsing " + s);
              }
              if (a->ops.empty()) {
                  count("single tokens");
                  if (a->k == K::SYM && (got->type() != Var::Type::SYMBOL || tsym::name(*got) != a->s || *got != Var(a->s))) return violated("the symbol " + s + " is parsed as " + tio::ascii(*got));
                  if (a->k == K::INT && (got->type() != Var::Type::INT || tio::ascii(*got) != a->s)) return violated("the integer " + s + " is parsed as " + tio::ascii(*got));
                  if ((a->k == K::PI || a->k == K::EULER) && got->type() != Var::Type::CONSTANT) return violated("the constant " + s + " is parsed as " + tio::ascii(*got));
                  if (a->k == K::DBL && a->d > 1e-6) { const double d = static_cast<double>(*got); if (!(std::fabs(d - a->d) <= 1e-10*std::max(1.0, a->d))) return violated("the number " + s + " is parsed as " + std::to_string(d)); }
                  return held();
              }
              if (any(a, [](const Node& n) { return n.k == K::DBL && !(n.d > 1e-2 && n.d < 1e2); })) return skipped("tiny or large floating point number");
              // the same as built with the operators: any deviation of the value isn't one of the parser
              const Var built = tio::build(a);
              if (isUndef(built) != isUndef(*got)) return violated(s + " is parsed as " + tio::ascii(*got) + ", not " + tio::ascii(built));
              if (!isUndef(built) && *got == built) { count("equal to the constructed expression"); nontrivial(); return held(); }
              if (isUndef(built)) return held();
              if (sameValue(a, built, salt(c), "").st == Verdict::VIOLATED) return skipped("construction already wrong");
              Verdict v = sameValue(a, *got, salt(c), s + " is parsed as " + tio::ascii(*got));
              if (v.st == Verdict::KNOWN) return held();
              if (v.st == Verdict::HELD) nontrivial();
              return v;
          },
          1000000, 20000000});

        // -- C19 ------------------------------------------------------------------------------------
        // Monitor of the event protocol; renders events in extended notation for rd::Parser
        struct Recorder : tsym::PrintEngine {
            std::string out, trace, error;
            std::vector<std::string> open;
            bool numeratorClosed = false;
            uint64_t events = 0;
            void ev(const std::string& e) { ++events; trace += e + " "; if (numeratorClosed && e.compare(0, 2, "D(") != 0) fail("numerator without denominator"); numeratorClosed = false; }
            void fail(const std::string& e) { if (error.empty()) error = e; }
            void push(const std::string& k) { open.push_back(k); }
            void pop(const std::string& k) { if (open.empty() || open.back() != k) fail("closing " + k + " doesn't match"); else open.pop_back(); }
            static std::string full(std::string_view n, std::string_view sub, std::string_view super)
            {
                std::string s(n);
                auto app = [&](char c, std::string_view t) { if (t.empty()) return; s += c; if (t.size() == 1) s += t; else s += "{" + std::string(t) + "}"; };
                app('_', sub);
                app('^', super);
                return s;
            }
            PrintEngine& symbol(std::string_view n, std::string_view sub, std::string_view super) override { const std::string f = full(n, sub, super); ev("s:" + f); out += f == "pi" ? "pi" : f == "e" ? "euler" : "`" + f + "`"; return *this; }
            PrintEngine& positiveSymbol(std::string_view n, std::string_view sub, std::string_view super) override { const std::string f = full(n, sub, super); ev("p:" + f); out += "`+" + f + "`"; return *this; }
            PrintEngine& functionName(std::string_view n) override { ev("f:" + std::string(n)); out += std::string(n); return *this; }
            PrintEngine& floatingPoint(double n) override { ev("d"); out += (n < 0 ? "-" : "") + std::string("`#") + hexDouble(std::fabs(n)) + "`"; return *this; }
            PrintEngine& integer(long long n) override { ev("i:" + std::to_string(n)); out += std::to_string(n); return *this; }
            PrintEngine& integer(std::string_view n) override
            {
                ev("i:" + std::string(n));
                for (size_t i = 0; i < n.size(); ++i) if (!(isdigit(static_cast<unsigned char>(n[i])) || (i == 0 && n[i] == '-' && n.size() > 1))) fail("integer with the digits " + std::string(n));
                if (n.empty()) fail("integer without digits");
                out += n;
                return *this;
            }
            PrintEngine& undefined() override { ev("u"); out += "?"; return *this; }
            PrintEngine& plusSign() override { ev("+"); out += "+"; return *this; }
            PrintEngine& minusSign() override { ev("-"); out += "-"; return *this; }
            PrintEngine& unaryMinusSign() override { ev("u-"); out += "-"; return *this; }
            PrintEngine& timesSign() override { ev("*"); out += "*"; return *this; }
            PrintEngine& divisionSign() override { ev("/"); out += "/"; return *this; }
            PrintEngine& comma() override { ev(","); out += ","; return *this; }
            // a fraction, an exponent and a radicand are delimited by the events, whatever is inside
            PrintEngine& openNumerator(bool b) override { ev("N("); push(b ? "numerator+" : "numerator"); out += "(("; return *this; }
            PrintEngine& closeNumerator(bool b) override { ev("N)"); pop(b ? "numerator+" : "numerator"); out += ")"; numeratorClosed = true; return *this; }
            PrintEngine& openDenominator(bool b) override { const bool n = numeratorClosed; ev("D("); if (!n) fail("denominator without numerator"); push(b ? "denominator+" : "denominator"); out += "/("; return *this; }
            PrintEngine& closeDenominator(bool b) override { ev("D)"); pop(b ? "denominator+" : "denominator"); out += "))"; return *this; }
            PrintEngine& openScalarExponent() override { ev("^("); push("scalar exponent"); out += "^("; return *this; }
            PrintEngine& closeScalarExponent() override { ev("^)"); pop("scalar exponent"); out += ")"; return *this; }
            PrintEngine& openCompositeExponent() override { ev("^{"); push("exponent"); out += "^("; return *this; }
            PrintEngine& closeCompositeExponent() override { ev("^}"); pop("exponent"); out += ")"; return *this; }
            PrintEngine& openSquareRoot() override { ev("r("); push("root"); out += "sqrt("; return *this; }
            PrintEngine& closeSquareRoot() override { ev("r)"); pop("root"); out += ")"; return *this; }
            PrintEngine& openParentheses() override { ev("("); push("parenthesis"); out += "("; return *this; }
            PrintEngine& closeParentheses() override { ev(")"); pop("parenthesis"); out += ")"; return *this; }
        };
        std::string unicodeText(const Var& v)
        {
            std::ostringstream s;
            tsym::PlaintextPrintEngine e(s);
            tsym::print(e, v);
            return s.str();
        }
        // greek letters back to their names
        std::string latin(const std::string& s)
        {
            static const char* n[] = {"alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "kappa", "lambda", "my", "ny", "xi", "omikron", "pi", "rho", nullptr, "sigma", "tau", "ypsilon", "phi", "chi", "psi", "omega"};
            std::string r;
            for (size_t i = 0; i < s.size(); ++i) {
                const auto c = static_cast<unsigned char>(s[i]);
                if (c < 128 || i + 1 >= s.size()) { r += s[i]; continue; }
                const unsigned cp = (c & 0x1fu) << 6 | (static_cast<unsigned char>(s[++i]) & 0x3fu);
                const bool lower = cp >= 0x3b1;
                const unsigned k = cp - (lower ? 0x3b1 : 0x391);
                if (k >= 25 || !n[k]) { r += "?"; continue; }
                std::string w = n[k];
                if (!lower) w[0] = static_cast<char>(toupper(w[0]));
                r += w;
            }
            return r;
        }
        A plainSymbols(const A& a) { return rename(a, {}); }

        Register c19({"C19", "expressions of all classes with plain, positive, greek and subscripted symbols, printed to a recording engine, to ASCII and to Unicode; the recorded events and both texts are interpreted independently and compared by value, the ASCII text is parsed again by the library; non-trivial: an expression with three nodes at least whose interpretations were compared at one point at least",
          [](Rng& r, uint64_t) {
              Case c;
              Profile p = pickProfile(r, r.range(1, 7));
              if (r.chance(12)) p = dbls(4);
              p.atan2 = true;
              Gen g(r, p);
              A a = g.tree(r.range(0, p.size));
              if (r.chance(30)) { // other names
                  static const std::vector<std::string> n{"beta", "Gamma_2", "alpha_{12}", "my", "ny_1", "Omega", "phi", "xi_{ab}", "Delta", "u_{12}", "lambda_3", "epsilon", "Sigma", "sigma_1", "rho", "omikron", "Ypsilon", "chi", "psi_0", "tau", "zeta", "eta", "theta", "iota", "kappa", "Pi", "alphabet", "gamm", "piX", "A_b"};
                  std::map<std::string, std::string> m;
                  for (auto& x : g.syms) m[x->s] = r.pick(n);
                  std::function<A(const A&)> re = [&](const A& x) { auto y = std::make_shared<Node>(*x); if (x->k == K::SYM) y->s = m[x->s]; for (auto& o : y->ops) o = re(o); return A(y); };
                  a = re(a);
              }
              c.e.push_back(a);
              c.n.push_back(static_cast<long long>(r.below(3)));
              return c;
          },
          [](const Case& c) {
              Var v = tio::build(c.e[0]);
              if (c.n[0] == 1) v = tsym::expand(v);
              const A a = tio::toAst(v);
              Recorder rec;
              tsym::print(rec, v);
              count("print events", rec.events);
              observed(gen::hashStr(rec.trace));
              const std::string text = tio::ascii(v), what = ref::str(a);
              if (!rec.error.empty()) return violated(what + " is printed with inconsistent events: " + rec.error + ": " + rec.trace);
              if (!rec.open.empty() || rec.numeratorClosed) return violated(what + ": " + (rec.open.empty() ? "denominator" : rec.open.back()) + " isn't closed: " + rec.trace);
              const std::string uni = unicodeText(v);
              if (tio::stream(v) != uni) return violated(what + ": streamed as " + tio::stream(v) + ", but printed as " + uni);
              if (tio::ascii(v) != text) return violated(what + ": printing twice gives different texts");
              for (unsigned char ch : text) if (ch >= 128) return violated("ASCII text with other characters for " + what);
              if (latin(uni) != text) return violated("Unicode text " + uni + " doesn't match the ASCII text " + text);
              if (a->k == K::UNDEF) return text == "Undefined" && rec.trace == "u " ? held() : violated("Undefined is printed as " + text);
              const auto fromEvents = rd::Parser(rec.out, true).run();
              if (!fromEvents) return violated(what + ": the events " + rec.trace + "make no expression");
              std::map<std::string, bool> x, y;
              symbols(a, x);
              symbols(*fromEvents, y);
              if (x != y) return violated(what + ": the printed symbols differ from those of the expression: " + rec.trace);
              const bool dbl = hasDouble(a);
              const Q tol = dbl ? 1e-9Q : 1e-15Q;
              Agreement g = agree(a, *fromEvents, salt(c), tol);
              if (g.mismatch) return violated(what + " is printed with the events " + rec.trace + ": " + g.detail);
              if (g.refOk && g.lost == g.refOk) return violated(what + " is printed with the events " + rec.trace + " which have no real value");
              if (any(a, [](const Node& n) { return n.k == K::EULER; })) { count("euler, printed as e"); if (g.compared && size(a) >= 3) nontrivial(); return held(); }
              const A flat = plainSymbols(a);
              const auto fromText = rd::Parser(text, false).run();
              if (!fromText) return violated(what + " is printed as " + text + " which isn't well-formed");
              if (!dbl) {
                  g = agree(flat, *fromText, salt(c), tol);
                  if (g.mismatch) return violated(what + " is printed as " + text + ": " + g.detail);
                  if (g.refOk && g.lost == g.refOk) return violated(what + " is printed as " + text + " which has no real value");
                  if (g.refOk) count("texts compared by value");
                  const auto again = tsym::parse(text);
                  if (!again) return violated(what + " is printed as " + text + " which the library doesn't parse");
                  bool rational = true, positive = false;
                  rational = !any(a, [](const Node& n) { return !(n.k == K::INT || n.k == K::FRAC || n.k == K::SYM || n.k == K::ADD || n.k == K::MUL || (n.k == K::POW && n.ops[1]->k == K::INT)); });
                  positive = any(a, [](const Node& n) { return n.k == K::SYM && n.pos; });
                  const bool nested = any(a, [](const Node& n) { if (n.k == K::MUL) for (auto& o : n.ops) if (o->k == K::ADD || (o->k == K::POW && o->ops[0]->k == K::ADD)) return true; return false; });
                  if (rational && !positive && !nested) {
                      count("round trips by equality");
                      if (*again != v) return violated(text + " is parsed as " + tio::ascii(*again) + ", which isn't equal to what was printed");
                  } else {
                      const A b = tio::toAst(*again);
                      g = agree(flat, b, salt(c) + 1, tol);
                      if (g.mismatch && !any(a, [](const Node& n) { return n.k == K::ATAN2; })) return violated(text + " is parsed as " + tio::ascii(*again) + ": " + g.detail);
                      count("round trips by value");
                  }
              }
              if (g.compared && size(a) >= 3) nontrivial();
              return g.compared ? held() : skipped("no comparable point");
          },
          400000, 8000000, 400, 2});
    }
}
