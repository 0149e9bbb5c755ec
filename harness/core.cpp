#include "core.h"
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <new>

#if defined(__SANITIZE_ADDRESS__)
#define MON_SAN 1
#else
#define MON_SAN 0
#endif

namespace {
    unsigned long long g_steps = 0;
    long long g_live = 0;
}

#if !MON_SAN
void* operator new(std::size_t n) { ++g_steps; ++g_live; if (void* p = malloc(n ? n : 1)) return p; _exit(98); }
void* operator new[](std::size_t n) { ++g_steps; ++g_live; if (void* p = malloc(n ? n : 1)) return p; _exit(98); }
void operator delete(void* p) noexcept { if (p) --g_live; free(p); }
void operator delete[](void* p) noexcept { if (p) --g_live; free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) --g_live; free(p); }
void operator delete[](void* p, std::size_t) noexcept { if (p) --g_live; free(p); }
#endif

namespace mon {
    unsigned long long steps() { return g_steps; }
    long long liveAllocations() { return g_live; }

    // -- case serialisation -------------------------------------------------------------------------
    static std::string esc(const std::string& s)
    {
        std::string r;
        for (unsigned char c : s) { char b[8]; if (c == '\\' || c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += static_cast<char>(c); }
        return r;
    }
    static std::string unesc(const std::string& s)
    {
        std::string r;
        for (size_t i = 0; i < s.size(); ++i)
            if (s[i] == '\\' && i + 3 < s.size() + 0 && s[i + 1] == 'x') { r += static_cast<char>(strtol(s.substr(i + 2, 2).c_str(), nullptr, 16)); i += 3; }
            else r += s[i];
        return r;
    }
    std::string Case::str() const
    {
        std::string r;
        for (auto& x : e) r += "e " + ref::str(x) + "\n";
        for (auto& x : s) r += "s " + esc(x) + "\n";
        for (auto x : n) r += "n " + std::to_string(x) + "\n";
        return r;
    }
    Case Case::parse(const std::string& t)
    {
        Case c;
        std::istringstream in(t);
        std::string l;
        while (std::getline(in, l)) {
            if (l.size() < 1 || l[0] == '#') continue;
            const std::string r = l.size() > 2 ? l.substr(2) : "";
            if (l[0] == 'e') c.e.push_back(parseA(r));
            else if (l[0] == 's') c.s.push_back(unesc(r));
            else if (l[0] == 'n') c.n.push_back(atoll(r.c_str()));
        }
        return c;
    }

    // -- shared observation memory ------------------------------------------------------------------
    constexpr size_t nCounters = 256, nSamples = 12, sampleLen = 600, setSize = 1u << 23;
    struct Slot {
        std::atomic<uint64_t> current; // case index under way
        std::atomic<int> stage;        // 0 idle, 1 generating, 2 checking, 3 watchdog fired
        std::atomic<uint64_t> lastEnd;
        char pad[64];
        struct { char name[64]; uint64_t v; } c[nCounters];
        char samples[nSamples][sampleLen];
        unsigned ns;
    };
    struct Shared {
        std::atomic<uint64_t> nViol;
        std::atomic<uint64_t> set[setSize], obs[setSize];
        Slot slot[64];
    };
    static Shared* sh = nullptr;
    static Slot local; // fallback
    static Slot* me = &local;
    static bool g_thorough = false;
    static bool curNontrivial = false;
    static uint64_t runSeed = 1;

    bool thorough() { return g_thorough; }
    void count(const char* name, uint64_t n)
    {
        for (auto& c : me->c) {
            if (c.name[0] == 0) { strncpy(c.name, name, sizeof c.name - 1); c.v = n; return; }
            if (!strncmp(c.name, name, sizeof c.name - 1)) { c.v += n; return; }
        }
    }
    void count(const std::string& name, uint64_t n) { count(name.c_str(), n); }
    void nontrivial() { curNontrivial = true; }
    void sample(const std::string& text)
    {
        if (me->ns >= nSamples) return;
        strncpy(me->samples[me->ns], text.c_str(), sampleLen - 1);
        ++me->ns;
    }
    static bool insert(std::atomic<uint64_t>* set, uint64_t h)
    {
        if (!sh) return true;
        if (h == 0) h = 1;
        for (size_t i = h%setSize, k = 0; k < 64; i = (i + 1)%setSize, ++k) {
            uint64_t old = 0;
            if (set[i].compare_exchange_strong(old, h)) return true;
            if (old == h) return false;
        }
        return false;
    }
    void observed(uint64_t h) { if (sh && insert(sh->obs, h)) count("distinct_observations"); }

    static void onProf(int) { me->stage = 3; _exit(97); }
    void watchdog(double s)
    {
        itimerval t{};
        t.it_value.tv_sec = static_cast<long>(s);
        t.it_value.tv_usec = static_cast<long>((s - static_cast<double>(static_cast<long>(s)))*1e6);
        setitimer(ITIMER_PROF, &t, nullptr);
    }

    std::vector<Property>& registry() { static std::vector<Property> r; return r; }
    const Property& find(const std::string& id)
    {
        for (auto& p : registry()) if (p.id == id) return p;
        throw std::runtime_error("unknown property " + id);
    }
    std::map<std::string, Task>& tasks() { static std::map<std::string, Task> t; return t; }

    // -- logger monitor -----------------------------------------------------------------------------
    static std::vector<LogEvent>* logTarget = nullptr;
    std::vector<LogEvent>* captureLog(std::vector<LogEvent>* t) { auto o = logTarget; logTarget = t; return o; }
    namespace {
        struct MonLogger : tsym::Logger {
            void on(int l, const Message& m) const { if (logTarget) logTarget->push_back({l, m.ident, m.file, m.payload, m.line}); }
            void debug(const Message& m) const override { on(0, m); }
            void info(const Message& m) const override { on(1, m); }
            void warning(const Message& m) const override { on(2, m); }
            void error(const Message& m) const override { on(3, m); }
            void critical(const Message& m) const override { on(4, m); }
        };
    }

    // -- zygote: a process that never touches the library and forks pristine children ---------------
    static int zin = -1, zout = -1;
    static bool readAll(int fd, void* p, size_t n)
    {
        auto c = static_cast<char*>(p);
        while (n) { ssize_t r = read(fd, c, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; c += r; n -= static_cast<size_t>(r); }
        return true;
    }
    static bool writeAll(int fd, const void* p, size_t n)
    {
        auto c = static_cast<const char*>(p);
        while (n) { ssize_t r = write(fd, c, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; c += r; n -= static_cast<size_t>(r); }
        return true;
    }
    static bool readStr(int fd, std::string& s) { uint32_t n; if (!readAll(fd, &n, 4)) return false; s.resize(n); return readAll(fd, &s[0], n); }
    static bool writeStr(int fd, const std::string& s) { uint32_t n = static_cast<uint32_t>(s.size()); return writeAll(fd, &n, 4) && writeAll(fd, s.data(), n); }
    static void startZygote()
    {
        int a[2], b[2];
        if (pipe(a) || pipe(b)) return;
        pid_t p = fork();
        if (p == 0) {
            close(a[1]); close(b[0]);
            signal(SIGCHLD, SIG_DFL);
            std::string t, pl;
            while (readStr(a[0], t) && readStr(a[0], pl)) {
                int c[2];
                if (pipe(c)) _exit(1);
                pid_t k = fork();
                if (k == 0) {
                    close(c[0]);
                    watchdog(30);
                    std::string r;
                    try { tsym::Logger::setInstance(std::make_unique<MonLogger>()); r = "R" + tasks().at(t)(pl); } catch (std::exception& e) { r = std::string("X") + e.what(); }
                    writeStr(c[1], r);
                    _exit(0);
                }
                close(c[1]);
                std::string r;
                if (!readStr(c[0], r)) r = "F";
                close(c[0]);
                int st;
                waitpid(k, &st, 0);
                if (!writeStr(b[1], r)) break;
            }
            _exit(0);
        }
        close(a[0]); close(b[1]);
        zin = b[0]; zout = a[1];
    }
    std::optional<std::string> inFreshProcess(const std::string& task, const std::string& payload)
    {
        if (zout < 0) startZygote(); // single-case mode: the caller asks before using the library
        std::string r;
        if (!writeStr(zout, task) || !writeStr(zout, payload) || !readStr(zin, r)) return std::nullopt;
        if (r.empty() || r[0] == 'F') return std::nullopt;
        return r;
    }

    // -- execution of cases -------------------------------------------------------------------------
    static uint64_t caseSeed(const std::string& id, uint64_t seed, uint64_t i) { return gen::mix(gen::mix(seed, gen::hashStr(id)), i); }
    static Case makeCase(const Property& p, uint64_t seed, uint64_t i) { Rng r(caseSeed(p.id, seed, i)); return p.make(r, i); }

    static Verdict runCheck(const Property& p, const Case& c)
    {
        try { return p.check(c); }
        catch (tio::Malformed& e) { return violated(std::string("malformed expression: ") + e.what()); }
        catch (std::exception& e) { return violated(std::string("unexpected exception: ") + e.what()); }
    }
    static void childSetup(bool quietStderr, const std::string& errFile)
    {
        signal(SIGPROF, onProf);
#if !MON_SAN
        rlimit l{4ULL << 30, 4ULL << 30};
        setrlimit(RLIMIT_AS, &l);
#endif
        rlimit core{0, 0};
        setrlimit(RLIMIT_CORE, &core);
        if (quietStderr) {
            int fd = open(errFile.empty() ? "/dev/null" : errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0) { dup2(fd, 2); close(fd); }
        }
        int nul = open("/dev/null", O_WRONLY);
        if (nul >= 0) { dup2(nul, 1); close(nul); }
        tsym::Logger::setInstance(std::make_unique<MonLogger>());
    }

    enum { X_HELD = 0, X_VIOL = 10, X_KNOWN = 11, X_SKIP = 12, X_TIMEOUT = 97, X_MEM = 98 };

    // Runs one case in a fresh child. Returns exit code or 1000+signal; message via file
    static int isolated(const Property& p, const Case& c, double cpu, std::string& msg)
    {
        char tmp[] = "/tmp/tsymmon.XXXXXX";
        int fd = mkstemp(tmp);
        std::string err = std::string(tmp) + ".err";
        pid_t k = fork();
        if (k == 0) {
            zin = zout = -1;
            childSetup(true, err);
            if (p.id == "C15") startZygote();
            watchdog(cpu);
            const Verdict v = runCheck(p, c);
            const std::string m = v.sig + "\t" + v.msg;
            writeAll(fd, m.data(), m.size());
            _exit(v.st == Verdict::HELD ? X_HELD : v.st == Verdict::VIOLATED ? X_VIOL : v.st == Verdict::KNOWN ? X_KNOWN : X_SKIP);
        }
        int st = 0;
        waitpid(k, &st, 0);
        std::ifstream in(tmp);
        std::stringstream b;
        b << in.rdbuf();
        msg = b.str();
        int rc = WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st);
        if (WIFSIGNALED(st) || (rc != X_HELD && rc != X_VIOL && rc != X_KNOWN && rc != X_SKIP && rc != X_TIMEOUT && rc != X_MEM)) {
            std::ifstream ein(err);
            std::string l, keep;
            int n = 0;
            while (std::getline(ein, l) && n < 400) {
                ++n;
                if (l.find("ssertion") != std::string::npos || l.find("ERROR: ") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("what()") != std::string::npos) keep += l.substr(0, 300) + " | ";
                else if (l.find("    #") == 0 && l.find("/src/") != std::string::npos && keep.size() < 1200) keep += l.substr(0, 200) + " | ";
            }
            msg = "\tprocess died (" + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(rc)) + ") " + keep;
        }
        close(fd);
        unlink(tmp);
        unlink(err.c_str());
        return rc;
    }
    static bool isCrash(int rc) { return rc >= 1000 || !(rc == X_HELD || rc == X_VIOL || rc == X_KNOWN || rc == X_SKIP || rc == X_TIMEOUT || rc == X_MEM); }

    // -- shrinking ----------------------------------------------------------------------------------
    static void variants(const A& a, std::vector<A>& out, const std::function<A(const A&)>& wrap)
    {
        for (auto& o : a->ops) out.push_back(wrap(o));
        if (!a->ops.empty() || (a->k == K::INT && a->s.size() > 1) || a->k == K::FRAC || a->k == K::DBL) {
            out.push_back(wrap(mkInt(1)));
            out.push_back(wrap(mkInt(2)));
            if (!a->ops.empty()) out.push_back(wrap(mkSym("a", false)));
        }
        if (a->k == K::INT && a->s.size() > 3) out.push_back(wrap(mkInt(a->s.substr(0, a->s.size()/2))));
        for (size_t i = 0; i < a->ops.size(); ++i) {
            if ((a->k == K::SUBST || a->k == K::DIFF) && i == 1) continue;
            variants(a->ops[i], out, [&, i](const A& x) { auto n = std::make_shared<Node>(*a); n->ops[i] = x; return wrap(n); });
        }
        if (a->k == K::ADD || a->k == K::MUL)
            if (a->ops.size() > 2)
                for (size_t i = 0; i < a->ops.size(); ++i) { auto n = std::make_shared<Node>(*a); n->ops.erase(n->ops.begin() + static_cast<long>(i)); out.push_back(wrap(n)); }
    }
    static size_t weight(const Case& c)
    {
        size_t w = 0;
        for (auto& e : c.e) w += 20*size(e) + ref::str(e).size();
        for (auto& s : c.s) w += 5*s.size() + 3;
        return w + 10*c.n.size();
    }
    static Case shrink(const Property& p, Case c, int rc, int budget, double cpu)
    {
        bool again = true;
        while (again && budget > 0) {
            again = false;
            std::vector<Case> cand;
            for (size_t i = 0; i < c.e.size(); ++i) {
                std::vector<A> v;
                variants(c.e[i], v, [](const A& x) { return x; });
                for (auto& x : v) { Case d = c; d.e[i] = x; cand.push_back(d); }
            }
            if (p.shrinkSteps) for (size_t i = 0; i < c.n.size(); ++i) { Case d = c; d.n.erase(d.n.begin() + static_cast<long>(i)); cand.push_back(d); }
            for (size_t i = 0; i < c.s.size(); ++i) {
                const auto& s = c.s[i];
                for (size_t len = std::max<size_t>(1, s.size()/2); len >= 1; len /= 2)
                    for (size_t at = 0; at + len <= s.size(); at += len) { Case d = c; d.s[i].erase(at, len); cand.push_back(d); }
            }
            std::stable_sort(cand.begin(), cand.end(), [](const Case& x, const Case& y) { return weight(x) < weight(y); });
            const size_t w = weight(c);
            for (auto& d : cand) {
                if (weight(d) >= w) break;
                if (--budget <= 0) break;
                std::string m;
                int r = X_SKIP;
                try { r = isolated(p, d, cpu, m); } catch (...) {}
                if (r == rc || (isCrash(r) && isCrash(rc))) { c = d; again = true; break; }
            }
        }
        return c;
    }

    static std::string jesc(const std::string& s)
    {
        std::string r;
        for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); } else if (c == '\n') r += "\\n"; else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += static_cast<char>(c); }
        return r;
    }

    struct Finding { uint64_t index, first; int rc; std::string sig, msg; };

    static int runCampaign(const Property& p, uint64_t seed, uint64_t n, int jobs, const std::string& out)
    {
        sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (sh == MAP_FAILED) { std::cerr << "mmap failed\n"; return 2; }
        runSeed = seed;
        const auto t0 = std::chrono::steady_clock::now();

        struct Job { pid_t pid = 0; uint64_t from, to; };
        std::vector<Job> job(static_cast<size_t>(jobs));
        std::vector<std::pair<uint64_t, uint64_t>> todo; // ranges, processed from the back
        for (uint64_t i = 0; i < n; i += p.chunk) todo.push_back({i, std::min(n, i + p.chunk)});
        std::reverse(todo.begin(), todo.end());
        std::vector<Finding> crashes;
        std::vector<uint64_t> inconclusive;
        uint64_t chunks = 0;

        auto spawn = [&](size_t w) {
            auto [from, to] = todo.back();
            todo.pop_back();
            ++chunks;
            pid_t k = fork();
            if (k == 0) {
                me = &sh->slot[w];
                if (p.id == "C15") startZygote();
                childSetup(true, "");
                std::ofstream log(out + "/w" + std::to_string(w) + ".log", std::ios::app);
                for (uint64_t i = from; i < to; ++i) {
                    me->current = i;
                    me->stage = 1;
                    const Case c = makeCase(p, seed, i);
                    curNontrivial = false;
                    me->stage = 2;
                    watchdog(p.cpu);
                    const Verdict v = runCheck(p, c);
                    watchdog(0);
                    me->stage = 0;
                    count("evaluations");
                    if (v.st == Verdict::SKIPPED) count("skipped: " + v.sig);
                    if (v.st == Verdict::HELD || v.st == Verdict::KNOWN) {
                        if (v.st == Verdict::HELD) count("held"); else count("known: " + v.sig);
                        if (curNontrivial) {
                            count("nontrivial");
                            const std::string s = c.str();
                            if (insert(sh->set, gen::hashStr(s))) { count("distinct_nontrivial"); if (me->ns < 2) sample(s); }
                        }
                    }
                    if (v.st == Verdict::VIOLATED || v.st == Verdict::KNOWN) {
                        if (v.st == Verdict::VIOLATED) ++sh->nViol;
                        std::string m = v.msg;
                        for (auto& ch : m) if (ch == '\n' || ch == '\t') ch = ' ';
                        log << (v.st == Verdict::VIOLATED ? "V" : "K") << "\t" << i << "\t" << from << "\t" << v.sig << "\t" << m << std::endl;
                    }
                    if (sh->nViol > 12) break;
                }
                log.flush();
                _exit(0);
            }
            job[w].pid = k;
            job[w].from = from;
            job[w].to = to;
        };

        for (int w = 0; w < jobs; ++w) std::ofstream(out + "/w" + std::to_string(w) + ".log", std::ios::trunc);

        size_t running = 0;
        for (size_t w = 0; w < job.size() && !todo.empty(); ++w) { spawn(w); ++running; }
        while (running) {
            int st = 0;
            pid_t k = waitpid(-1, &st, 0);
            if (k < 0) break;
            for (size_t w = 0; w < job.size(); ++w) {
                if (job[w].pid != k) continue;
                job[w].pid = 0;
                --running;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                    const uint64_t i = sh->slot[w].current;
                    const int rc = WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st);
                    if (rc == X_TIMEOUT || rc == X_MEM || rc == 1000 + SIGKILL) inconclusive.push_back(i);
                    else { crashes.push_back({i, job[w].from, rc, "", ""}); ++sh->nViol; }
                    if (i + 1 < job[w].to) todo.push_back({i + 1, job[w].to});
                }
                if (!todo.empty() && sh->nViol <= 12) { spawn(w); ++running; }
            }
        }

        std::vector<Finding> viol;
        std::map<std::string, Finding> knowns;
        for (int w = 0; w < jobs; ++w) {
            const std::string f = out + "/w" + std::to_string(w) + ".log";
            std::ifstream in(f);
            std::string l;
            while (std::getline(in, l)) {
                std::vector<std::string> t;
                std::istringstream ls(l);
                std::string x;
                while (std::getline(ls, x, '\t')) t.push_back(x);
                if (t.size() < 4) continue;
                Finding g{std::stoull(t[1]), std::stoull(t[2]), X_VIOL, t[3], t.size() > 4 ? t[4] : ""};
                if (t[0] == "V") viol.push_back(g);
                else knowns.insert({t[3], g});
            }
            in.close();
            unlink(f.c_str());
        }
        for (auto& c : crashes) viol.push_back(c);
        std::sort(viol.begin(), viol.end(), [](auto& a, auto& b) { return a.index < b.index; });

        // hangs: run again, alone and with a much larger limit
        std::vector<Finding> hangs;
        uint64_t incFinal = 0;
        for (auto i : inconclusive) {
            if (!p.hangIsViolation || hangs.size() >= 2) { ++incFinal; continue; }
            std::string m;
            const int rc = isolated(p, makeCase(p, seed, i), p.cpu*4, m);
            if (rc == X_TIMEOUT || rc == X_MEM) hangs.push_back({i, i, rc, "", "no result within " + std::to_string(p.cpu*4) + " s of CPU time or 4 GB"});
            else ++incFinal;
        }

        std::ofstream js(out + "/summary.json");
        js << "{\"property\":\"" << p.id << "\",\"seed\":" << seed << ",\"cases\":" << n << ",\"chunks\":" << chunks << ",\"rule\":\"" << jesc(p.rule) << "\",\"minNontrivial\":" << p.minNontrivial << ",\n\"inconclusive\":" << incFinal << ",\n\"counters\":{";
        std::map<std::string, uint64_t> tot;
        std::vector<std::string> samples;
        for (auto& s : sh->slot) {
            for (auto& c : s.c) if (c.name[0]) tot[c.name] += c.v;
            for (unsigned k = 0; k < s.ns && k < 2; ++k) samples.push_back(s.samples[k]);
        }
        bool first = true;
        for (auto& [k, v] : tot) { js << (first ? "" : ",") << "\"" << jesc(k) << "\":" << v; first = false; }
        js << "},\n\"samples\":[";
        for (size_t k = 0; k < samples.size() && k < 8; ++k) js << (k ? "," : "") << "\"" << jesc(samples[k]) << "\"";
        js << "],\n\"inconclusive_cases\":[";
        for (size_t k = 0; k < inconclusive.size() && k < 20; ++k) js << (k ? "," : "") << inconclusive[k];
        js << "],\n\"known\":[";
        first = true;
        for (auto& [id, g] : knowns) {
            js << (first ? "" : ",") << "{\"finding\":\"" << jesc(id) << "\",\"index\":" << g.index << ",\"msg\":\"" << jesc(g.msg) << "\",\"case\":\"" << jesc(makeCase(p, seed, g.index).str()) << "\"}";
            first = false;
        }
        js << "],\n\"violations\":[";
        first = true;
        size_t done = 0;
        for (auto* list : {&viol, &hangs})
            for (auto& v : *list) {
                if (done >= 3) break;
                ++done;
                const Case c = makeCase(p, seed, v.index);
                std::string m;
                const double cpu = p.cpu*4;
                int rc = isolated(p, c, cpu, m);
                std::string kind;
                Case small = c;
                if (rc == X_VIOL || isCrash(rc)) {
                    kind = "single case";
                    small = shrink(p, c, rc, done == 1 ? 400 : 60, p.cpu);
                    std::string m2;
                    const int rc2 = isolated(p, small, cpu, m2);
                    if (rc2 == X_VIOL || isCrash(rc2)) m = m2; else small = c;
                } else if (rc == X_TIMEOUT || rc == X_MEM) { kind = "hang"; m = v.msg; }
                else {
                    kind = "history"; // only with the preceding cases of its worker
                    m = v.msg.empty() ? "process died with code " + std::to_string(v.rc) + " after cases " + std::to_string(v.first) + ".." + std::to_string(v.index) : v.msg;
                }
                js << (first ? "" : ",") << "\n{\"index\":" << v.index << ",\"first\":" << v.first << ",\"kind\":\"" << kind << "\",\"msg\":\"" << jesc(m) << "\",\"original\":\"" << jesc(c.str()) << "\",\"case\":\"" << jesc(small.str()) << "\"}";
                first = false;
            }
        js << "],\n\"n_violations\":" << viol.size() + hangs.size() << ",\"wall_s\":" << std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() << "}\n";
        return 0;
    }
}

int main(int argc, char** argv)
{
    using namespace mon;
    signal(SIGPIPE, SIG_IGN);
    const std::string mode = argc > 1 ? argv[1] : "";
    if (const char* t = getenv("VERIF_TIER")) g_thorough = std::string(t) == "thorough";
    try {
        if (mode == "list") { for (auto& p : registry()) std::cout << p.id << " " << p.quick << " " << p.thorough << "\n"; return 0; }
        if (mode == "run" && argc >= 7) { // run ID SEED N JOBS OUT
            const auto& p = mon::find(argv[2]);
            uint64_t n = std::stoull(argv[4]);
            if (n == 0) n = g_thorough ? p.thorough : p.quick;
            return runCampaign(p, std::stoull(argv[3]), n, atoi(argv[5]), argv[6]);
        }
        if (mode == "gen" && argc >= 5) { std::cout << makeCase(mon::find(argv[2]), std::stoull(argv[3]), std::stoull(argv[4])).str(); return 0; }
        if (mode == "case" && argc >= 4) { // case ID FILE
            std::ifstream in(argv[3]);
            std::stringstream b;
            b << in.rdbuf();
            const auto& p = mon::find(argv[2]);
            std::string m;
            const int rc = isolated(p, Case::parse(b.str()), p.cpu*4, m);
            std::cout << "rc " << rc << "\n" << m << "\n";
            return rc == X_VIOL || isCrash(rc) || ((rc == X_TIMEOUT || rc == X_MEM) && p.hangIsViolation) ? 1 : 0;
        }
        if (mode == "debug" && argc >= 4) { // debug ID FILE: in process, output not redirected
            std::ifstream in(argv[3]);
            std::stringstream b;
            b << in.rdbuf();
            const auto& p = mon::find(argv[2]);
            if (p.id == "C15") startZygote();
            const Verdict v = runCheck(p, Case::parse(b.str()));
            std::cout << v.st << " " << v.sig << " " << v.msg << "\n";
            return v.st == Verdict::VIOLATED;
        }
        if (mode == "serial" && argc >= 6) { // serial ID SEED FIRST LAST: in this process, for memcheck
            const auto& p = mon::find(argv[2]);
            if (p.id == "C15") startZygote();
            for (uint64_t i = std::stoull(argv[4]); i <= std::stoull(argv[5]); ++i) {
                std::cerr << "index " << i << std::endl;
                runCheck(p, makeCase(p, std::stoull(argv[3]), i));
            }
            return 0;
        }
        if (mode == "history" && argc >= 6) { // history ID SEED FIRST INDEX: replays a range in one process
            const auto& p = mon::find(argv[2]);
            pid_t k = fork();
            if (k == 0) {
                if (p.id == "C15") startZygote();
                childSetup(false, "");
                bool bad = false;
                for (uint64_t i = std::stoull(argv[4]); i <= std::stoull(argv[5]); ++i) {
                    watchdog(p.cpu*4);
                    const Verdict v = runCheck(p, makeCase(p, std::stoull(argv[3]), i));
                    if (v.st == Verdict::VIOLATED) { bad = true; std::cerr << i << ": " << v.msg << "\n"; }
                }
                _exit(bad ? 1 : 0);
            }
            int st;
            waitpid(k, &st, 0);
            return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 1;
        }
    } catch (std::exception& e) { std::cerr << "mon: " << e.what() << "\n"; return 2; }
    std::cerr << "usage: mon list | run ID SEED N JOBS OUT | gen ID SEED I | case ID FILE | debug ID FILE | history ID SEED FIRST INDEX | serial ID SEED FIRST LAST\n";
    return 2;
}
