// Campaign engine: deterministic cases, forked workers, crash/hang attribution, shrinking, replay.
#pragma once
#include <atomic>
#include "tio.h"

namespace mon {
    using namespace ref;
    using gen::Rng;
    using tio::Var;

    struct Case {
        std::vector<A> e;             // expressions
        std::vector<std::string> s;   // strings
        std::vector<long long> n;     // integers
        std::string str() const;
        static Case parse(const std::string&);
    };

    struct Verdict {
        enum St { HELD, SKIPPED, VIOLATED, KNOWN } st = HELD;
        std::string sig; // KNOWN: id of the finding
        std::string msg;
    };
    inline Verdict held() { return {}; }
    inline Verdict skipped(std::string why) { return {Verdict::SKIPPED, std::move(why), ""}; }
    inline Verdict violated(std::string msg) { return {Verdict::VIOLATED, "", std::move(msg)}; }
    inline Verdict known(std::string id, std::string msg) { return {Verdict::KNOWN, std::move(id), std::move(msg)}; }

    // Monitors report what they observed via these; counters live in memory shared with the parent
    void count(const char* name, uint64_t n = 1);
    void count(const std::string& name, uint64_t n = 1);
    void nontrivial();         // marks the current case as non-trivial according to the property's rule
    void sample(const std::string& text); // keep as evidence sample (the first few only)
    void observed(uint64_t hash);         // a distinct observation (state); counted via a shared set
    void watchdog(double cpuSeconds);     // (re)arm the CPU limit; firing makes the case inconclusive
    unsigned long long steps();           // allocations made by this process so far (0 in sanitizer builds)
    long long liveAllocations();          // blocks of memory allocated and not yet released (0 in sanitizer builds)
    bool thorough();

    struct Property {
        std::string id;
        std::string rule;
        std::function<Case(Rng&, uint64_t)> make;
        std::function<Verdict(const Case&)> check;
        uint64_t quick, thorough;
        uint64_t chunk = 400;       // cases per worker process; they share caches and symbol pool
        double cpu = 4;            // CPU seconds per case before it counts as inconclusive
        bool hangIsViolation = false;
        uint64_t minNontrivial = 100;
        bool shrinkSteps = false;   // the integers of a case are steps that may be left out
    };
    std::vector<Property>& registry();
    struct Register { explicit Register(Property p) { registry().push_back(std::move(p)); } };
    const Property& find(const std::string& id);

    // Evaluate f(case string) in a process that has never used the library before (forked from a
    // zygote); nullopt if that process failed.
    std::optional<std::string> inFreshProcess(const std::string& task, const std::string& payload);
    using Task = std::function<std::string(const std::string&)>;
    std::map<std::string, Task>& tasks();
    struct RegisterTask { RegisterTask(const char* n, Task t) { tasks()[n] = std::move(t); } };

    // Logger observations (a monitor is installed as the library's logger in every worker)
    struct LogEvent { int level; std::string ident, file, payload; int line; };
    std::vector<LogEvent>* captureLog(std::vector<LogEvent>* target); // returns the previous target
}
