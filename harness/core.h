// Core of the simulator: the one source of choices, the event log, statistics and violations.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace sim {

inline std::uint64_t mix(std::uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline std::uint64_t hashBytes(const void *p, std::size_t n, std::uint64_t h = 1469598103934665603ull)
{
    const auto *b = static_cast<const unsigned char *>(p);
    for (std::size_t i = 0; i < n; ++i)
        h = (h ^ b[i]) * 1099511628211ull;
    return h;
}

// Every decision of a run is drawn here. In record mode it comes from a PRNG and is noted on the tape;
// in replay mode it comes from the tape (and is 0, the simplest choice, beyond its end).
struct Choices {
    std::uint64_t state = 0;
    bool replay = false;
    std::vector<std::uint32_t> tape;
    std::size_t pos = 0;
    std::uint32_t *mirror = nullptr; // shared memory copy of the tape, survives a crash of the process
    std::size_t mirrorCap = 0;

    void seed(std::uint64_t s) { state = s; replay = false; tape.clear(); pos = 0; }
    void load(std::vector<std::uint32_t> t) { tape = std::move(t); pos = 0; replay = true; }
    std::uint32_t raw(std::uint32_t n);
    // uniform in [0, n)
    std::uint32_t below(std::uint64_t n) { return n <= 1 ? 0 : raw(static_cast<std::uint32_t>(n)); }
    std::uint32_t range(std::uint32_t lo, std::uint32_t hi) { return lo + below(std::uint64_t(hi) - lo + 1); }
    // true with probability num/den; false is the simpler choice
    bool chance(std::uint32_t num, std::uint32_t den) { return num && below(den) >= den - num; }
    std::uint64_t bits(unsigned n)
    {
        std::uint64_t v = 0;
        for (unsigned i = 0; i < n; i += 16)
            v |= std::uint64_t(below(65536)) << i;
        return n >= 64 ? v : v & ((1ull << n) - 1);
    }
};

struct Stats {
    std::map<std::string, std::uint64_t> counters;
    std::unordered_set<std::uint64_t> distinct; // hashes of distinct nontrivial runs
    std::unordered_set<std::uint64_t> states;   // states/interleavings by the scenario's measure
    std::uint64_t simTime = 0;
    std::vector<std::string> samples;
};

struct Run {
    Choices ch;
    std::uint64_t hash = 1469598103934665603ull;
    std::uint64_t events = 0;
    bool verbose = false;
    bool failed = false;
    bool nontrivial = false;
    bool countProgress = false;
    std::string violation; // first violation: "class: details"
    std::vector<std::string> trace;
    Stats *stats = nullptr;
    std::string sample;
};
extern Run *run; // the current run

// Log an event: always hashed, kept as text only in verbose mode. Never draws choices or reads clocks.
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Explain in verbose mode; no part of the hash.
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Record a violation (the first one counts). Safe to call from callbacks below the code under test.
void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
inline bool failed() { return run->failed; }
inline void count(const char *name, std::uint64_t n = 1)
{
    if (run->stats)
        run->stats->counters[name] += n;
}
inline void state(std::uint64_t h)
{
    if (run->stats)
        run->stats->states.insert(h);
}
inline void nontrivial() { run->nontrivial = true; }
inline Choices &ch() { return run->ch; }
std::string hex(const std::string &s, std::size_t max = 64);
std::string quote(const std::string &s, std::size_t max = 64);

// Deterministic measure of work: basic-block edges of instrumented code under test.
extern thread_local bool t_countSteps;
extern std::uint64_t g_steps;
extern std::uint64_t g_stepLimit;      // exceeding it is a hang: the run is abandoned as a violation
extern void (*g_preempt)();            // called on every step when a scheduler is active
// Called before the code under test accesses memory several threads can reach: variables of static storage duration
// (in the build with these accesses instrumented), and objects it is only supposed to read.
extern void (*g_access)(bool store);
struct Range {
    std::uintptr_t begin, end;
};
extern Range g_readOnly[16]; // what is only to be read
extern unsigned g_readOnlyCount;

struct Scenario {
    const char *name;
    void (*fn)();
    std::uint64_t quickRuns, thoroughRuns;
    const char *rule;
};
std::vector<Scenario> &scenarios();
struct Register {
    Register(const char *n, void (*f)(), std::uint64_t q, std::uint64_t t, const char *rule) { scenarios().push_back({ n, f, q, t, rule }); }
};
// known-finding probes: return true if the finding still shows
extern bool g_rawDates; // see deps.cpp
extern bool g_foreignLocale; // the global locale has a decimal comma and groups digits
void setForeignLocale(bool);
struct Probe {
    const char *property;
    const char *id;
    std::string (*fn)(); // empty: does not show; otherwise: what fails
};
std::vector<Probe> &probes();
struct RegisterProbe {
    RegisterProbe(const char *p, const char *id, std::string (*f)()) { probes().push_back({ p, id, f }); }
};

} // namespace sim
