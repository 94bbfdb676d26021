// Runner: seeded search over runs in forked workers, minimisation, replay files, statistics.
#include "alloc.h"
#include "core.h"

#include <algorithm>
#include <chrono>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
extern std::uint32_t g_edgeCount;
extern std::uint8_t *g_edgeSeen;
extern std::uint64_t g_edgesHit;
void prepare();
void warmup();
__attribute__((weak)) void finish() {}
} // namespace sim

using namespace sim;
using Clock = std::chrono::steady_clock;

namespace {
constexpr std::size_t kTapeCap = 1u << 18;
#ifdef GENSIM
constexpr unsigned kRunSeconds = 300; // of real time; some runs build programs
#else
constexpr unsigned kRunSeconds = 60;
#endif
constexpr std::size_t kStatCap = 300000;

struct Shared { // one per worker, survives its death
    std::uint64_t current, done;
    std::uint64_t steps;
    std::uint32_t failed;
    std::uint32_t stop, dirty, finished; // dirty: the code under test keeps memory of its own from one run to the next
    std::uint64_t failedIndex;
    std::uint64_t failedHash;
    char violation[2048];
    std::uint32_t tape[kTapeCap];
};
struct Opt {
    std::string property, tier = "quick", replay, out, replayDir = ".";
    std::uint64_t seed = 1, runs = 0, only = ~0ull;
    double time = 0;
    int jobs = 8;
    bool verbose = false, probe = false, list = false;
} opt;

const Scenario *findScenario(const std::string &name)
{
    for (auto &s : scenarios())
        if (name == s.name)
            return &s;
    return nullptr;
}
void dropEdges() {}

void onAlarm(int)
{
    static const char msg[] = "ERROR: Sim: hang (wall clock)\n";
    if (write(2, msg, sizeof(msg) - 1)) {}
    _exit(79);
}
void executeOnce(const Scenario &sc, Run &r, bool keepMemory)
{
    run = &r;
    if (keepMemory)
        alloc::rebase(alloc::Policy());
    else
        alloc::reset(alloc::Policy());
    alloc::resetMallocBalance();
    g_steps = 0;
    g_stepLimit = ~0ull;
    g_preempt = nullptr;
    setForeignLocale(false);
    try {
        sc.fn();
    } catch (const std::exception &e) {
        fail("uncaught", "exception escaped the scenario: %s", e.what());
    } catch (...) {
        fail("uncaught", "exception escaped the scenario");
    }
    g_preempt = nullptr;
    g_stepLimit = ~0ull;
    setForeignLocale(false);
    r.hash = mix(r.hash ^ r.ch.pos);
}
std::string classOf(const std::string &violation) { return violation.substr(0, violation.find(':')); }

// What is allocated once and kept (static variables) is no leak: a leak shows again when the same is done again.
// Returns whether the code under test keeps memory, in which case this process must not execute another run.
bool execute(const Scenario &sc, Run &r)
{
    executeOnce(sc, r, false);
    if (!r.failed || classOf(r.violation) != "leak")
        return false;
    std::string before;
    std::size_t at = 0;
    for (int i = 0; i < 30; ++i) {
        Run again;
        Stats drop;
        again.stats = &drop;
        again.ch.load(r.ch.tape);
        executeOnce(sc, again, true);
        run = &r;
        const bool leaks = again.failed && classOf(again.violation) == "leak";
        if (!leaks)
            break;
        // each repetition may get further than the one before, up to the first use of the next static variable
        if (i && again.violation == before && again.ch.pos == at)
            return false;
        before = again.violation;
        at = again.ch.pos;
        if (i == 29)
            return false;
    }
    r.failed = false;
    r.violation.clear();
    count("probe:memory kept by the code under test (static)");
    return true;
}
std::uint64_t runSeed(const std::string &property, std::uint64_t seed, std::uint64_t i)
{
    return mix(mix(seed) ^ mix(hashBytes(property.data(), property.size())) ^ mix(i * 2 + 1));
}

std::string classifyCrash(int status, const std::string &err)
{
    std::istringstream in(err);
    std::string line, found, frame;
    while (std::getline(in, line)) {
        if (found.empty()) {
            auto p = line.find("ERROR: AddressSanitizer: ");
            if (p != std::string::npos) {
                auto rest = line.substr(p + 25);
                found = "memory-" + rest.substr(0, rest.find_first_of(" :\n")) + ": " + rest.substr(0, 160);
                // addresses vary with nothing here, but keep the message short
            } else if ((p = line.find("runtime error: ")) != std::string::npos) {
                auto slash = line.rfind('/', line.find(": runtime"));
                found = "undefined-behaviour: " + (slash == std::string::npos ? line : line.substr(slash + 1)).substr(0, 240);
            } else if ((p = line.find("ERROR: Sim: hang")) != std::string::npos)
                found = "hang: " + line.substr(p + 12);
            else if ((p = line.find("ERROR: SimAllocator: ")) != std::string::npos)
                found = "memory-" + line.substr(p + 21) + ": reported by the simulated allocator";
            else if (line.find("terminate called") != std::string::npos)
                found = "terminate: " + line;
        }
        if (frame.empty() && line.find("ReflectiveRapidJSON::") != std::string::npos && line.find("#") != std::string::npos) {
            auto p = line.find(" in ");
            frame = p == std::string::npos ? line : line.substr(p + 4);
        }
    }
    if (found.empty()) {
        if (WIFSIGNALED(status))
            found = "crash: signal " + std::to_string(WTERMSIG(status));
        else
            found = "crash: exit status " + std::to_string(WEXITSTATUS(status));
    }
    if (!frame.empty())
        found += " in " + frame.substr(0, 200);
    return found;
}
std::string slurp(const std::string &p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

struct Outcome {
    bool failed = false;
    std::string violation;
    std::uint64_t hash = 0;
    std::vector<std::uint32_t> tape;
    std::vector<std::string> trace;
};
std::string tmpBase;

// Execute a tape in a child of this (clean) process.
Outcome tryTape(const Scenario &sc, const std::vector<std::uint32_t> &tape, bool verbose, Shared *sh)
{
    Outcome o;
    const auto errFile = tmpBase + ".try.err", outFile = tmpBase + ".try.out";
    sh->failed = 0;
    sh->tape[0] = 0;
    sh->violation[0] = 0;
    sh->failedHash = 0;
    const auto pid = fork();
    if (!pid) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        const int fd = open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(fd, 2);
        Run r;
        r.verbose = verbose;
        r.ch.load(tape);
        r.ch.mirror = sh->tape;
        r.ch.mirrorCap = kTapeCap;
        std::signal(SIGALRM, onAlarm);
        alarm(kRunSeconds);
        FILE *live = nullptr;
        (void)live;
        execute(sc, r);
        if (verbose) {
            std::ofstream f(outFile);
            for (auto &l : r.trace)
                f << l << "\n";
        }
        sh->failed = r.failed;
        sh->failedHash = r.hash;
        std::snprintf(sh->violation, sizeof(sh->violation), "%s", r.violation.c_str());
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        o.failed = sh->failed;
        o.violation = sh->violation;
        o.hash = sh->failedHash;
    } else {
        o.failed = true;
        o.violation = classifyCrash(status, slurp(errFile));
        o.hash = hashBytes(classOf(o.violation).data(), classOf(o.violation).size());
    }
    const auto used = std::min<std::size_t>(sh->tape[0], kTapeCap - 1);
    o.tape.assign(sh->tape + 1, sh->tape + 1 + used);
    if (verbose) {
        std::istringstream in(slurp(outFile));
        for (std::string l; std::getline(in, l);)
            o.trace.push_back(l);
        if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
            std::istringstream e(slurp(errFile));
            std::string l;
            for (int i = 0; i < 30 && std::getline(e, l); ++i)
                o.trace.push_back("stderr: " + l);
        }
        unlink(outFile.c_str());
    }
    unlink(errFile.c_str());
    while (!o.tape.empty() && !o.tape.back())
        o.tape.pop_back();
    return o;
}

void minimise(const Scenario &sc, Outcome &best, Shared *sh)
{
    const auto cls = classOf(best.violation);
    const auto start = Clock::now();
    const double budget = 60;
    unsigned tries = 0;
    const auto left = [&] { return std::chrono::duration<double>(Clock::now() - start).count() < budget && tries < 4000; };
    const auto cost = [](const std::vector<std::uint32_t> &t) {
        std::uint64_t sum = 0;
        for (auto v : t)
            sum += v;
        return std::make_pair(t.size(), sum);
    };
    const auto attempt = [&](std::vector<std::uint32_t> cand) {
        while (!cand.empty() && !cand.back())
            cand.pop_back();
        if (cost(cand) >= cost(best.tape))
            return false;
        ++tries;
        auto o = tryTape(sc, cand, false, sh);
        if (o.failed && classOf(o.violation) == cls && cost(o.tape) < cost(best.tape)) {
            best = o;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && left()) {
        progress = false;
        for (std::size_t cut = best.tape.size() / 2; cut >= 1 && left(); cut /= 2)
            while (best.tape.size() > cut && left()) {
                auto c = best.tape;
                c.resize(c.size() - cut);
                if (!attempt(std::move(c)))
                    break;
                progress = true;
            }
        for (std::size_t block : { 64, 16, 8, 4, 2, 1 })
            for (std::size_t i = 0; i + block <= best.tape.size() && left();) {
                auto c = best.tape;
                c.erase(c.begin() + std::ptrdiff_t(i), c.begin() + std::ptrdiff_t(i + block));
                if (attempt(std::move(c)))
                    progress = true;
                else
                    i += block;
            }
        for (std::size_t block : { 8, 1 })
            for (std::size_t i = 0; i < best.tape.size() && left(); i += block) {
                auto c = best.tape;
                bool any = false;
                for (std::size_t k = i; k < std::min(i + block, c.size()); ++k) {
                    any = any || c[k];
                    c[k] = 0;
                }
                if (any && attempt(std::move(c)))
                    progress = true;
            }
        for (std::size_t i = 0; i < best.tape.size() && left(); ++i)
            while (i < best.tape.size() && best.tape[i] > 1 && left()) {
                auto c = best.tape;
                c[i] /= 2;
                if (!attempt(std::move(c)))
                    break;
                progress = true;
            }
        for (std::size_t i = 0; i < best.tape.size() && left(); ++i)
            while (i < best.tape.size() && best.tape[i] && left()) {
                auto c = best.tape;
                --c[i];
                if (!attempt(std::move(c)))
                    break;
                progress = true;
            }
    }
    std::cerr << "minimised to " << best.tape.size() << " choices in " << tries << " tries\n";
}

int replayFile(const std::string &path, Shared *sh)
{
    std::ifstream f(path);
    std::string line, property, expected;
    std::uint64_t hash = 0;
    std::vector<std::uint32_t> tape;
    while (std::getline(f, line)) {
        std::istringstream in(line);
        std::string key;
        in >> key;
        if (key == "property")
            in >> property;
        else if (key == "violation")
            std::getline(in >> std::ws, expected);
        else if (key == "hash")
            in >> std::hex >> hash;
        else if (key == "tape")
            for (std::uint32_t v; in >> v;)
                tape.push_back(v);
    }
    const auto *sc = findScenario(property);
    if (!sc) {
        std::cerr << "no property in replay file\n";
        return 2;
    }
    auto o = tryTape(*sc, tape, true, sh);
    for (auto &l : o.trace)
        std::cout << "  " << l << "\n";
    if (!o.failed) {
        std::cout << "replay: no violation\n";
        return 0;
    }
    std::cout << "replay: " << o.violation << "\n";
    std::cout << "replay: " << (o.hash == hash ? "identical to the recorded execution" : "hash differs from the recorded execution (the code changed)") << "\n";
    std::cout << "VIOLATION property=" << property << " replay=" << path << "\n";
    return 1;
}

void jsonStr(std::ostream &o, const std::string &s)
{
    o << '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\')
            o << '\\' << c;
        else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof(b), "\\u%04x", c);
            o << b;
        } else
            o << c;
    }
    o << '"';
}

void writeStats(const Stats &stats, int w, bool append)
{
    std::ofstream o(tmpBase + "." + std::to_string(w) + ".stats", append ? std::ios::app : std::ios::trunc);
    for (auto &c : stats.counters)
        o << "c " << c.second << " " << c.first << "\n";
    o << "t " << stats.simTime << "\n";
    for (auto h : stats.distinct)
        o << "d " << std::hex << h << std::dec << "\n";
    for (auto h : stats.states)
        o << "s " << std::hex << h << std::dec << "\n";
    for (auto &s : stats.samples) {
        o << "x ";
        for (char c : s)
            o << (c == '\n' ? ' ' : c);
        o << "\n";
    }
}
// One run in a process; returns whether the process may execute further runs.
bool workerRun(const Scenario &sc, std::uint64_t i, Shared *sh, Stats &stats, std::uint64_t &replayed, bool isolated = false)
{
    Run r;
    r.stats = &stats;
    sh->current = i;
    sh->tape[0] = 0;
    r.ch.seed(runSeed(opt.property, opt.seed, i));
    r.ch.mirror = sh->tape;
    r.ch.mirrorCap = kTapeCap;
    alarm(kRunSeconds);
    const bool keeps = execute(sc, r);
    sh->steps += g_steps;
    if (r.nontrivial && stats.distinct.size() < kStatCap)
        stats.distinct.insert(r.hash);
    if (stats.samples.size() < 2 && !r.sample.empty() && r.nontrivial)
        stats.samples.push_back(r.sample);
    if (!r.failed && !keeps && !isolated && i % 64 < std::uint64_t(opt.jobs)) {
        // same choices, same execution
        Run again;
        Stats drop;
        again.stats = &drop;
        again.ch.load(r.ch.tape);
        execute(sc, again);
        ++replayed;
        if (again.hash != r.hash) {
            r.failed = true;
            r.violation = "nondeterminism: two executions of the same choices differ";
        }
    }
    alarm(0);
    if (keeps)
        sh->dirty = 1;
    sh->done++;
    if (r.failed) {
        sh->failedIndex = i;
        sh->failedHash = r.hash;
        std::snprintf(sh->violation, sizeof(sh->violation), "%s", r.violation.c_str());
        __atomic_store_n(&sh->failed, 1, __ATOMIC_SEQ_CST);
    }
    return !r.failed && !keeps;
}

void workerMain(const Scenario &sc, int w, std::uint64_t runs, std::uint64_t first, Shared *sh, Clock::time_point deadline, std::uint8_t *edges, bool isolated)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    const auto err = tmpBase + "." + std::to_string(w) + ".err";
    const int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 2);
    g_edgeSeen = edges;
    Stats stats;
    std::signal(SIGALRM, onAlarm);
    std::uint64_t replayed = 0;
    bool finished = true;
    for (std::uint64_t i = first; i < runs; i += std::uint64_t(opt.jobs)) {
        if (Clock::now() > deadline)
            break;
        if (__atomic_load_n(&sh->stop, __ATOMIC_SEQ_CST)) {
            sh->current = i;
            finished = false;
            break;
        }
        if (!isolated) {
            if (!workerRun(sc, i, sh, stats, replayed)) {
                finished = false;
                break;
            }
            continue;
        }
        const auto pid = fork();
        if (!pid) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            Stats own;
            std::uint64_t times = 0;
            workerRun(sc, i, sh, own, times, true);
            writeStats(own, w, true);
            _exit(0);
        }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
            if (WIFSIGNALED(status)) {
                std::signal(WTERMSIG(status), SIG_DFL);
                raise(WTERMSIG(status));
            }
            _exit(WEXITSTATUS(status));
        }
        if (sh->failed) {
            finished = false;
            break;
        }
    }
    stats.counters["replayed for determinism"] += replayed;
    writeStats(stats, w, true);
    sh->finished = finished;
    _exit(0);
}

int search()
{
    const auto *sc = findScenario(opt.property);
    if (!sc) {
        std::cerr << "unknown property " << opt.property << "\n";
        return 2;
    }
    const auto runs = opt.runs ? opt.runs : opt.tier == "thorough" ? sc->thoroughRuns : sc->quickRuns;
    const auto t0 = Clock::now();
    const auto deadline = t0 + std::chrono::milliseconds(std::int64_t((opt.time > 0 ? opt.time : opt.tier == "thorough" ? 600. : 60.) * 1000));
    const auto mapShared = [](std::size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); };
    std::vector<Shared *> sh;
    for (int w = 0; w < opt.jobs; ++w)
        sh.push_back(static_cast<Shared *>(mapShared(sizeof(Shared))));
    auto *edges = static_cast<std::uint8_t *>(mapShared(g_edgeCount + 1));
    Outcome found;
    std::uint64_t foundIndex = ~0ull;
    std::uint64_t foundWorkerHash = 0;
    std::vector<std::uint64_t> startAt;
    for (int w = 0; w < opt.jobs; ++w) {
        startAt.push_back(std::uint64_t(w));
        unlink((tmpBase + "." + std::to_string(w) + ".stats").c_str());
    }
    for (bool isolated = false;;) {
        std::vector<pid_t> pids;
        for (int w = 0; w < opt.jobs; ++w) {
            auto *const s = sh[std::size_t(w)];
            s->failed = s->stop = s->dirty = s->finished = 0;
            s->current = startAt[std::size_t(w)];
            const auto pid = fork();
            if (!pid)
                workerMain(*sc, w, runs, startAt[std::size_t(w)], s, deadline, edges, isolated);
            pids.push_back(pid);
        }
        int live = opt.jobs;
        bool dirty = false;
        while (live > 0) {
            int status = 0;
            const auto pid = waitpid(-1, &status, 0);
            if (pid < 0) {
                if (errno == EINTR)
                    continue;
                break;
            }
            const auto it = std::find(pids.begin(), pids.end(), pid);
            if (it == pids.end())
                continue;
            const auto w = std::size_t(it - pids.begin());
            *it = -1;
            --live;
            const bool crashed = !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
            if (crashed || sh[w]->failed) {
                const auto index = crashed ? sh[w]->current : sh[w]->failedIndex;
                if (!found.failed || index < foundIndex) {
                    found.failed = true;
                    found.violation = crashed ? classifyCrash(status, slurp(tmpBase + "." + std::to_string(w) + ".err")) : sh[w]->violation;
                    foundWorkerHash = crashed ? 0 : sh[w]->failedHash;
                    const auto used = std::min<std::size_t>(sh[w]->tape[0], kTapeCap - 1);
                    found.tape.assign(sh[w]->tape + 1, sh[w]->tape + 1 + used);
                    foundIndex = index;
                }
            }
            dirty = dirty || sh[w]->dirty;
            if (found.failed || (dirty && !isolated))
                for (auto *s : sh)
                    __atomic_store_n(&s->stop, 1, __ATOMIC_SEQ_CST);
        }
        if (!found.failed && (isolated || !dirty))
            break;
        if (found.failed) {
            // reproduce from the tape in a clean process
            const auto current = sh[0]->current;
            const auto first = tryTape(*sc, found.tape, false, sh[0]);
            sh[0]->current = current;
            const auto reproduced = classOf(found.violation) != "nondeterminism" && first.failed && classOf(first.violation) == classOf(found.violation)
                && (!foundWorkerHash || first.hash == foundWorkerHash);
            if (reproduced || isolated)
                break;
            std::cerr << "run " << foundIndex << " does not show [" << found.violation << "] in a process of its own\n";
        }
        // the code under test keeps state between runs: go on with one process per run
        std::cerr << "going on with one process per run\n";
        isolated = true;
        found = Outcome();
        foundIndex = ~0ull;
        for (int w = 0; w < opt.jobs; ++w)
            startAt[std::size_t(w)] = sh[std::size_t(w)]->finished ? runs : sh[std::size_t(w)]->current;
    }
    const double searchWall = std::chrono::duration<double>(Clock::now() - t0).count();
    // statistics
    Stats total;
    std::uint64_t done = 0, steps = 0, edgesHit = 0;
    for (int w = 0; w < opt.jobs; ++w) {
        done += sh[std::size_t(w)]->done;
        steps += sh[std::size_t(w)]->steps;
        std::ifstream f(tmpBase + "." + std::to_string(w) + ".stats");
        for (std::string l; std::getline(f, l);) {
            if (l.size() < 3)
                continue;
            std::istringstream in(l.substr(2));
            std::uint64_t v = 0;
            switch (l[0]) {
            case 'c': {
                in >> v;
                std::string name;
                std::getline(in >> std::ws, name);
                total.counters[name] += v;
                break;
            }
            case 't':
                in >> v;
                total.simTime += v;
                break;
            case 'd':
                in >> std::hex >> v;
                total.distinct.insert(v);
                break;
            case 's':
                in >> std::hex >> v;
                total.states.insert(v);
                break;
            case 'x':
                if (total.samples.size() < 5)
                    total.samples.push_back(l.substr(2));
                break;
            }
        }
        unlink((tmpBase + "." + std::to_string(w) + ".stats").c_str());
        unlink((tmpBase + "." + std::to_string(w) + ".err").c_str());
    }
    for (std::uint32_t i = 0; i <= g_edgeCount; ++i)
        edgesHit += edges[i];
    int rc = 0;
    std::string replayPath;
    if (found.failed) {
        // reproduce from the tape in a clean process
        const auto first = tryTape(*sc, found.tape, false, sh[0]);
        if (classOf(found.violation) == "nondeterminism" || !first.failed || classOf(first.violation) != classOf(found.violation)
            || (foundWorkerHash && first.hash != foundWorkerHash)) {
            std::cerr << "INTERNAL: run " << foundIndex << " does not replay: search saw [" << found.violation << "], replay saw ["
                      << (first.failed ? first.violation : "no violation") << "]\n";
            rc = first.failed && classOf(first.violation) == classOf(found.violation) && classOf(found.violation) != "nondeterminism" ? 1 : 3;
        } else
            rc = 1;
        if (rc == 1) {
            found = first;
            minimise(*sc, found, sh[0]);
            const auto a = tryTape(*sc, found.tape, false, sh[0]);
            auto b = tryTape(*sc, found.tape, true, sh[0]);
            if (!a.failed || !b.failed || a.hash != b.hash || classOf(a.violation) != classOf(found.violation)) {
                std::cerr << "INTERNAL: minimised run is not deterministic\n";
                rc = 3;
            }
            mkdir(opt.replayDir.c_str(), 0755);
            replayPath = opt.replayDir + "/" + opt.property + "-seed" + std::to_string(opt.seed) + "-run" + std::to_string(foundIndex) + ".replay";
            std::ofstream f(replayPath);
            f << "property " << opt.property << "\nseed " << opt.seed << "\nrun " << foundIndex << "\nviolation " << b.violation << "\nhash " << std::hex
              << b.hash << std::dec << "\ntape";
            for (auto v : found.tape)
                f << ' ' << v;
            f << "\n# trace of the minimised execution\n";
            for (auto &l : b.trace)
                f << "# " << l << "\n";
            f.close();
            for (auto &l : b.trace)
                std::cout << "  " << l << "\n";
            std::cout << b.violation << "\n";
            if (rc == 1)
                std::cout << "VIOLATION property=" << opt.property << " replay=" << replayPath << "\n";
        }
    }
    if (!opt.out.empty()) {
        std::ofstream o(opt.out);
        o << "{\"property\":";
        jsonStr(o, opt.property);
        o << ",\"seed\":" << opt.seed << ",\"runs_planned\":" << runs << ",\"runs\":" << done << ",\"distinct\":" << total.distinct.size()
          << ",\"states\":" << total.states.size() << ",\"sim_time\":" << total.simTime << ",\"steps\":" << steps << ",\"edges_hit\":" << edgesHit
          << ",\"edges_total\":" << g_edgeCount << ",\"search_wall_s\":" << searchWall << ",\"rule\":";
        jsonStr(o, sc->rule);
        o << ",\"violation\":";
        jsonStr(o, found.failed ? found.violation : "");
        o << ",\"replay\":";
        jsonStr(o, replayPath);
        o << ",\"counters\":{";
        bool firstC = true;
        for (auto &c : total.counters) {
            if (!firstC)
                o << ",";
            firstC = false;
            jsonStr(o, c.first);
            o << ":" << c.second;
        }
        o << "},\"samples\":[";
        bool firstS = true;
        for (auto &s : total.samples) {
            if (!firstS)
                o << ",";
            firstS = false;
            jsonStr(o, s.substr(0, 600));
        }
        o << "]}\n";
    }
    std::cerr << opt.property << ": " << done << "/" << runs << " runs, " << total.distinct.size() << " distinct, " << total.states.size() << " states, "
              << edgesHit << "/" << g_edgeCount << " edges, " << searchWall << " s\n";
    if (opt.verbose)
        for (auto &c : total.counters)
            std::cerr << "  " << c.first << " = " << c.second << "\n";
    return rc;
}
} // namespace

int main(int argc, char **argv)
{
    for (int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        const auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--property")
            opt.property = next();
        else if (a == "--tier")
            opt.tier = next();
        else if (a == "--seed")
            opt.seed = std::strtoull(next().c_str(), nullptr, 10);
        else if (a == "--runs")
            opt.runs = std::strtoull(next().c_str(), nullptr, 10);
        else if (a == "--time")
            opt.time = std::atof(next().c_str());
        else if (a == "--jobs")
            opt.jobs = std::max(1, std::atoi(next().c_str()));
        else if (a == "--replay")
            opt.replay = next();
        else if (a == "--out")
            opt.out = next();
        else if (a == "--replay-dir")
            opt.replayDir = next();
        else if (a == "--only")
            opt.only = std::strtoull(next().c_str(), nullptr, 10);
        else if (a == "--verbose")
            opt.verbose = true;
        else if (a == "--probe")
            opt.probe = true;
        else if (a == "--list")
            opt.list = true;
        else {
            std::cerr << "unknown argument " << a << "\n";
            return 2;
        }
    }
    if (opt.list) {
        for (auto &s : scenarios())
            std::cout << s.name << " " << s.quickRuns << " " << s.thoroughRuns << "\n";
        return 0;
    }
    char dir[] = "/tmp/rrjsim.XXXXXX";
    if (!mkdtemp(dir)) {
        std::perror("mkdtemp");
        return 3;
    }
    tmpBase = std::string(dir) + "/w";
    alloc::setup();
    {
        Run r;
        run = &r;
        prepare();
        // the code under test may be broken: if it does not survive the warmup, that is for the runs to find
        std::cout.flush();
        const auto pid = fork();
        if (!pid) {
            if (const int null = open("/dev/null", O_WRONLY); null >= 0)
                dup2(null, 2);
            std::signal(SIGALRM, SIG_DFL);
            alarm(60);
            warmup();
            _exit(0);
        }
        int status = 0;
        if (pid < 0 || waitpid(pid, &status, 0) != pid || !status)
            warmup();
        else
            std::cerr << "warming up ends with status " << status << "\n";
        run = nullptr;
    }
    auto *sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    int rc = 0;
    if (!opt.replay.empty())
        rc = replayFile(opt.replay, sh);
    else if (opt.only != ~0ull) {
        const auto *sc = findScenario(opt.property);
        if (!sc)
            return 2;
        // record in a child, then show
        Run r;
        r.verbose = true;
        r.ch.seed(runSeed(opt.property, opt.seed, opt.only));
        execute(*sc, r);
        for (auto &l : r.trace)
            std::cout << "  " << l << "\n";
        rc = r.failed;
    } else if (opt.probe) {
        for (auto &p : probes()) {
            if (!opt.property.empty() && opt.property != p.property)
                continue;
            Run r;
            run = &r;
            alloc::reset(alloc::Policy());
            // in a child: a probe may crash
            int fds[2];
            if (pipe(fds))
                return 3;
            const auto pid = fork();
            if (!pid) {
                alarm(60);
                const auto s = p.fn();
                if (write(fds[1], s.data(), s.size()) < 0) {}
                _exit(0);
            }
            close(fds[1]);
            std::string text;
            char buf[512];
            for (ssize_t n; (n = read(fds[0], buf, sizeof(buf))) > 0;)
                text.append(buf, std::size_t(n));
            close(fds[0]);
            int status = 0;
            waitpid(pid, &status, 0);
            if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0))
                text = "the probe crashes";
            std::cout << p.property << " " << p.id << " " << (text.empty() ? "absent" : "present") << " " << text << "\n";
        }
    } else
        rc = search();
    finish();
    rmdir(dir);
    return rc;
}
