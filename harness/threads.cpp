#include "threads.h"
#include "alloc.h"
#include "core.h"

#include <pthread.h>
#include <semaphore.h>

#include <cerrno>
#include <cstdlib>
#include <unistd.h>

namespace sched {
using namespace sim;
namespace {
struct Thread {
    pthread_t handle;
    sem_t baton;
    const std::function<void()> *fn = nullptr;
    bool done = false;
    bool blocked = false; // spins on a lock somebody else holds
    std::uint64_t steps = 0;
};
constexpr unsigned kMax = 8;
Thread g_threads[kMax];
unsigned g_count = 0, g_current = 0;
bool g_active = false;
sem_t g_allDone;
std::uint32_t g_granularity = 1;
std::uint64_t g_left = 0; // edges until the next switch; 0: none
std::uint32_t g_switchesLeft = 0;
Result g_result;
thread_local int t_id = -1;
thread_local int t_noPreempt = 0;

void waitFor(sem_t &s)
{
    while (sem_wait(&s) && errno == EINTR) {}
}
std::uint64_t nextSlice() { return 1 + ch().below(2 * g_granularity - 1); }
// picks who continues; -1 if nobody can
int pickNext(bool allowCurrent)
{
    unsigned able[kMax], n = 0;
    for (unsigned i = 0; i < g_count; ++i)
        if (!g_threads[i].done && (allowCurrent || i != g_current))
            able[n++] = i;
    return n ? int(able[ch().below(n)]) : -1;
}
void switchTo(unsigned next)
{
    const auto me = g_current;
    g_result.interleaving = mix(g_result.interleaving ^ (g_threads[me].steps * kMax + next));
    ++g_result.switches;
    g_current = next;
    sem_post(&g_threads[next].baton);
    waitFor(g_threads[me].baton);
}
bool g_stored = false; // the thread going on has just written to memory others can reach
std::uint32_t g_accessOdds = 0;
std::uint64_t g_accesses = 0;
void hand()
{
    Harness h;
    if (!g_switchesLeft)
        return;
    --g_switchesLeft;
    g_stored = false;
    const auto next = pickNext(false);
    if (next >= 0)
        switchTo(unsigned(next));
}
bool storedBefore()
{
    if (!g_stored || t_noPreempt)
        return false;
    Harness h;
    g_stored = false;
    if (ch().below(4) == 3)
        return false;
    hand();
    return true;
}
void access(bool store)
{
    if (t_id < 0 || t_noPreempt || !g_switchesLeft)
        return;
    ++g_threads[t_id].steps;
    ++g_accesses;
    if (!storedBefore()) {
        Harness h;
        if (g_accessOdds && ch().below(g_accessOdds) == g_accessOdds - 1)
            hand();
    }
    g_stored = store;
}
void preempt()
{
    if (t_id < 0)
        return;
    auto &t = g_threads[t_id];
    ++t.steps;
    if (storedBefore())
        return;
    if (t_noPreempt || !g_left || --g_left)
        return;
    Harness h;
    if (!g_switchesLeft)
        return;
    --g_switchesLeft;
    g_left = nextSlice();
    const auto next = pickNext(false);
    if (next >= 0)
        switchTo(unsigned(next));
}
void *body(void *p)
{
    t_id = int(reinterpret_cast<std::uintptr_t>(p));
    auto &t = g_threads[t_id];
    waitFor(t.baton);
    (*t.fn)();
    Harness h;
    t.done = true;
    g_stored = false;
    const auto next = pickNext(false);
    if (next < 0)
        sem_post(&g_allDone);
    else {
        g_result.interleaving = mix(g_result.interleaving ^ (t.steps * kMax + unsigned(next)) ^ 0x55);
        g_current = unsigned(next);
        sem_post(&g_threads[next].baton);
    }
    return nullptr;
}
} // namespace
bool active() { return g_active && t_id >= 0; }

Result runAll(const std::vector<std::function<void()>> &threads, std::uint32_t granularity, std::uint32_t first, std::uint32_t maxSwitches)
{
    g_count = unsigned(threads.size());
    g_granularity = granularity ? granularity : 1;
    g_result = Result();
    sem_init(&g_allDone, 0, 0);
    for (unsigned i = 0; i < g_count; ++i) {
        auto &t = g_threads[i];
        t.fn = &threads[i];
        t.done = t.blocked = false;
        t.steps = 0;
        sem_init(&t.baton, 0, 0);
        if (pthread_create(&t.handle, nullptr, body, reinterpret_cast<void *>(std::uintptr_t(i)))) {
            std::perror("pthread_create");
            std::_Exit(3);
        }
    }
    g_left = 1 + ch().below(first);
    g_switchesLeft = maxSwitches;
    g_current = ch().below(g_count);
    g_active = true;
    g_stored = false;
    g_accesses = 0;
    g_accessOdds = ch().below(3) * 6; // none, one in 6 or 12
    g_preempt = &preempt;
    g_access = &access;
    sem_post(&g_threads[g_current].baton);
    waitFor(g_allDone);
    g_preempt = nullptr;
    g_access = nullptr;
    g_active = false;
    g_result.accesses = g_accesses;
    for (unsigned i = 0; i < g_count; ++i) {
        pthread_join(g_threads[i].handle, nullptr);
        sem_destroy(&g_threads[i].baton);
    }
    sem_destroy(&g_allDone);
    return g_result;
}

// Locks the code under test may take: whoever finds one taken lets the others go on.
static void block()
{
    Harness h;
    static thread_local unsigned spins = 0;
    const auto next = pickNext(false);
    if (next < 0 || ++spins > 200000) {
        static const char msg[] = "ERROR: Sim: deadlock (a thread waits for a lock nobody will release)\n";
        if (write(2, msg, sizeof(msg) - 1)) {}
        _exit(78);
    }
    switchTo(unsigned(next));
}
} // namespace sched

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!sched::active() || !sim::alloc::t_domain)
        return __real_pthread_mutex_lock(m);
    for (;;) {
        const auto r = pthread_mutex_trylock(m);
        if (r != EBUSY)
            return r;
        sched::block();
    }
}
// no switch while a function-local static is being initialised: the others would wait for it outside of the scheduler's reach
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    if (!sched::active() || !sim::alloc::t_domain)
        return __real_pthread_rwlock_rdlock(m);
    for (;;) {
        const auto r = pthread_rwlock_tryrdlock(m);
        if (r != EBUSY)
            return r;
        sched::block();
    }
}
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    if (!sched::active() || !sim::alloc::t_domain)
        return __real_pthread_rwlock_wrlock(m);
    for (;;) {
        const auto r = pthread_rwlock_trywrlock(m);
        if (r != EBUSY)
            return r;
        sched::block();
    }
}
int __real_pthread_once(pthread_once_t *, void (*)());
int __wrap_pthread_once(pthread_once_t *o, void (*fn)())
{
    ++sched::t_noPreempt;
    const auto r = __real_pthread_once(o, fn);
    --sched::t_noPreempt;
    return r;
}
int __real___cxa_guard_acquire(std::uint64_t *);
int __wrap___cxa_guard_acquire(std::uint64_t *g)
{
    const auto r = __real___cxa_guard_acquire(g);
    if (r)
        ++sched::t_noPreempt;
    return r;
}
void __real___cxa_guard_release(std::uint64_t *);
void __wrap___cxa_guard_release(std::uint64_t *g)
{
    --sched::t_noPreempt;
    __real___cxa_guard_release(g);
}
void __real___cxa_guard_abort(std::uint64_t *);
void __wrap___cxa_guard_abort(std::uint64_t *g)
{
    --sched::t_noPreempt;
    __real___cxa_guard_abort(g);
}
}
