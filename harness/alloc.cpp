#include "alloc.h"
#include "core.h"

#include <cstdlib>
#include <new>
#include <sys/mman.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define HAVE_ASAN 1
#endif
#endif
#ifndef HAVE_ASAN
#define ASAN_POISON_MEMORY_REGION(p, n) ((void)(p), (void)(n))
#define ASAN_UNPOISON_MEMORY_REGION(p, n) ((void)(p), (void)(n))
#endif
#define NOSAN __attribute__((no_sanitize("address", "undefined")))

namespace sim {
namespace alloc {

thread_local int t_domain = 0;

namespace {
constexpr std::size_t kRed = 32; // header (in the red zone) before each block
constexpr std::uint64_t kMagicLive = 0x4c4956454c495645ull, kMagicFree = 0x4445414444454144ull;
struct Header {
    std::uint64_t magic, size, cls, next;
};
static_assert(sizeof(Header) == kRed);
struct RegionInfo {
    std::uintptr_t base, size, cur, high;
    std::uint64_t live = 0;
};
RegionInfo g_regions[RegionCount] = {
    { 0x200000000000ull, 1ull << 30, 0, 0, 0 },
    { 0x100000ull, 0x100000ull, 0, 0, 0 },
    { 0x30000000ull, 0x8000000ull, 0, 0, 0 },
};
Policy g_policy;
std::uint64_t g_counter, g_live, g_liveBytes, g_peak, g_injected, g_capFails;
std::uint32_t g_gap;
thread_local int g_noFail;
// free lists per region and size class (16 byte steps up to 4 KiB)
constexpr std::size_t kClasses = 257;
std::uint64_t g_freeHead[RegionCount][kClasses], g_freeTail[RegionCount][kClasses];
bool g_ready = false;
std::int64_t g_mallocBalance;

NOSAN Header *header(std::uintptr_t p) { return reinterpret_cast<Header *>(p - kRed); }

NOSAN void *take(std::size_t size, std::size_t align)
{
    if (align < 16)
        align = 16;
    const auto payload = (size + 15) & ~std::size_t(15);
    const auto cls = payload / 16 < kClasses ? payload / 16 : 0;
    const int r = g_policy.region;
    auto &reg = g_regions[r];
    if (cls && g_policy.reuse != Never && align == 16 && g_freeHead[r][cls]) {
        const auto p = g_freeHead[r][cls];
        auto *h = header(p);
        g_freeHead[r][cls] = h->next;
        if (!h->next)
            g_freeTail[r][cls] = 0;
        h->magic = kMagicLive;
        h->size = size;
        h->next = 0;
        ASAN_UNPOISON_MEMORY_REGION(reinterpret_cast<void *>(p), size);
        return reinterpret_cast<void *>(p);
    }
    std::uintptr_t gap = 0;
    if (g_policy.gapSeed) {
        g_gap = g_gap * 1103515245u + 12345u;
        gap = ((g_gap >> 16) & 0x1f) * 16;
        if (!((g_gap >> 21) & 0x3f) && r == Default && reg.cur < reg.base + reg.size / 8)
            gap += std::uintptr_t((g_gap >> 8) & 0xff) << 12;
    }
    auto p = reg.cur + gap + kRed;
    p = (p + align - 1) & ~(align - 1);
    if (p + payload + kRed > reg.base + reg.size) {
        // region exhausted: fall back to the default region, then to failure
        if (r != Default) {
            auto &d = g_regions[Default];
            p = (d.cur + kRed + align - 1) & ~(align - 1);
            if (p + payload + kRed > d.base + d.size)
                return nullptr;
            d.cur = p + payload;
            if (d.cur > d.high)
                d.high = d.cur;
            auto *h = header(p);
            h->magic = kMagicLive;
            h->size = size;
            h->cls = 0;
            h->next = 0;
            ASAN_UNPOISON_MEMORY_REGION(reinterpret_cast<void *>(p), size);
            return reinterpret_cast<void *>(p);
        }
        return nullptr;
    }
    reg.cur = p + payload;
    if (reg.cur > reg.high)
        reg.high = reg.cur;
    auto *h = header(p);
    h->magic = kMagicLive;
    h->size = size;
    h->cls = align == 16 ? cls : 0;
    h->next = 0;
    ASAN_UNPOISON_MEMORY_REGION(reinterpret_cast<void *>(p), size);
    return reinterpret_cast<void *>(p);
}

NOSAN void give(void *ptr)
{
    const auto p = reinterpret_cast<std::uintptr_t>(ptr);
    auto *h = header(p);
    if (h->magic != kMagicLive) {
        std::fprintf(stderr, "ERROR: SimAllocator: %s\n", h->magic == kMagicFree ? "double-free" : "bad-free");
        std::fflush(stderr);
        std::_Exit(77);
    }
    h->magic = kMagicFree;
    --g_live;
    g_liveBytes -= h->size;
    // scribble so that use after free changes results even where it is not intercepted
    const auto payload = (h->size + 15) & ~std::size_t(15);
    ASAN_UNPOISON_MEMORY_REGION(ptr, payload);
    std::memset(ptr, 0xDB, payload);
    ASAN_POISON_MEMORY_REGION(ptr, payload);
    int r = 0;
    for (; r < RegionCount; ++r)
        if (p >= g_regions[r].base && p < g_regions[r].base + g_regions[r].size)
            break;
    if (r < RegionCount)
        --g_regions[r].live;
    if (!h->cls || g_policy.reuse == Never)
        return;
    if (g_policy.reuse == Lifo) {
        h->next = g_freeHead[r][h->cls];
        g_freeHead[r][h->cls] = p;
        if (!h->next)
            g_freeTail[r][h->cls] = p;
    } else {
        h->next = 0;
        if (g_freeTail[r][h->cls])
            header(g_freeTail[r][h->cls])->next = p;
        else
            g_freeHead[r][h->cls] = p;
        g_freeTail[r][h->cls] = p;
    }
}
} // namespace

void setup()
{
    for (auto &r : g_regions) {
        void *p = mmap(reinterpret_cast<void *>(r.base), r.size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != reinterpret_cast<void *>(r.base)) {
            std::perror("arena mmap");
            std::_Exit(3);
        }
        r.cur = r.high = r.base + 4096;
        ASAN_POISON_MEMORY_REGION(reinterpret_cast<void *>(r.base), r.size >= (1u << 30) ? 64u << 20 : r.size);
    }
    g_ready = true;
}

static NOSAN void clear(const Policy &p, bool keepLive)
{
    for (auto &r : g_regions) {
        if (keepLive && r.live) {
            // static variables of the code under test: their blocks stay where they are
            r.cur = r.high;
            continue;
        }
        r.live = 0;
        if (r.high > r.base + 4096) {
            const auto used = r.high - r.base;
            ASAN_POISON_MEMORY_REGION(reinterpret_cast<void *>(r.base), used);
            if (used > (8u << 20))
                madvise(reinterpret_cast<void *>(r.base), (used + 4095) & ~4095ull, MADV_DONTNEED);
        }
        r.cur = r.high = r.base + 4096;
    }
    std::memset(g_freeHead, 0, sizeof(g_freeHead));
    std::memset(g_freeTail, 0, sizeof(g_freeTail));
    g_counter = g_live = g_liveBytes = g_peak = g_injected = g_capFails = 0;
    setPolicy(p);
}
void reset(const Policy &p) { clear(p, false); }
void restart(const Policy &p) { clear(p, true); }
void rebase(const Policy &p)
{
    g_counter = g_live = g_liveBytes = g_peak = g_injected = g_capFails = 0;
    setPolicy(p);
}
void setPolicy(const Policy &p)
{
    g_policy = p;
    g_gap = p.gapSeed;
}
Policy policy() { return g_policy; }
void arm(std::int64_t failAt, bool persistent)
{
    g_counter = 0;
    g_policy.failAt = failAt;
    g_policy.failPersistent = persistent;
}
NoFail::NoFail() { ++g_noFail; }
NoFail::~NoFail() { --g_noFail; }
void disarm() { g_policy.failAt = -1; }
std::uint64_t counter() { return g_counter; }
std::uint64_t liveBlocks() { return std::int64_t(g_live) < 0 ? 0 : g_live; }
std::uint64_t liveBytes() { return std::int64_t(g_liveBytes) < 0 ? 0 : g_liveBytes; }
std::uint64_t peakBytes() { return g_peak; }
std::uint64_t failuresInjected() { return g_injected; }
std::uint64_t capFailures() { return g_capFails; }
bool owns(const void *ptr)
{
    const auto p = reinterpret_cast<std::uintptr_t>(ptr);
    if (g_ready)
        for (auto &r : g_regions)
            if (p >= r.base && p < r.base + r.size)
                return true;
    return false;
}
std::int64_t mallocBalance() { return g_mallocBalance; }
void resetMallocBalance() { g_mallocBalance = 0; }

Sut::Sut()
    : prev(t_domain)
    , prevCount(t_countSteps)
{
    t_domain = 1;
    t_countSteps = true;
}
Sut::~Sut()
{
    t_domain = prev;
    t_countSteps = prevCount;
}
Harness::Harness()
    : prev(t_domain)
    , prevCount(t_countSteps)
{
    t_domain = 0;
    t_countSteps = false;
}
Harness::~Harness()
{
    t_domain = prev;
    t_countSteps = prevCount;
}

static void *allocate(std::size_t size, std::size_t align)
{
    if (!t_domain) {
        void *p = nullptr;
        if (align <= 16)
            p = std::malloc(size ? size : 1);
        else if (posix_memalign(&p, align, size))
            p = nullptr;
        return p;
    }
    const auto idx = static_cast<std::int64_t>(g_counter++);
    if (!g_noFail && g_policy.failAt >= 0 && (idx == g_policy.failAt || (g_policy.failPersistent && idx > g_policy.failAt))) {
        ++g_injected;
        return nullptr;
    }
    if (!g_noFail && (size > g_policy.capBytes || liveBytes() + size > g_policy.capBytes)) {
        ++g_capFails;
        return nullptr;
    }
    void *p = take(size, align);
    if (p) {
        ++g_live;
        for (auto &r : g_regions)
            if (reinterpret_cast<std::uintptr_t>(p) >= r.base && reinterpret_cast<std::uintptr_t>(p) < r.base + r.size)
                ++r.live;
        g_liveBytes += size;
        if (liveBytes() > g_peak)
            g_peak = liveBytes();
        // fresh memory of the code under test has a definite, unusual content
        std::memset(p, 0xCD, size);
    }
    return p;
}
static void *allocateOrThrow(std::size_t size, std::size_t align)
{
    if (void *p = allocate(size, align))
        return p;
    throw std::bad_alloc();
}
static void release(void *p)
{
    if (!p)
        return;
    if (owns(p))
        give(p);
    else
        std::free(p);
}
} // namespace alloc
} // namespace sim

// a point where another thread may go on, unless the runtime allocates for itself (maybe holding a lock)
extern "C" char __executable_start, etext;
#define PREEMPT() \
    do { \
        const auto *caller = static_cast<const char *>(__builtin_return_address(0)); \
        if (sim::g_preempt && sim::alloc::t_domain && caller >= &__executable_start && caller < &etext) \
            sim::g_preempt(); \
    } while (0)
void *operator new(std::size_t n)
{
    PREEMPT();
    return sim::alloc::allocateOrThrow(n, 16);
}
void *operator new[](std::size_t n) { return sim::alloc::allocateOrThrow(n, 16); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return sim::alloc::allocate(n, 16); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return sim::alloc::allocate(n, 16); }
void *operator new(std::size_t n, std::align_val_t a) { return sim::alloc::allocateOrThrow(n, std::size_t(a)); }
void *operator new[](std::size_t n, std::align_val_t a) { return sim::alloc::allocateOrThrow(n, std::size_t(a)); }
void operator delete(void *p) noexcept { sim::alloc::release(p); }
void operator delete[](void *p) noexcept { sim::alloc::release(p); }
void operator delete(void *p, std::size_t) noexcept { sim::alloc::release(p); }
void operator delete[](void *p, std::size_t) noexcept { sim::alloc::release(p); }
void operator delete(void *p, std::align_val_t) noexcept { sim::alloc::release(p); }
void operator delete[](void *p, std::align_val_t) noexcept { sim::alloc::release(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { sim::alloc::release(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { sim::alloc::release(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim::alloc::release(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim::alloc::release(p); }

// RapidJSON's malloc/realloc/free, wrapped at link time to keep a balance
extern "C" {
void *__real_malloc(std::size_t);
void *__real_realloc(void *, std::size_t);
void __real_free(void *);
void *__wrap_malloc(std::size_t n)
{
    void *p = __real_malloc(n);
    if (sim::alloc::t_domain && p)
        ++sim::alloc::g_mallocBalance;
    return p;
}
void *__wrap_realloc(void *o, std::size_t n)
{
    void *p = __real_realloc(o, n);
    if (sim::alloc::t_domain) {
        if (!o && p)
            ++sim::alloc::g_mallocBalance;
    }
    return p;
}
void __wrap_free(void *p)
{
    if (sim::alloc::t_domain && p)
        --sim::alloc::g_mallocBalance;
    __real_free(p);
}
}
