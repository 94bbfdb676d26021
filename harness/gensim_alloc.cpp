// Allocator of the generator's simulation: the whole malloc family of a generator life (LLVM, clang and the
// generator itself) is served from an arena at a fixed address under a drawn policy; everything else comes from libc.
#include "alloc.h"
#include "core.h"
#include "gensim.h"

#include <cerrno>
#include <cstdlib>
#include <sys/mman.h>

extern "C" {
void *__libc_malloc(std::size_t);
void __libc_free(void *);
void *__libc_calloc(std::size_t, std::size_t);
void *__libc_realloc(void *, std::size_t);
void *__libc_memalign(std::size_t, std::size_t);
}

namespace sim {
namespace alloc {
thread_local int t_domain = 0;
NoFail::NoFail() {}
NoFail::~NoFail() {}
Harness::Harness()
    : prev(t_domain)
    , prevCount(t_countSteps)
{
    t_domain = 0;
    t_countSteps = false;
}
Harness::~Harness()
{
    t_domain = prev;
    t_countSteps = prevCount;
}
namespace {
constexpr std::uintptr_t kBase = 0x200000000000ull, kSize = 2ull << 30;
constexpr std::size_t kClasses = 513;
struct Header {
    std::uint64_t size;
    std::uint64_t next;
};
bool g_ready;
std::uintptr_t g_up, g_down;
gensim::Memory g_mem;
std::uint64_t g_rnd;
std::uint64_t g_head[kClasses], g_tail[kClasses];

Header *header(std::uintptr_t p) { return reinterpret_cast<Header *>(p - sizeof(Header)); }
bool inArena(const void *ptr)
{
    const auto p = reinterpret_cast<std::uintptr_t>(ptr);
    return p >= kBase && p < kBase + kSize;
}
void *take(std::size_t n, std::size_t align)
{
    if (align < 16)
        align = 16;
    const auto size = (n + 15) & ~std::size_t(15);
    const auto cls = size / 16 < kClasses && align == 16 ? size / 16 : 0;
    std::uintptr_t p = 0;
    if (cls && g_mem.reuse && g_head[cls]) {
        p = g_head[cls];
        g_head[cls] = header(p)->next;
        if (!g_head[cls])
            g_tail[cls] = 0;
    } else {
        std::uintptr_t gap = 0;
        bool down = g_mem.direction == 1;
        if (g_mem.gaps || g_mem.direction == 2) {
            g_rnd = mix(g_rnd);
            if (g_mem.gaps)
                gap = (g_rnd & 15) * 16 + (!(g_rnd >> 8 & 63) ? (g_rnd >> 16 & 15) << 12 : 0);
            if (g_mem.direction == 2)
                down = g_rnd >> 40 & 1;
        }
        if (!down) {
            p = (g_up + gap + sizeof(Header) + align - 1) & ~(align - 1);
            if (p + size > g_down)
                return nullptr;
            g_up = p + size;
        } else {
            p = (g_down - gap - size) & ~(align - 1);
            if (p - sizeof(Header) < g_up)
                return nullptr;
            g_down = p - sizeof(Header);
        }
    }
    header(p)->size = n;
    header(p)->next = align;
    std::memset(reinterpret_cast<void *>(p), g_mem.fill, size);
    return reinterpret_cast<void *>(p);
}
void give(void *ptr)
{
    const auto p = reinterpret_cast<std::uintptr_t>(ptr);
    const auto size = (header(p)->size + 15) & ~std::size_t(15);
    const auto cls = size / 16 < kClasses && header(p)->next == 16 ? size / 16 : 0;
    std::memset(ptr, g_mem.fill ^ 0x5A, size);
    if (!cls || !g_mem.reuse)
        return;
    if (g_mem.reuse == 1 || !g_tail[cls]) {
        header(p)->next = g_head[cls];
        g_head[cls] = p;
        if (!header(p)->next)
            g_tail[cls] = p;
    } else {
        header(p)->next = 0;
        header(g_tail[cls])->next = p;
        g_tail[cls] = p;
    }
}
} // namespace
void setup()
{
    void *p = mmap(reinterpret_cast<void *>(kBase), kSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void *>(kBase)) {
        std::perror("arena mmap");
        std::_Exit(3);
    }
    g_ready = true;
}
void reset(const Policy &) {}
void rebase(const Policy &) {}
std::int64_t mallocBalance() { return 0; }
void resetMallocBalance() {}
} // namespace alloc
} // namespace sim

void gensim::startLife(const Memory &m)
{
    using namespace sim::alloc;
    g_mem = m;
    g_rnd = sim::mix(m.seed);
    g_up = kBase + (1u << 20) + (std::uintptr_t(m.offset) << 4);
    g_down = kBase + kSize - (1u << 20) - (std::uintptr_t(m.offset) << 4);
    t_domain = 1;
}

using namespace sim::alloc;
extern "C" {
void *malloc(std::size_t n) { return t_domain ? take(n, 16) : __libc_malloc(n); }
void free(void *p)
{
    if (!p)
        return;
    if (inArena(p)) {
        const int e = errno;
        give(p);
        errno = e;
    } else
        __libc_free(p);
}
void *calloc(std::size_t a, std::size_t b)
{
    if (!t_domain)
        return __libc_calloc(a, b);
    std::size_t n;
    if (__builtin_mul_overflow(a, b, &n))
        return nullptr;
    void *p = take(n, 16);
    if (p)
        std::memset(p, 0, n);
    return p;
}
void *realloc(void *o, std::size_t n)
{
    if (!o)
        return malloc(n);
    if (!inArena(o)) {
        // whatever was allocated before this life stays where it is managed
        return __libc_realloc(o, n);
    }
    const auto old = header(reinterpret_cast<std::uintptr_t>(o))->size;
    void *p = take(n, 16);
    if (p) {
        std::memcpy(p, o, old < n ? old : n);
        give(o);
    }
    return p;
}
void *memalign(std::size_t a, std::size_t n) { return t_domain ? take(n, a) : __libc_memalign(a, n); }
void *aligned_alloc(std::size_t a, std::size_t n) { return memalign(a, n); }
int posix_memalign(void **p, std::size_t a, std::size_t n)
{
    *p = memalign(a, n);
    return *p ? 0 : ENOMEM;
}
std::size_t malloc_usable_size(void *p) { return p && inArena(p) ? header(reinterpret_cast<std::uintptr_t>(p))->size : 0; }
}
