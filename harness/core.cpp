#include "core.h"
#include "alloc.h"

#include <locale>
#include <sstream>
#include <cstdarg>
#include <cstdlib>
#include <unistd.h>

namespace sim {
Run *run = nullptr;
thread_local bool t_countSteps = false;
std::uint64_t g_steps = 0;
std::uint64_t g_stepLimit = ~0ull;
void (*g_preempt)() = nullptr;
void (*g_access)(bool store) = nullptr;
Range g_readOnly[16];
unsigned g_readOnlyCount = 0;
std::uint32_t g_edgeCount = 0;
std::uint8_t *g_edgeSeen = nullptr;
std::uint64_t g_edgesHit = 0;

std::uint32_t Choices::raw(std::uint32_t n)
{
    Harness h; // the tape is the harness's own
    std::uint32_t v;
    if (replay) {
        v = pos < tape.size() ? tape[pos] % n : 0;
        if (pos < tape.size())
            tape[pos] = v;
        ++pos;
    } else {
        state += 0x9e3779b97f4a7c15ull;
        std::uint64_t z = state;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        z ^= z >> 31;
        v = static_cast<std::uint32_t>((static_cast<unsigned __int128>(z) * n) >> 64);
        tape.push_back(v);
        ++pos;
    }
    if (mirror && pos < mirrorCap) {
        mirror[pos] = v;
        mirror[0] = static_cast<std::uint32_t>(pos);
    }
    return v;
}

static void vlog(const char *fmt, va_list ap)
{
    char buf[1024];
    const int n = std::vsnprintf(buf, sizeof(buf), fmt, ap);
    const auto len = std::size_t(n < 0 ? 0 : n < int(sizeof(buf)) ? n : int(sizeof(buf)) - 1);
    run->hash = hashBytes(buf, len, run->hash);
    ++run->events;
    if (run->verbose)
        run->trace.emplace_back(buf, len);
}
void ev(const char *fmt, ...)
{
    Harness h;
    va_list ap;
    va_start(ap, fmt);
    vlog(fmt, ap);
    va_end(ap);
}
void note(const char *fmt, ...)
{
    if (!run->verbose)
        return;
    Harness h;
    char buf[3000];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    run->trace.emplace_back(std::string("  ") + buf);
}
void fail(const char *cls, const char *fmt, ...)
{
    Harness h;
    char buf[1536];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    for (char *c = buf; *c; ++c)
        if (static_cast<unsigned char>(*c) < 0x20)
            *c = ' ';
    if (run->failed) {
        ev("further violation %s: %s", cls, buf);
        return;
    }
    run->failed = true;
    run->violation = std::string(cls) + ": " + buf;
    ev("VIOLATION %s: %s", cls, buf);
}
std::string hex(const std::string &s, std::size_t max)
{
    static const char d[] = "0123456789abcdef";
    std::string r;
    for (std::size_t i = 0; i < s.size() && i < max; ++i) {
        r += d[static_cast<unsigned char>(s[i]) >> 4];
        r += d[static_cast<unsigned char>(s[i]) & 15];
    }
    if (s.size() > max)
        r += "..(" + std::to_string(s.size()) + ")";
    return r;
}
std::string quote(const std::string &s, std::size_t max)
{
    std::string r = "\"";
    for (std::size_t i = 0; i < s.size() && i < max; ++i) {
        const auto c = static_cast<unsigned char>(s[i]);
        if (c < 0x20 || c >= 0x7f || c == '"' || c == '\\') {
            char b[8];
            std::snprintf(b, sizeof(b), "\\x%02x", c);
            r += b;
        } else
            r += char(c);
    }
    r += '"';
    if (s.size() > max)
        r += "..(" + std::to_string(s.size()) + ")";
    return r;
}
std::vector<Scenario> &scenarios()
{
    static std::vector<Scenario> v;
    return v;
}
bool g_foreignLocale;
namespace {
struct Punctuation : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
} // namespace
void setForeignLocale(bool on)
{
    static const std::locale foreign(std::locale::classic(), new Punctuation);
    static const bool once = [] {
        // the runtime prepares numbers in a locale when they are used the first time
        std::stringstream s;
        s.imbue(foreign);
        double d = 0;
        bool b = false;
        s << std::boolalpha << 12345 << ' ' << 1.5 << ' ' << true;
        s >> d >> b;
        return true;
    }();
    if (once && on != g_foreignLocale) {
        std::locale::global(on ? foreign : std::locale::classic());
        g_foreignLocale = on;
    }
}
std::vector<Probe> &probes()
{
    static std::vector<Probe> v;
    return v;
}
} // namespace sim

extern "C" {
__attribute__((no_sanitize("address", "undefined"))) void __sanitizer_cov_trace_pc_guard_init(std::uint32_t *start, std::uint32_t *stop)
{
    if (start == stop || *start)
        return;
    for (auto *g = start; g < stop; ++g)
        *g = ++sim::g_edgeCount;
}
__attribute__((no_sanitize("address", "undefined"))) void __sanitizer_cov_trace_pc_guard(std::uint32_t *guard)
{
    if (!sim::t_countSteps)
        return;
    if (sim::g_edgeSeen && !sim::g_edgeSeen[*guard]) {
        sim::g_edgeSeen[*guard] = 1;
        ++sim::g_edgesHit;
    }
    if (++sim::g_steps > sim::g_stepLimit) {
        sim::t_countSteps = false;
        static const char msg[] = "ERROR: Sim: hang (step limit exceeded)\n";
        if (write(2, msg, sizeof(msg) - 1)) {}
        _exit(78);
    }
    if (sim::g_preempt)
        sim::g_preempt();
}
extern char __data_start[], _end[];
#define ACCESS_HOOKS(n)                                                                                                                     \
    __attribute__((no_sanitize("address", "undefined"))) void __sanitizer_cov_load##n(void *p)                                              \
    {                                                                                                                                       \
        const auto a = reinterpret_cast<std::uintptr_t>(p);                                                                                 \
        if (sim::g_access && a - reinterpret_cast<std::uintptr_t>(__data_start) < std::uintptr_t(_end - __data_start) && sim::t_countSteps) \
            sim::g_access(false);                                                                                                           \
    }                                                                                                                                       \
    __attribute__((no_sanitize("address", "undefined"))) void __sanitizer_cov_store##n(void *p)                                             \
    {                                                                                                                                       \
        if (!sim::g_access || !sim::t_countSteps)                                                                                           \
            return;                                                                                                                         \
        const auto a = reinterpret_cast<std::uintptr_t>(p);                                                                                 \
        bool hot = a - reinterpret_cast<std::uintptr_t>(__data_start) < std::uintptr_t(_end - __data_start);                                \
        for (unsigned i = 0; !hot && i < sim::g_readOnlyCount; ++i)                                                                         \
            hot = a >= sim::g_readOnly[i].begin && a < sim::g_readOnly[i].end;                                                              \
        if (hot)                                                                                                                            \
            sim::g_access(true);                                                                                                            \
    }
ACCESS_HOOKS(1)
ACCESS_HOOKS(2)
ACCESS_HOOKS(4)
ACCESS_HOOKS(8)
ACCESS_HOOKS(16)
}
