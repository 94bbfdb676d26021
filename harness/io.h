// Simulated devices: what the library's streams read from and write to.
#pragma once
#include "alloc.h"
#include "core.h"

#include <algorithm>
#include <istream>
#include <ostream>
#include <stdexcept>
#include <streambuf>
#include <string>

namespace io {
constexpr std::size_t npos = ~std::size_t(0);

struct DeviceError : std::runtime_error { // what a device of the user's throws
    explicit DeviceError(const char *w)
        : std::runtime_error(w)
    {
    }
};

// An output device behind a stream buffer of any size.
class Sink : public std::streambuf {
public:
    enum Mode { Refuse, ShortThenRefuse, Throw, RefuseOnce };
    std::string accepted;          // what the device has taken
    std::size_t failAt = npos;     // the device takes no byte from this offset on
    Mode mode = Refuse;
    bool syncFails = false;
    bool dead = false;             // the process has crashed: nothing more gets through
    std::size_t crashAt = npos;    // the process crashes when the device is given the byte at this offset
    std::uint64_t refusals = 0, writes = 0;

    explicit Sink(std::size_t buffer = 0)
        : m_buf(buffer, 0)
    {
        setp(m_buf.empty() ? nullptr : &m_buf[0], m_buf.empty() ? nullptr : &m_buf[0] + m_buf.size());
    }
    std::size_t pending() const { return std::size_t(pptr() - pbase()); }

protected:
    // returns how many bytes the device took
    std::size_t device(const char *p, std::size_t n)
    {
        if (sim::g_preempt)
            sim::g_preempt();
        sim::Harness h;
        ++writes;
        if (dead)
            return n; // nobody is left to see the result
        if (crashAt != npos && accepted.size() + n > crashAt) {
            accepted.append(p, crashAt - accepted.size());
            dead = true;
            sim::count("fault:crash-in-write");
            sim::ev("crash at byte %zu", accepted.size());
            return n;
        }
        if (failAt != npos && accepted.size() + n > failAt) {
            const auto part = mode == Refuse || mode == RefuseOnce ? 0 : failAt - accepted.size();
            // a device that refuses a write takes nothing of it; one that writes short takes what fits
            const auto take = mode == Refuse || mode == RefuseOnce ? (n == 1 ? 0 : std::min(n, failAt - accepted.size())) : part;
            accepted.append(p, take);
            ++refusals;
            sim::ev("device takes %zu of %zu bytes at %zu", take, n, accepted.size() - take);
            if (mode == RefuseOnce)
                failAt = npos;
            if (mode == Throw)
                throw DeviceError("simulated device error on write");
            return take;
        }
        accepted.append(p, n);
        return n;
    }
    bool drain()
    {
        const auto n = pending();
        if (!n)
            return true;
        const auto took = device(pbase(), n);
        if (took == n) {
            setp(&m_buf[0], &m_buf[0] + m_buf.size());
            return true;
        }
        const auto rest = n - took;
        std::memmove(&m_buf[0], &m_buf[0] + took, rest);
        setp(&m_buf[0], &m_buf[0] + m_buf.size());
        pbump(int(rest));
        return false;
    }
    int_type overflow(int_type c) override
    {
        if (!drain())
            return traits_type::eof();
        if (traits_type::eq_int_type(c, traits_type::eof()))
            return traits_type::not_eof(c);
        const char b = traits_type::to_char_type(c);
        if (m_buf.empty())
            return device(&b, 1) == 1 ? c : traits_type::eof();
        *pptr() = b;
        pbump(1);
        return c;
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        if (n <= 0)
            return 0;
        if (n <= epptr() - pptr()) {
            std::memcpy(pptr(), s, std::size_t(n));
            pbump(int(n));
            return n;
        }
        if (!drain())
            return 0;
        if (std::size_t(n) < m_buf.size()) {
            std::memcpy(pptr(), s, std::size_t(n));
            pbump(int(n));
            return n;
        }
        return std::streamsize(device(s, std::size_t(n)));
    }
    int sync() override
    {
        if (!drain())
            return -1;
        if (syncFails) {
            sim::Harness h;
            ++refusals;
            sim::ev("device fails to synchronise");
            return -1;
        }
        return 0;
    }

private:
    std::string m_buf;
};

// An input device that delivers its bytes in pieces and may end or fail anywhere.
class Source : public std::streambuf {
public:
    enum End { Eof, Throw };
    std::uint64_t reads = 0;
    bool ended = false; // the end was met
    Source(const std::string &data, std::size_t begin, std::size_t end, const std::uint32_t *chunks, End how = Eof)
        : m_data(data.substr(begin, end - begin))
        , m_how(how)
    {
        for (int i = 0; i < 4; ++i)
            m_chunks[i] = chunks[i] ? chunks[i] : 1;
        setg(nullptr, nullptr, nullptr);
    }
    std::size_t position() const { return m_next - std::size_t(egptr() - gptr()); } // consumed

protected:
    int_type underflow() override
    {
        if (sim::g_preempt)
            sim::g_preempt();
        sim::Harness h;
        ++reads;
        if (m_next >= m_data.size()) {
            ended = true;
            if (m_how == Throw) {
                sim::ev("device error on read at %zu", m_next);
                throw DeviceError("simulated device error on read");
            }
            return traits_type::eof();
        }
        const auto n = std::min<std::size_t>(m_chunks[reads % 4], m_data.size() - m_next);
        char *p = &m_data[m_next];
        m_next += n;
        setg(p, p, p + n);
        return traits_type::to_int_type(*p);
    }

private:
    std::string m_data;
    std::uint32_t m_chunks[4];
    std::size_t m_next = 0;
    End m_how;
};
inline void drawChunks(std::uint32_t (&c)[4])
{
    // whole, one byte at a time, or anything in between
    const auto kind = sim::ch().below(3);
    for (auto &x : c)
        x = kind == 0 ? 1u << 20 : kind == 1 ? 1 : 1 + sim::ch().below(20);
}
} // namespace io
