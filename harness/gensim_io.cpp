// Answers the file calls of a generator life. The files themselves are real files in a scratch directory.
#include "gensim.h"
#include "core.h"

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace gensim {
const char *const kindNames[KindCount]
    = { "open input", "stat", "fstat", "read", "mmap", "close input", "open output", "write", "close output", "write to stdout", "rename", "truncate" };
Life *life = nullptr;

namespace {
char g_scratch[256];
std::size_t g_scratchLen;
constexpr int kFds = 256;
std::uint8_t g_fd[kFds]; // 0: not ours, 1: read from, 2: written to
char g_stdoutData[8192];
std::size_t g_stdoutUsed;

FILE *(*real_fopen)(const char *, const char *);
FILE *(*real_fdopen)(int, const char *);
int (*real_fclose)(FILE *);
int (*real_fflush)(FILE *);
std::size_t (*real_fwrite)(const void *, std::size_t, std::size_t, FILE *);
int (*real_fputc)(int, FILE *);
int (*real_fputs)(const char *, FILE *);

bool ours(int dirfd, const char *path)
{
    if (!life || !path)
        return false;
    if (path[0] == '/')
        return !std::strncmp(path, g_scratch, g_scratchLen) && (path[g_scratchLen] == '/' || !path[g_scratchLen]);
    if (dirfd != AT_FDCWD)
        return false;
    char cwd[512];
    if (syscall(SYS_getcwd, cwd, sizeof(cwd)) <= 0)
        return false;
    return !std::strncmp(cwd, g_scratch, g_scratchLen) && (cwd[g_scratchLen] == '/' || !cwd[g_scratchLen]);
}
int kindOf(int fd) { return life && fd >= 0 && fd < kFds ? g_fd[fd] : 0; }
void track(int fd, bool out)
{
    if (fd >= 0 && fd < kFds)
        g_fd[fd] = out ? 2 : 1;
}

struct Decision {
    bool fault = false;
    std::uint8_t code = 0;
    std::uint16_t arg = 0;
    std::uint32_t idx = 0;
};
bool transient(Kind k, std::uint8_t code)
{
    switch (k) {
    case OpenIn:
        return code % 6 == 4;
    case Read:
        return code % 3 != 0;
    case Write:
    case StdoutWrite:
        return code % 4 > 1;
    default:
        return false;
    }
}
Decision decide(Kind k)
{
    Decision d;
    d.idx = life->calls++;
    const auto slot = d.idx < Life::cap ? d.idx : Life::cap - 1;
    auto &r = life->record[slot];
    r.kind = k;
    r.injected = 0;
    for (std::uint32_t i = 0; i < life->faultCount; ++i) {
        const auto &f = life->faults[i];
        bool hit = f.at == d.idx;
        // errors stay, interruptions end at some point
        if (!hit && f.persistent && d.idx > f.at && f.at < Life::cap && life->record[f.at].kind == k)
            hit = !transient(k, f.code) || d.idx < f.at + 24;
        if (!hit)
            continue;
        if (f.kill) {
            r.injected = 255;
            ++life->injected;
            kill(getpid(), SIGKILL);
        }
        d.fault = true;
        d.code = f.code;
        d.arg = f.arg;
        break;
    }
    return d;
}
int inject(const Decision &d, int err)
{
    life->record[d.idx < Life::cap ? d.idx : Life::cap - 1].injected = std::uint8_t(d.code % 250 + 1);
    ++life->injected;
    errno = err;
    return -1;
}
std::uint64_t splitDraw(const Decision &d) { return sim::mix(life->splitSeed ^ (std::uint64_t(d.idx) << 20)); }

template <std::size_t N> int pick(const int (&a)[N], std::uint8_t code) { return a[code % N]; }
const int kOpenIn[] = { EACCES, EMFILE, EIO, ENOMEM, EINTR, ENFILE };
const int kStat[] = { EIO, EACCES, ENOMEM };
const int kFstat[] = { EIO, EOVERFLOW, ENOMEM };
const int kMap[] = { ENOMEM, ENODEV, EACCES };
const int kOpenOut[] = { EACCES, ENOENT, ENOSPC, EROFS, EMFILE, EISDIR, EIO };
const int kWrite[] = { ENOSPC, EIO, EDQUOT, EFBIG, EPERM };
const int kStdout[] = { ENOSPC, EIO, EPIPE, EBADF, EAGAIN };

// how many bytes a transfer of n bytes moves: n, fewer, or -1 with errno
ssize_t transfer(Kind k, std::size_t n)
{
    const auto d = decide(k);
    if (d.fault) {
        if (k == Read) {
            switch (d.code % 3) {
            case 0:
                return inject(d, EIO);
            case 1:
                return inject(d, EINTR);
            }
        } else {
            switch (d.code % 4) {
            case 0:
            case 1:
                return inject(d, k == Write ? pick(kWrite, std::uint8_t(d.arg)) : pick(kStdout, std::uint8_t(d.arg)));
            case 2:
                return inject(d, EINTR);
            }
        }
        if (n > 1) {
            inject(d, 0);
            return ssize_t(1 + d.arg % (n - 1));
        }
        return ssize_t(n);
    }
    if (life->splitSeed) {
        const auto r = splitDraw(d);
        if (k != StdoutWrite && !(r & 7)) {
            ++life->splits;
            errno = EINTR;
            return -1;
        }
        if (n > 1 && (r >> 3 & 3)) {
            ++life->splits;
            return ssize_t(1 + (r >> 8) % (r >> 5 & 1 ? n - 1 : n < 16 ? n - 1 : 15));
        }
    }
    return ssize_t(n);
}

bool flushStdout()
{
    std::size_t done = 0;
    bool ok = true;
    while (done < g_stdoutUsed) {
        const auto n = transfer(StdoutWrite, g_stdoutUsed - done);
        if (n < 0) {
            ok = false;
            break;
        }
        const auto w = syscall(SYS_write, 1, g_stdoutData + done, std::size_t(n));
        if (w <= 0) {
            ok = false;
            break;
        }
        done += std::size_t(w);
    }
    std::memmove(g_stdoutData, g_stdoutData + done, g_stdoutUsed - done);
    g_stdoutUsed -= done;
    return ok;
}
// as the C library: buffered, errors show when the buffer is written
std::size_t stdoutWrite(const char *p, std::size_t n)
{
    const auto e = errno;
    std::size_t done = 0;
    while (done < n) {
        const auto room = life->stdoutBuffer > g_stdoutUsed ? life->stdoutBuffer - g_stdoutUsed : 0;
        if (!room) {
            if (!flushStdout())
                return done;
            continue;
        }
        const auto k = n - done < room ? n - done : room;
        std::memcpy(g_stdoutData + g_stdoutUsed, p + done, k);
        g_stdoutUsed += k;
        done += k;
    }
    if (life->stdoutBuffer == 1 && !flushStdout()) // unbuffered
        return done ? done - 1 : 0;
    errno = e;
    return done;
}
} // namespace

// the C library writes what is left of standard output when the process ends; nobody learns of a failure
__attribute__((destructor)) static void lastFlush()
{
    if (life)
        flushStdout();
}

void setupIo()
{
    real_fopen = reinterpret_cast<decltype(real_fopen)>(dlsym(RTLD_NEXT, "fopen64"));
    real_fdopen = reinterpret_cast<decltype(real_fdopen)>(dlsym(RTLD_NEXT, "fdopen"));
    real_fclose = reinterpret_cast<decltype(real_fclose)>(dlsym(RTLD_NEXT, "fclose"));
    real_fflush = reinterpret_cast<decltype(real_fflush)>(dlsym(RTLD_NEXT, "fflush"));
    real_fwrite = reinterpret_cast<decltype(real_fwrite)>(dlsym(RTLD_NEXT, "fwrite"));
    real_fputc = reinterpret_cast<decltype(real_fputc)>(dlsym(RTLD_NEXT, "fputc"));
    real_fputs = reinterpret_cast<decltype(real_fputs)>(dlsym(RTLD_NEXT, "fputs"));
}
void startIo(Life *l, const std::string &scratch)
{
    std::snprintf(g_scratch, sizeof(g_scratch), "%s", scratch.c_str());
    g_scratchLen = scratch.size();
    std::memset(g_fd, 0, sizeof(g_fd));
    g_stdoutUsed = 0;
    life = l;
}
static int simOpen(int dirfd, const char *path, int flags, unsigned mode)
{
    const bool mine = ours(dirfd, path) && !(flags & O_DIRECTORY);
    const bool out = (flags & O_ACCMODE) != O_RDONLY;
    if (mine) {
        const auto d = decide(out ? OpenOut : OpenIn);
        if (d.fault)
            return inject(d, out ? pick(kOpenOut, d.code) : pick(kOpenIn, d.code));
        if (!out && life->splitSeed && !(splitDraw(d) & 7)) {
            ++life->splits;
            errno = EINTR;
            return -1;
        }
    }
    const int fd = int(syscall(SYS_openat, dirfd, path, flags, mode));
    if (mine && fd >= 0)
        track(fd, out);
    return fd;
}
static int simStat(int dirfd, const char *path, struct stat *st, int flags)
{
    if (ours(dirfd, path)) {
        const auto d = decide(Stat);
        if (d.fault)
            return inject(d, pick(kStat, d.code));
    }
    return int(syscall(SYS_newfstatat, dirfd, path, st, flags));
}
static int simFstat(int fd, struct stat *st)
{
    if (kindOf(fd)) {
        const auto d = decide(Fstat);
        if (d.fault)
            return inject(d, pick(kFstat, d.code));
    }
    return int(syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH));
}
} // namespace gensim

using namespace gensim;
extern "C" {
int open(const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    const auto mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, unsigned) : 0u;
    va_end(ap);
    return simOpen(AT_FDCWD, path, flags, mode);
}
int open64(const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    const auto mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, unsigned) : 0u;
    va_end(ap);
    return simOpen(AT_FDCWD, path, flags, mode);
}
int openat(int dirfd, const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    const auto mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, unsigned) : 0u;
    va_end(ap);
    return simOpen(dirfd, path, flags, mode);
}
int openat64(int dirfd, const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    const auto mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, unsigned) : 0u;
    va_end(ap);
    return simOpen(dirfd, path, flags, mode);
}
int creat(const char *path, mode_t mode) { return simOpen(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int stat(const char *p, struct stat *st) { return simStat(AT_FDCWD, p, st, 0); }
int stat64(const char *p, struct stat64 *st) { return simStat(AT_FDCWD, p, reinterpret_cast<struct stat *>(st), 0); }
int fstat(int fd, struct stat *st) { return simFstat(fd, st); }
int fstat64(int fd, struct stat64 *st) { return simFstat(fd, reinterpret_cast<struct stat *>(st)); }
ssize_t read(int fd, void *p, std::size_t n)
{
    if (kindOf(fd) && n) {
        const auto k = transfer(Read, n);
        if (k < 0)
            return -1;
        n = std::size_t(k);
    }
    return syscall(SYS_read, fd, p, n);
}
ssize_t pread(int fd, void *p, std::size_t n, off_t off)
{
    if (kindOf(fd) && n) {
        const auto k = transfer(Read, n);
        if (k < 0)
            return -1;
        n = std::size_t(k);
    }
    return syscall(SYS_pread64, fd, p, n, off);
}
ssize_t pread64(int fd, void *p, std::size_t n, off64_t off) { return pread(fd, p, n, off); }
ssize_t write(int fd, const void *p, std::size_t n)
{
    if (life && n && (kindOf(fd) || fd == 1)) {
        const auto k = transfer(fd == 1 ? StdoutWrite : Write, n);
        if (k < 0)
            return -1;
        n = std::size_t(k);
    }
    return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (life && (kindOf(fd) || fd == 1)) {
        std::size_t n = 0;
        for (int i = 0; i < c; ++i)
            n += v[i].iov_len;
        if (n) {
            auto k = transfer(fd == 1 ? StdoutWrite : Write, n);
            if (k < 0)
                return -1;
            ssize_t done = 0;
            for (int i = 0; i < c && k > 0; ++i) {
                const auto part = std::size_t(k) < v[i].iov_len ? std::size_t(k) : v[i].iov_len;
                if (!part)
                    continue;
                const auto w = syscall(SYS_write, fd, v[i].iov_base, part);
                if (w < 0)
                    return done ? done : -1;
                done += w;
                k -= w;
            }
            return done;
        }
    }
    return syscall(SYS_writev, fd, v, c);
}
int close(int fd)
{
    const auto k = kindOf(fd);
    if (k) {
        g_fd[fd] = 0;
        const auto d = decide(k == 1 ? CloseIn : CloseOut);
        if (d.fault) {
            if (k == 2) {
                struct stat st;
                syscall(SYS_newfstatat, fd, "", &st, AT_EMPTY_PATH);
                if (st.st_size && syscall(SYS_ftruncate, fd, st.st_size - 1 - d.arg % st.st_size)) {}
            }
            syscall(SYS_close, fd);
            return inject(d, d.code & 1 ? ENOSPC : EIO);
        }
    }
    return int(syscall(SYS_close, fd));
}
void *mmap(void *a, std::size_t n, int prot, int flags, int fd, off_t off)
{
    if (fd >= 0 && kindOf(fd)) {
        const auto d = decide(Map);
        if (d.fault) {
            inject(d, pick(kMap, d.code));
            return MAP_FAILED;
        }
    }
    return reinterpret_cast<void *>(syscall(SYS_mmap, a, n, prot, flags, fd, off));
}
void *mmap64(void *a, std::size_t n, int prot, int flags, int fd, off64_t off) { return mmap(a, n, prot, flags, fd, off); }
int rename(const char *a, const char *b)
{
    if (ours(AT_FDCWD, a) || ours(AT_FDCWD, b)) {
        const auto d = decide(Rename);
        if (d.fault)
            return inject(d, d.code & 1 ? ENOSPC : EIO);
    }
    return int(syscall(SYS_rename, a, b));
}
int ftruncate(int fd, off_t n)
{
    if (kindOf(fd)) {
        const auto d = decide(Truncate);
        if (d.fault)
            return inject(d, EIO);
    }
    return int(syscall(SYS_ftruncate, fd, n));
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fsync(int fd)
{
    if (kindOf(fd)) {
        const auto d = decide(Truncate);
        if (d.fault)
            return inject(d, EIO);
    }
    return 0;
}
int fdatasync(int fd) { return fsync(fd); }
FILE *fopen(const char *path, const char *mode)
{
    if (!real_fopen)
        real_fopen = reinterpret_cast<decltype(real_fopen)>(dlsym(RTLD_NEXT, "fopen64"));
    const bool mine = ours(AT_FDCWD, path);
    const bool out = std::strpbrk(mode, "wa+");
    if (mine) {
        const auto d = decide(out ? OpenOut : OpenIn);
        if (d.fault) {
            inject(d, out ? pick(kOpenOut, d.code) : pick(kOpenIn, d.code));
            return nullptr;
        }
    }
    FILE *f = real_fopen(path, mode);
    if (mine && f)
        track(fileno(f), out);
    return f;
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
int fclose(FILE *f)
{
    if (!real_fclose)
        real_fclose = reinterpret_cast<decltype(real_fclose)>(dlsym(RTLD_NEXT, "fclose"));
    const int fd = life ? fileno(f) : -1;
    const auto k = kindOf(fd);
    if (!k)
        return real_fclose(f);
    g_fd[fd] = 0;
    const auto d = decide(k == 1 ? CloseIn : CloseOut);
    if (!d.fault)
        return real_fclose(f);
    const int keep = k == 2 ? int(syscall(SYS_dup, fd)) : -1;
    real_fclose(f);
    if (keep >= 0) {
        struct stat st;
        syscall(SYS_newfstatat, keep, "", &st, AT_EMPTY_PATH);
        if (st.st_size && syscall(SYS_ftruncate, keep, st.st_size - 1 - d.arg % st.st_size)) {}
        syscall(SYS_close, keep);
    }
    inject(d, d.code & 1 ? ENOSPC : EIO);
    return EOF;
}
int fflush(FILE *f)
{
    if (life && (f == stdout || !f)) {
        const bool ok = flushStdout();
        if (f)
            return ok ? 0 : EOF;
        real_fflush(nullptr);
        return ok ? 0 : EOF;
    }
    if (!real_fflush)
        real_fflush = reinterpret_cast<decltype(real_fflush)>(dlsym(RTLD_NEXT, "fflush"));
    return real_fflush(f);
}
std::size_t fwrite(const void *p, std::size_t size, std::size_t n, FILE *f)
{
    if (life && f == stdout)
        return size && n ? stdoutWrite(static_cast<const char *>(p), size * n) / size : 0;
    if (!real_fwrite)
        real_fwrite = reinterpret_cast<decltype(real_fwrite)>(dlsym(RTLD_NEXT, "fwrite"));
    return real_fwrite(p, size, n, f);
}
int fputc(int c, FILE *f)
{
    if (life && f == stdout) {
        const char b = char(c);
        return stdoutWrite(&b, 1) == 1 ? c & 255 : EOF;
    }
    if (!real_fputc)
        real_fputc = reinterpret_cast<decltype(real_fputc)>(dlsym(RTLD_NEXT, "fputc"));
    return real_fputc(c, f);
}
#undef putc
int putc(int c, FILE *f) { return fputc(c, f); }
int fputs(const char *s, FILE *f)
{
    if (life && f == stdout) {
        const auto n = std::strlen(s);
        return stdoutWrite(s, n) == n ? 1 : EOF;
    }
    if (!real_fputs)
        real_fputs = reinterpret_cast<decltype(real_fputs)>(dlsym(RTLD_NEXT, "fputs"));
    return real_fputs(s, f);
}
int puts(const char *s) { return fputs(s, stdout) < 0 || fputc('\n', stdout) < 0 ? EOF : 1; }
time_t time(time_t *t)
{
    if (!life) {
        struct timespec ts;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
        if (t)
            *t = ts.tv_sec;
        return ts.tv_sec;
    }
    if (t)
        *t = life->clock;
    return life->clock;
}
int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!life)
        return int(syscall(SYS_clock_gettime, c, ts));
    ts->tv_sec = life->clock;
    ts->tv_nsec = 0;
    return 0;
}
int gettimeofday(struct timeval *tv, void *)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
}
