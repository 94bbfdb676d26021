// C15, C16: whole lives of the code generator under simulated files, memory layouts and environments.
#include "gensim.h"
#include "alloc.h"
#include "core.h"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

int generator_main(int argc, char *argv[]);

using namespace sim;
using namespace gensim;

namespace sim {
extern std::uint64_t g_edgesHit;
void prepare();
void warmup();
void finish();
} // namespace sim

// same addresses in every process: without address space randomisation
__attribute__((constructor(101))) static void fixedAddresses()
{
    const int p = personality(0xffffffff);
    if (p == -1 || (p & ADDR_NO_RANDOMIZE) || std::getenv("GENSIM_REEXEC"))
        return;
    if (personality(static_cast<unsigned long>(p) | ADDR_NO_RANDOMIZE) == -1)
        return;
    setenv("GENSIM_REEXEC", "1", 1);
    // the arguments as the kernel keeps them
    static char buf[65536];
    static char *args[1024];
    const int fd = open("/proc/self/cmdline", O_RDONLY);
    const auto n = fd < 0 ? -1 : read(fd, buf, sizeof(buf) - 1);
    if (fd >= 0)
        close(fd);
    int c = 0;
    for (ssize_t i = 0; i < n && c < 1023; i += ssize_t(std::strlen(buf + i)) + 1)
        args[c++] = buf + i;
    if (c)
        execv("/proc/self/exe", args);
}

namespace {

// ---- the input: random declarations over a stand-in for the library's templates

struct Cls {
    std::string name; // qualified
    bool complete = true, relevant = false, final = false, defaultCtor = true;
};
struct Program {
    std::vector<std::pair<std::string, std::string>> files; // name, content; the first one is the input
    bool valid = true, semantic = false; // semantic: has errors which error-resilient mode tolerates
    std::vector<std::string> jsonClasses, binaryClasses; // for --json-classes, --binary-classes
};

const char kPrelude[] = R"(namespace ReflectiveRapidJSON {
using BinaryVersion = unsigned long;
template <typename T> struct JsonSerializable { static constexpr const char *qualifiedName = "JsonSerializable"; };
template <typename T, BinaryVersion v = 0> struct BinarySerializable { static constexpr BinaryVersion version = v; };
template <typename T> struct AdaptedJsonSerializable { static constexpr bool value = false; };
template <typename T> struct AdaptedBinarySerializable { static constexpr bool value = false; };
namespace JsonReflector {
template <typename T> void push(const T &, int &);
template <typename T> void pull(T &, const int &);
}
namespace BinaryReflector {
template <typename T> void writeCustomType(int &, const T &, BinaryVersion);
template <typename T> BinaryVersion readCustomType(int &, T &, BinaryVersion);
}
}
template <typename T> struct Vec { T *data; unsigned long size; };
)";

struct Writer {
    std::vector<Cls> classes;
    unsigned serial = 0;
    std::string fresh(const char *stem) { return stem + std::to_string(serial++); }
    std::string type()
    {
        static const char *const simple[] = { "int", "unsigned long", "double", "bool", "char", "float", "long long", "const char *" };
        auto &c = ch();
        switch (c.below(6)) {
        case 4:
            for (unsigned i = 0; i < 3 && !classes.empty(); ++i) {
                const auto &k = classes[c.below(classes.size())];
                if (k.complete && k.defaultCtor)
                    return "::" + k.name;
            }
            return "int";
        case 5: {
            std::string inner = simple[c.below(7)];
            return "Vec<" + inner + ">";
        }
        default:
            return simple[c.below(8)];
        }
    }
    void member(std::string &o, const std::string &ind, std::string &name)
    {
        auto &c = ch();
        name = fresh("m");
        const auto t = type();
        switch (c.below(12)) {
        case 8:
            o += ind + "const int " + name + " = " + std::to_string(c.below(100)) + ";\n";
            break;
        case 9:
            o += ind + "static int " + name + ";\n";
            break;
        case 10:
            o += ind + "int " + name + " : " + std::to_string(1 + c.below(9)) + ";\n";
            break;
        case 11:
            o += ind + "mutable " + t + " " + name + ";\n";
            break;
        default:
            o += ind + t + " " + name + (t[0] != ':' && t[0] != 'V' && t[0] != 'c' && c.chance(1, 4) ? " = {}" : "") + ";\n";
        }
    }
    void cls(std::string &o, const std::string &ns, const std::string &ind, unsigned depth)
    {
        auto &c = ch();
        const auto name = fresh("C");
        const auto q = ns.empty() ? name : ns + "::" + name;
        Cls me;
        me.name = q;
        std::vector<std::string> bases;
        const bool json = c.below(4) != 3, bin = c.below(4) != 3;
        if (json)
            bases.push_back("ReflectiveRapidJSON::JsonSerializable<" + name + ">");
        std::uint32_t version = 0;
        if (bin) {
            version = c.chance(1, 2) ? 1 + c.below(9) : 0;
            bases.push_back("ReflectiveRapidJSON::BinarySerializable<" + name + (version ? ", " + std::to_string(version) : "") + ">");
        }
        me.relevant = json || bin;
        for (unsigned i = 0, n = c.below(3); i < n && !classes.empty(); ++i) {
            const auto &k = classes[c.below(classes.size())];
            const auto b = "::" + k.name;
            // a base must be complete, and reachable in one way only
            if (k.complete && !k.final && std::find(bases.begin(), bases.end(), b) == bases.end() && i < 2)
                bases.push_back(b), me.defaultCtor = me.defaultCtor && k.defaultCtor;
        }
        const bool isClass = c.chance(1, 4);
        o += ind + (isClass ? "class " : "struct ") + name;
        for (std::size_t i = 0; i < bases.size(); ++i)
            o += (i ? ", public " : " : public ") + bases[i];
        o += " {\n";
        const auto in = ind + "    ";
        if (c.chance(1, 4)) {
            if (json && c.below(4))
                o += in + "friend void ::ReflectiveRapidJSON::JsonReflector::push<" + name + ">(const " + name + " &, int &);\n";
            if (json && c.below(4))
                o += in + "friend void ::ReflectiveRapidJSON::JsonReflector::pull<" + name + ">(" + name + " &, const int &);\n";
            if (bin && c.below(4))
                o += in + "friend void ::ReflectiveRapidJSON::BinaryReflector::writeCustomType<" + name + ">(int &, const " + name
                    + " &, ReflectiveRapidJSON::BinaryVersion);\n";
            if (bin && c.below(4))
                o += in + "friend ReflectiveRapidJSON::BinaryVersion (::ReflectiveRapidJSON::BinaryReflector::readCustomType<" + name + ">)(int &, " + name
                    + " &, ReflectiveRapidJSON::BinaryVersion);\n";
        }
        if (isClass)
            o += ind + "public:\n";
        if (depth < 2 && c.chance(1, 6))
            cls(o, q, in, depth + 1);
        if (c.chance(1, 8)) {
            o += in + "explicit " + name + "(int);\n";
            me.defaultCtor = false;
        } else if (c.chance(1, 8))
            o += in + name + "();\n";
        for (unsigned i = 0, n = c.below(6); i < n; ++i) {
            std::string m;
            if (c.chance(1, 5))
                o += ind + (c.chance(1, 2) ? "private:\n" : c.chance(1, 2) ? "protected:\n" : "public:\n");
            if (bin && version && c.chance(1, 3)) {
                const auto v = std::to_string(1 + c.below(6));
                o += in + "static constexpr ReflectiveRapidJSON::BinaryVersion " + (c.chance(1, 3) ? "rrjUntilVersion" : "rrjAsOfVersion") + v + "_"
                    + std::to_string(serial++) + " = " + v + ";\n";
            }
            member(o, in, m);
        }
        if (c.chance(1, 6))
            o += in + "enum class " + fresh("E") + " { A, B };\n" + in + "void " + fresh("f") + "() const {}\n";
        o += ind + "};\n";
        classes.push_back(me);
    }
    void decls(std::string &o, unsigned n)
    {
        auto &c = ch();
        for (unsigned i = 0; i < n; ++i)
            switch (c.below(10)) {
            case 6: {
                const auto ns = fresh("n");
                o += "namespace " + ns + " {\n";
                for (unsigned k = 0, m = 1 + c.below(3); k < m; ++k)
                    cls(o, ns, "", 1);
                o += "}\n";
                break;
            }
            case 7:
                o += "struct " + fresh("Fwd") + ";\n";
                break;
            case 8:
                o += "enum class " + fresh("E") + " : unsigned char { A, B = 7 };\n";
                o += "template <typename T> struct " + fresh("T") + " { T value; };\n";
                break;
            case 9:
                if (!classes.empty()) {
                    auto &k = classes[c.below(classes.size())];
                    if (!k.relevant && k.complete) {
                        k.relevant = true;
                        if (c.below(3))
                            o += "template <> struct ReflectiveRapidJSON::AdaptedJsonSerializable<::" + k.name + "> { static constexpr bool value = true; };\n";
                        if (c.below(3))
                            o += "template <> struct ReflectiveRapidJSON::AdaptedBinarySerializable<::" + k.name + "> { static constexpr bool value = true; };\n";
                    }
                    break;
                }
                [[fallthrough]];
            default:
                cls(o, "", "", 0);
            }
    }
};

void pad(std::string &o)
{
    // large files are mapped instead of read
    auto &c = ch();
    if (c.chance(1, 10))
        for (unsigned i = 0, n = 100 + c.below(300); i < n; ++i)
            o += "// filler line " + std::to_string(i * 7919) + " to make the file larger than a few pages of memory, so that it is mapped\n";
}

// declarations in error
std::string semanticErrors(unsigned serial)
{
    auto &c = ch();
    static const char *const broken[] = { "Missing f@(int);", "int f@(Missing m);", "int x@ = undeclared;", "extern int y@; int y@; int y@;", "static_assert(sizeof(int) == 999, \"\");",
        "inline void f@() { return 1; }", "inline int g@() { return undeclared(1); }", "struct E@ { Missing m; ::Missing n; ReflectiveRapidJSON::Missing o; };", "struct E@ { int a; int a; };",
        "struct E@ { void f() const; void f() const; };", "missing::Missing f@();", "using missing::x@;", "extern Missing<int> x@;", "struct E@ : public Missing<int> { int b; };",
        "struct E@ { const int a; E@() {} };" };
    std::string o;
    for (unsigned i = 0, n = 1 + c.below(3); i < n; ++i) {
        std::string text = broken[c.below(15)];
        for (std::size_t at; (at = text.find('@')) != std::string::npos;)
            text.replace(at, 1, std::to_string(serial) + "_" + std::to_string(i));
        o += text + "\n";
    }
    return o;
}
Program drawProgram(bool mayBeInvalid)
{
    auto &c = ch();
    Program p;
    Writer w;
    std::string main = "#include \"rrj.h\"\n";
    std::vector<std::pair<std::string, std::string>> headers;
    headers.emplace_back("rrj.h", std::string("#pragma once\n") + kPrelude);
    for (unsigned i = 0, n = c.below(3); i < n; ++i) {
        std::string h = "#pragma once\n#include \"rrj.h\"\n";
        if (i)
            h += "#include \"inc0.h\"\n";
        w.decls(h, 1 + c.below(3));
        pad(h);
        const auto name = "inc" + std::to_string(i) + ".h";
        main += "#include \"" + name + "\"\n";
        headers.emplace_back(name, h);
    }
    if (c.chance(1, 16)) {
        // many small files
        for (unsigned i = 0, n = 20 + c.below(60); i < n; ++i) {
            const auto name = "part" + std::to_string(i) + ".h", cls = "Part" + std::to_string(i);
            headers.emplace_back(name, "struct " + cls + " { int a; };\n");
            main += "#include \"" + name + "\"\n";
            Cls k;
            k.name = cls;
            w.classes.push_back(k);
        }
        for (auto &k : w.classes)
            if (!k.relevant && c.below(4)) {
                k.relevant = true;
                main += "template <> struct ReflectiveRapidJSON::AdaptedJsonSerializable<::" + k.name + "> { static constexpr bool value = true; };\n";
                main += "template <> struct ReflectiveRapidJSON::AdaptedBinarySerializable<::" + k.name + "> { static constexpr bool value = true; };\n";
            }
    }
    w.decls(main, 1 + c.below(8));
    if (c.chance(1, 6)) // more than one buffer of output
        w.decls(main, 20 + c.below(40));
    pad(main);
    if (mayBeInvalid && c.chance(1, 10)) {
        p.valid = false;
        static const char *const broken[] = { "struct Broken {\n    int a\n};\n", "#include \"missing.h\"\n", "#error broken\n", "struct B0 : Unknown {};\n", "int x = ;\n" };
        const auto *b = broken[c.below(5)];
        if (c.chance(1, 2))
            main += b;
        else
            main.insert(std::min<std::size_t>(main.size(), std::strlen("#include \"rrj.h\"\n")), b);
    }
    if (mayBeInvalid && c.chance(1, 8)) {
        p.semantic = true;
        const auto b = semanticErrors(0);
        if (c.chance(1, 2))
            main += b;
        else
            main.insert(std::min<std::size_t>(main.size(), std::strlen("#include \"rrj.h\"\n")), b);
    }
    for (auto *option : { &p.jsonClasses, &p.binaryClasses })
        if (!w.classes.empty() && c.chance(1, 6))
            for (unsigned i = c.chance(1, 3) ? 1 + c.below(4) : 1; i; --i)
                option->push_back(w.classes[c.below(w.classes.size())].name);
    p.files.emplace_back("input.h", std::move(main));
    for (auto &h : headers)
        p.files.push_back(std::move(h));
    return p;
}

// ---- a directory of its own per run

std::string slurp(const std::string &path, bool *exists = nullptr)
{
    std::string s;
    const int fd = open(path.c_str(), O_RDONLY);
    if (exists)
        *exists = fd >= 0;
    if (fd < 0)
        return s;
    char buf[65536];
    for (ssize_t n; (n = read(fd, buf, sizeof(buf))) > 0;)
        s.append(buf, std::size_t(n));
    close(fd);
    return s;
}
void spill(const std::string &path, const std::string &s)
{
    const int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || write(fd, s.data(), s.size()) != ssize_t(s.size())) {
        std::perror(path.c_str());
        std::_Exit(3);
    }
    close(fd);
}
int g_root;
void removeTree(const std::string &dir)
{
    for (const char *sub : { "/src", "/out", "/home" }) {
        const auto d = dir + sub;
        if (DIR *h = opendir(d.c_str())) {
            while (auto *e = readdir(h))
                if (std::strcmp(e->d_name, ".") && std::strcmp(e->d_name, "..")) {
                    const auto path = d + "/" + e->d_name;
                    if (unlink(path.c_str()))
                        rmdir(path.c_str());
                }
            closedir(h);
        }
        rmdir(d.c_str());
    }
    for (const char *f : { "/stderr", "/stdout" })
        unlink((dir + f).c_str());
    rmdir(dir.c_str());
}
struct Scratch {
    std::string dir;
    Scratch()
    {
        char name[64];
        std::snprintf(name, sizeof(name), "/tmp/rrjgen.%08d.XXXXXX", g_root);
        if (!mkdtemp(name)) {
            std::perror("mkdtemp");
            std::_Exit(3);
        }
        dir = name;
        for (const char *d : { "/src", "/out", "/home" })
            mkdir((dir + d).c_str(), 0700);
    }
    ~Scratch() { removeTree(dir); }
};

struct Setup {
    std::vector<std::string> generators; // empty: the default
    bool toStdout = false;
    bool resilient = false;
    bool visibility = false;
    // what must not matter
    Memory memory;
    std::vector<std::pair<std::string, std::string>> env;
    int cwd = 0; // 0: sources, 1: output, 2: home, 3: /
    bool relative = false;
    std::uint64_t splitSeed = 0;
    std::uint32_t stdoutBuffer = 4096;
    std::int64_t clock = 1000000000;
    unsigned stackOffset = 0;
    std::vector<Fault> faults;
    int argv0 = 0;
    bool include = false; // <...> is searched for in the directory of the sources
};
struct Result {
    int status = 0; // as waitpid tells
    bool exited = false;
    int code = -1;
    bool killedByPlan = false;
    std::string err, output;
    bool hasOutput = false;
    std::vector<CallRecord> calls;
    std::uint32_t injected = 0, splits = 0;
};

Life *sharedLife()
{
    static Life *l = static_cast<Life *>(::mmap(nullptr, sizeof(Life), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    return l;
}

__attribute__((noinline)) int runOnStack(unsigned depth, int argc, char **argv, std::uint8_t fill)
{
    // leave a definite content on the stack the generator is going to use
    {
        volatile char junk[65536];
        for (std::size_t i = 0; i < sizeof(junk); ++i)
            junk[i] = char(fill);
    }
    volatile char shift[64 * 16];
    shift[0] = char(depth);
    if (depth)
        return runOnStack(depth - 1, argc, argv, fill);
    return generator_main(argc, argv);
}

Result live(const Program &p, const Setup &s, const Scratch &d)
{
    auto *l = sharedLife();
    std::memset(l, 0, offsetof(Life, record));
    l->faultCount = std::uint32_t(std::min<std::size_t>(s.faults.size(), 8));
    for (std::uint32_t i = 0; i < l->faultCount; ++i)
        l->faults[i] = s.faults[i];
    l->splitSeed = s.splitSeed;
    l->stdoutBuffer = std::min<std::uint32_t>(s.stdoutBuffer, 8192);
    l->clock = s.clock;
    const auto cwd = s.cwd == 0 ? d.dir + "/src" : s.cwd == 1 ? d.dir + "/out" : s.cwd == 2 ? d.dir + "/home" : std::string("/");
    const auto base = s.relative && s.cwd < 3 ? std::string("..") : d.dir;
    static const char *const names[] = { "reflective_rapidjson_generator", "/usr/bin/reflective_rapidjson_generator", "./g", "generator" };
    std::vector<std::string> args{ names[s.argv0], "--input-file", base + "/src/" + p.files.front().first };
    if (!s.toStdout) {
        args.push_back("--output-file");
        args.push_back(base + "/out/output.h");
    }
    if (!s.generators.empty()) {
        args.push_back("--generators");
        args.insert(args.end(), s.generators.begin(), s.generators.end());
    }
    for (const char *o : { "--clang-opt", "-nostdinc", "-nostdinc++", "-std=c++17", "-resource-dir", "/nonexistent", "-fno-color-diagnostics" })
        args.push_back(o);
    if (s.include) {
        args.push_back("-I");
        args.push_back(base + "/src");
    }
    if (!p.jsonClasses.empty()) {
        args.push_back("--json-classes");
        args.insert(args.end(), p.jsonClasses.begin(), p.jsonClasses.end());
    }
    if (!p.binaryClasses.empty()) {
        args.push_back("--binary-classes");
        args.insert(args.end(), p.binaryClasses.begin(), p.binaryClasses.end());
    }
    if (s.visibility) {
        args.push_back("--json-visibility");
        args.push_back("VIS");
        args.push_back("--binary-visibility");
        args.push_back("VIS");
    }
    if (s.resilient)
        args.push_back("--error-resilient");
    const auto errPath = d.dir + "/stderr", outPath = d.dir + "/stdout";
    const auto pid = fork();
    if (pid < 0) {
        std::perror("fork");
        std::_Exit(3);
    }
    if (!pid) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        alarm(0);
        std::signal(SIGALRM, SIG_DFL);
        std::signal(SIGPIPE, SIG_IGN);
        struct rlimit lim = { 20, 20 };
        setrlimit(RLIMIT_CPU, &lim);
        lim = { 0, 0 };
        setrlimit(RLIMIT_CORE, &lim);
        const int e = open(errPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600), o = open(outPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600),
                  n = open("/dev/null", O_RDONLY);
        dup2(n, 0);
        dup2(o, 1);
        dup2(e, 2);
        close(n);
        close(o);
        close(e);
        if (chdir(cwd.c_str()))
            _exit(3);
        clearenv();
        setenv("PATH", "/usr/bin:/bin", 1);
        for (auto &v : s.env)
            setenv(v.first.c_str(), v.second.c_str(), 1);
        std::vector<char *> argv;
        for (auto &a : args)
            argv.push_back(a.data());
        argv.push_back(nullptr);
        g_steps = 0;
        g_edgesHit = 0;
        g_stepLimit = 200u << 20;
        startIo(l, d.dir);
        startLife(s.memory);
        t_countSteps = true;
        const int rc = runOnStack(s.stackOffset, int(args.size()), argv.data(), s.memory.fill);
        t_countSteps = false;
        l->steps = g_steps;
        l->edgesHit = g_edgesHit;
        std::exit(rc);
    }
    Result r;
    while (waitpid(pid, &r.status, 0) < 0 && errno == EINTR) {}
    r.exited = WIFEXITED(r.status);
    r.code = r.exited ? WEXITSTATUS(r.status) : -1;
    r.calls.assign(l->record, l->record + std::min<std::size_t>(l->calls, Life::cap));
    r.injected = l->injected;
    r.splits = l->splits;
    for (auto &c : r.calls)
        r.killedByPlan = r.killedByPlan || c.injected == 255;
    r.err = slurp(errPath);
    r.output = s.toStdout ? slurp(outPath) : slurp(d.dir + "/out/output.h", &r.hasOutput);
    if (s.toStdout)
        r.hasOutput = true;
    g_steps += l->steps;
    g_edgesHit += l->edgesHit;
    if (run->stats)
        run->stats->simTime++;
    count("generator lives");
    if (r.splits)
        count("fault:shortened or interrupted transfers (recoverable)", r.splits);
    for (auto &c : r.calls)
        if (c.injected == 255)
            count("fault:process killed");
        else if (c.injected)
            count((std::string("fault:") + kindNames[c.kind]).c_str());
    return r;
}

std::string describe(const Result &r)
{
    if (r.exited)
        return "exit status " + std::to_string(r.code);
    return "signal " + std::to_string(WTERMSIG(r.status));
}
std::string callsOf(const Result &r)
{
    std::string s;
    for (std::size_t i = 0; i < r.calls.size() && i < 200; ++i) {
        s += (i ? " " : "") + std::to_string(i) + ":" + kindNames[r.calls[i].kind];
        if (r.calls[i].injected)
            s += r.calls[i].injected == 255 ? "[KILL]" : "[FAULT " + std::to_string(r.calls[i].injected - 1) + "]";
    }
    return s;
}
void showProgram(const Program &p)
{
    if (!run->verbose)
        return;
    for (auto &f : p.files) {
        if (f.first == "rrj.h")
            continue;
        note("--- %s", f.first.c_str());
        std::size_t at = 0;
        for (unsigned lines = 0; at < f.second.size() && lines < 120; ++lines) {
            auto e = f.second.find('\n', at);
            if (e == std::string::npos)
                e = f.second.size();
            note("%s", f.second.substr(at, e - at).c_str());
            at = e + 1;
        }
    }
}
std::string firstDifference(const std::string &a, const std::string &b)
{
    std::size_t i = 0, line = 1;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        line += a[i++] == '\n';
    const auto at = [&](const std::string &s) {
        auto from = s.rfind('\n', i ? i - 1 : 0);
        from = from == std::string::npos ? 0 : from + 1;
        return s.substr(std::min(from, s.size()), 160);
    };
    return "line " + std::to_string(line) + ": [" + quote(at(a).substr(0, at(a).find('\n')), 150) + "] vs [" + quote(at(b).substr(0, at(b).find('\n')), 150) + "] (sizes "
        + std::to_string(a.size()) + ", " + std::to_string(b.size()) + ")";
}

std::vector<std::string> drawGenerators()
{
    switch (ch().below(5)) {
    case 0:
        return { "json", "binary" };
    case 1:
        return { "binary", "json" };
    case 2:
        return { "json" };
    case 3:
        return { "binary" };
    default:
        return {};
    }
}
void store(const Program &p, const Scratch &d)
{
    for (auto &f : p.files)
        spill(d.dir + "/src/" + f.first, f.second);
}
std::uint64_t programHash(const Program &p)
{
    std::uint64_t h = 0;
    for (auto &f : p.files)
        h = mix(h ^ hashBytes(f.second.data(), f.second.size()));
    return h;
}
bool crashed(const char *what, const Result &r)
{
    if (r.exited && r.code != 78 && r.code != 79)
        return false;
    if (r.exited) {
        fail("hang", "the generator does not come to an end (%s)", what);
        return true;
    }
    if (WTERMSIG(r.status) == SIGXCPU || WTERMSIG(r.status) == SIGKILL)
        fail("hang", "the generator does not come to an end (%s)", what);
    else
        fail("crash", "the generator dies from signal %d (%s)", WTERMSIG(r.status), what);
    note("stderr: %s", r.err.substr(0, 800).c_str());
    return true;
}

void dirty(const Program &p, const Scratch &d, const std::string &ref, unsigned how)
{
    (void)p;
    const auto out = d.dir + "/out/output.h";
    switch (how) {
    case 0:
        unlink(out.c_str());
        break;
    case 1:
        spill(out, "");
        break;
    case 2:
        spill(out, "// previous content\n");
        break;
    case 3:
        spill(out, ref + std::string(5000, 'x') + "\n");
        break;
    case 4:
        spill(out, ref.substr(0, ref.size() / 2));
        break;
    default:
        spill(out, std::string(ref.size(), '/'));
    }
}

// ---- C15

void c15()
{
    auto &c = ch();
    Scratch d;
    const auto p = drawProgram(true);
    store(p, d);
    Setup s;
    s.generators = drawGenerators();
    s.toStdout = c.chance(1, 3);
    static const std::uint32_t buffers[] = { 4096, 1024, 1, 8192 };
    s.stdoutBuffer = buffers[c.below(4)];
    s.visibility = c.chance(1, 8);
    s.resilient = p.semantic ? c.below(4) != 0 : c.chance(1, 5);
    bool valid = p.valid && (!p.semantic || s.resilient);
    if (!s.generators.empty() && c.chance(1, 30)) {
        static const char *const unknown[] = { "xml", "yaml", "JSON", "binar", "json " };
        s.generators.insert(s.generators.begin() + long(c.below(s.generators.size() + 1)), unknown[c.below(5)]);
        valid = false;
        count("probe:unknown generator asked for");
    }
    ev("input %016llx, %s", static_cast<unsigned long long>(programHash(p)), s.toStdout ? "standard output" : "output file");
    const auto ref = live(p, s, d);
    note("undisturbed: %s, %zu bytes; calls: %s", describe(ref).c_str(), ref.output.size(), callsOf(ref).c_str());
    if (crashed("undisturbed run", ref)) {
        showProgram(p);
        return;
    }
    if (valid ? ref.code != 0 : ref.code == 0) {
        fail(valid ? "refused" : "accepted", "undisturbed run over %s input ends with status %d", valid ? "valid" : "erroneous", ref.code);
        showProgram(p);
        note("stderr: %s", ref.err.substr(0, 1500).c_str());
        return;
    }
    if (ref.code && ref.err.empty())
        return fail("silent", "status %d without any message", ref.code);
    ev("reference %d", ref.code);
    const auto stateBase = mix(s.toStdout) ^ mix(ref.calls.size() + 77);
    bool used = false;
    for (unsigned i = 0, n = 1 + c.below(5); i < n; ++i) {
        auto f = s;
        const auto calls = std::max<std::size_t>(ref.calls.size(), 1);
        unsigned killAt = 0;
        for (unsigned k = 0, m = 1 + (c.chance(1, 3) ? c.below(4) : 0); k < m; ++k) {
            Fault x;
            // the last calls are those of the output
            const auto tail = std::min<std::size_t>(calls, 6);
            x.at = c.chance(1, 2) ? std::uint32_t(calls - 1 - c.below(tail)) : c.below(calls);
            x.code = std::uint8_t(c.below(60));
            x.arg = std::uint16_t(c.below(5000));
            x.persistent = c.chance(1, 4);
            x.kill = c.chance(1, 16);
            killAt += x.kill;
            f.faults.push_back(x);
        }
        if (c.chance(1, 6))
            f.splitSeed = 1 + c.bits(32);
        if (!s.toStdout)
            dirty(p, d, ref.output, c.below(6));
        const auto r = live(p, f, d);
        std::string what;
        for (std::size_t k = 0; k < r.calls.size(); ++k)
            if (r.calls[k].injected) {
                what += (what.empty() ? "" : ", ") + std::string(r.calls[k].injected == 255 ? "killed before " : "fault at ") + kindNames[r.calls[k].kind] + " (call " + std::to_string(k) + ")";
                state(stateBase ^ mix((std::uint64_t(r.calls[k].kind) << 32 | std::uint64_t(k) << 8 | r.calls[k].injected) * 3 + (r.code == 0)));
            }
        ev("life %u: %s -> %s", i, what.c_str(), describe(r).c_str());
        note("calls: %s", callsOf(r).c_str());
        if (r.injected)
            used = true;
        if (r.killedByPlan) {
            count("probe:generator killed and run again");
        } else if (crashed(what.c_str(), r)) {
            showProgram(p);
            return;
        } else if (r.code == 0) {
            if (ref.code)
                return fail("accepted", "erroneous input accepted with %s", what.c_str());
            if (!r.hasOutput || r.output != ref.output) {
                fail("unnoticed", "status 0 though the output is %s: %s",
                    !r.hasOutput                                                                                          ? "missing"
                        : r.output.size() < ref.output.size() && !ref.output.compare(0, r.output.size(), r.output) ? "truncated"
                                                                                                                           : "altered",
                    what.c_str());
                note("%s", firstDifference(ref.output, r.output).c_str());
                note("stderr: %s", r.err.substr(0, 800).c_str());
                return;
            }
            if (r.injected)
                count("probe:recovered from an injected failure");
        } else {
            if (r.err.empty())
                return fail("silent", "status %d without any message: %s", r.code, what.c_str());
            if (!r.injected && !ref.code)
                return fail("refused", "status %d though nothing failed", r.code);
            count("probe:failure reported by exit status and message");
        }
        // the cause is gone: whatever was left behind is replaced by the right output
        if (c.chance(1, 3)) {
            const auto again = live(p, s, d);
            if (crashed("run after a failed run", again))
                return;
            if (again.code != ref.code || (!ref.code && again.output != ref.output)) {
                fail("rerun", "a run after a failed one ends with %d, %s output", again.code, again.output == ref.output ? "the same" : "different");
                note("%s", firstDifference(ref.output, again.output).c_str());
                return;
            }
        }
    }
    if (used)
        nontrivial();
    run->sample = s.toStdout ? "output to stdout, " : "output to file, ";
    run->sample += std::to_string(ref.calls.size()) + " calls: " + callsOf(ref).substr(0, 400);
}

// ---- C16

void c16()
{
    auto &c = ch();
    Scratch d;
    const auto p = drawProgram(c.chance(1, 4));
    store(p, d);
    Setup s;
    s.generators = drawGenerators();
    s.resilient = c.chance(1, 4);
    s.visibility = c.chance(1, 8);
    ev("input %016llx", static_cast<unsigned long long>(programHash(p)));
    const auto ref = live(p, s, d);
    if (crashed("undisturbed run", ref)) {
        showProgram(p);
        return;
    }
    if (ref.code && p.valid && (!p.semantic || s.resilient)) {
        fail("refused", "valid input refused with status %d", ref.code);
        showProgram(p);
        note("stderr: %s", ref.err.substr(0, 1500).c_str());
        return;
    }
    state(programHash(p));
    const bool withOutput = !ref.code && !ref.output.empty();
    ev("status %d", ref.code);
    for (unsigned i = 0, n = 2 + c.below(5); i < n; ++i) {
        auto v = s;
        std::string what;
        std::uint64_t st = 0;
        const auto add = [&](const std::string &t) { what += (what.empty() ? "" : ", ") + t; st = mix(st ^ hashBytes(t.data(), t.size())); };
        if (c.chance(2, 3)) {
            v.memory.direction = std::uint8_t(c.below(3));
            v.memory.reuse = std::uint8_t(c.below(3));
            static const std::uint8_t fills[] = { 0, 0xFF, 0xCD, 0x01, 0x7F };
            v.memory.fill = fills[c.below(5)];
            v.memory.gaps = c.chance(1, 2);
            v.memory.offset = c.below(4096);
            v.memory.seed = c.bits(32);
            v.stackOffset = c.below(8);
            add("memory layout " + std::to_string(v.memory.direction) + "/" + std::to_string(v.memory.reuse) + "/" + std::to_string(v.memory.fill) + (v.memory.gaps ? "/gaps" : ""));
            count("fault:memory layout changed");
        }
        if (c.chance(1, 2)) {
            v.splitSeed = 1 + c.bits(32);
            static const std::uint32_t buffers[] = { 4096, 1024, 1, 100, 8192 };
            v.stdoutBuffer = buffers[c.below(5)];
            add("split I/O");
        }
        if (c.chance(1, 3)) {
            v.toStdout = true;
            add("standard output");
        } else if (c.chance(1, 2)) {
            const auto how = c.below(6);
            dirty(p, d, ref.output, how);
            add("earlier output " + std::to_string(how));
            count("fault:output file with earlier content");
        }
        if (c.chance(1, 2)) {
            v.cwd = int(c.below(4));
            v.relative = c.chance(1, 2);
            v.argv0 = int(c.below(4));
            add("directory " + std::to_string(v.cwd) + (v.relative ? " relative" : ""));
            count("fault:working directory and paths changed");
        }
        if (c.chance(1, 2)) {
            static const char *const langs[] = { "C", "de_DE.UTF-8", "tr_TR.UTF-8", "en_US.ISO-8859-1" };
            v.env.emplace_back("LANG", langs[c.below(4)]);
            v.env.emplace_back("LC_ALL", langs[c.below(4)]);
            v.env.emplace_back("TZ", c.chance(1, 2) ? "Asia/Kathmandu" : "UTC");
            v.env.emplace_back("TERM", c.chance(1, 2) ? "xterm-256color" : "dumb");
            v.env.emplace_back("HOME", d.dir + "/home");
            v.env.emplace_back("USER", c.chance(1, 2) ? "alice" : "bob");
            v.env.emplace_back("ENABLE_ESCAPE_CODES", c.chance(1, 2) ? "1" : "0");
            for (unsigned k = 0, m = c.below(20); k < m; ++k)
                v.env.emplace_back("VAR" + std::to_string(k), std::string(c.below(200), 'v'));
            add("environment");
            count("fault:environment changed");
        }
        if (c.chance(1, 3)) {
            v.clock = std::int64_t(c.bits(32));
            for (auto &f : p.files) {
                struct timespec t[2] = { { std::int64_t(c.bits(31)), 0 }, { std::int64_t(c.bits(31)), 0 } };
                utimensat(AT_FDCWD, (d.dir + "/src/" + f.first).c_str(), t, 0);
            }
            add("clock and timestamps");
            count("fault:clock and timestamps changed");
        }
        if (c.chance(1, 4)) {
            // one generator at a time, the parts put together
            std::vector<std::string> names = s.generators.empty() ? std::vector<std::string>{ "json" } : s.generators;
            std::string joined;
            bool ok = true;
            for (auto &g : names) {
                v.generators = { g };
                const auto r = live(p, v, d);
                if (crashed(what.c_str(), r))
                    return;
                ok = ok && r.code == ref.code;
                joined += r.output;
            }
            add("generators one at a time");
            ev("life %u: %s", i, what.c_str());
            if (!ok)
                return fail("refused", "other status with %s", what.c_str());
            if (!ref.code && joined != ref.output) {
                fail("together", "the generators produce other code together than one at a time");
                note("with %s: %s", what.c_str(), firstDifference(ref.output, joined).c_str());
                showProgram(p);
                return;
            }
            count("probe:generators compared one at a time and together");
            continue;
        }
        if (what.empty())
            add("repetition");
        const auto r = live(p, v, d);
        ev("life %u: %s", i, what.c_str());
        state(st);
        if (crashed(what.c_str(), r))
            return;
        if (r.code != ref.code) {
            fail("refused", "status %d instead of %d with %s", r.code, ref.code, what.c_str());
            note("stderr: %s", r.err.substr(0, 800).c_str());
            return;
        }
        if (!ref.code && (!r.hasOutput || r.output != ref.output)) {
            fail("differs", "same input, other output");
            note("with %s: %s", what.c_str(), firstDifference(ref.output, r.output).c_str());
            showProgram(p);
            return;
        }
    }
    if (withOutput)
        nontrivial();
    run->sample = "input of " + std::to_string(p.files.size()) + " files, output of " + std::to_string(ref.output.size()) + " bytes";
}

#include "gensim_e2e.h"

} // namespace

void sim::warmup() {}
void sim::prepare()
{
    setupIo();
    g_root = int(getpid());
}
// what killed processes left behind
void sim::finish()
{
    char prefix[64];
    const auto n = std::snprintf(prefix, sizeof(prefix), "rrjgen.%08d.", g_root);
    std::vector<std::string> dirs;
    if (DIR *h = opendir("/tmp")) {
        while (auto *e = readdir(h))
            if (!std::strncmp(e->d_name, prefix, std::size_t(n)))
                dirs.push_back(std::string("/tmp/") + e->d_name);
        closedir(h);
    }
    for (auto &d : dirs)
        removeTree(d);
}

namespace {
Register r15("C15", c15, 1500, 60000, "a run is nontrivial if at least one fault was injected into a generator life");
Register r16("C16", c16, 1500, 60000, "a run is nontrivial if the input leads to generated code");
Register r17("C17", c17, 300, 12000, "a run is nontrivial if a program built from generated code saved at least one object");

} // namespace
