// Calls into the C++ utilities library that are intercepted (see build.py, -Wl,--wrap).
#include "alloc.h"
#include "core.h"

#include <c++utilities/chrono/datetime.h>
#include <c++utilities/chrono/timespan.h>
#include <c++utilities/conversion/conversionexception.h>
#include <c++utilities/io/binaryreader.h>

#include <cstring>
#include <locale>

bool sim::g_rawDates;

// they build an exception out of strings in a place where a failing allocation terminates the process
extern "C" {
CppUtilities::DateTimeExpression __real__ZN12CppUtilities18DateTimeExpression13fromIsoStringEPKc(const char *);
CppUtilities::DateTimeExpression __wrap__ZN12CppUtilities18DateTimeExpression13fromIsoStringEPKc(const char *s)
{
    const sim::alloc::NoFail n;
    // The installed version writes beyond an array of its own if more than one colon follows the sign of a time zone (see the
    // known finding of C05). That is kept away from the simulation, where it would do anything at all.
    if (!sim::g_rawDates && s) {
        const char *sign = nullptr;
        unsigned colons = 0;
        bool time = false;
        for (const char *c = s; *c; ++c) {
            time = time || *c == 'T';
            if (*c == '+' || *c == '-')
                sign = c, colons = 0;
            colons += *c == ':';
        }
        if (sign && colons > (time && std::strchr(sign, 'T') ? 2 : 1))
            throw CppUtilities::ConversionException("time zone with too many parts");
    }
    return __real__ZN12CppUtilities18DateTimeExpression13fromIsoStringEPKc(s);
}
CppUtilities::TimeSpan __real__ZN12CppUtilities8TimeSpan10fromStringEPKcc(const char *, char);
CppUtilities::TimeSpan __wrap__ZN12CppUtilities8TimeSpan10fromStringEPKcc(const char *s, char c)
{
    const sim::alloc::NoFail n;
    return __real__ZN12CppUtilities8TimeSpan10fromStringEPKcc(s, c);
}
void __real__ZN12CppUtilities12BinaryReader27bufferVariableLengthIntegerEv(CppUtilities::BinaryReader *);
void __wrap__ZN12CppUtilities12BinaryReader27bufferVariableLengthIntegerEv(CppUtilities::BinaryReader *r)
{
    const sim::alloc::NoFail n;
    __real__ZN12CppUtilities12BinaryReader27bufferVariableLengthIntegerEv(r);
}
// They print into a string stream, which swallows a failing allocation and uses the global locale (see the known finding of C02).
namespace {
struct ClassicLocale {
    ClassicLocale()
    {
        if (active)
            before = std::locale::global(std::locale::classic());
    }
    ~ClassicLocale()
    {
        if (active)
            std::locale::global(before);
    }
    const bool active = sim::g_foreignLocale && !sim::g_rawDates;
    std::locale before = std::locale::classic();
};
} // namespace
std::string __real__ZNK12CppUtilities8DateTime11toIsoStringB5cxx11ENS_8TimeSpanE(const CppUtilities::DateTime *, CppUtilities::TimeSpan);
std::string __wrap__ZNK12CppUtilities8DateTime11toIsoStringB5cxx11ENS_8TimeSpanE(const CppUtilities::DateTime *t, CppUtilities::TimeSpan d)
{
    const sim::alloc::NoFail n;
    const ClassicLocale l;
    return __real__ZNK12CppUtilities8DateTime11toIsoStringB5cxx11ENS_8TimeSpanE(t, d);
}
void __real__ZNK12CppUtilities8TimeSpan8toStringERNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEENS_20TimeSpanOutputFormatEb(
    const CppUtilities::TimeSpan *, std::string &, CppUtilities::TimeSpanOutputFormat, bool);
void __wrap__ZNK12CppUtilities8TimeSpan8toStringERNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEENS_20TimeSpanOutputFormatEb(
    const CppUtilities::TimeSpan *t, std::string &s, CppUtilities::TimeSpanOutputFormat f, bool b)
{
    const sim::alloc::NoFail n;
    const ClassicLocale l;
    __real__ZNK12CppUtilities8TimeSpan8toStringERNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEENS_20TimeSpanOutputFormatEb(t, s, f, b);
}
// the library's ConversionException is declared to be constructed without exceptions, but copies its message
void __real__ZNSt13runtime_errorC2EPKc(void *, const char *);
void __wrap__ZNSt13runtime_errorC2EPKc(void *e, const char *what)
{
    const sim::alloc::NoFail n;
    __real__ZNSt13runtime_errorC2EPKc(e, what);
}
void __real__ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *, const std::string &);
void __wrap__ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *e, const std::string &what)
{
    const sim::alloc::NoFail n;
    __real__ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(e, what);
}
}
