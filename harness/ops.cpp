#include "ops.h"
#include "ops_impl.h"

#include <c++utilities/conversion/conversionexception.h>
#include <rapidjson/encodedstream.h>
#include <rapidjson/error/error.h>
#include <rapidjson/memorystream.h>
#include <rapidjson/reader.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>

#include <lib/json/errorformatting.h>

#include <array>
#include <forward_list>

#include <cerrno>
#include <cstdlib>
#include <ios>
#include <new>
#include <stdexcept>

namespace ops {
using namespace impl;
void register_a();
void register_b();
void register_c();
void register_d();
void register_v();

std::vector<TypeOps> &types()
{
    static std::vector<TypeOps> v;
    static bool init = false;
    if (!init) {
        init = true;
        register_a();
        register_b();
        register_c();
        register_d();
        register_v();
    }
    return v;
}
const TypeOps *find(const std::string &name)
{
    for (auto &t : types())
        if (name == t.name)
            return &t;
    return nullptr;
}
Writer *newWriter(std::ostream &o) { return reinterpret_cast<Writer *>(new RR::BinaryReflector::BinarySerializer(&o)); }
void freeWriter(Writer *w) { delete &real(*w); }
Reader *newReader(std::istream &i) { return reinterpret_cast<Reader *>(new RR::BinaryReflector::BinaryDeserializer(&i)); }
void freeReader(Reader *r) { delete &real(*r); }

Errors *newErrors(std::uint32_t throwOn)
{
    auto *e = new RR::JsonDeserializationErrors();
    setThrowOn(reinterpret_cast<Errors *>(e), throwOn);
    return reinterpret_cast<Errors *>(e);
}
void freeErrors(Errors *e) { delete real(e); }
void clearErrors(Errors *e) { real(e)->clear(); }
void setThrowOn(Errors *e, std::uint32_t throwOn)
{
    using T = RR::JsonDeserializationErrors::ThrowOn;
    if (throwOn == 0xff) {
        real(e)->throwOn = T::All;
        return;
    }
    auto t = static_cast<T>(throwOn & ~0x3fu);
    for (const auto k : { T::TypeMismatch, T::ArraySizeMismatch, T::ConversionError, T::UnexpectedDuplicate, T::InvalidVariantObject, T::InvalidVariantIndex })
        if (throwOn & static_cast<std::uint32_t>(k))
            t = t | k;
    real(e)->throwOn = t;
}
static model::Err convert(const RR::JsonDeserializationError &e)
{
    model::Err r;
    r.kind = static_cast<unsigned>(e.kind);
    r.expected = static_cast<unsigned>(e.expectedType);
    r.actual = static_cast<unsigned>(e.actualType);
    r.hasRecord = e.record;
    r.record = e.record ? e.record : "";
    r.hasMember = e.member;
    r.member = e.member ? e.member : "";
    r.index = e.index;
    return r;
}
model::Err reportOwn(Errors *errors, unsigned what, unsigned present)
{
    using J = RR::JsonType;
    static const rapidjson::Type raw[] = { rapidjson::kNullType, rapidjson::kNumberType, rapidjson::kTrueType, rapidjson::kStringType, rapidjson::kArrayType,
        rapidjson::kObjectType, rapidjson::kFalseType };
    const auto rawPresent = raw[present % 7];
    const unsigned type = present % 7 == 6 ? unsigned(model::JBool) : present % 7;
    model::Err r{};
    r.hasRecord = true;
    r.record = "[document]";
    const auto set = [&](unsigned kind, unsigned expected, unsigned actual) { r.kind = kind, r.expected = expected, r.actual = actual; };
    // what to expect is set first: the report may throw
    switch (what % 12) {
    case 0: set(model::TypeMismatch, model::JString, type); break;
    case 1: set(model::TypeMismatch, model::JNumber, type); break;
    case 2: set(model::TypeMismatch, model::JArray, type); break;
    case 3: set(model::TypeMismatch, model::JBool, type); break;
    case 4: set(model::TypeMismatch, model::JObject, type); break;
    case 5: set(model::TypeMismatch, model::JString, type); break;
    case 6: set(model::TypeMismatch, model::JNull, type); break;
    case 7: set(model::ArraySizeMismatch, model::JArray, model::JArray); break;
    case 8: set(model::ConversionError, type, type); break;
    case 9: set(model::UnexpectedDuplicate, type, type); break;
    case 10: set(model::InvalidVariantObject, model::JObject, model::JObject); break;
    default: set(model::InvalidVariantIndex, model::JNumber, type);
    }
    if (!errors)
        return r;
    auto &e = *real(errors);
    sim::Sut s;
    switch (what % 12) {
    case 0: e.reportTypeMismatch<rapidjson::kStringType>(rawPresent); break;
    case 1: e.reportTypeMismatch<rapidjson::kNumberType>(rawPresent); break;
    case 2: e.reportTypeMismatch<rapidjson::kArrayType>(rawPresent); break;
    case 3: e.reportTypeMismatch<rapidjson::kFalseType>(rawPresent); break;
    case 4: e.reportTypeMismatch<std::map<std::string, int>>(rawPresent); break;
    case 5: e.reportTypeMismatch<std::string>(rawPresent); break;
    case 6: e.reportTypeMismatch<rapidjson::kNullType>(rawPresent); break;
    case 7: e.reportArraySizeMismatch(); break;
    case 8: e.reportConversionError(static_cast<J>(type)); break;
    case 9: e.reportUnexpectedDuplicate(static_cast<J>(type)); break;
    case 10: e.reportInvalidVariantObject(); break;
    default: e.reportInvalidVariantIndex(static_cast<J>(type));
    }
    return r;
}
std::vector<model::Err> listErrors(const Errors *e)
{
    sim::Harness h;
    std::vector<model::Err> r;
    for (auto &x : *real(const_cast<Errors *>(e)))
        r.push_back(convert(x));
    return r;
}
std::vector<std::string> formatErrors(const Errors *e)
{
    std::vector<std::string> r;
    for (auto &x : *real(const_cast<Errors *>(e))) {
        sim::Sut s;
        const auto text = RR::formatJsonDeserializationError(x);
        sim::Harness h;
        r.emplace_back(text.data(), text.size());
    }
    return r;
}
Doc *newArrayDoc() { return wrap(new rapidjson::Document(rapidjson::kArrayType)); }
Doc *parseDoc(const std::string &s) { return wrap(new rapidjson::Document(RR::JsonReflector::parseJsonDocFromString(s.data(), s.size()))); }
void freeDoc(Doc *d) { delete &real(*d); }
void pushText(Doc &d, unsigned kind, const std::string &text)
{
    sim::Sut s;
    const auto size = text.size() + (kind ? 0 : 1); // only C strings are terminated
    auto *mem = static_cast<char *>(::operator new(size));
    std::memcpy(mem, text.c_str(), size);
    auto &doc = real(d);
    rapidjson::Value::Array arr(doc.GetArray());
    switch (kind) {
    case 0:
        RR::JsonReflector::push(static_cast<const char *>(mem), arr, doc.GetAllocator());
        break;
    case 1:
        RR::JsonReflector::push(std::string_view(mem, text.size()), arr, doc.GetAllocator());
        break;
    case 2:
        RR::JsonReflector::push(std::string(mem, text.size()), arr, doc.GetAllocator());
        break;
    case 4: {
        std::forward_list<std::string> l;
        l.emplace_front(mem, text.size());
        l.emplace_front(mem, text.size() / 2);
        RR::JsonReflector::push(l, arr, doc.GetAllocator());
        break;
    }
    case 5: {
        std::array<std::string, 2> a;
        a[0].assign(mem, text.size());
        a[1].assign(mem, text.size() / 2);
        RR::JsonReflector::push(a, arr, doc.GetAllocator());
        break;
    }
    case 6:
        RR::JsonReflector::push(static_cast<const char *>(nullptr), arr, doc.GetAllocator());
        RR::JsonReflector::push(std::string_view(), arr, doc.GetAllocator());
        break;
    default: {
        rapidjson::Value v(rapidjson::kObjectType);
        rapidjson::Value::Object obj(v.GetObject());
        RR::JsonReflector::push(std::string_view(mem, text.size()), "text", obj, doc.GetAllocator());
        arr.PushBack(v, doc.GetAllocator());
    }
    }
    std::memset(mem, '#', size);
    ::operator delete(mem);
}
Doc *textDoc(unsigned kind, const std::string &text)
{
    sim::Sut s;
    const auto size = text.size() + (kind ? 0 : 1);
    auto *mem = static_cast<char *>(::operator new(size));
    std::memcpy(mem, text.c_str(), size);
    rapidjson::Document *d;
    if (kind == 0)
        d = new rapidjson::Document(RR::JsonReflector::toJsonDocument<const char *>(mem));
    else if (kind == 1)
        d = new rapidjson::Document(RR::JsonReflector::toJsonDocument<std::string_view>(std::string_view(mem, text.size())));
    else {
        const std::string str(mem, text.size());
        d = new rapidjson::Document(RR::JsonReflector::toJsonDocument<std::string>(str));
    }
    std::memset(mem, '#', size);
    ::operator delete(mem);
    return wrap(d);
}
std::string docText(const Doc &d)
{
    sim::Harness h;
    rapidjson::StringBuffer b;
    rapidjson::Writer<rapidjson::StringBuffer> w(b);
    real(d).Accept(w);
    return std::string(b.GetString(), b.GetSize());
}
static model::J tree(const rapidjson::Value &v)
{
    model::J j;
    switch (v.GetType()) {
    case rapidjson::kNullType:
        break;
    case rapidjson::kFalseType:
        j.t = model::J::False;
        break;
    case rapidjson::kTrueType:
        j.t = model::J::True;
        break;
    case rapidjson::kNumberType:
        j.t = model::J::Num;
        if (v.IsUint64()) {
            j.n = model::J::U;
            j.u = v.GetUint64();
        } else if (v.IsInt64()) {
            j.n = model::J::I;
            j.i = v.GetInt64();
        } else {
            j.n = model::J::D;
            j.d = v.GetDouble();
        }
        break;
    case rapidjson::kStringType:
        j.t = model::J::Str;
        j.s.assign(v.GetString(), v.GetStringLength());
        break;
    case rapidjson::kArrayType:
        j.t = model::J::Arr;
        for (auto &e : v.GetArray())
            j.a.push_back(tree(e));
        break;
    case rapidjson::kObjectType:
        j.t = model::J::Obj;
        for (auto &m : v.GetObject())
            j.o.emplace_back(std::string(m.name.GetString(), m.name.GetStringLength()), tree(m.value));
        break;
    }
    return j;
}
model::J docTree(const Doc &d)
{
    sim::Harness h;
    return tree(real(d));
}
namespace {
// builds the tree from what RapidJSON's reader finds; numbers are taken from the text by the C library
struct TreeHandler {
    std::vector<model::J> stack;
    std::vector<std::string> keys;
    model::J root;
    bool add(model::J j)
    {
        if (stack.empty())
            root = std::move(j);
        else if (stack.back().t == model::J::Arr)
            stack.back().a.push_back(std::move(j));
        else {
            stack.back().o.emplace_back(keys.back(), std::move(j));
            keys.pop_back();
        }
        return true;
    }
    bool Null() { return add({}); }
    bool Bool(bool b)
    {
        model::J j;
        j.t = b ? model::J::True : model::J::False;
        return add(std::move(j));
    }
    bool Int(int) { return false; }
    bool Uint(unsigned) { return false; }
    bool Int64(std::int64_t) { return false; }
    bool Uint64(std::uint64_t) { return false; }
    bool Double(double) { return false; }
    bool RawNumber(const char *str, rapidjson::SizeType n, bool)
    {
        const std::string t(str, n);
        model::J j;
        j.t = model::J::Num;
        errno = 0;
        if (t.find_first_of(".eE") == std::string::npos) {
            if (t[0] == '-') {
                const auto v = std::strtoll(t.c_str(), nullptr, 10);
                if (!errno) {
                    j.n = v < 0 ? model::J::I : model::J::U;
                    j.i = v;
                    return add(std::move(j));
                }
            } else {
                const auto v = std::strtoull(t.c_str(), nullptr, 10);
                if (!errno) {
                    j.n = model::J::U;
                    j.u = v;
                    return add(std::move(j));
                }
            }
        }
        errno = 0;
        j.n = model::J::D;
        j.d = std::strtod(t.c_str(), nullptr);
        return j.d - j.d == 0 && add(std::move(j));
    }
    bool String(const char *str, rapidjson::SizeType n, bool)
    {
        model::J j;
        j.t = model::J::Str;
        j.s.assign(str, n);
        return add(std::move(j));
    }
    bool Key(const char *str, rapidjson::SizeType n, bool)
    {
        keys.emplace_back(str, n);
        return true;
    }
    bool start(model::J::T t)
    {
        stack.emplace_back();
        stack.back().t = t;
        return true;
    }
    bool end()
    {
        auto j = std::move(stack.back());
        stack.pop_back();
        return add(std::move(j));
    }
    bool StartObject() { return start(model::J::Obj); }
    bool EndObject(rapidjson::SizeType) { return end(); }
    bool StartArray() { return start(model::J::Arr); }
    bool EndArray(rapidjson::SizeType) { return end(); }
};
} // namespace
// which kind of error and where; the only reason to stop handling are numbers beyond the range of double
std::string parseError(const rapidjson::ParseResult &r)
{
    if (r.Code() == rapidjson::kParseErrorNumberTooBig || r.Code() == rapidjson::kParseErrorTermination)
        return "number too big";
    return "parse error " + std::to_string(r.Code()) + " at " + std::to_string(r.Offset());
}
bool parseTree(const std::string &s, model::J &out, std::string *error)
{
    sim::Harness h;
    TreeHandler t;
    rapidjson::MemoryStream ms(s.data(), s.size());
    rapidjson::EncodedInputStream<rapidjson::UTF8<char>, rapidjson::MemoryStream> in(ms);
    rapidjson::Reader r;
    const auto res = r.Parse<rapidjson::kParseNumbersAsStringsFlag>(in, t);
    if (res.IsError()) {
        if (error)
            *error = parseError(res);
        return false;
    }
    out = std::move(t.root);
    return true;
}

const char *caughtName(Caught c)
{
    static const char *const n[] = { "nothing", "std::exception", "bad_alloc", "length_error", "ios_base::failure", "ConversionException", "VersionNotSupported",
        "ParseResult", "JsonDeserializationError", "unknown exception" };
    return n[c];
}
Outcome guarded(const std::function<void()> &f)
{
    Outcome o;
    const auto set = [&](Caught k, const char *w) {
        sim::Harness h;
        o.kind = k;
        o.what = w ? w : "";
    };
    try {
        sim::Sut s;
        f();
    } catch (const std::bad_alloc &e) {
        set(BadAlloc, e.what());
    } catch (const std::length_error &e) {
        set(Length, e.what());
    } catch (const std::ios_base::failure &e) {
        set(IoFailure, e.what());
    } catch (const CppUtilities::ConversionException &e) {
        set(Conversion, e.what());
    } catch (const RR::BinaryVersionNotSupported &e) {
        set(Version, "");
        o.version.present = e.presentVersion;
        o.version.max = e.maxVersion;
        o.version.record = e.record ? e.record : "(null)";
    } catch (const RR::JsonDeserializationError &e) {
        set(Fatal, "");
        o.fatal = convert(e);
    } catch (const rapidjson::ParseResult &r) {
        set(Parse, "");
        sim::Harness h;
        o.what = r.Code() == rapidjson::kParseErrorTermination ? "handler stopped the parser" : parseError(r);
    } catch (const std::exception &e) {
        set(StdExc, e.what());
    } catch (...) {
        set(Other, "");
    }
    return o;
}
} // namespace ops
