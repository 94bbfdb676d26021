// records reflected by Boost.Hana and by hand
#pragma once
#include "common.h"
#include <lib/binary/reflector-boosthana.h>
#include <lib/json/reflector-boosthana.h>

namespace uni {
struct HanaIn : public JsonSerializable<HanaIn>, public BinarySerializable<HanaIn> {
    BOOST_HANA_DEFINE_STRUCT(HanaIn, (std::string, word), (std::vector<int>, nums));
};
struct HanaRec : public JsonSerializable<HanaRec>, public BinarySerializable<HanaRec> {
    HanaRec()
        : a(0)
        , l(0)
        , flag(false)
        , d(0)
    {
    }
    BOOST_HANA_DEFINE_STRUCT(HanaRec, (int, a), (std::int64_t, l), (bool, flag), (double, d), (std::string, s), (std::vector<std::string>, vs),
        (HanaIn, in), (std::vector<HanaIn>, vin), (std::map<std::string, int>, m), (std::optional<int>, o), (std::shared_ptr<int>, sh));
};
struct Hand : public JsonSerializable<Hand>, public BinarySerializable<Hand> {
    int a = 1;
    std::string s = "s";
    std::vector<int> v;
};
struct HandOuter : public JsonSerializable<HandOuter>, public BinarySerializable<HandOuter> {
    std::vector<Hand> hands;
    Hand one;
    std::map<std::string, Hand> m;
};
} // namespace uni

// what a user writes by hand, see README
namespace ReflectiveRapidJSON {
namespace JsonReflector {
template <>
inline void push<uni::Hand>(const uni::Hand &r, RAPIDJSON_NAMESPACE::Value::Object &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
{
    push(r.a, "a", value, allocator);
    push(r.s, "s", value, allocator);
    push(r.v, "v", value, allocator);
}
template <>
inline void pull<uni::Hand>(
    uni::Hand &r, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>>::ConstObject &value, JsonDeserializationErrors *errors)
{
    const char *previousRecord = nullptr;
    if (errors) {
        previousRecord = errors->currentRecord;
        errors->currentRecord = "uni::Hand";
    }
    pull(r.a, "a", value, errors);
    pull(r.s, "s", value, errors);
    pull(r.v, "v", value, errors);
    if (errors) {
        errors->currentRecord = previousRecord;
    }
}
template <>
inline void push<uni::HandOuter>(
    const uni::HandOuter &r, RAPIDJSON_NAMESPACE::Value::Object &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
{
    push(r.hands, "hands", value, allocator);
    push(r.one, "one", value, allocator);
    push(r.m, "m", value, allocator);
}
template <>
inline void pull<uni::HandOuter>(
    uni::HandOuter &r, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>>::ConstObject &value, JsonDeserializationErrors *errors)
{
    const char *previousRecord = nullptr;
    if (errors) {
        previousRecord = errors->currentRecord;
        errors->currentRecord = "uni::HandOuter";
    }
    pull(r.hands, "hands", value, errors);
    pull(r.one, "one", value, errors);
    pull(r.m, "m", value, errors);
    if (errors) {
        errors->currentRecord = previousRecord;
    }
}
} // namespace JsonReflector
namespace BinaryReflector {
template <> inline BinaryVersion readCustomType<uni::Hand>(BinaryDeserializer &d, uni::Hand &r, BinaryVersion version)
{
    d.read(r.a);
    d.read(r.s);
    d.read(r.v);
    return version;
}
template <> inline void writeCustomType<uni::Hand>(BinarySerializer &s, const uni::Hand &r, BinaryVersion)
{
    s.write(r.a);
    s.write(r.s);
    s.write(r.v);
}
template <> inline BinaryVersion readCustomType<uni::HandOuter>(BinaryDeserializer &d, uni::HandOuter &r, BinaryVersion version)
{
    d.read(r.hands);
    d.read(r.one, version);
    d.read(r.m);
    return version;
}
template <> inline void writeCustomType<uni::HandOuter>(BinarySerializer &s, const uni::HandOuter &r, BinaryVersion version)
{
    s.write(r.hands);
    s.write(r.one, version);
    s.write(r.m);
}
} // namespace BinaryReflector
} // namespace ReflectiveRapidJSON
