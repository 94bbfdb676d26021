// Instantiates TypeOps for a type; included by the ops_*.cpp only.
#pragma once
#include "ops.h"

#include "types/common.h"

#include <rapidjson/document.h>

namespace ops {
namespace impl {
namespace RR = ReflectiveRapidJSON;
inline RR::BinaryReflector::BinarySerializer &real(Writer &w) { return reinterpret_cast<RR::BinaryReflector::BinarySerializer &>(w); }
inline RR::BinaryReflector::BinaryDeserializer &real(Reader &r) { return reinterpret_cast<RR::BinaryReflector::BinaryDeserializer &>(r); }
inline RR::JsonDeserializationErrors *real(Errors *e) { return reinterpret_cast<RR::JsonDeserializationErrors *>(e); }
inline rapidjson::Document &real(Doc &d) { return reinterpret_cast<rapidjson::Document &>(d); }
inline const rapidjson::Document &real(const Doc &d) { return reinterpret_cast<const rapidjson::Document &>(d); }
inline Doc *wrap(rapidjson::Document *d) { return reinterpret_cast<Doc *>(d); }

// the C++ class template BinarySerializable<T, v> a type inherits from
template <class T, std::uint64_t v> using BS = RR::BinarySerializable<T, v>;

template <class T, class = void> struct MemberApi {
    static constexpr bool value = false;
};
template <class T, bool bin, bool json, std::uint64_t version, bool member> struct Impl {
    static void *create() { return new T(); }
    static void destroy(void *p) { delete static_cast<T *>(p); }
    static void assign(void *p, const Val &v, bind::AssignCtx &c) { bind::Bind<T>::assign(*static_cast<T *>(p), v, c); }
    static Val extract(const void *p, bind::ExtractCtx &c) { return bind::Bind<T>::extract(*static_cast<const T *>(p), c); }
    static void toBinary(const void *p, std::ostream &o, std::uint64_t v)
    {
        if constexpr (bin) {
            if constexpr (member)
                v ? static_cast<const BS<T, version> &>(*static_cast<const T *>(p)).toBinary(o, v == ops::explicitZero ? 0 : v)
                  : static_cast<const BS<T, version> &>(*static_cast<const T *>(p)).toBinary(o);
            else
                v ? RR::BinaryReflector::BinarySerializer(&o).write(*static_cast<const T *>(p), v == ops::explicitZero ? 0 : v)
                  : RR::BinaryReflector::BinarySerializer(&o).write(*static_cast<const T *>(p));
        }
    }
    static std::uint64_t restore(void *p, std::istream &i)
    {
        if constexpr (bin) {
            if constexpr (member)
                return static_cast<BS<T, version> &>(*static_cast<T *>(p)).restoreFromBinary(i);
            else
                return readTop(RR::BinaryReflector::BinaryDeserializer(&i), *static_cast<T *>(p));
        }
        return 0;
    }
    static void *fromBinary(std::istream &i)
    {
        if constexpr (bin) {
            if constexpr (member)
                return new T(BS<T, version>::fromBinary(i));
            else {
                auto p = std::make_unique<T>();
                readTop(RR::BinaryReflector::BinaryDeserializer(&i), *p);
                return p.release();
            }
        }
        return nullptr;
    }
    static void write(Writer &w, const void *p, std::uint64_t v)
    {
        if constexpr (bin)
            v ? real(w).write(*static_cast<const T *>(p), v == ops::explicitZero ? 0 : v) : real(w).write(*static_cast<const T *>(p));
    }
    static std::uint64_t read(Reader &r, void *p)
    {
        if constexpr (bin)
            return readTop(real(r), *static_cast<T *>(p));
        return 0;
    }
    // without giving a version
    template <class D> static std::uint64_t readTop(D &&d, T &t)
    {
        if constexpr (std::is_same_v<decltype(d.read(t)), void>)
            return d.read(t), 0;
        else
            return d.read(t);
    }
    static std::uint64_t readAt(Reader &r, void *p, std::uint64_t v)
    {
        if constexpr (bin && member)
            return real(r).read(*static_cast<T *>(p), v);
        return read(r, p);
    }
    static void toJson(const void *p, std::string &out)
    {
        if constexpr (json) {
            auto buf = [&] {
                if constexpr (member)
                    return RR::as<T>(*static_cast<const T *>(p)).toJson();
                else if constexpr (std::is_same_v<T, std::string>) {
                    auto d = RR::JsonReflector::toJsonDocument<T>(*static_cast<const T *>(p));
                    return RR::JsonReflector::serializeJsonDocToString(d);
                } else
                    return RR::JsonReflector::toJson(*static_cast<const T *>(p));
            }();
            sim::Harness h;
            out.assign(buf.GetString(), buf.GetSize());
        }
    }
    static Doc *toDoc(const void *p)
    {
        if constexpr (json) {
            if constexpr (member)
                return wrap(new rapidjson::Document(RR::as<T>(*static_cast<const T *>(p)).toJsonDocument()));
            else if constexpr (std::is_same_v<T, std::string>)
                return wrap(new rapidjson::Document(RR::JsonReflector::toJsonDocument<T>(*static_cast<const T *>(p))));
            else
                return wrap(new rapidjson::Document(RR::JsonReflector::toJsonDocument(*static_cast<const T *>(p))));
        }
        return nullptr;
    }
    static void *fromJson(const std::string &s, Errors *e)
    {
        if constexpr (json) {
            const bool cstr = s.size() % 3 == 0 && s.find('\0') == std::string::npos, str = s.size() % 3 == 1;
            if constexpr (member)
                return new T(cstr ? RR::JsonSerializable<T>::fromJson(s.c_str(), real(e))
                        : str     ? RR::JsonSerializable<T>::fromJson(s, real(e))
                                  : RR::JsonSerializable<T>::fromJson(s.data(), s.size(), real(e)));
            else
                return new T(cstr ? RR::JsonReflector::fromJson<T>(s.c_str(), real(e))
                        : str     ? RR::JsonReflector::fromJson<T>(s, real(e))
                                  : RR::JsonReflector::fromJson<T>(s.data(), s.size(), real(e)));
        }
        return nullptr;
    }
    static void pullDoc(void *p, const Doc &d, Errors *e)
    {
        if constexpr (json)
            RR::JsonReflector::pull(*static_cast<T *>(p), static_cast<const rapidjson::Value &>(real(d)), real(e));
    }
    static void pull(void *p, const std::string &s, Errors *e)
    {
        if constexpr (json) {
            const rapidjson::Document doc(RR::JsonReflector::parseJsonDocFromString(s.data(), s.size()));
            RR::JsonReflector::pull(*static_cast<T *>(p), static_cast<const rapidjson::Value &>(doc), real(e));
        }
    }
    static void pushInto(Doc &d, const void *p)
    {
        if constexpr (json) {
            rapidjson::Value::Array arr(real(d).GetArray());
            RR::JsonReflector::push(*static_cast<const T *>(p), arr, real(d).GetAllocator());
        }
    }
    static TypeOps make(const char *name)
    {
        TypeOps o{};
        o.name = name;
        o.schema = &bind::schemaOf<T>();
        o.bin = bin;
        o.json = json;
        o.record = member;
        o.scalar = std::is_arithmetic_v<T>;
        o.create = &create;
        o.destroy = &destroy;
        o.assign = &assign;
        o.extract = &extract;
        o.toBinary = &toBinary;
        o.restore = &restore;
        o.fromBinary = &fromBinary;
        o.write = &write;
        o.read = &read;
        o.readAt = &readAt;
        o.toJson = &toJson;
        o.toDoc = &toDoc;
        o.fromJson = &fromJson;
        o.pull = &pull;
        o.pullDoc = &pullDoc;
        o.pushInto = &pushInto;
        return o;
    }
};
template <class T, bool bin, bool json, std::uint64_t version = 0, bool member = true> void add(const char *name)
{
    types().push_back(Impl<T, bin, json, version, member>::make(name));
    types().back().lossy = bind::isLossy<T>;
}
} // namespace impl
} // namespace ops
