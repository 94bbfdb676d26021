#pragma once
#include "../bind.h"
#include "a.h"
namespace bind {
template <> struct Desc<uni::Scal> : DescBase {
    using T = uni::Scal;
    static constexpr const char *name = "uni::Scal";
    static auto fields() { return std::make_tuple(F("i", &T::i), F("u", &T::u), F("l", &T::l), F("ul", &T::ul), F("b8", &T::b8), F("flag", &T::flag), F("f", &T::f), F("d", &T::d), F("s", &T::s), F("e8", &T::e8), F("e64", &T::e64)); }
};
template <> struct Desc<uni::Enums> : DescBase {
    using T = uni::Enums;
    static constexpr const char *name = "uni::Enums";
    static auto fields() { return std::make_tuple(F("e8", &T::e8), F("e16", &T::e16), F("e32", &T::e32), F("e64", &T::e64), F("u64", &T::u64), F("list", &T::list), F("last", &T::last)); }
};
template <> struct Desc<uni::Small> : DescBase {
    using T = uni::Small;
    static constexpr const char *name = "uni::Small";
    static auto fields() { return std::make_tuple(F("a", &T::a), F("t", &T::t)); }
};
template <> struct Desc<uni::BScal> : DescBase {
    using T = uni::BScal;
    static constexpr const char *name = "uni::BScal";
    static auto fields() { return std::make_tuple(F("c", &T::c), F("i16", &T::i16), F("u16", &T::u16), F("i32", &T::i32), F("u32", &T::u32), F("i64", &T::i64), F("u64", &T::u64), F("u8", &T::u8), F("b", &T::b), F("f", &T::f), F("d", &T::d), F("s", &T::s), F("e", &T::e)); }
};
template <> struct Desc<uni::JScal> : DescBase {
    using T = uni::JScal;
    static constexpr const char *name = "uni::JScal";
    static auto fields() { return std::make_tuple(F("i8", &T::i8), F("u8", &T::u8), F("t", &T::t), F("one", &T::one), F("ts", &T::ts), F("e16", &T::e16), F("e32", &T::e32), F("f", &T::f)); }
};
template <> struct Desc<uni::Seqs> : DescBase {
    using T = uni::Seqs;
    static constexpr const char *name = "uni::Seqs";
    static auto fields() { return std::make_tuple(F("vi", &T::vi), F("vs", &T::vs), F("ld", &T::ld), F("du", &T::du), F("vvi", &T::vvi), F("vo", &T::vo), F("lvs", &T::lvs), F("last", &T::last)); }
};
template <> struct Desc<uni::Sets> : DescBase {
    using T = uni::Sets;
    static constexpr const char *name = "uni::Sets";
    static auto fields() { return std::make_tuple(F("si", &T::si), F("ss", &T::ss), F("us", &T::us), F("uss", &T::uss), F("mi", &T::mi), F("um", &T::um), F("sv", &T::sv), F("sp", &T::sp), F("ms", &T::ms), F("last", &T::last)); }
};
template <> struct Desc<uni::Maps> : DescBase {
    using T = uni::Maps;
    static constexpr const char *name = "uni::Maps";
    static auto fields() { return std::make_tuple(F("mi", &T::mi), F("um", &T::um), F("mm", &T::mm), F("umm", &T::umm), F("mv", &T::mv), F("mmap", &T::mmap), F("mmv", &T::mmv), F("mms", &T::mms), F("last", &T::last)); }
};
template <> struct Desc<uni::Views> : DescBase {
    using T = uni::Views;
    static constexpr const char *name = "uni::Views";
    static auto fields() { return std::make_tuple(F("c", &T::c), F("v", &T::v), F("vv", &T::vv), F("mv", &T::mv), F("ov", &T::ov), F("last", &T::last)); }
    static std::deque<std::string> &texts(T &t) { return t.owner; }
};
template <> struct Desc<uni::BMaps> : DescBase {
    using T = uni::BMaps;
    static constexpr const char *name = "uni::BMaps";
    static auto fields() { return std::make_tuple(F("mi", &T::mi), F("uv", &T::uv), F("mm", &T::mm), F("umm", &T::umm), F("mp", &T::mp), F("ms", &T::ms)); }
};
} // namespace bind
