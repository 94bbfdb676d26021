// Written by tools/mkversions.py.
#pragma once
#include "../bind.h"
#include "v.h"
namespace bind {
template <> struct Desc<v1::Plain> : DescBase {
    using T = v1::Plain;
    static constexpr const char *name = "v1::Plain";
    static auto fields() { return std::make_tuple(FV("foo", &T::foo, 0, 0), FV("p1", &T::p1, 0, 1)); }
};
template <> struct Desc<v1::Own> : DescBase {
    using T = v1::Own;
    static constexpr const char *name = "v1::Own";
    static constexpr std::uint64_t version = 1;
    static auto fields() { return std::make_tuple(FV("name", &T::name, 0, 0)); }
};
template <> struct Desc<v1::Low> : DescBase {
    using T = v1::Low;
    static constexpr const char *name = "v1::Low";
    static constexpr std::uint64_t version = 1;
    static auto fields() { return std::make_tuple(FV("low", &T::low, 0, 0), FV("low1", &T::low1, 0, 1)); }
};
template <> struct Desc<v1::Mid> : DescBase {
    using T = v1::Mid;
    static constexpr const char *name = "v1::Mid";
    static auto fields() { return std::make_tuple(FV("plain", &T::plain, 0, 0), FV("own", &T::own, 0, 0), FV("mid2", &T::mid2, 0, 2)); }
};
template <> struct Desc<v1::Base> : DescBase {
    using T = v1::Base;
    static constexpr const char *name = "v1::Base";
    static constexpr std::uint64_t version = 1;
    static auto fields() { return std::make_tuple(FV("base", &T::base, 0, 0)); }
};
template <> struct Desc<v1::Rec> : DescBase {
    using T = v1::Rec;
    static constexpr const char *name = "v1::Rec";
    using bases = Bases<v1::Base>;
    static constexpr std::uint64_t version = 1;
    static auto fields() { return std::make_tuple(FV("a", &T::a, 0, 0), FV("plain", &T::plain, 0, 0), FV("own", &T::own, 0, 0), FV("old1", &T::old1, 0, 1), FV("old2", &T::old2, 0, 2), FV("oldPlain", &T::oldPlain, 0, 2), FV("low", &T::low, 0, 0)); }
};
template <> struct Desc<v1::Heir> : DescBase {
    using T = v1::Heir;
    static constexpr const char *name = "v1::Heir";
    using bases = Bases<v1::Low>;
    static constexpr std::uint64_t version = 1;
    static auto fields() { return std::make_tuple(FV("heir", &T::heir, 0, 0)); }
};
template <> struct Desc<v1::Alone> : DescBase {
    using T = v1::Alone;
    static constexpr const char *name = "v1::Alone";
    static constexpr std::uint64_t version = 1;
    static auto fields() { return std::make_tuple(FV("o2", &T::o2, 0, 2)); }
};
template <> struct Desc<v1::Win> : DescBase {
    using T = v1::Win;
    static constexpr const char *name = "v1::Win";
    static constexpr std::uint64_t version = 1;
    static auto fields() { return std::make_tuple(FV("w", &T::w, 0, 0), FV("w1", &T::w1, 0, 1), FV("w2", &T::w2, 0, 2)); }
};
template <> struct Desc<v2::Plain> : DescBase {
    using T = v2::Plain;
    static constexpr const char *name = "v2::Plain";
    static auto fields() { return std::make_tuple(FV("foo", &T::foo, 0, 0), FV("p2", &T::p2, 2, 0), FV("p1", &T::p1, 0, 1)); }
};
template <> struct Desc<v2::Own> : DescBase {
    using T = v2::Own;
    static constexpr const char *name = "v2::Own";
    static constexpr std::uint64_t version = 2;
    static auto fields() { return std::make_tuple(FV("name", &T::name, 0, 0), FV("own2", &T::own2, 2, 0)); }
};
template <> struct Desc<v2::Low> : DescBase {
    using T = v2::Low;
    static constexpr const char *name = "v2::Low";
    static constexpr std::uint64_t version = 2;
    static auto fields() { return std::make_tuple(FV("low", &T::low, 0, 0), FV("low2", &T::low2, 2, 0), FV("low1", &T::low1, 0, 1)); }
};
template <> struct Desc<v2::Mid> : DescBase {
    using T = v2::Mid;
    static constexpr const char *name = "v2::Mid";
    static auto fields() { return std::make_tuple(FV("plain", &T::plain, 0, 0), FV("own", &T::own, 0, 0), FV("mid2", &T::mid2, 0, 2)); }
};
template <> struct Desc<v2::Base> : DescBase {
    using T = v2::Base;
    static constexpr const char *name = "v2::Base";
    static constexpr std::uint64_t version = 2;
    static auto fields() { return std::make_tuple(FV("base", &T::base, 0, 0), FV("base2", &T::base2, 2, 0)); }
};
template <> struct Desc<v2::Rec> : DescBase {
    using T = v2::Rec;
    static constexpr const char *name = "v2::Rec";
    using bases = Bases<v2::Base>;
    static constexpr std::uint64_t version = 2;
    static auto fields() { return std::make_tuple(FV("a", &T::a, 0, 0), FV("plain", &T::plain, 0, 0), FV("own", &T::own, 0, 0), FV("new2", &T::new2, 2, 0), FV("new2b", &T::new2b, 2, 0), FV("old1", &T::old1, 0, 1), FV("old2", &T::old2, 0, 2), FV("oldPlain", &T::oldPlain, 0, 2), FV("mid", &T::mid, 2, 3), FV("low", &T::low, 0, 0), FV("middle", &T::middle, 2, 0)); }
};
template <> struct Desc<v2::Heir> : DescBase {
    using T = v2::Heir;
    static constexpr const char *name = "v2::Heir";
    using bases = Bases<v2::Low>;
    static constexpr std::uint64_t version = 2;
    static auto fields() { return std::make_tuple(FV("heir", &T::heir, 0, 0), FV("heir2", &T::heir2, 2, 0)); }
};
template <> struct Desc<v2::Alone> : DescBase {
    using T = v2::Alone;
    static constexpr const char *name = "v2::Alone";
    static constexpr std::uint64_t version = 2;
    static auto fields() { return std::make_tuple(FV("o2", &T::o2, 0, 2)); }
};
template <> struct Desc<v2::Win> : DescBase {
    using T = v2::Win;
    static constexpr const char *name = "v2::Win";
    static constexpr std::uint64_t version = 2;
    static auto fields() { return std::make_tuple(FV("w", &T::w, 0, 0), FV("once2", &T::once2, 2, 2), FV("two3", &T::two3, 2, 3), FV("w1", &T::w1, 0, 1), FV("w2", &T::w2, 0, 2), FV("again2", &T::again2, 2, 2), FV("low2", &T::low2, 2, 2)); }
};
template <> struct Desc<v3::Plain> : DescBase {
    using T = v3::Plain;
    static constexpr const char *name = "v3::Plain";
    static auto fields() { return std::make_tuple(FV("foo", &T::foo, 0, 0), FV("p2", &T::p2, 2, 0), FV("p1", &T::p1, 0, 1), FV("p3", &T::p3, 3, 0)); }
};
template <> struct Desc<v3::Own> : DescBase {
    using T = v3::Own;
    static constexpr const char *name = "v3::Own";
    static constexpr std::uint64_t version = 3;
    static auto fields() { return std::make_tuple(FV("name", &T::name, 0, 0), FV("own2", &T::own2, 2, 0), FV("own3", &T::own3, 3, 0)); }
};
template <> struct Desc<v3::Low> : DescBase {
    using T = v3::Low;
    static constexpr const char *name = "v3::Low";
    static constexpr std::uint64_t version = 2;
    static auto fields() { return std::make_tuple(FV("low", &T::low, 0, 0), FV("low2", &T::low2, 2, 0), FV("low1", &T::low1, 0, 1)); }
};
template <> struct Desc<v3::Mid> : DescBase {
    using T = v3::Mid;
    static constexpr const char *name = "v3::Mid";
    static auto fields() { return std::make_tuple(FV("plain", &T::plain, 0, 0), FV("low", &T::low, 3, 0), FV("own", &T::own, 0, 0), FV("mid2", &T::mid2, 0, 2)); }
};
template <> struct Desc<v3::Base> : DescBase {
    using T = v3::Base;
    static constexpr const char *name = "v3::Base";
    static constexpr std::uint64_t version = 3;
    static auto fields() { return std::make_tuple(FV("base", &T::base, 0, 0), FV("base2", &T::base2, 2, 0), FV("base3", &T::base3, 3, 0)); }
};
template <> struct Desc<v3::Rec> : DescBase {
    using T = v3::Rec;
    static constexpr const char *name = "v3::Rec";
    using bases = Bases<v3::Base>;
    static constexpr std::uint64_t version = 3;
    static auto fields() { return std::make_tuple(FV("a", &T::a, 0, 0), FV("plain", &T::plain, 0, 0), FV("own", &T::own, 0, 0), FV("new2", &T::new2, 2, 0), FV("new2b", &T::new2b, 2, 0), FV("old1", &T::old1, 0, 1), FV("old2", &T::old2, 0, 2), FV("oldPlain", &T::oldPlain, 0, 2), FV("new3", &T::new3, 3, 0), FV("new3b", &T::new3b, 3, 0), FV("mid", &T::mid, 2, 3), FV("low", &T::low, 0, 0), FV("middle", &T::middle, 2, 0)); }
};
template <> struct Desc<v3::Heir> : DescBase {
    using T = v3::Heir;
    static constexpr const char *name = "v3::Heir";
    using bases = Bases<v3::Low>;
    static constexpr std::uint64_t version = 3;
    static auto fields() { return std::make_tuple(FV("heir", &T::heir, 0, 0), FV("heir2", &T::heir2, 2, 0)); }
};
template <> struct Desc<v3::Alone> : DescBase {
    using T = v3::Alone;
    static constexpr const char *name = "v3::Alone";
    static constexpr std::uint64_t version = 3;
    static auto fields() { return std::make_tuple(FV("x3", &T::x3, 3, 0), FV("o2", &T::o2, 0, 2)); }
};
template <> struct Desc<v3::Win> : DescBase {
    using T = v3::Win;
    static constexpr const char *name = "v3::Win";
    static constexpr std::uint64_t version = 3;
    static auto fields() { return std::make_tuple(FV("w", &T::w, 0, 0), FV("once2", &T::once2, 2, 2), FV("two3", &T::two3, 2, 3), FV("once3", &T::once3, 3, 3), FV("w1", &T::w1, 0, 1), FV("w2", &T::w2, 0, 2), FV("again2", &T::again2, 2, 2), FV("low2", &T::low2, 2, 2)); }
};
template <> struct Desc<v4::Plain> : DescBase {
    using T = v4::Plain;
    static constexpr const char *name = "v4::Plain";
    static auto fields() { return std::make_tuple(FV("foo", &T::foo, 0, 0), FV("p2", &T::p2, 2, 0), FV("p1", &T::p1, 0, 1), FV("p3", &T::p3, 3, 0), FV("p4", &T::p4, 4, 0)); }
};
template <> struct Desc<v4::Own> : DescBase {
    using T = v4::Own;
    static constexpr const char *name = "v4::Own";
    static constexpr std::uint64_t version = 4;
    static auto fields() { return std::make_tuple(FV("name", &T::name, 0, 0), FV("own2", &T::own2, 2, 0), FV("own3", &T::own3, 3, 0), FV("own4", &T::own4, 4, 0)); }
};
template <> struct Desc<v4::Low> : DescBase {
    using T = v4::Low;
    static constexpr const char *name = "v4::Low";
    static constexpr std::uint64_t version = 2;
    static auto fields() { return std::make_tuple(FV("low", &T::low, 0, 0), FV("low2", &T::low2, 2, 0), FV("low1", &T::low1, 0, 1)); }
};
template <> struct Desc<v4::Mid> : DescBase {
    using T = v4::Mid;
    static constexpr const char *name = "v4::Mid";
    static auto fields() { return std::make_tuple(FV("plain", &T::plain, 0, 0), FV("low", &T::low, 3, 0), FV("own", &T::own, 0, 0), FV("mid2", &T::mid2, 0, 2)); }
};
template <> struct Desc<v4::Base> : DescBase {
    using T = v4::Base;
    static constexpr const char *name = "v4::Base";
    static constexpr std::uint64_t version = 4;
    static auto fields() { return std::make_tuple(FV("base", &T::base, 0, 0), FV("base2", &T::base2, 2, 0), FV("base3", &T::base3, 3, 0), FV("base4", &T::base4, 4, 0)); }
};
template <> struct Desc<v4::Rec> : DescBase {
    using T = v4::Rec;
    static constexpr const char *name = "v4::Rec";
    using bases = Bases<v4::Base>;
    static constexpr std::uint64_t version = 4;
    static auto fields() { return std::make_tuple(FV("a", &T::a, 0, 0), FV("plain", &T::plain, 0, 0), FV("own", &T::own, 0, 0), FV("new2", &T::new2, 2, 0), FV("new2b", &T::new2b, 2, 0), FV("old1", &T::old1, 0, 1), FV("old2", &T::old2, 0, 2), FV("oldPlain", &T::oldPlain, 0, 2), FV("new3", &T::new3, 3, 0), FV("new3b", &T::new3b, 3, 0), FV("new4", &T::new4, 4, 0), FV("plain4", &T::plain4, 4, 0), FV("mid", &T::mid, 2, 3), FV("low", &T::low, 0, 0), FV("middle", &T::middle, 2, 0)); }
};
template <> struct Desc<v4::Heir> : DescBase {
    using T = v4::Heir;
    static constexpr const char *name = "v4::Heir";
    using bases = Bases<v4::Low>;
    static constexpr std::uint64_t version = 4;
    static auto fields() { return std::make_tuple(FV("heir", &T::heir, 0, 0), FV("heir2", &T::heir2, 2, 0), FV("heir4", &T::heir4, 4, 0)); }
};
template <> struct Desc<v4::Alone> : DescBase {
    using T = v4::Alone;
    static constexpr const char *name = "v4::Alone";
    static constexpr std::uint64_t version = 4;
    static auto fields() { return std::make_tuple(FV("x3", &T::x3, 3, 0), FV("o2", &T::o2, 0, 2), FV("x4", &T::x4, 4, 0)); }
};
template <> struct Desc<v4::Win> : DescBase {
    using T = v4::Win;
    static constexpr const char *name = "v4::Win";
    static constexpr std::uint64_t version = 4;
    static auto fields() { return std::make_tuple(FV("w", &T::w, 0, 0), FV("once2", &T::once2, 2, 2), FV("two3", &T::two3, 2, 3), FV("once3", &T::once3, 3, 3), FV("w4", &T::w4, 4, 0), FV("w1", &T::w1, 0, 1), FV("w2", &T::w2, 0, 2), FV("again2", &T::again2, 2, 2), FV("low2", &T::low2, 2, 2)); }
};
} // namespace bind
