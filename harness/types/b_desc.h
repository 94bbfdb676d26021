#pragma once
#include "../bind.h"
#include "b.h"
#include "a_desc.h"
namespace bind {
template <> struct Desc<uni::Opts> : DescBase {
    using T = uni::Opts;
    static constexpr const char *name = "uni::Opts";
    static auto fields() { return std::make_tuple(F("oi", &T::oi), F("os", &T::os), F("ov", &T::ov), F("oo", &T::oo), F("uo", &T::uo), F("us", &T::us), F("vo", &T::vo), F("vu", &T::vu), F("last", &T::last)); }
};
template <> struct Desc<uni::BOpts> : DescBase {
    using T = uni::BOpts;
    static constexpr const char *name = "uni::BOpts";
    static auto fields() { return std::make_tuple(F("oo", &T::oo), F("uo", &T::uo), F("om", &T::om)); }
};
template <> struct Desc<uni::Vars> : DescBase {
    using T = uni::Vars;
    static constexpr const char *name = "uni::Vars";
    static auto fields() { return std::make_tuple(F("a", &T::a), F("b", &T::b), F("c", &T::c), F("d", &T::d), F("e", &T::e), F("last", &T::last)); }
};
template <> struct Desc<uni::Pairs> : DescBase {
    using T = uni::Pairs;
    static constexpr const char *name = "uni::Pairs";
    static auto fields() { return std::make_tuple(F("p", &T::p), F("vp", &T::vp), F("po", &T::po), F("mp", &T::mp), F("last", &T::last)); }
};
template <> struct Desc<uni::Dates> : DescBase {
    using T = uni::Dates;
    static constexpr const char *name = "uni::Dates";
    static auto fields() { return std::make_tuple(F("dt", &T::dt), F("ts", &T::ts), F("vd", &T::vd), F("ot", &T::ot), F("mt", &T::mt), F("last", &T::last)); }
};
template <> struct Desc<uni::BaseA> : DescBase {
    using T = uni::BaseA;
    static constexpr const char *name = "uni::BaseA";
    static auto fields() { return std::make_tuple(F("baseA", &T::baseA), F("listA", &T::listA)); }
};
template <> struct Desc<uni::BaseB> : DescBase {
    using T = uni::BaseB;
    static constexpr const char *name = "uni::BaseB";
    static auto fields() { return std::make_tuple(F("baseB", &T::baseB)); }
};
template <> struct Desc<uni::Derived> : DescBase {
    using T = uni::Derived;
    static constexpr const char *name = "uni::Derived";
    using bases = Bases<uni::BaseA, uni::BaseB>;
    static auto fields() { return std::make_tuple(F("own", &T::own), F("last", &T::last)); }
};
template <> struct Desc<uni::Level1> : DescBase {
    using T = uni::Level1;
    static constexpr const char *name = "uni::Level1";
    static auto fields() { return std::make_tuple(F("level1", &T::level1), F("list1", &T::list1)); }
};
template <> struct Desc<uni::Level2> : DescBase {
    using T = uni::Level2;
    static constexpr const char *name = "uni::Level2";
    using bases = Bases<uni::Level1>;
    static auto fields() { return std::make_tuple(F("level2", &T::level2)); }
};
template <> struct Desc<uni::Level3> : DescBase {
    using T = uni::Level3;
    static constexpr const char *name = "uni::Level3";
    using bases = Bases<uni::BaseB, uni::Level2>; // in the order of declaration
    static auto fields() { return std::make_tuple(F("level3", &T::level3), F("last", &T::last)); }
};
template <> struct Desc<uni::OverGap> : DescBase {
    using T = uni::OverGap;
    static constexpr const char *name = "uni::OverGap";
    using bases = Bases<uni::Level1>;
    static auto fields() { return std::make_tuple(F("over", &T::over)); }
};
template <> struct Desc<uni::Private> : DescBase {
    using T = uni::Private;
    static constexpr const char *name = "uni::Private";
    static auto fields() { return std::make_tuple(F("secret", &T::secret), F("word", &T::word), F("open", &T::open), F("guarded", &T::guarded)); }
};
template <> struct Desc<uni::PartPrivate> : DescBase {
    using T = uni::PartPrivate;
    static constexpr const char *name = "uni::PartPrivate";
    static auto fields() { return std::make_tuple(F("open", &T::open), F("fixed", &T::fixed, NoBinary | NoPull), F("after", &T::after), F("hidden", &T::hidden, NoBinary | NoPush | NoPull)); }
};
template <> struct Desc<uni::Outer> : DescBase {
    using T = uni::Outer;
    static constexpr const char *name = "uni::Outer";
    static auto fields() { return std::make_tuple(F("scal", &T::scal), F("seqs", &T::seqs), F("der", &T::der), F("mo", &T::mo), F("ov", &T::ov), F("um", &T::um), F("vs", &T::vs), F("last", &T::last)); }
};
} // namespace bind
