#pragma once
#include "../bind.h"
#include "c.h"
#include "a_desc.h"
namespace bind {
template <> struct Desc<tp::Point> : DescBase {
    using T = tp::Point;
    static constexpr const char *name = "tp::Point";
    static auto fields() { return std::make_tuple(F("x", &T::x), F("y", &T::y), F("label", &T::label)); }
};
template <> struct Desc<tp::Shape> : DescBase {
    using T = tp::Shape;
    static constexpr const char *name = "tp::Shape";
    static auto fields() { return std::make_tuple(F("points", &T::points), F("center", &T::center), F("named", &T::named)); }
};
template <> struct Desc<uni::Node> : DescBase {
    using T = uni::Node;
    static constexpr const char *name = "uni::Node";
    static auto fields() { return std::make_tuple(F("name", &T::name), F("v", &T::v), F("kids", &T::kids), F("left", &T::left), F("next", &T::next), F("links", &T::links), F("by", &T::by)); }
};
template <> struct Desc<uni::Tree> : DescBase {
    using T = uni::Tree;
    static constexpr const char *name = "uni::Tree";
    static auto fields() { return std::make_tuple(F("name", &T::name), F("kids", &T::kids), F("left", &T::left), F("val", &T::val)); }
};
template <> struct Desc<uni::Shareds> : DescBase {
    using T = uni::Shareds;
    static constexpr const char *name = "uni::Shareds";
    static auto fields() { return std::make_tuple(F("a", &T::a), F("b", &T::b), F("s", &T::s), F("vi", &T::vi), F("vs", &T::vs), F("m", &T::m), F("o", &T::o), F("p", &T::p), F("var", &T::var), F("nested", &T::nested)); }
};
template <> struct Desc<uni::Empty> : DescBase {
    using T = uni::Empty;
    static constexpr const char *name = "uni::Empty";
    static auto fields() { return std::make_tuple(); }
};
template <> struct Desc<uni::Wild> : DescBase {
    using T = uni::Wild;
    static constexpr const char *name = "uni::Wild";
    static auto fields() { return std::make_tuple(F("v", &T::v), F("one", &T::one), F("i", &T::i)); }
};
template <> struct Desc<uni::Customs> : DescBase {
    using T = uni::Customs;
    static constexpr const char *name = "uni::Customs";
    static auto fields() { return std::make_tuple(F("map", &T::map), F("multi", &T::multi), F("set", &T::set), F("mset", &T::mset), F("point", &T::point), F("shapes", &T::shapes), F("last", &T::last)); }
};
template <> struct Bind<uni::MyMap> : MapBind<uni::MyMap, false, false> {};
template <> struct Bind<uni::MyMulti> : MapBind<uni::MyMulti, false, true> {};
template <> struct Bind<uni::MySet> : SetBind<uni::MySet, false, false> {};
template <> struct Bind<uni::MyMultiSet> : SetBind<uni::MyMultiSet, false, true> {};
} // namespace bind
