#pragma once
#include "../bind.h"
#include "d.h"
namespace bind {
template <> struct Desc<uni::HanaIn> : DescBase {
    using T = uni::HanaIn;
    static constexpr const char *name = "uni::HanaIn";
    static constexpr bool hana = true;
    static auto fields() { return std::make_tuple(F("word", &T::word), F("nums", &T::nums)); }
};
template <> struct Desc<uni::HanaRec> : DescBase {
    using T = uni::HanaRec;
    static constexpr const char *name = "uni::HanaRec";
    static constexpr bool hana = true;
    static auto fields()
    {
        return std::make_tuple(F("a", &T::a), F("l", &T::l), F("flag", &T::flag), F("d", &T::d), F("s", &T::s), F("vs", &T::vs), F("in", &T::in),
            F("vin", &T::vin), F("m", &T::m), F("o", &T::o), F("sh", &T::sh));
    }
};
template <> struct Desc<uni::Hand> : DescBase {
    using T = uni::Hand;
    static constexpr const char *name = "uni::Hand";
    static auto fields() { return std::make_tuple(F("a", &T::a), F("s", &T::s), F("v", &T::v)); }
};
template <> struct Desc<uni::HandOuter> : DescBase {
    using T = uni::HandOuter;
    static constexpr const char *name = "uni::HandOuter";
    static auto fields() { return std::make_tuple(F("hands", &T::hands), F("one", &T::one), F("m", &T::m)); }
};
} // namespace bind
