#pragma once
#include "common.h"

namespace probes {
struct IncludedBase : public ReflectiveRapidJSON::JsonSerializable<IncludedBase>, public ReflectiveRapidJSON::BinarySerializable<IncludedBase> {
    int included = 1;
};
} // namespace probes
