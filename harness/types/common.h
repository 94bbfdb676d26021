#pragma once
#define REFLECTIVE_RAPIDJSON_SHORT_MACROS
#include <lib/binary/reflector-chronoutilities.h>
#include <lib/binary/reflector.h>
#include <lib/binary/serializable.h>
#include <lib/json/reflector-chronoutilities.h>
#include <lib/json/reflector.h>
#include <lib/json/serializable.h>

#include <c++utilities/chrono/datetime.h>
#include <c++utilities/chrono/timespan.h>

#include <deque>
#include <list>
#include <string_view>
#include <vector>

namespace bind {
template <class T> struct Desc;
}
namespace uni {
using ReflectiveRapidJSON::BinarySerializable;
using ReflectiveRapidJSON::JsonSerializable;
} // namespace uni
