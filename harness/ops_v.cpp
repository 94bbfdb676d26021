#include "types/v_desc.h"
#include "ops_impl.h"
#include "gen/v.h"
namespace ops {
void register_v()
{
    using namespace impl;
    add<v1::Rec, true, false, 1>("v1::Rec");
    add<v2::Rec, true, false, 2>("v2::Rec");
    add<v3::Rec, true, false, 3>("v3::Rec");
    add<v4::Rec, true, false, 4>("v4::Rec");
    add<v1::Alone, true, false, 1>("v1::Alone");
    add<v2::Alone, true, false, 2>("v2::Alone");
    add<v3::Alone, true, false, 3>("v3::Alone");
    add<v4::Alone, true, false, 4>("v4::Alone");
    add<v1::Heir, true, false, 1>("v1::Heir");
    add<v2::Heir, true, false, 2>("v2::Heir");
    add<v3::Heir, true, false, 3>("v3::Heir");
    add<v4::Heir, true, false, 4>("v4::Heir");
    add<v1::Win, true, false, 1>("v1::Win");
    add<v2::Win, true, false, 2>("v2::Win");
    add<v3::Win, true, false, 3>("v3::Win");
    add<v4::Win, true, false, 4>("v4::Win");
    add<v1::Plain, true, false, 0>("v1::Plain");
    add<v2::Plain, true, false, 0>("v2::Plain");
    add<v3::Plain, true, false, 0>("v3::Plain");
    add<v4::Plain, true, false, 0>("v4::Plain");
    add<v1::Mid, true, false, 0>("v1::Mid");
    add<v2::Mid, true, false, 0>("v2::Mid");
    add<v3::Mid, true, false, 0>("v3::Mid");
    add<v4::Mid, true, false, 0>("v4::Mid");
}
} // namespace ops
