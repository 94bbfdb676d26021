#include "types/b_desc.h"
#include "ops_impl.h"
#include "gen/b.h"
namespace ops {
void register_b()
{
    using namespace impl;
    add<uni::Opts, true, true>("Opts");
    add<uni::BOpts, true, false>("BOpts");
    add<uni::Vars, true, true>("Vars");
    add<uni::Pairs, true, true>("Pairs");
    add<uni::Dates, true, true>("Dates");
    add<uni::BaseA, true, true>("BaseA");
    add<uni::Derived, true, true>("Derived");
    add<uni::Level3, false, true>("Level3");
    add<uni::OverGap, false, true>("OverGap");
    add<uni::Private, true, true>("Private");
    add<uni::PartPrivate, true, true>("PartPrivate");
    add<uni::Outer, true, true>("Outer");
}
} // namespace ops
