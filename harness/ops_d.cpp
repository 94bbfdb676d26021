#include "types/d_desc.h"
#include "ops_impl.h"
namespace ops {
void register_d()
{
    using namespace impl;
    add<uni::HanaRec, true, true>("HanaRec");
    add<uni::Hand, true, true>("Hand");
    add<uni::HandOuter, true, true>("HandOuter");
}
} // namespace ops
