#include "types/c_desc.h"
#include "ops_impl.h"
#include "gen/c.h"
namespace ops {
void register_c()
{
    using namespace impl;
    add<uni::Node, true, true>("Node");
    add<uni::Tree, true, true>("Tree");
    add<uni::Shareds, true, true>("Shareds");
    add<uni::Wild, true, false>("Wild");
    add<uni::Customs, true, true>("Customs");
    add<tp::Shape, true, true, 0, false>("tp::Shape");
}
} // namespace ops
