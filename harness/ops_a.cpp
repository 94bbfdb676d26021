#include "types/a_desc.h"
#include "ops_impl.h"
#include "gen/a.h"
namespace ops {
void register_a()
{
    using namespace impl;
    add<uni::Scal, true, true>("Scal");
    add<uni::Enums, true, true>("Enums");
    add<uni::Small, true, true>("Small");
    add<uni::BScal, true, false>("BScal");
    add<uni::JScal, false, true>("JScal");
    add<uni::Seqs, true, true>("Seqs");
    add<uni::Sets, true, true>("Sets");
    add<uni::Maps, true, true>("Maps");
    add<uni::BMaps, true, false>("BMaps");
    // not records: only through the reflectors
    add<std::vector<uni::Small>, true, true, 0, false>("vector<Small>");
    add<std::vector<std::string>, true, true, 0, false>("vector<string>");
    add<std::map<std::string, int>, true, true, 0, false>("map<string,int>");
    add<std::vector<int>, true, true, 0, false>("vector<int>");
    add<std::list<double>, true, true, 0, false>("list<double>");
    add<int, true, true, 0, false>("int");
    add<std::uint64_t, true, true, 0, false>("uint64");
    add<bool, true, true, 0, false>("bool");
    add<float, true, true, 0, false>("float");
    add<double, true, true, 0, false>("double");
    add<std::string, true, true, 0, false>("string");
    add<uni::Views, false, true>("Views");
    add<std::multimap<std::string, uni::Small>, true, true, 0, false>("multimap<string,Small>");
}
} // namespace ops
