// C03: support of every tracer is exactly the reachable set.
#include "flow.hpp"
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    auto fam = flow::families(o.thorough, o.asan);
    for (auto& f : flow::weakFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : flow::quickFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : flow::loopFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : flow::bigFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : flow::tinyFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : flow::hugeFamilies(o.thorough, o.asan)) fam.push_back(f);
    return flow::flowSpaces(fam, [](const flow::Problem&, const flow::Side& s, const flow::Fields& f, const char* d) { flow::checkSupport(s, f, d); });
}
VF_MAIN
