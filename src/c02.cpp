// C02: every requested well's concentration and time-of-flight against the dense reference.
#include "flow.hpp"
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    auto fam = flow::families(o.thorough, o.asan);
    for (auto& f : flow::weakFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : flow::quickFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : flow::bigFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : flow::sharedFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : flow::tinyFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : flow::oldLoopFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : flow::hugeFamilies(o.thorough, o.asan)) fam.push_back(f);
    return flow::flowSpaces(fam, [](const flow::Problem&, const flow::Side& s, const flow::Fields& f, const char* d) { flow::checkLocal(s, f, d); });
}
VF_MAIN
