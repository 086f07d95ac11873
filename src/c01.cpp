// C01: the all-sources time-of-flight field against a dense long-double reference.
#include "flow.hpp"
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    auto fam = flow::families(o.thorough, o.asan);
    auto big = flow::bigFamilies(o.thorough, o.asan);
    fam.insert(fam.end(), big.begin(), big.end());
    for (auto& f : flow::sharedFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : flow::tinyFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : flow::oldLoopFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : flow::hugeFamilies(o.thorough, o.asan)) fam.push_back(f);
    return flow::flowSpaces(fam, [](const flow::Problem&, const flow::Side& s, const flow::Fields& f, const char* d) { flow::checkGlobal(s, f, d); });
}
VF_MAIN
