// C11: flow fields with loops: termination (the driver detects hangs) and accuracy.
#include "flow.hpp"
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    std::vector<flow::Family> fam;
    for (auto& f : flow::slowFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : flow::loopFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : flow::oldLoopFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : flow::weakFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : flow::quickFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : flow::families(o.thorough, o.asan)) if (f.name != "phases") fam.push_back(f);
    for (auto& f : flow::bigFamilies(o.thorough, o.asan)) fam.push_back(f);
    return flow::flowSpaces(fam, [](const flow::Problem&, const flow::Side& s, const flow::Fields& f, const char* d) {
        flow::checkGlobal(s, f, d);
        flow::checkLocal(s, f, d);
    }, [](const flow::Side& s) { return s.cyclic(); });
}
VF_MAIN
