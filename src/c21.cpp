// C21: histories of solution objects against a map model.
#include "special.hpp"
#include "vf.hpp"
#include <opm/flowdiagnostics/Solution.hpp>
#include <memory>
#include <set>
using namespace Opm::FlowDiagnostics;
namespace {
typedef std::map<int, double> Val;
struct Model { std::vector<double> global; std::map<std::string, Val> tof, conc; };
const std::string IDS[][2] = { { "A", "B" }, { "", "A" }, { "A", "a" }, { "A", "AB" }, { std::string("A\0B", 3), std::string("A\0C", 3) }, { std::string("well-1234567890-abcdefghij-1"), std::string("well-1234567890-abcdefghij-2") } };
const unsigned NIDS = 6;
Val value(unsigned k) // five different fields: overlapping, nested and empty key sets, equal sizes, equal keys, so that merging is visible
{
    switch (k) {
    case 0: return { { 0, 1.5 }, { 2, -3.0 } };
    case 1: return { { 2, 7.25 }, { 5, 0.0 } };
    case 2: return {};
    case 3: return { { 2, 7.25 } };
    default: return { { 0, 0.0 }, { 2, -3.0 } };
    }
}
std::vector<double> global(unsigned k)
{
    switch (k) {
    case 0: return { 1, 2, 3 };
    case 1: return { 9 };
    case 2: return {};
    case 3: return { 1, 0, 4 };
    default: return { 1, 2 };
    }
}

void compare(const Solution& s, const Model& m, const std::vector<std::string>& pool, const char* when, vf::Ctx& c)
{
    VF_REQUIRE(s.timeOfFlight() == m.global, "%s: the global field has %zu values, expected %zu, or they differ", when, s.timeOfFlight().size(), m.global.size());
    for (auto& id : pool) {
        auto get = [&](const std::map<std::string, Val>& x) { auto p = x.find(id); return p == x.end() ? Val{} : p->second; };
        VF_REQUIRE(s.timeOfFlight(CellSetID(id)) == get(m.tof), "%s: time-of-flight of id '%s' is not the last assigned one", when, id.c_str());
        VF_REQUIRE(s.concentration(CellSetID(id)) == get(m.conc), "%s: concentration of id '%s' is not the last assigned one", when, id.c_str());
    }
    std::multiset<std::string> got, want;
    for (auto& id : s.startPoints()) got.insert(id.to_string());
    for (auto& e : m.conc) want.insert(e.first);
    VF_REQUIRE(got == want, "%s: %zu start points, expected %zu, or they differ", when, got.size(), want.size());
    c.transitions += 2 + 2 * pool.size(); ++c.traces;
}
struct Slot { std::unique_ptr<Solution> s; Model m; };

// Alphabet: per object {global x3, per id {tof,conc} x values}, then copies, moves, destruction, re-creation.
struct Alpha { unsigned nslot, ng, nv; unsigned per() const { return ng + 4 * nv; } unsigned size() const { return nslot * per() + 3 * nslot * (nslot - 1) / 1 + nslot; } };
void history(uint64_t i, unsigned len, Alpha a, vf::Ctx& c)
{
    vf::Radix r(i);
    const std::string* ids = IDS[r.take(NIDS)];
    std::vector<std::string> pool{ ids[0], ids[1], "A", "Z", "", "a", "AB", std::string("A\0", 2) };
    std::vector<Slot> slot(a.nslot);
    for (auto& x : slot) x.s.reset(new Solution);
    for (unsigned k = 0; k < len; ++k) {
        unsigned op = r.take(a.size());
        std::string what;
        if (op < a.nslot * a.per()) {
            unsigned s = op / a.per(), q = op % a.per();
            Slot& x = slot[s];
            if (!x.s) { ++c.skipped; return; }
            if (q < a.ng) { what = vf::sfmt("object %u: global #%u", s, q); x.s->assignGlobalToF(global(q)); x.m.global = global(q); }
            else {
                q -= a.ng; unsigned v = q % a.nv, id = q / a.nv % 2, kind = q / a.nv / 2;
                what = vf::sfmt("object %u: %s of id %u := #%u", s, kind ? "concentration" : "tof", id, v);
                if (kind) { x.s->assign(CellSetID(ids[id]), Solution::TracerConcentration{ value(v) }); x.m.conc[ids[id]] = value(v); }
                else { x.s->assign(CellSetID(ids[id]), Solution::TimeOfFlight{ value(v) }); x.m.tof[ids[id]] = value(v); }
            }
        } else {
            op -= a.nslot * a.per();
            const unsigned pairs = a.nslot * (a.nslot - 1);
            if (op < 3 * pairs) {
                unsigned kind = op / pairs, from = op % pairs / (a.nslot - 1), to = op % (a.nslot - 1);
                if (to >= from) ++to;
                if (!slot[from].s) { ++c.skipped; return; }
                if (kind == 0) { what = vf::sfmt("object %u := copy of %u", to, from); slot[to].s.reset(new Solution(*slot[from].s)); slot[to].m = slot[from].m; }
                else if (kind == 1) { what = vf::sfmt("object %u := moved from %u", to, from); slot[to].s.reset(new Solution(std::move(*slot[from].s))); slot[to].m = slot[from].m; slot[from].s.reset(); }
                else { what = vf::sfmt("object %u := copy of %u, which is destroyed", to, from); slot[to].s.reset(new Solution(*slot[from].s)); slot[to].m = slot[from].m; slot[from].s.reset(); }
            } else { unsigned s = op - 3 * pairs; what = vf::sfmt("object %u := new", s); slot[s].s.reset(new Solution); slot[s].m = Model(); }
        }
        ++c.transitions;
        c.note("%s; ", what.c_str());
        for (auto& x : slot) if (x.s) compare(*x.s, x.m, pool, what.c_str(), c);
        ++c.states;
    }
    uint64_t h = 0;
    for (auto& x : slot) h = vf::mix(h, x.s ? x.m.conc.size() * 64 + x.m.tof.size() * 8 + x.m.global.size() + 1 : 0);
    c.outcome(vf::mix(h, i % 4096)); ++c.nontrivial;
}
vf::Space histories(const char* name, unsigned len, Alpha a)
{
    return { name, vf::sfmt("every sequence of %u operations (alphabet of %u: assignments of %u global and %u per-id fields, copies, moves, destruction, creation) on %u objects, for %u pairs of ids", len, a.size(), a.ng, a.nv, a.nslot, NIDS),
        NIDS * vf::ipow(a.size(), len), [=](uint64_t i, vf::Ctx& c) { history(i, len, a, c); } };
}
}
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    std::vector<vf::Space> S{ histories("two-objects", o.asan ? 2 : o.thorough ? 4 : 3, Alpha{ 2, 3, 3 }), histories("three-objects", o.asan ? 2 : 3, Alpha{ 3, 2, 2 }) };
    S.push_back(histories("one-object-all-fields", o.asan ? 2 : o.thorough ? 4 : 3, Alpha{ 1, 5, 5 }));
    S.push_back(histories("two-objects-all-fields", 2, Alpha{ 2, 5, 5 }));
    S.push_back(histories("one-object", o.asan ? 3 : o.thorough ? 6 : 5, Alpha{ 1, 1, 2 }));
    S.push_back(histories("two-objects-long", o.asan ? 3 : o.thorough ? 6 : 5, Alpha{ 2, 1, 1 }));
    {
        auto V = std::make_shared<std::vector<double>>(special::numbers(true));
        static const int CELL[] = { 0, 1, 7, -1, 65536, 2147483647, -2147483647 - 1 };
        S.push_back({ "numbers", vf::sfmt("%zu numbers (extremes, subnormals, infinities, numbers with all digits) in each kind of field, in 7 cells from INT_MIN to INT_MAX, alone and after another one, read back bit by bit, also from copies", V->size()), V->size() * 7 * 3 * 2, [V](uint64_t i, vf::Ctx& c) {
            vf::Radix r(i);
            const double x = (*V)[r.take(unsigned(V->size()))]; const int cell = CELL[r.take(7)]; const unsigned kind = r.take(3); const bool before = r.take(2);
            c.note("%.17g in cell %d, field %u%s", x, cell, kind, before ? ", after another value" : "");
            Solution s;
            auto put = [&](double y) {
                if (kind == 0) s.assignGlobalToF({ 1.0, y, 2.0 });
                else if (kind == 1) s.assign(CellSetID("A"), Solution::TimeOfFlight{ { { cell, y }, { 3, 2.0 } } });
                else s.assign(CellSetID("A"), Solution::TracerConcentration{ { { cell, y }, { 3, 2.0 } } });
                ++c.transitions;
            };
            auto look = [&](const Solution& t, const char* when) {
                double got = 0; size_t n = 0;
                if (kind == 0) { VF_REQUIRE(t.timeOfFlight().size() == 3, "%s: wrong size", when); got = t.timeOfFlight()[1]; n = 2; }
                else { auto m = kind == 1 ? t.timeOfFlight(CellSetID("A")) : t.concentration(CellSetID("A")); n = m.size(); VF_REQUIRE(m.count(cell), "%s: cell %d is missing", when, cell); got = m[cell]; }
                VF_REQUIRE(n == 2 && special::identical(got, x), "%s: assigned %.17g, got %.17g (%zu cells)", when, x, got, n);
                ++c.transitions; ++c.traces;
            };
            if (before) put(0.25);
            put(x);
            look(s, "assigned"); Solution t(s); look(t, "copied"); Solution u(std::move(t)); look(u, "moved");
            ++c.states; ++c.nontrivial; c.outcome(i);
        } });
    }
    const unsigned N = 48;
    S.push_back({ "many-ids", vf::sfmt("1..%u ids assigned in 3 orders with fields of 0..40 cells, overwritten, copied, the original overwritten", N), uint64_t(N) * 3, [=](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i); unsigned n = r.take(N) + 1, ord = r.take(3);
        c.note("%u ids, order %u", n, ord);
        std::vector<std::string> pool;
        for (unsigned k = 0; k < n; ++k) pool.push_back(vf::sfmt("W%u", k));
        auto perm = [&](unsigned k) { return ord == 0 ? k : ord == 1 ? n - 1 - k : (k * 5 + 2) % n; };
        auto field = [&](unsigned k, double s) { Val v; for (unsigned j = 0; j < k % 41; ++j) v[int(j * j + (s > 0 ? 0 : 1))] = s * (j + 1) + k; return v; };
        Solution s; Model m;
        for (int pass = 0; pass < 2; ++pass)
            for (unsigned k = 0; k < n; ++k) {
                unsigned w = perm(k);
                if (pass && k % 3 == 0) continue;
                Val t = field(w + (w % 2) * pass, pass ? -2 : 2), q = field(w + 7 * pass, -1); // the second pass keeps the size of every other field and moves its cells
                m.tof[pool[w]] = t; m.conc[pool[w]] = q;
                s.assign(CellSetID(pool[w]), Solution::TimeOfFlight{ t }); s.assign(CellSetID(pool[w]), Solution::TracerConcentration{ q });
                c.transitions += 2;
            }
        std::vector<double> g(1000 + n, 0.5); g[n] = n; m.global = g; s.assignGlobalToF(std::move(g));
        compare(s, m, pool, "filled", c);
        Solution t(s); Model mt = m;
        for (auto& id : pool) { s.assign(CellSetID(id), Solution::TimeOfFlight{}); m.tof[id] = {}; }
        s.assignGlobalToF({}); m.global.clear();
        compare(s, m, pool, "original overwritten", c);
        compare(t, mt, pool, "copy after overwriting the original", c);
        Solution u(std::move(t));
        compare(u, mt, pool, "moved copy", c);
        ++c.states; ++c.nontrivial; c.outcome(i);
    } });
    return S;
}
VF_MAIN
