// C23: connection values and connectivity graphs.
#include "special.hpp"
#include "vf.hpp"
#include <memory>
#include <opm/flowdiagnostics/ConnectionValues.hpp>
#include <opm/flowdiagnostics/ConnectivityGraph.hpp>
using namespace Opm::FlowDiagnostics;
typedef ConnectionValues CV;
namespace {
CV table(size_t nc, size_t np) { return CV(CV::NumConnections{ nc }, CV::NumPhases{ np }); }
double rd(const CV& v, size_t c, size_t p) { return v(CV::ConnID{ c }, CV::PhaseID{ p }); }
double& wr(CV& v, size_t c, size_t p) { return v(CV::ConnID{ c }, CV::PhaseID{ p }); }
struct Model { size_t nc, np; std::vector<double> d; };
void same(CV& v, const Model& m, const char* when, vf::Ctx& c)
{
    const CV& k = v;
    VF_REQUIRE(k.numConnections() == m.nc && k.numPhases() == m.np, "%s: reports %zu x %zu, expected %zu x %zu", when, size_t(k.numConnections()), k.numPhases(), m.nc, m.np);
    for (size_t a = 0; a < m.nc; ++a)
        for (size_t b = 0; b < m.np; ++b)
            VF_REQUIRE(rd(k, a, b) == m.d[a * m.np + b] && wr(v, a, b) == m.d[a * m.np + b], "%s: entry (%zu,%zu) reads %.17g/%.17g, expected %.17g", when, a, b, rd(k, a, b), wr(v, a, b), m.d[a * m.np + b]);
    c.transitions += 2 + 2 * m.nc * m.np; ++c.traces;
}
void outside(CV& v, const Model& m, size_t a, size_t b)
{
    const CV& k = v;
    for (int w = 0; w < 2; ++w) {
        bool threw = false;
        try { if (w) wr(v, a, b) = 1e9; else (void)rd(k, a, b); } catch (const std::exception&) { threw = true; }
        VF_REQUIRE(threw, "%s access (%zu,%zu) outside a %zu x %zu table accepted", w ? "write" : "read", a, b, m.nc, m.np);
    }
}
vf::Space shapes(size_t NC, size_t NP)
{
    return { NP > NC ? "wide-shapes" : "shapes", vf::sfmt("every table of 0..%zu connections x 0..%zu phases: zero start, every single entry written alone, all entries written in two orders, every index up to three past the end and extreme indices", NC - 1, NP - 1), NC * NP, [=](uint64_t i, vf::Ctx& c) {
        size_t nc = i % NC, np = i / NC;
        c.note("%zu x %zu", nc, np);
        Model m{ nc, np, std::vector<double>(nc * np, 0.0) };
        CV v = table(nc, np);
        same(v, m, "new", c);
        for (size_t a = 0; a < nc; ++a)
            for (size_t b = 0; b < np; ++b) {
                CV w = table(nc, np); Model k = m;
                wr(w, a, b) = 3.5; k.d[a * np + b] = 3.5; same(w, k, "one entry written", c);
            }
        for (int ord = 0; ord < 2; ++ord) {
            for (size_t q = 0; q < nc * np; ++q) { size_t e = ord ? nc * np - 1 - q : q; wr(v, e / np, e % np) = m.d[e] = 100.0 * (ord + 1) + e; ++c.transitions; }
            same(v, m, "all entries written", c);
        }
        const size_t big[] = { size_t(-1), size_t(-1) / 2 + 1, size_t(1) << 32, nc * np };
        for (size_t a = 0; a < nc + 3 + 4; ++a)
            for (size_t b = 0; b < np + 3 + 4; ++b) {
                size_t x = a < nc + 3 ? a : big[a - nc - 3], y = b < np + 3 ? b : big[b - np - 3];
                if (x < nc && y < np) continue;
                outside(v, m, x, y); c.transitions += 2;
            }
        same(v, m, "after accesses outside", c);
        CV w = v; same(w, m, "copy", c);
        if (nc * np) { Model k = m; wr(w, nc - 1, np - 1) = -1; k.d.back() = -1; same(w, k, "copy written", c); same(v, m, "original after writing the copy", c); w = v; same(w, m, "assigned", c); }
        ++c.states; ++c.nontrivial; c.outcome(i);
    } };
}
vf::Space writes(size_t nc, size_t np, unsigned len)
{
    // op: write value (2) to entry, on object 0 or 1; or access outside; or assign one object to the other
    const unsigned E = nc * np, ops = 2 * E * 2 + 2 + 2;
    return { vf::sfmt("writes-%zux%zu", nc, np), vf::sfmt("every sequence of %u operations on two %zu x %zu tables: writes of 2 values to each entry, accesses outside, assignments", len, nc, np), vf::ipow(ops, len), [=](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i);
        CV v[2] = { table(nc, np), table(nc, np) };
        Model m[2] = { { nc, np, std::vector<double>(E, 0.0) }, { nc, np, std::vector<double>(E, 0.0) } };
        for (unsigned k = 0; k < len; ++k) {
            unsigned op = r.take(ops);
            if (op < 4 * E) {
                unsigned e = op % E, s = op / E % 2; double x = op / E / 2 ? -2.25 : 7.0;
                c.note("table %u (%zu,%zu):=%g; ", s, e / np, e % np, x);
                wr(v[s], e / np, e % np) = x; m[s].d[e] = x;
            } else if (op < 4 * E + 2) { c.note("outside; "); if (op & 1) outside(v[0], m[0], nc, np - 1); else outside(v[0], m[0], nc - 1, np); }
            else { unsigned s = op & 1; c.note("table %u := other; ", s); v[s] = v[1 - s]; m[s] = m[1 - s]; }
            ++c.transitions; ++c.states;
        }
        for (int s = 0; s < 2; ++s) same(v[s], m[s], "after the sequence", c);
        ++c.nontrivial; c.outcome(i % 100000);
    } };
}
vf::Space graphs(int n, unsigned L)
{
    return { vf::sfmt("graphs-%d", n), vf::sfmt("%d cells, every list of 0..%u connections (self-connections and parallel ones included)", n, L), [=] { uint64_t t = 0; for (unsigned l = 0; l <= L; ++l) t += vf::ipow(n * n, l); return t; }(), [=](uint64_t i, vf::Ctx& c) {
        unsigned len = 0; while (i >= vf::ipow(n * n, len)) { i -= vf::ipow(n * n, len); ++len; }
        std::vector<int> l;
        for (unsigned k = 0; k < len; ++k) { l.push_back(i % n); i /= n; l.push_back(i % n); i /= n; }
        for (int x : l) c.note("%d ", x);
        std::vector<int> arg = l;
        ConnectivityGraph g(n, arg);
        arg.assign(arg.size(), 0);
        ConnectivityGraph h(g), k(std::move(g));
        for (const ConnectivityGraph* p : { &h, &k }) {
            VF_REQUIRE(p->numCells() == size_t(n) && p->numConnections() == len, "reports %zu cells, %zu connections", size_t(p->numCells()), size_t(p->numConnections()));
            for (unsigned q = 0; q < len; ++q) { auto e = p->connection(q); VF_REQUIRE(e.first == l[2 * q] && e.second == l[2 * q + 1], "connection %u is (%d,%d), expected (%d,%d)", q, e.first, e.second, l[2 * q], l[2 * q + 1]); }
            c.transitions += 2 + len;
        }
        ++c.states; ++c.traces; c.nontrivial += len > 1; c.outcome(i);
    } };
}
}
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    std::vector<vf::Space> S{ o.asan ? shapes(12, 5) : o.thorough ? shapes(80, 12) : shapes(40, 8) };
    S.push_back(o.asan ? shapes(3, 20) : o.thorough ? shapes(8, 80) : shapes(5, 40));
    S.push_back(writes(2, 1, o.asan ? 2 : 4)); S.push_back(writes(2, 2, o.asan ? 2 : o.thorough ? 5 : 4)); S.push_back(writes(2, 3, 3)); S.push_back(writes(3, 2, o.asan ? 2 : o.thorough ? 4 : 3));
    {
        auto V = std::make_shared<std::vector<double>>(special::numbers(true));
        S.push_back({ "numbers", vf::sfmt("%zu numbers (extremes, subnormals, infinities, numbers with all digits) written to each entry of a 2 x 3 table, over zero and over another number, read back bit by bit, also from copies", V->size()), V->size() * 6 * 2, [V](uint64_t i, vf::Ctx& c) {
            vf::Radix r(i);
            const double x = (*V)[r.take(unsigned(V->size()))]; const unsigned e = r.take(6); const bool before = r.take(2);
            c.note("%.17g in entry (%u,%u)", x, e / 3, e % 3);
            CV v = table(2, 3);
            if (before) wr(v, e / 3, e % 3) = -7.5;
            wr(v, e / 3, e % 3) = x;
            CV w = v; w = v;
            for (const CV* k : { &v, &w }) for (unsigned q = 0; q < 6; ++q) {
                VF_REQUIRE(special::identical(rd(*k, q / 3, q % 3), q == e ? x : 0.0), "entry (%u,%u) reads %.17g", q / 3, q % 3, rd(*k, q / 3, q % 3));
                ++c.transitions;
            }
            VF_REQUIRE(special::identical(wr(v, e / 3, e % 3), x), "reads %.17g for writing", wr(v, e / 3, e % 3));
            ++c.states; ++c.traces; ++c.nontrivial; c.outcome(i);
        } });
    }
    S.push_back(graphs(1, 4)); S.push_back(graphs(2, o.asan ? 4 : 7)); S.push_back(graphs(3, o.asan ? 3 : o.thorough ? 6 : 5)); S.push_back(graphs(4, o.asan ? 2 : o.thorough ? 5 : 4));
    S.push_back({ "large", "chains of 2..3000, 32767..32770, 65535..65540, 70002, 131074 and 300000 cells in both orientations, every other pair of sizes with repeated, reversed and self-connections, and tables of that many connections x 3 phases", (2999 + 13) * 2, [](uint64_t i, vf::Ctx& c) {
        int n = 2 + int(i / 2), rev = i % 2;
        static const int BIG[13] = { 32767, 32768, 32769, 32770, 65535, 65536, 65537, 65538, 65539, 65540, 70002, 131074, 300000 };
        if (n > 3000) n = BIG[n - 3001];
        c.note("%d cells", n);
        std::vector<int> l;
        for (int k = 0; k + 1 < n; ++k) { l.push_back(rev ? k + 1 : k); l.push_back(rev ? k : k + 1); }
        if (i % 8 >= 4) for (size_t k = 0; k + 3 < l.size(); k += 14) { l[k + 2] = l[k]; l[k + 3] = l[k + 1]; if (k % 28) std::swap(l[k + 2], l[k + 3]); if (k % 42 == 14) l[k + 1] = l[k]; } // repeated, reversed and self-connections
        ConnectivityGraph g(n, l);
        VF_REQUIRE(g.numCells() == size_t(n) && g.numConnections() == size_t(n - 1), "sizes");
        for (int k = 0; k + 1 < n; ++k) { auto e = g.connection(k); VF_REQUIRE(e.first == l[2 * k] && e.second == l[2 * k + 1], "connection %d wrong", k); }
        c.transitions += n; ++c.states; ++c.traces;
        if (n % 50 == 0 || n > 3000) { Model m{ size_t(n), 3, std::vector<double>(3 * n) }; CV v = table(n, 3); for (int k = 0; k < 3 * n; ++k) wr(v, k / 3, k % 3) = m.d[k] = k * 0.5; same(v, m, "large", c); }
        ++c.nontrivial; c.outcome(i);
    } });
    S.push_back({ "many-phases", "tables of 1..3 connections x {127..129, 255..258, 511..513, 1000, 32767..32769, 65535..65537, 70000} phases: all entries written in both orders, accesses outside", 18 * 3, [](uint64_t i, vf::Ctx& c) {
        static const size_t NP[18] = { 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 70000 };
        const size_t np = NP[i % 18], nc = 1 + i / 18;
        c.note("%zu x %zu", nc, np);
        Model m{ nc, np, std::vector<double>(nc * np, 0.0) };
        CV v = table(nc, np);
        same(v, m, "new", c);
        for (int ord = 0; ord < 2; ++ord) {
            for (size_t q = 0; q < nc * np; ++q) { size_t e = ord ? nc * np - 1 - q : q; wr(v, e / np, e % np) = m.d[e] = 100.0 * (ord + 1) + e; ++c.transitions; }
            same(v, m, "all entries written", c);
        }
        for (size_t x : { nc, size_t(-1), size_t(1) << 32 }) { outside(v, m, x, 0); outside(v, m, x, np - 1); }
        for (size_t y : { np, np + 1, size_t(-1), size_t(1) << 32, nc * np }) { outside(v, m, 0, y); outside(v, m, nc - 1, y); }
        same(v, m, "after accesses outside", c);
        ++c.states; ++c.nontrivial; c.outcome(i);
    } });
    return S;
}
VF_MAIN
