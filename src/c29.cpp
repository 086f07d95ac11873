// C29: a change in one place against everything that does not lie downstream (upstream) of it.
#include "equiv.hpp"
using namespace flow;
namespace {
// What a cell's own equations contain: pore volume, inflow per upwind cell, source terms per well.
struct Row {
    LD pv = 0; std::map<int, LD> in; std::map<std::string, LD> src;
    bool operator==(const Row& o) const { return pv == o.pv && in == o.in && src == o.src; }
};
std::vector<Row> rows(const Side& s)
{
    std::vector<Row> r(s.n);
    for (int i = 0; i < s.n; ++i) { r[i].pv = s.pv[i]; for (auto& e : s.in[i]) r[i].in[e.first] = e.second; }
    for (auto& w : s.start) for (auto& e : w.second) r[e.first].src[w.first] = e.second;
    return r;
}
struct Change { std::string what; std::function<void(Problem&)> apply; };

// b has all cells of a and possibly more.
void unaffected(const Side& sa, const Side& sb, const std::vector<Row>& ra, const Fields& a, const Fields& b, const Tol& ta, const char* dir, const char* what, vf::Ctx& c)
{
    auto rb = rows(sb);
    std::map<int, LD> seedA, seedB;
    for (int i = 0; i < sb.n; ++i) if (i >= sa.n || !(ra[i] == rb[i])) { seedB[i] = 1; if (i < sa.n) seedA[i] = 1; }
    auto da = reachable(sa, seedA), db = reachable(sb, seedB);
    int left = 0;
    VF_REQUIRE(int(a.tof.size()) == sa.n && int(b.tof.size()) == sb.n, "%s: wrong size of the global field", dir);
    auto keep = [&](int i) { return !da[i] && !db[i]; };
    for (int i = 0; i < sa.n; ++i) {
        if (!keep(i)) continue;
        ++left;
        VF_REQUIRE(fabsl(LD(a.tof[i]) - b.tof[i]) <= 2 * ta.global.et[i], "%s: %s: time-of-flight of cell %d changes from %.17g to %.17g although nothing upwind of it changed", dir, what, i, a.tof[i], b.tof[i]);
    }
    static const std::map<int, double> none;
    auto get = [](const std::map<std::string, std::map<int, double>>& m, const std::string& w) -> const std::map<int, double>& { auto it = m.find(w); return it == m.end() ? none : it->second; };
    std::set<std::string> names(a.start.begin(), a.start.end());
    names.insert(b.start.begin(), b.start.end());
    for (auto& w : names) {
        auto &ca = get(a.conc, w), &cb = get(b.conc, w), &xa = get(a.ltof, w), &xb = get(b.ltof, w);
        auto t = ta.local.find(w);
        for (int i = 0; i < sa.n; ++i) {
            if (!keep(i)) continue;
            auto p = ca.find(i), q = cb.find(i); auto x = xa.find(i), y = xb.find(i);
            VF_REQUIRE((p == ca.end()) == (q == cb.end()) && (x == xa.end()) == (y == xb.end()), "%s: %s: well %s appears in or vanishes from cell %d although nothing upwind of it changed", dir, what, w.c_str(), i);
            if (p != ca.end()) VF_REQUIRE(fabsl(LD(p->second) - q->second) <= 2 * t->second.ec[i], "%s: %s: well %s: concentration of cell %d changes from %.17g to %.17g although nothing upwind of it changed", dir, what, w.c_str(), i, p->second, q->second);
            if (x != xa.end()) VF_REQUIRE(fabsl(LD(x->second) - y->second) <= 2 * t->second.et[i], "%s: %s: well %s: time-of-flight of cell %d changes from %.17g to %.17g although nothing upwind of it changed", dir, what, w.c_str(), i, x->second, y->second);
        }
    }
    c.transitions += 5; ++c.traces;
    if (left) ++c.nontrivial;
}

void all(const Problem& p, const std::vector<Change>& ch, vf::Ctx& c)
{
    bool used = false;
    for (int d = 0; d < 2; ++d) {
        const bool fwd = d == 0;
        const char* dir = fwd ? "forward" : "reverse";
        Side s = makeSide(p, fwd);
        if (worstKappa(s) > KAPPA_MAX) { ++c.skipped; continue; }
        used = true;
        Fields a = runReal(p, fwd);
        Tol t = tolerances(s);
        auto ra = rows(s);
        for (auto& m : ch) {
            Problem q = p;
            m.apply(q);
            Side s2 = makeSide(q, fwd);
            if (worstKappa(s2) > KAPPA_MAX) { ++c.skipped; continue; }
            Fields b = runReal(q, fwd);
            unaffected(s, s2, ra, a, b, t, dir, m.what.c_str(), c);
        }
        c.outcome(hashFields(a));
    }
    if (used) ++c.states;
}

const double U = UNIT;
void setWell(Problem& q, int cell, unsigned k)
{
    for (auto it = q.wells.begin(); it != q.wells.end();) { it->second.erase(cell); it = it->second.empty() ? q.wells.erase(it) : std::next(it); }
    addWell(q.wells, cell, k, U);
}
// every change of one number, and additions to the grid
std::vector<Change> changes(int n, int nc, bool full)
{
    std::vector<Change> L;
    for (int i = 0; i < n; ++i)
        for (double v : { 0.0, 2500.0, 9e7 }) L.push_back({ vf::sfmt("pore volume of cell %d set to %g", i, v), [=](Problem& q) { q.pv[i] = v; } });
    for (int k = 0; k < nc; ++k)
        for (double v : { 0.0, 1.0, -1.0, 40.0, -1e-6 }) {
            if (!full && v == 40) continue;
            L.push_back({ vf::sfmt("flux of connection %d set to %g u", k, v), [=](Problem& q) { q.flux[k] = v * U; } });
        }
    for (int i = 0; i < n; ++i)
        for (unsigned w = 0; w < 8; ++w) {
            if (!full && w > 3) continue;
            L.push_back({ vf::sfmt("well option %u in cell %d", w, i), [=](Problem& q) { setWell(q, i, w); } });
        }
    for (int i = 0; i < n; ++i)
        for (int dir = 0; dir < 2; ++dir)
            L.push_back({ vf::sfmt("a new cell connected %s cell %d", dir ? "into" : "behind", i), [=](Problem& q) {
                q.conn.push_back({ i, q.n }); q.flux.push_back(dir ? -U / 2 : U / 2); q.pv.push_back(500); ++q.n;
                if (dir) q.wells["N"][q.n - 1] = U / 2;
            } });
    L.push_back({ "a separate region with its own wells and loop", [=](Problem& q) {
        const int m = q.n;
        q.conn.insert(q.conn.begin(), { { m, m + 1 }, { m + 1, m + 2 }, { m + 2, m } }); q.flux.insert(q.flux.begin(), { 8 * U, 4 * U, 2 * U });
        for (int k = 0; k < 3; ++k) q.pv.push_back(1e4);
        q.n += 3; q.wells["A2"][m] = 6 * U; q.wells["A2"][m + 1] = -3 * U;
    } });
    for (int e : { 34, -34, 300 })
        L.push_back({ vf::sfmt("a separate region with rates and volumes in units of 2^%d", e), [=](Problem& q) {
            const int m = q.n; const double s = std::ldexp(U, e);
            q.conn.push_back({ m, m + 1 }); q.flux.push_back(3 * s); q.pv.push_back(1000 * std::ldexp(1.0, e)); q.pv.push_back(500 * std::ldexp(1.0, e)); q.n += 2;
            q.wells["S"][m] = 3 * s; q.wells["T"][m + 1] = -3 * s;
        } });
    L.push_back({ "the existing wells extended into a separate region", [=](Problem& q) {
        const int m = q.n;
        q.conn.push_back({ m, m + 1 }); q.flux.push_back(3 * U); q.pv.push_back(10); q.pv.push_back(1e8); q.n += 2;
        q.wells["A"][m] = 3 * U; q.wells["P"][m + 1] = -3 * U;
    } });
    for (double v : { 0.0, 1e-3, 1e15 })
        L.push_back({ vf::sfmt("twenty separate cells of volume %g, flow from one to the next", v), [=](Problem& q) {
            const int m = q.n;
            for (int k = 0; k < 20; ++k) { q.pv.push_back(v); if (k) { q.conn.push_back({ m + k - 1, m + k }); q.flux.push_back(k % 4 ? U : 0.0); } }
            q.n += 20; q.wells["S"][m] = U; q.wells["T"][m + 19] = -U;
        } });
    L.push_back({ "more connections without flux", [=](Problem& q) { q.conn.push_back({ 0, n - 1 }); q.flux.push_back(0); q.conn.insert(q.conn.begin(), { n - 1, 0 }); q.flux.insert(q.flux.begin(), -0.0); } });
    return L;
}
}
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    std::vector<vf::Space> S;
    static const double FL[5] = { 0, 1, -1, 3, -2 };
    {
        const unsigned nw = o.thorough ? 256 : o.asan ? 2 : 24;
        auto L = std::make_shared<std::vector<Change>>(changes(4, 6, !o.asan));
        S.push_back({ "K4", vf::sfmt("4 cells, all 6 connections, flux in {0,+-1}*{1,2,3}u, %u well sets; %zu changes each (every pore volume, flux and well of every cell, new cells, separate regions of ordinary and of 2^300, 2^34 and 2^-34 times that size)", nw, L->size()), vf::ipow(3, 6) * nw, [=](uint64_t i, vf::Ctx& c) {
            vf::Radix r(i);
            Problem p; p.n = 4; p.conn = complete(4);
            for (int k = 0; k < 6; ++k) p.flux.push_back(FL[r.take(3)] * U * (1 + k % 3));
            unsigned w = r.take(nw); if (nw != 256) w = (w * 41 + 25) % 256;
            for (int k = 0; k < 4; ++k) { addWell(p.wells, k, w % 4, U); w /= 4; }
            p.pv = { 1000.1, 350.3, 725.7, 125.0 };
            c.note("%s", show(p).c_str());
            all(p, *L, c);
        } });
    }
    {
        const unsigned nw = o.thorough ? 36 : o.asan ? 1 : 5;
        auto L = std::make_shared<std::vector<Change>>(changes(6, 7, false));
        S.push_back({ "grid3x2", vf::sfmt("3x2 grid, 7 connections, flux in {0,+-1}*{1,2,3}u, %u well placements; %zu changes each", nw, L->size()), vf::ipow(3, 7) * nw, [=](uint64_t i, vf::Ctx& c) {
            vf::Radix r(i);
            Problem p; p.n = 6; p.conn = grid(3, 2);
            for (int k = 0; k < 7; ++k) p.flux.push_back(FL[r.take(3)] * U * (1 + (k * 2) % 3));
            unsigned w = r.take(nw); if (nw != 36) w = (w * 7 + 8) % 36;
            p.wells["A"][w % 6] += 2 * U; p.wells["B"][w / 6] += U; p.wells["P"][5 - w % 6] += -2 * U;
            p.pv = { 1000.1, 350.3, 725.7, 125.0, 40.0, 2000.0 };
            c.note("%s", show(p).c_str());
            all(p, *L, c);
        } });
    }
    {
        const unsigned nf = 5, W = o.thorough ? 7 : o.asan ? 2 : 3;
        auto L = std::make_shared<std::vector<Change>>(changes(3, 4, !o.asan));
        S.push_back({ "triangle+parallel", vf::sfmt("3 cells, 3 connections plus an opposed parallel one, flux in {0,+-1,3,-2}u, %u well options per cell; %zu changes each", W, L->size()), vf::ipow(nf, 4) * vf::ipow(W, 3), [=](uint64_t i, vf::Ctx& c) {
            vf::Radix r(i);
            Problem p; p.n = 3; p.conn = { { 0, 1 }, { 1, 2 }, { 0, 2 }, { 1, 0 } };
            for (int k = 0; k < 4; ++k) p.flux.push_back(FL[r.take(nf)] * U);
            for (int k = 0; k < 3; ++k) addWell(p.wells, k, r.take(W), U);
            p.pv = { 1000.1, 350.3, 3e7 };
            c.note("%s", show(p).c_str());
            all(p, *L, c);
        } });
    }
    {
        // cells that take about 200 years to fill, just below and just above
        const unsigned np = o.thorough ? 4 : o.asan ? 2 : 3, W = o.asan ? 2 : 3;
        auto L = std::make_shared<std::vector<Change>>(changes(3, 3, false));
        S.push_back({ "slow", vf::sfmt("3 cells, 3 connections, flux in {0,+-1}u, pore volumes from {%s0.98, 1.02%s times what flows at u in 200 years}, %u well options per cell; %zu changes each", o.asan ? "" : "small, ", o.thorough ? ", 2.03" : "", W, L->size()), vf::ipow(3, 3) * vf::ipow(np, 3) * vf::ipow(W, 3), [=](uint64_t i, vf::Ctx& c) {
            vf::Radix r(i);
            static const double F[4] = { 1e-6, 0.98, 1.02, 2.03 };
            Problem p; p.n = 3; p.conn = { { 0, 1 }, { 1, 2 }, { 0, 2 } };
            for (int k = 0; k < 3; ++k) p.flux.push_back(FL[r.take(3)] * U);
            for (int k = 0; k < 3; ++k) p.pv.push_back(F[r.take(np) + (np == 2)] * TMAX * U);
            for (int k = 0; k < 3; ++k) { const unsigned w = r.take(W); addWell(p.wells, k, w == 1 ? 3 : w, U); }
            c.note("%s", show(p).c_str());
            all(p, *L, c);
        } });
    }
    {
        auto big = bigFamilies(o.thorough, !o.thorough)[0];
        auto loops = loopFamilies(o.thorough, true)[0];
        std::vector<Family> fam{ big };
        if (!o.asan) fam.push_back(loops);
        for (auto& f : fam)
            S.push_back({ f.name, f.bound + "; changes of pore volume, flux and wells at the ends and in the middle, a separate region", f.size, [=](uint64_t i, vf::Ctx& c) {
                Problem p = f.make(i);
                std::vector<Change> L;
                const int n = p.n, m = int(p.conn.size());
                if (n < 3) return;
                for (int k : { 0, n / 3, n / 2, n - 1 }) {
                    L.push_back({ vf::sfmt("pore volume of cell %d", k), [=](Problem& q) { q.pv[k] = 3 * q.pv[k] + 7; } });
                    L.push_back({ vf::sfmt("wells of cell %d", k), [=](Problem& q) { for (auto& w : q.wells) { auto it = w.second.find(k); if (it != w.second.end()) it->second *= 2; } q.wells["A new one"][k] = U; q.wells["Z new one"][k] = -U; } });
                }
                for (int k : { 0, m / 2, m - 1 }) L.push_back({ vf::sfmt("flux of connection %d", k), [=](Problem& q) { q.flux[k] *= 2; } });
                L.push_back({ "a separate region", [=](Problem& q) { q.conn.insert(q.conn.begin() + m / 2, { n, n + 1 }); q.flux.insert(q.flux.begin() + m / 2, 5 * U); q.pv.push_back(1); q.pv.push_back(2); q.n += 2; q.wells["I"][n] = 5 * U; q.wells["K"][n + 1] = -5 * U; } });
                c.note("%s", show(p).c_str());
                all(p, L, c);
            } });
    }
    return S;
}
VF_MAIN
