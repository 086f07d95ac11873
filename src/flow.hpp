// Flow problems, execution on the real Toolbox, and the reference solver.
#pragma once
#include "vf.hpp"
#include <opm/flowdiagnostics/CellSet.hpp>
#include <opm/flowdiagnostics/CellSetValues.hpp>
#include <opm/flowdiagnostics/ConnectionValues.hpp>
#include <opm/flowdiagnostics/ConnectivityGraph.hpp>
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
#include <opm/flowdiagnostics/Solution.hpp>
#include <opm/flowdiagnostics/Toolbox.hpp>
#include <opm/flowdiagnostics/TracerTofSolver.hpp>
#include <algorithm>
#include <array>
#include <set>

namespace flow {
using namespace Opm::FlowDiagnostics;
typedef long double LD;

// Documented constants of the solver: 200 years, and its iteration tolerances.
// Unit of rate, about 1e-4 m^3/s: small multiples and their sums are exact in double precision, but not in single.
static const double UNIT = 16777217.0 / 137438953472.0; // (1+2^-24)*2^-13
static const double TMAX = 200.0 * 365.0 * 24.0 * 60.0 * 60.0;
static const double DT_TOL = TMAX / 1e12;
static const double DC_TOL = 1e-9;

typedef std::map<std::string, std::map<int, double>> Wells;

struct Problem {
    int n = 0;
    std::vector<std::array<int, 2>> conn;
    int nph = 1;
    std::vector<double> flux; // [conn][phase]
    std::vector<double> pv;
    Wells wells;
};

inline std::string show(const Problem& p)
{
    std::string s = vf::sfmt("cells=%d phases=%d conns=[", p.n, p.nph);
    for (size_t c = 0; c < p.conn.size() && c < 40; ++c) {
        s += vf::sfmt("%d-%d:", p.conn[c][0], p.conn[c][1]);
        for (int k = 0; k < p.nph; ++k) s += vf::sfmt(k ? "/%.17g" : "%.17g", p.flux[c * p.nph + k]);
        s += " ";
    }
    s += "] pv=[";
    for (size_t c = 0; c < p.pv.size() && c < 40; ++c) s += vf::sfmt("%.17g ", p.pv[c]);
    s += "] wells={";
    int k = 0;
    for (auto& w : p.wells) {
        if (++k > 40) break;
        s += w.first + ":";
        int q = 0;
        for (auto& e : w.second) { if (++q > 40) break; s += vf::sfmt("(%d,%.17g)", e.first, e.second); }
        s += " ";
    }
    return s + "}";
}

// ---------------------------------------------------------------- real code

struct Fields {
    std::vector<double> tof;
    std::map<std::string, std::map<int, double>> ltof, conc;
    std::vector<std::string> start;
};

inline ConnectivityGraph graphOf(const Problem& p)
{
    std::vector<int> c;
    c.reserve(2 * p.conn.size());
    for (auto& e : p.conn) { c.push_back(e[0]); c.push_back(e[1]); }
    return ConnectivityGraph(p.n, std::move(c));
}
inline ConnectionValues fluxOf(const Problem& p)
{
    ConnectionValues f(ConnectionValues::NumConnections{ p.conn.size() }, ConnectionValues::NumPhases{ size_t(p.nph) });
    for (size_t c = 0; c < p.conn.size(); ++c)
        for (int k = 0; k < p.nph; ++k)
            f(ConnectionValues::ConnID{ c }, ConnectionValues::PhaseID{ size_t(k) }) = p.flux[c * p.nph + k];
    return f;
}
inline std::map<CellSetID, CellSetValues> wellsOf(const Wells& w)
{
    std::map<CellSetID, CellSetValues> r;
    for (auto& e : w) r[CellSetID(e.first)] = e.second;
    return r;
}
// Start sets: for each well with rates of the right sign, the cells with that sign.
inline std::vector<CellSet> startSets(const Wells& w, bool fwd)
{
    std::vector<CellSet> r;
    for (auto& e : w) {
        std::vector<int> cells;
        for (auto& q : e.second) if (fwd ? q.second > 0 : q.second < 0) cells.push_back(q.first);
        if (!cells.empty()) r.emplace_back(CellSetID(e.first), cells);
    }
    return r;
}
inline void setup(Toolbox& t, const Problem& p)
{
    t.assignPoreVolume(p.pv);
    t.assignConnectionFlux(fluxOf(p));
    t.assignInflowFlux(wellsOf(p.wells));
}
inline Fields extract(const Solution& s)
{
    Fields f;
    f.tof = s.timeOfFlight();
    for (auto& id : s.startPoints()) {
        auto k = id.to_string();
        f.start.push_back(k);
        f.ltof[k] = s.timeOfFlight(id);
        f.conc[k] = s.concentration(id);
    }
    return f;
}
inline Fields compute(Toolbox& t, const Wells& w, bool fwd)
{
    if (fwd) { auto r = t.computeInjectionDiagnostics(startSets(w, true)); return extract(r.fd); }
    auto r = t.computeProductionDiagnostics(startSets(w, false));
    return extract(r.fd);
}
inline Fields runReal(const Problem& p, bool fwd)
{
    Toolbox t(graphOf(p));
    setup(t, p);
    return compute(t, p.wells, fwd);
}

// ---------------------------------------------------------------- reference

// Directed view of a problem: who flows into whom, sources, start terms.
struct Side {
    int n = 0;
    std::vector<std::vector<std::pair<int, LD>>> in; // upwind cells with flux, merged
    std::vector<std::vector<int>> out;
    std::vector<LD> src, tot, pv;
    std::vector<int> comp;        // strong component of each cell
    std::vector<int> csize;       // size of each component
    std::vector<int> order;       // cells, components in topological order, contiguous
    std::map<std::string, std::map<int, LD>> start;
    bool multi(int i) const { return csize[comp[i]] > 1; }
    bool slow(int i) const { return tot[i] < pv[i] / LD(TMAX); }
    bool cyclic() const { for (int i = 0; i < n; ++i) if (multi(i)) return true; return false; }
};

inline void components(Side& s) // Kosaraju, iterative; independent of the code under test
{
    const int n = s.n;
    std::vector<char> seen(n, 0);
    std::vector<int> post; post.reserve(n);
    std::vector<std::pair<int, size_t>> st;
    for (int r = 0; r < n; ++r) {
        if (seen[r]) continue;
        seen[r] = 1; st.push_back({ r, 0 });
        while (!st.empty()) {
            auto& top = st.back();
            if (top.second < s.out[top.first].size()) {
                int v = s.out[top.first][top.second++];
                if (!seen[v]) { seen[v] = 1; st.push_back({ v, 0 }); }
            } else { post.push_back(top.first); st.pop_back(); }
        }
    }
    s.comp.assign(n, -1); s.csize.clear(); s.order.clear();
    for (int k = n - 1; k >= 0; --k) { // components come out in topological order
        int r = post[k];
        if (s.comp[r] >= 0) continue;
        int id = int(s.csize.size()); s.csize.push_back(0);
        std::vector<int> q{ r }; s.comp[r] = id;
        while (!q.empty()) {
            int u = q.back(); q.pop_back();
            ++s.csize[id]; s.order.push_back(u);
            for (auto& e : s.in[u]) if (s.comp[e.first] < 0) { s.comp[e.first] = id; q.push_back(e.first); }
        }
    }
}

inline Side makeSide(const Problem& p, bool fwd)
{
    Side s;
    s.n = p.n;
    s.in.resize(p.n); s.out.resize(p.n);
    s.src.assign(p.n, 0); s.tot.assign(p.n, 0); s.pv.assign(p.pv.begin(), p.pv.end());
    auto add = [&](int u, int v, LD q) {
        for (auto& e : s.in[v]) if (e.first == u) { e.second += q; return; }
        s.in[v].push_back({ u, q }); s.out[u].push_back(v);
    };
    for (size_t c = 0; c < p.conn.size(); ++c) {
        double q = 0; // net flux; alphabets are chosen so that this sum is exact
        for (int k = 0; k < p.nph; ++k) q += p.flux[c * p.nph + k];
        if (q == 0) continue;
        bool along = (q > 0) == fwd;
        add(p.conn[c][along ? 0 : 1], p.conn[c][along ? 1 : 0], std::fabs(q));
    }
    for (auto& w : p.wells)
        for (auto& e : w.second)
            if (fwd ? e.second > 0 : e.second < 0) {
                s.src[e.first] += std::fabs(e.second);
                s.start[w.first][e.first] = std::fabs(e.second);
            }
    for (int i = 0; i < p.n; ++i) {
        LD t = s.src[i];
        for (auto& e : s.in[i]) t += e.second;
        s.tot[i] = t;
    }
    components(s);
    return s;
}

struct RefField {
    std::vector<char> reach;
    std::vector<LD> c, t;   // t already capped
    std::vector<LD> ec, et; // admissible absolute errors
    LD kappa = 0;           // amplification of the iteration inside loops
    bool weak = false;
};

// Linear solves with (I - W) on the reachable cells, W_ij = f_ji / tot_i.
struct Lin {
    const Side& s;
    const std::vector<char>& reach;
    std::vector<char> fixed; // identity rows
    static const int MAXD = 16;
    bool dense;
    LD lu[MAXD][MAXD];
    Lin(const Side& s_, const std::vector<char>& r, const std::vector<char>& fx)
        : s(s_), reach(r), fixed(fx), dense(s_.n <= MAXD)
    {
        if (!dense) return;
        const int n = s.n;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) lu[i][j] = (i == j);
        for (int i = 0; i < n; ++i)
            if (reach[i] && !fixed[i])
                for (auto& e : s.in[i]) if (reach[e.first]) lu[i][e.first] -= e.second / s.tot[i];
        // M-matrix: elimination without pivoting is stable
        for (int k = 0; k < n; ++k)
            for (int i = k + 1; i < n; ++i) {
                LD m = lu[i][k] / lu[k][k];
                lu[i][k] = m;
                if (m != 0) for (int j = k + 1; j < n; ++j) lu[i][j] -= m * lu[k][j];
            }
    }
    std::vector<LD> solve(std::vector<LD> b) const
    {
        const int n = s.n;
        for (int i = 0; i < n; ++i) if (!reach[i]) b[i] = 0;
        if (dense) {
            for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) b[i] -= lu[i][j] * b[j];
            for (int i = n - 1; i >= 0; --i) {
                for (int j = i + 1; j < n; ++j) b[i] -= lu[i][j] * b[j];
                b[i] /= lu[i][i];
            }
            return b;
        }
        std::vector<LD> x(n, 0);
        size_t a = 0;
        while (a < s.order.size()) {
            int id = s.comp[s.order[a]];
            size_t z = a;
            while (z < s.order.size() && s.comp[s.order[z]] == id) ++z;
            int sweeps = (z - a > 1) ? 4000000 : 1;
            // alternate the sweep direction so that long rings converge in a few sweeps
            for (int it = 0; it < sweeps; ++it) {
                LD d = 0;
                for (size_t k0 = a; k0 < z; ++k0) {
                    size_t k = (it & 1) ? (z - 1 - (k0 - a)) : k0;
                    int i = s.order[k];
                    if (!reach[i]) continue;
                    LD v = b[i];
                    if (!fixed[i]) for (auto& e : s.in[i]) if (reach[e.first]) v += x[e.first] * (e.second / s.tot[i]);
                    LD dd = fabsl(v - x[i]);
                    if (dd > 1e-17L * fabsl(v)) d = 1;
                    x[i] = v;
                }
                if (d == 0) break;
            }
            a = z;
        }
        return x;
    }
};

inline std::vector<char> reachable(const Side& s, const std::map<int, LD>& start)
{
    std::vector<char> r(s.n, 0);
    std::vector<int> q;
    for (auto& e : start) if (e.second > 0 && !r[e.first]) { r[e.first] = 1; q.push_back(e.first); }
    while (!q.empty()) {
        int u = q.back(); q.pop_back();
        for (int v : s.out[u]) if (!r[v]) { r[v] = 1; q.push_back(v); }
    }
    return r;
}

static const LD KAPPA_MAX = 1e5L; // stated precondition of the loop checks (see C11)

// Amplification of errors inside loops: bounds the number of iterations needed.
inline LD kappaOf(const Side& s, const std::vector<char>& reach)
{
    std::vector<LD> b(s.n, 0);
    bool any = false;
    for (int i = 0; i < s.n; ++i) if (reach[i] && s.multi(i)) { b[i] = 1; any = true; }
    if (!any) return 0;
    std::vector<char> fx(s.n, 0);
    auto x = Lin(s, reach, fx).solve(b);
    LD k = 0;
    for (auto v : x) { if (!(v >= 0 && v < 1e300L)) return 1e300L; if (v > k) k = v; } // not finite: singular to working precision
    return k;
}

inline RefField solveRef(const Side& s, const std::map<int, LD>& start, LD slack = 1)
{
    const int n = s.n;
    const LD rel = std::min(1e-11L, 5e-13L + 5e-15L * n); // rounding; all terms are positive
    RefField r;
    r.reach = reachable(s, start);
    r.c.assign(n, 0); r.t.assign(n, TMAX); r.ec.assign(n, 0); r.et.assign(n, 0);
    std::vector<LD> b(n, 0), k(n, 0);
    bool cyc = false;
    for (auto& e : start) if (e.second > 0) b[e.first] = e.second / s.tot[e.first];
    std::vector<char> fx(n, 0);
    Lin L(s, r.reach, fx);
    r.c = L.solve(b);
    for (int i = 0; i < n; ++i) {
        b[i] = 0;
        if (r.reach[i] && s.multi(i)) { b[i] = 1; cyc = true; }
    }
    std::vector<LD> K(n, 0);
    if (cyc) { K = L.solve(b); for (auto v : K) if (v > r.kappa) r.kappa = v; }
    for (int i = 0; i < n; ++i) if (r.reach[i]) r.ec[i] = slack * 2 * LD(DC_TOL) * K[i] + rel * r.c[i];
    // m = c * t
    for (int i = 0; i < n; ++i) {
        fx[i] = r.reach[i] && s.slow(i);
        b[i] = !r.reach[i] ? LD(0) : fx[i] ? LD(TMAX) * r.c[i] : s.pv[i] / s.tot[i] * r.c[i];
    }
    Lin M(s, r.reach, fx);
    auto m = M.solve(b);
    std::vector<LD> t(n, 0);
    for (int i = 0; i < n; ++i) if (r.reach[i]) t[i] = m[i] / r.c[i];
    std::vector<LD> worst(s.csize.size(), 0);
    if (cyc) for (int i = 0; i < n; ++i) if (r.reach[i] && s.multi(i))
        worst[s.comp[i]] = std::max(worst[s.comp[i]], r.c[i] * LD(DT_TOL) + t[i] * LD(DC_TOL));
    for (int i = 0; i < n; ++i) {
        if (!r.reach[i]) { b[i] = 0; continue; }
        b[i] = (fx[i] ? LD(TMAX) : s.pv[i] / s.tot[i]) * r.ec[i];
        if (s.multi(i) && !fx[i]) b[i] += slack * 2 * worst[s.comp[i]];
    }
    auto em = M.solve(b);
    for (int i = 0; i < n; ++i) if (r.reach[i]) {
        r.et[i] = (em[i] + rel * m[i] + t[i] * r.ec[i]) / r.c[i];
        r.t[i] = std::min(t[i], LD(TMAX));
        if (r.et[i] > 0.05L * r.t[i]) r.weak = true;
    }
    return r;
}

inline std::map<int, LD> allSources(const Side& s)
{
    std::map<int, LD> m;
    for (int i = 0; i < s.n; ++i) if (s.src[i] > 0) m[i] = s.src[i];
    return m;
}

// Worst loop amplification over everything the real code would iterate on.
inline LD worstKappa(const Side& s)
{
    if (!s.cyclic()) return 0;
    LD k = kappaOf(s, reachable(s, allSources(s)));
    for (auto& w : s.start) k = std::max(k, kappaOf(s, reachable(s, w.second)));
    return k;
}

inline void checkGlobal(const Side& s, const Fields& f, const char* dir)
{
    VF_REQUIRE(int(f.tof.size()) == s.n, "%s: global time-of-flight has %zu values for %d cells", dir, f.tof.size(), s.n);
    auto r = solveRef(s, allSources(s));
    for (int i = 0; i < s.n; ++i) {
        double o = f.tof[i];
        VF_REQUIRE(std::isfinite(o) && o >= 0 && o <= TMAX, "%s: global time-of-flight %.17g out of range in cell %d", dir, o, i);
        if (!r.reach[i]) VF_REQUIRE(o == TMAX, "%s: unreached cell %d has time-of-flight %.17g instead of the cap", dir, i, o);
        else VF_REQUIRE(fabsl(LD(o) - r.t[i]) <= r.et[i], "%s: global time-of-flight in cell %d is %.17g, reference %.17Lg (admissible error %.3Lg)", dir, i, o, r.t[i], r.et[i]);
    }
}

inline void checkIds(const Side& s, const Fields& f, const char* dir)
{
    std::vector<std::string> want;
    for (auto& w : s.start) want.push_back(w.first);
    auto got = f.start;
    std::sort(got.begin(), got.end());
    VF_REQUIRE(got == want, "%s: solution reports %zu start points, %zu requested", dir, got.size(), want.size());
}

inline void checkSupport(const Side& s, const Fields& f, const char* dir)
{
    checkIds(s, f, dir);
    for (auto& w : s.start) {
        auto reach = reachable(s, w.second);
        auto& c = f.conc.at(w.first); auto& t = f.ltof.at(w.first);
        size_t k = 0;
        for (int i = 0; i < s.n; ++i) k += reach[i];
        for (int i = 0; i < s.n; ++i) {
            VF_REQUIRE(int(c.count(i)) == int(reach[i]), "%s: well %s: cell %d is %sreachable but %s in the concentration", dir, w.first.c_str(), i, reach[i] ? "" : "not ", reach[i] ? "missing" : "present");
            VF_REQUIRE(int(t.count(i)) == int(reach[i]), "%s: well %s: cell %d is %sreachable but %s in the time-of-flight", dir, w.first.c_str(), i, reach[i] ? "" : "not ", reach[i] ? "missing" : "present");
        }
        VF_REQUIRE(c.size() == k && t.size() == k, "%s: well %s: extra cells reported", dir, w.first.c_str());
        for (auto& e : c) VF_REQUIRE(e.second > 0 && e.second <= 1 + 1e-6, "%s: well %s: concentration %.17g in cell %d", dir, w.first.c_str(), e.second, e.first);
        for (auto& e : t) VF_REQUIRE(e.second >= 0 && e.second <= TMAX, "%s: well %s: time-of-flight %.17g in cell %d", dir, w.first.c_str(), e.second, e.first);
    }
}

inline void checkLocal(const Side& s, const Fields& f, const char* dir)
{
    checkIds(s, f, dir);
    for (auto& w : s.start) {
        auto r = solveRef(s, w.second);
        auto& c = f.conc.at(w.first); auto& t = f.ltof.at(w.first);
        for (int i = 0; i < s.n; ++i) {
            if (!r.reach[i]) {
                VF_REQUIRE(!c.count(i) && !t.count(i), "%s: well %s reported in unreachable cell %d", dir, w.first.c_str(), i);
                continue;
            }
            VF_REQUIRE(c.count(i) && t.count(i), "%s: well %s missing in reachable cell %d", dir, w.first.c_str(), i);
            double oc = c.at(i), ot = t.at(i);
            VF_REQUIRE(fabsl(LD(oc) - r.c[i]) <= r.ec[i], "%s: well %s: concentration in cell %d is %.17g, reference %.17Lg (admissible error %.3Lg)", dir, w.first.c_str(), i, oc, r.c[i], r.ec[i]);
            VF_REQUIRE(std::isfinite(ot) && ot >= 0 && ot <= TMAX, "%s: well %s: time-of-flight %.17g out of range in cell %d", dir, w.first.c_str(), ot, i);
            VF_REQUIRE(fabsl(LD(ot) - r.t[i]) <= r.et[i], "%s: well %s: time-of-flight in cell %d is %.17g, reference %.17Lg (admissible error %.3Lg)", dir, w.first.c_str(), i, ot, r.t[i], r.et[i]);
        }
    }
}

inline uint64_t hashFields(const Fields& f)
{
    uint64_t h = 7;
    for (double d : f.tof) h = vf::mixd(h, d);
    for (auto& w : f.conc) for (auto& e : w.second) h = vf::mixd(vf::mix(h, e.first), e.second);
    for (auto& w : f.ltof) for (auto& e : w.second) h = vf::mixd(h, e.second);
    return h;
}

// ---------------------------------------------------------------- problem families

inline std::vector<std::array<int, 2>> complete(int n)
{
    std::vector<std::array<int, 2>> e;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) e.push_back({ i, j });
    return e;
}
inline std::vector<std::array<int, 2>> grid(int nx, int ny)
{
    std::vector<std::array<int, 2>> e;
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
        if (i + 1 < nx) e.push_back({ j * nx + i, j * nx + i + 1 });
        if (j + 1 < ny) e.push_back({ j * nx + i, j * nx + i + nx });
    }
    return e;
}

struct Family {
    std::string name, bound;
    uint64_t size;
    std::function<Problem(uint64_t)> make;
    LD kmax = 0; // 0: KAPPA_MAX
    std::function<bool(const Side&)> fits = nullptr; // further precondition
};

// The well alphabet of a cell: option k of K adds entries to the wells.
inline void addWell(Wells& w, int cell, unsigned k, double u)
{
    switch (k) {
    case 0: break;
    case 1: w["A"][cell] = 2 * u; break;
    case 2: w["P"][cell] = -2 * u; break;
    case 3: w["B"][cell] = u; break;
    case 4: w["A"][cell] = u; w["B"][cell] = 2 * u; break;
    case 5: w["B"][cell] = 3 * u; w["P"][cell] = -u; break;
    case 6: w["A"][cell] = -3 * u; w["Q"][cell] = -u; break;
    case 7: w["Q"][cell] = (cell & 1) ? -0.0 : 0.0; w["B"][cell] = -u; break;
    }
}

// Families of small problems covering the alphabets stated in each bound.
inline std::vector<Family> families(bool thorough, bool asan)
{
    std::vector<Family> F;
    const double u = UNIT;
    // pore volumes in m^3: zero, ordinary, large enough to exceed 200 years on unit inflow
    static const double PV[4] = { 1000.1, 0.0, 350.3, 3.0e7 };
    {
        const unsigned W = thorough ? 8 : asan ? 5 : 7;
        const unsigned nf = 5;
        const unsigned np = thorough ? 64 : (asan ? 1 : 5);
        static const double FL[5] = { 0, 1, -1, 3, -3 };
        F.push_back({ "triangle+parallel",
            vf::sfmt("3 cells, 3 connections plus an opposed parallel one, net flux in {0,+-1,+-3}u each, %u well options per cell, %u pore-volume patterns over {0,350,1000,3e7}", W, np),
            vf::ipow(nf, 4) * vf::ipow(W, 3) * np, [=](uint64_t i) {
                vf::Radix r(i);
                Problem p; p.n = 3; p.conn = { { 0, 1 }, { 1, 2 }, { 0, 2 }, { 1, 0 } };
                for (int c = 0; c < 4; ++c) p.flux.push_back(FL[r.take(nf)] * u);
                for (int c = 0; c < 3; ++c) addWell(p.wells, c, r.take(W), u);
                unsigned q = r.take(np); q = (np == 64) ? q : (q * 13 + 7) % 64;
                for (int c = 0; c < 3; ++c) { p.pv.push_back(PV[q % 4] * (1 + 0.25 * c)); q /= 4; }
                return p;
            } });
    }
    {
        const unsigned W = thorough ? 5 : (asan ? 2 : 4);
        static const double FL[4] = { 0, 1, -1, 2 };
        const unsigned nf = thorough ? 4 : 3;
        F.push_back({ "K4",
            vf::sfmt("4 cells, all 6 connections, net flux in %s each, %u well options per cell", thorough ? "{0,+-1,2}u" : "{0,+-1}u", W),
            vf::ipow(nf, 6) * vf::ipow(W, 4), [=](uint64_t i) {
                vf::Radix r(i);
                Problem p; p.n = 4; p.conn = complete(4);
                for (int c = 0; c < 6; ++c) p.flux.push_back(FL[r.take(nf)] * u * (1 + (c % 3)));
                for (int c = 0; c < 4; ++c) addWell(p.wells, c, r.take(W), u);
                p.pv = { 1000.1, 350.3, 725.7, 125.0 };
                return p;
            } });
    }
    {
        const unsigned nw = asan ? 9 : 36;
        F.push_back({ "grid3x2",
            vf::sfmt("3x2 grid, 7 connections, flux in {0,+-1}*{1,2,3}u each, %u placements of an injector and a producer/injector", nw),
            vf::ipow(3, 7) * nw, [=](uint64_t i) {
                vf::Radix r(i);
                Problem p; p.n = 6; p.conn = grid(3, 2);
                static const double FL[3] = { 0, 1, -1 };
                for (int c = 0; c < 7; ++c) p.flux.push_back(FL[r.take(3)] * u * (1 + (c * 2) % 3));
                unsigned w = r.take(nw);
                if (nw == 9) w = w * 4 + 1;
                int a = w % 6, b = w / 6;
                p.wells["I1"][a] += 2 * u;
                if ((w & 1)) p.wells["I2"][b] += u; else p.wells["P1"][b] += -2 * u;
                p.wells["P2"][5 - a] += -u;
                p.pv = { 1000.1, 350.3, 725.7, 125.0, 40.0, 2000.0 };
                return p;
            } });
    }
    {
        // three phases with cancelling contributions
        const unsigned nw = asan ? 2 : 7;
        F.push_back({ "phases",
            vf::sfmt("3 cells, triangle, 3 phases with flux in {0,-0,+-1}u each (net zero, sign changes), %u well sets; also 0, 1, 2, 5, 9 and 33 phases", nw),
            vf::ipow(27, 3) * nw + 6 * 3 * nw, [=](uint64_t i) {
                Problem p; p.n = 3; p.conn = complete(3); p.nph = 3;
                static const double FL[3] = { 0, 1, -1 };
                unsigned w;
                if (i < vf::ipow(27, 3) * nw) {
                    vf::Radix r(i);
                    for (int c = 0; c < 9; ++c) { unsigned k = r.take(3); p.flux.push_back(k == 0 ? ((c & 1) ? -0.0 : 0.0) : FL[k] * u * (1 << (c % 2))); }
                    w = r.take(nw);
                } else {
                    vf::Radix r(i - vf::ipow(27, 3) * nw);
                    static const int NP[6] = { 0, 1, 2, 5, 9, 33 };
                    p.nph = NP[r.take(6)];
                    int k = r.take(3);
                    for (int c = 0; c < 3 * p.nph; ++c) p.flux.push_back(u * ((c * 7 + k * 5) % 11 - 4));
                    w = r.take(nw);
                }
                addWell(p.wells, 0, 1 + w, u);
                addWell(p.wells, 1, (w * 3 + 2) % 7, 2 * u);
                addWell(p.wells, 2, 2, u);
                p.pv = { 1000.1, 350.3, 725.7 };
                return p;
            } });
    }
    {
        // phases that nearly cancel: a small net flux between large counter-current phase fluxes (all sums exact)
        const unsigned nw = asan ? 2 : 7, nb = 3;
        F.push_back({ "counter-current",
            vf::sfmt("3 cells, triangle, net flux in {0,+-1}u per connection as the sum of two or three phases of up to 2^12, 2^30 and 2^40 u, %u well sets", nw),
            vf::ipow(3, 3) * nb * 4 * nw, [=](uint64_t i) {
                vf::Radix r(i);
                static const int B[nb] = { 12, 30, 40 };
                const double u = 1.0 / 8192, big = std::ldexp(u, B[r.take(nb)]);
                const int form = r.take(4); // order of the phases
                const unsigned w = r.take(nw);
                Problem p; p.n = 3; p.conn = complete(3); p.nph = form < 2 ? 2 : 3;
                static const double FL[3] = { 0, 1, -1 };
                for (int c = 0; c < 3; ++c) {
                    const double q = FL[r.take(3)] * u * (1 + c), s = c == 1 ? -big : big;
                    switch (form) {
                    case 0: p.flux.insert(p.flux.end(), { s + q, -s }); break;
                    case 1: p.flux.insert(p.flux.end(), { -s, s + q }); break;
                    case 2: p.flux.insert(p.flux.end(), { s, q, -s }); break;
                    case 3: p.flux.insert(p.flux.end(), { q - s, s / 2, s / 2 }); break;
                    }
                }
                addWell(p.wells, 0, 1 + w, u);
                addWell(p.wells, 1, (w * 3 + 2) % 7, 2 * u);
                addWell(p.wells, 2, 2, u);
                p.pv = { 1000.1, 350.3, 725.7 };
                return p;
            } });
    }
    {
        // the same problem in other units: fluxes, rates and pore volumes scaled alike leave every field unchanged
        const unsigned W = thorough ? 7 : asan ? 2 : 4, ns = thorough ? 8 : 4;
        static const int SC[8] = { -120, -900, 900, -300, 20, 110, 300, -20 };
        F.push_back({ "units",
            vf::sfmt("4 cells, 5 connections (loops and parallel paths), net flux in {0,+-1}u each, %u well options per cell, in %u units of rate and volume between 2^-900 and 2^900 u", W, ns),
            vf::ipow(3, 5) * vf::ipow(W, 3) * ns, [=](uint64_t i) {
                vf::Radix r(i);
                const double s = std::ldexp(1.0, SC[r.take(ns)]);
                static const double FL[3] = { 1, -1, 0 };
                Problem p; p.n = 4; p.conn = { { 0, 1 }, { 1, 2 }, { 2, 0 }, { 1, 3 }, { 2, 3 } };
                for (int c = 0; c < 5; ++c) p.flux.push_back(FL[r.take(3)] * u * s * (1 + (c % 3)));
                for (int c = 0; c < 3; ++c) addWell(p.wells, c, r.take(W), u * s);
                addWell(p.wells, 3, 2, u * s);
                p.pv = { 1000.1 * s, 350.3 * s, 725.7 * s, 3.0e7 * s };
                return p;
            } });
    }
    {
        // filling times just below, at and just above 200 years; balanced, so that they are the same in both directions
        const unsigned np = asan ? 3 : 6;
        F.push_back({ "cap-boundary",
            vf::sfmt("diamond of 5 cells with and without a loop, filling time of each of 4 cells in %u of {200 years exactly, 120 years, 200 years (1+-2^-30), 1e-3 of 200 years, 0}", np),
            vf::ipow(np, 4) * 2, [=](uint64_t i) {
                vf::Radix r(i);
                static const double FT[6] = { 1, 0.625, 1 + 1.0 / (1 << 30), 1 - 1.0 / (1 << 30), 1.0 / 1024, 0 };
                const bool loop = r.take(2);
                Problem p; p.n = 5; p.conn = { { 0, 1 }, { 0, 2 }, { 1, 3 }, { 3, 2 }, { 3, 4 }, { 1, 3 } };
                p.flux = { u, u, u, -2 * u, 3 * u, 0 };
                const double tot[4] = { 2, loop ? 2.0 : 1.0, 2, loop ? 4.0 : 3.0 };
                if (loop) { p.flux[2] = 2 * u; p.flux[5] = -u; }
                for (int c = 0; c < 4; ++c) p.pv.push_back(TMAX * FT[r.take(np)] * tot[c] * u);
                p.pv.push_back(1000.0);
                p.wells["I"][0] = 2 * u; p.wells["J"][2] = u; p.wells["P"][4] = -3 * u;
                return p;
            } });
    }
    {
        // wide dynamic range of fluxes and rates
        const unsigned nf = asan ? 5 : 7, nr = asan ? 3 : 5;
        F.push_back({ "magnitudes",
            vf::sfmt("3 cells, triangle plus a fourth cell behind each, %u flux values over {0,+-1e-4,+-1e-13,+-1e2}, rates over {0,1e-4,1e-15,10,-1e-4}, pore volumes over 9 decades", nf),
            vf::ipow(nf, 4) * vf::ipow(nr, 3) * 3, [=](uint64_t i) {
                vf::Radix r(i);
                static const double FL[7] = { 0, 1e-4, -1e-4, 1e-13, -1e-13, 1e2, -1e2 };
                static const double RT[5] = { 0, 1e-4, 1e-15, 10, -1e-4 };
                Problem p; p.n = 4; p.conn = { { 0, 1 }, { 1, 2 }, { 2, 0 }, { 3, 1 } };
                for (int c = 0; c < 4; ++c) p.flux.push_back(FL[r.take(nf)]);
                static const char* NM[3] = { "A", "B", "A" };
                for (int c = 0; c < 3; ++c) { double q = RT[r.take(nr)]; if (q != 0) p.wells[NM[c]][c] = q; }
                switch (r.take(3)) {
                case 0: p.pv = { 1e3, 2e3, 5e2, 1e3 }; break;
                case 1: p.pv = { 1e-3, 1e3, 1e6, 0 }; break;
                case 2: p.pv = { 1e6, 0, 1e-3, 1e4 }; break;
                }
                return p;
            } });
    }
    return F;
}

// Sizes crossing every plausible internal threshold.
inline std::vector<int> sweepSizes(bool thorough, bool asan)
{
    std::vector<int> v;
    for (int i = 2; i <= (asan ? 24 : 72); ++i) v.push_back(i);
    for (int b : { 128, 256, 512, 1024, 2048 })
        if (!asan || b == 128 || b == 1024)
            for (int d = -2; d <= 2; ++d) v.push_back(b + d);
    if (thorough) {
        for (int i = 73; i <= 300; ++i) v.push_back(i);
        for (int d = -1; d <= 1; ++d) v.push_back(4096 + d);
    }
    return v;
}

// Large regular flow patterns; shape in [0, NSHAPE).
static const int NSHAPE = 10;
inline Problem bigProblem(int shape, int n, int variant)
{
    const double u = UNIT;
    Problem p; p.n = n;
    for (int i = 0; i < n; ++i) p.pv.push_back(100.1 + 37.3 * (i % 11) + (i % 5 == 3 ? 0.5 : 0.0));
    auto add = [&](int a, int b, double q) { p.conn.push_back({ a, b }); p.flux.push_back(q); };
    const int m = n / 2;
    // long rings get a stronger feed: the iteration moves information one cell per sweep
    const double feed = n <= 72 ? u / 8 : 16 * u;
    switch (shape) {
    case 0: // line, flow upwards in index
        for (int i = 0; i + 1 < n; ++i) add(i, i + 1, u);
        p.wells["I"][0] = u; p.wells["P"][n - 1] = -u; p.wells["M"][m] += variant ? u / 2 : -u / 4;
        break;
    case 1: // line, flow downwards in index, connections listed with flipped orientation
        for (int i = 0; i + 1 < n; ++i) { if (i % 2) add(i, i + 1, -u); else add(i + 1, i, u); }
        p.wells["I"][n - 1] = u; p.wells["P"][0] = -u; p.wells["M"][m] += variant ? u / 2 : -u / 4;
        break;
    case 2: // ring
        for (int i = 0; i + 1 < n; ++i) add(i, i + 1, u);
        if (n > 2) add(n - 1, 0, u);
        p.wells["I"][0] += feed * (variant ? 8 : 1); p.wells["P"][m] += -feed * (variant ? 8 : 1);
        break;
    case 3: // ring against the index order
        for (int i = 0; i + 1 < n; ++i) add(i, i + 1, -u);
        if (n > 2) add(n - 1, 0, -u);
        p.wells["I"][m] += feed * (variant ? 4 : 2); p.wells["P"][0] += -feed;
        break;
    case 4: // star: all cells into cell 0, each with its own well
        for (int i = 1; i < n; ++i) { add(0, i, -u * (1 + i % 3)); p.wells[vf::sfmt("W%d", i % (variant ? 7 : n <= 520 ? 1 << 30 : 40))][i] = u * (1 + i % 3); }
        p.wells["P"][0] = -u;
        break;
    case 5: { // star: the last cell (the first, if the number of cells is even) into all others
        const int z = n % 2 ? n - 1 : 0;
        for (int i = 0; i < n; ++i) if (i != z) { add(z, i, u * (1 + i % 2)); p.wells["P"][i] = -u; }
        p.wells["I"][z] = u * (variant ? 1 : n);
        break; }
    case 6: // two-row ladder with cross flow
        for (int i = 0; i + 2 < n; ++i) add(i, i + 2, (i % 2) ? 2 * u : u);
        for (int i = 0; i + 1 < n; i += 2) add(i, i + 1, (variant && (i % 4 == 0)) ? -u / 2 : u / 4);
        p.wells["I"][0] = u; p.wells["J"][std::min(1, n - 1)] += 2 * u; p.wells["P"][n - 1] += -3 * u;
        break;
    case 7: { // chain of rings of length 4 (a loop, then a link to the next loop)
        for (int a = 0; a < n; a += 4) {
            int z = std::min(a + 4, n) - 1;
            for (int i = a; i < z; ++i) add(i, i + 1, 2 * u);
            if (z > a + 1) add(z, a, 2 * u); else if (z == a + 1) add(z, a, u);
            if (z + 1 < n) add(z, z + 1, u);
        }
        p.wells["I"][0] = u; p.wells["P"][n - 1] += -u; if (variant) p.wells["J"][m] += u;
        break; }
    case 8: { // binary tree, root downwards
        for (int i = 1; i < n; ++i) add((i - 1) / 2, i, u * (1 + i % 2));
        p.wells["I"][0] = u; p.wells["J"][n - 1] += u * (variant ? 1 : 4); p.wells["P"][m] += -u;
        break; }
    case 9: { // long ring with chords (nested loops) and a weak feed
        for (int i = 0; i + 1 < n; ++i) add(i, i + 1, 3 * u);
        if (n > 2) add(n - 1, 0, u);
        for (int i = 5; i < n; i += 5) add(i, i - 3, u);
        p.wells["I"][0] += u; p.wells["P"][n - 1] += -u; if (variant) p.wells["J"][m] += u / 2;
        break; }
    }
    return p;
}

inline std::vector<Family> bigFamilies(bool thorough, bool asan)
{
    struct It { int sh, n, v; };
    auto L = std::make_shared<std::vector<It>>();
    int mx = 0;
    auto sizes = sweepSizes(thorough, asan);
    std::sort(sizes.begin(), sizes.end(), std::greater<int>());
    for (int n : sizes)
        for (int sh = 0; sh < NSHAPE; ++sh)
            for (int v = 0; v < 2; ++v) {
                // the code's iteration needs about n sweeps per turn of a ring, so long loops are expensive
                const int lim = (sh == 2 || sh == 3) ? (thorough ? 2050 : asan ? 130 : 1026) : sh == 9 ? (thorough ? 514 : asan ? 24 : 72) : 1 << 30;
                if (n > lim) continue;
                L->push_back({ sh, n, v }); mx = std::max(mx, n);
            }
    return { { "large",
        vf::sfmt("%d flow patterns (lines, rings, stars, ladders, chains of rings, trees, nested loops) x 2 variants x up to %zu sizes each, up to %d cells: %zu problems", NSHAPE, sizes.size(), mx, L->size()),
        uint64_t(L->size()), [L](uint64_t i) { auto& t = (*L)[i]; return bigProblem(t.sh, t.n, t.v); } } };
}

// Grids beyond the range of 16-bit numbers.
inline std::vector<Family> hugeFamilies(bool thorough, bool asan)
{
    struct It { int sh, n, v; };
    auto L = std::make_shared<std::vector<It>>();
    static const int N[] = { 65537, 70001, 32769, 40000, 65535, 65536, 131073, 300001 };
    const int ns = thorough ? 8 : asan ? 1 : 4;
    for (int k = ns - 1; k >= 0; --k) for (int sh : { 0, 1, 5, 8 }) for (int v = 0; v < 2; ++v) L->push_back({ sh, N[k], v });
    return { { "huge", vf::sfmt("4 flow patterns (lines either way, star, tree) x 2 variants x %d sizes between 32769 and %d cells", ns, thorough ? 300001 : 70001),
        uint64_t(L->size()), [L](uint64_t i) { auto& t = (*L)[i]; return bigProblem(t.sh, t.n, t.v); } } };
}

// Several wells completed in the same cells, with rates of very different size.
inline std::vector<Family> sharedFamilies(bool thorough, bool asan)
{
    const unsigned nr = thorough ? 6 : asan ? 3 : 5, nc = nr * nr * nr;
    const int LT = thorough ? 24 : 12, RP = thorough ? 300 : 70;
    return { { "shared-cells",
        vf::sfmt("3 cells in a line (either way), a ring or a branch, three wells in each of two cells with %u^3 combinations of rates from {0,1,2^-24,2^-12,-1,2^-40}u each, injecting or producing", nr),
        uint64_t(nc) * nc * 4 * 2, [=](uint64_t i) {
            vf::Radix r(i);
            const double u = UNIT;
            const double RT[6] = { 0, 1, std::ldexp(1.0, -24), std::ldexp(1.0, -12), -1, std::ldexp(1.0, -40) };
            static const char* NM[3] = { "A", "B", "C" };
            Problem p; p.n = 3;
            const double sg = r.take(2) ? -u : u;
            switch (r.take(4)) {
            case 0: p.conn = { { 0, 1 }, { 1, 2 } }; p.flux = { u, u }; break;
            case 1: p.conn = { { 0, 1 }, { 1, 2 } }; p.flux = { -u, -u }; break;
            case 2: p.conn = { { 0, 1 }, { 1, 2 }, { 2, 0 } }; p.flux = { u, u, u }; break;
            case 3: p.conn = { { 0, 2 }, { 1, 2 } }; p.flux = { 2 * u, u }; break;
            }
            for (int c = 0; c < 2; ++c) for (int k = 0; k < 3; ++k) { double q = RT[r.take(nr)]; if (q != 0) p.wells[NM[k]][c] = sg * q; }
            p.wells["P"][2] = -2 * sg; p.wells["D"][2] = 2 * sg;
            p.pv = { 1000.1, 350.3, 725.7 };
            return p;
        } },
        // times far above 200 years build up over cells that each fill in less
        { "long-times",
        vf::sfmt("chains of 2..%d cells either way, filling time of each in one of 4 repeating patterns from {1 day, 90, 150, 199.9 and 260 years}, with a second well in any cell, optionally a short circuit back to the first cell or a bypass to the last", LT),
        uint64_t(LT - 1) * LT * 4 * 3 * 2, [=](uint64_t i) {
            vf::Radix r(i);
            const double u = UNIT, yr = 365.0 * 86400;
            static const double T[4][4] = { { 199.9, 199.9, 199.9, 199.9 }, { 150, 1 / 365.0, 90, 199.9 }, { 90, 90, 1 / 365.0, 1 / 365.0 }, { 150, 150, 260, 199.9 } };
            const int n = 2 + r.take(LT - 1), b = r.take(LT); const unsigned pat = r.take(4), extra = r.take(3); const double sg = r.take(2) ? -1 : 1;
            Problem p; p.n = n;
            for (int c = 0; c + 1 < n; ++c) { p.conn.push_back({ c, c + 1 }); p.flux.push_back(sg * u); }
            if (extra == 1 && n > 2) { p.conn.push_back({ n - 1, 0 }); p.flux.push_back(sg * u / 8); }
            if (extra == 2 && n > 2) { p.conn.push_back({ n - 1, 0 }); p.flux.push_back(-sg * u / 2); }
            for (int c = 0; c < n; ++c) p.pv.push_back(T[pat][c % 4] * yr * u);
            const int f = sg > 0 ? 0 : n - 1, l = n - 1 - f;
            p.wells["A"][f] = u; p.wells["P"][l] = -u;
            if (b < n) p.wells["B"][b] += u / 16;
            return p;
        } },
        // the same pair of cells connected many times over
        { "repeated",
        vf::sfmt("3 cells in a line or a ring, each link given as 1..%d connections of unequal size in either orientation, adding up or partly cancelling", RP),
        uint64_t(RP) * 3 * 2 * 2 * 2, [=](uint64_t i) {
            vf::Radix r(i);
            const double u = UNIT;
            const int m = 1 + r.take(RP), which = r.take(3); const bool ring = r.take(2), cancel = r.take(2); const double sg = r.take(2) ? -1 : 1;
            Problem p; p.n = 3;
            for (int e = 0; e < (ring ? 3 : 2); ++e)
                for (int k = 0; k < (which == 2 || which == e ? m : 1); ++k) {
                    double q = sg * u * (1 + k % 5);
                    if (cancel && k % 3 == 1) q = -q;
                    const int a = e, b = (e + 1) % 3;
                    if (k % 2) { p.conn.push_back({ b, a }); p.flux.push_back(-q); } else { p.conn.push_back({ a, b }); p.flux.push_back(q); }
                }
            p.wells["A"][0] = 2 * u; p.wells["B"][1] = u; p.wells["P"][2] = -2 * u; p.wells["Q"][1] = -u;
            p.pv = { 1000.1, 350.3, 725.7 };
            return p;
        } } };
}

// Nothing on the way of a tracer gets below 2^-1010.
inline bool noUnderflow(const Side& s)
{
    const LD lo = std::ldexp(1.0L, -1010);
    auto ok = [&](const std::map<int, LD>& start) {
        auto r = solveRef(s, start);
        for (int i = 0; i < s.n; ++i) if (r.reach[i]) {
            if (!(r.c[i] >= lo) || r.c[i] * s.tot[i] < lo) return false;
        }
        for (int i = 0; i < s.n; ++i) for (auto& e : s.in[i]) if (r.reach[e.first] && r.c[e.first] * e.second < lo) return false;
        return true;
    };
    if (!ok(allSources(s))) return false;
    for (auto& w : s.start) if (!ok(w.second)) return false;
    return true;
}
// Fluxes and rates far below everything else in the problem.
inline std::vector<Family> tinyFamilies(bool thorough, bool asan)
{
    const unsigned nf = asan ? 5 : 7, nr = asan ? 3 : 4, nx = thorough ? 4 : 2;
    return { { "tiny",
        vf::sfmt("diamond of 4 cells and a fifth behind it, %u flux values per connection from {0,+-1,+-2^-500,+-2^-960}u, three wells with rates from {1,2^-500,2^-960,0}u of either sign, pore volumes from 0 to 1000 (cases in which concentrations or their products with fluxes fall below 2^-1010 excluded)", nf),
        vf::ipow(nf, 4) * nr * nr * nx * 2, [=](uint64_t i) {
            vf::Radix r(i);
            const double u = UNIT, a = std::ldexp(u, -500), b = std::ldexp(u, -960);
            const double FL[7] = { 0, u, b, -b, -u, a, -a }, RT[4] = { u, b, 0, a };
            Problem p; p.n = 5; p.conn = { { 0, 1 }, { 0, 2 }, { 1, 3 }, { 2, 3 }, { 3, 4 } };
            for (int c = 0; c < 4; ++c) p.flux.push_back(FL[r.take(nf)]);
            const double qa = RT[r.take(nr)], qb = RT[r.take(nr)]; const unsigned x = r.take(nx); const double sg = r.take(2) ? -1 : 1;
            p.flux.push_back(x & 1 ? b : u);
            if (qa != 0) { p.wells["A"][0] = sg * qa; p.wells["Pa"][4] = -sg * qa; }
            if (qb != 0) { p.wells["B"][1] = sg * qb; p.wells["Pb"][3] = -sg * qb; }
            p.wells["C"][x & 2 ? 3 : 2] = sg * (x & 1 ? u : b);
            p.pv = { 1000.1, 0.0, 350.3, x & 1 ? 0.5 : 20.0, 1000.1 };
            return p;
        }, 0, noUnderflow },
        // a subnormal flux is the only way into a cell
        { "subnormal", "chains of 2..5 cells either way in which one connection carries {2^-1030,2^-1050,2^-1074} of either sign and the others 1, the well in the first cell, the last or both",
        uint64_t(4 * 4 * 3 * 2 * 3), [](uint64_t i) {
            vf::Radix r(i);
            static const int E[3] = { -1030, -1050, -1074 };
            Problem p; p.n = 2 + r.take(4);
            const int at = std::min<int>(r.take(4), p.n - 2); const double t = std::ldexp(1.0, E[r.take(3)]), sg = r.take(2) ? -1 : 1; const unsigned w = r.take(3);
            for (int c = 0; c + 1 < p.n; ++c) { p.conn.push_back({ c, c + 1 }); p.flux.push_back(sg * (c == at ? t : 1.0)); }
            for (int c = 0; c < p.n; ++c) p.pv.push_back(c % 2 ? 5.0 : 100.0);
            const int f = sg > 0 ? 0 : p.n - 1, l = p.n - 1 - f;
            if (w != 1) p.wells["A"][f] = 1; if (w != 0) p.wells["B"][l] = 1;
            p.wells["P"][l] = -1;
            return p;
        } , 0, [](const Side& s) { for (int i = 0; i < s.n; ++i) { bool small = false, big = s.src[i] > 0; for (auto& e : s.in[i]) { small = small || e.second < 1e-300L; big = big || e.second >= 1e-300L; } if (small && big) return false; } return true; } } };
}

// Loops in which times grow far beyond 200 years, visible only behind a cell that mixes their outflow with fresh inflow.
inline std::vector<Family> oldLoopFamilies(bool thorough, bool asan)
{
    const unsigned N = thorough ? 8 : 5;
    return { { "old-loops",
        vf::sfmt("rings of 2..%u cells either way that fill in {20,150,199} years at the circulating rate, fed with {1/2,1/8,1/32} of it in any cell, leaving from any cell into one with {2,16,64} times as much fresh inflow", N + 1),
        uint64_t(N) * (N + 1) * (N + 1) * 3 * 3 * 3 * 2, [=](uint64_t i) {
            vf::Radix r(i);
            const double u = UNIT, yr = 365.0 * 86400;
            static const double T[3] = { 150, 199, 20 }, FD[3] = { 0.125, 0.5, 0.03125 }, MX[3] = { 16, 64, 2 };
            const int n = 2 + r.take(N), f = r.take(N + 1) % n, x = r.take(N + 1) % n; const double t = T[r.take(3)], fd = FD[r.take(3)] * u, mx = MX[r.take(3)]; const bool back = r.take(2);
            Problem p; p.n = n + 2;
            for (int c = 0; c < n; ++c) { const int a = back ? (c + 1) % n : c, b = back ? c : (c + 1) % n; p.conn.push_back({ a, b }); p.flux.push_back(u); }
            p.conn.push_back({ x, n }); p.flux.push_back(fd);
            p.conn.push_back({ n, n + 1 }); p.flux.push_back((1 + mx) * fd);
            p.pv.assign(n, t * yr * u); p.pv.push_back(10.0); p.pv.push_back(30.0);
            p.wells["A"][f] = fd; p.wells["B"][n] = mx * fd; p.wells["P"][n + 1] = -(1 + mx) * fd;
            return p;
        } } };
}

// Rings in which one well is dwarfed by another and by the circulating flow.
inline std::vector<Family> weakFamilies(bool thorough, bool asan)
{
    struct It { int n, dir, a, b, ratio, chord; };
    auto L = std::make_shared<std::vector<It>>();
    const int N = thorough ? 12 : asan ? 6 : 9;
    for (int n = 3; n <= N; ++n)
        for (int dir = 0; dir < 4; ++dir)
            for (int a = 0; a < n; ++a)
                for (int b = 0; b < n; ++b)
                    for (int ratio = 0; ratio < 4; ++ratio)
                        for (int chord = 0; chord < 3; ++chord)
                            L->push_back({ n, dir, a, b, ratio, chord });
    return { { "weak-tracer-rings",
        vf::sfmt("rings of 3..%d cells plus a tail, 4 directions/numberings, every position of a strong and of a weak well, weak/strong ratio in {1e-3,1e-9,1e-12,1e-200}, 3 chord patterns", N),
        uint64_t(L->size()), [L](uint64_t i) {
            auto& t = (*L)[i];
            const double u = UNIT;
            static const double R[4] = { 1e-3, 1e-9, 1e-12, 1e-200 };
            Problem p; p.n = t.n + 2;
            // numbering: identity, or alternating low/high
            auto id = [&](int k) { return (t.dir & 2) ? ((k % 2) ? t.n - 1 - k / 2 : k / 2) : k; };
            auto add = [&](int x, int y, double q) { p.conn.push_back({ x, y }); p.flux.push_back(q); };
            for (int k = 0; k < t.n; ++k) add(id(k), id((k + 1) % t.n), (t.dir & 1) ? -u : u);
            if (t.chord == 1) add(id(0), id(t.n / 2), u / 4);
            if (t.chord == 2) { add(id(t.n - 1), id(t.n / 2), u / 2); add(id(0), id(t.n / 2), -u / 8); }
            add(id(t.n / 3), t.n, u / 2); add(t.n, t.n + 1, u / 2);   // a tail leaving the ring
            p.wells["strong"][id(t.a)] = u;
            p.wells["weak"][id(t.b)] = u * R[t.ratio];
            p.wells["P"][t.n + 1] = -u; p.wells["Pweak"][id(t.b)] = -u * R[t.ratio]; p.wells["Pstrong"][id(t.a)] = -u;
            for (int k = 0; k < p.n; ++k) p.pv.push_back(100.0 + 10 * k);
            return p;
        } } };
}

// Loops through which the flow passes at once: the times-of-flight settle (or vanish) long before the concentrations.
inline std::vector<Family> quickFamilies(bool thorough, bool asan)
{
    struct It { int sh, n, v, sc; };
    auto L = std::make_shared<std::vector<It>>();
    std::vector<int> N;
    for (int n = asan ? 24 : thorough ? 140 : 40; n >= 3; --n) N.push_back(n);
    if (!asan && !thorough) for (int n : { 48, 63, 64, 65, 66, 100, 127, 128, 129, 130 }) N.insert(N.begin(), n);
    for (int n : N) for (int sh : { 2, 3, 7, 9 }) for (int v = 0; v < 2; ++v) for (int sc = 0; sc < 4; ++sc) if (sh != 9 || n <= 72) L->push_back({ sh, n, v, sc });
    return { { "quick-loops", vf::sfmt("rings either way, chains of rings and nested loops of 3..%d cells with three wells, pore volumes scaled by 0, 2^-44, 2^-24 and 2^-12: %zu problems", *std::max_element(N.begin(), N.end()), L->size()),
        uint64_t(L->size()), [L](uint64_t i) {
            auto& t = (*L)[i];
            Problem p = bigProblem(t.sh, t.n, t.v);
            static const double SC[4] = { 0, -44, -24, -12 };
            double in = 0, out = 0;
            for (auto& w : p.wells) for (auto& x : w.second) { if (x.second > 0) in = x.second; else out = -x.second; }
            p.wells["X"][t.n / 3] = in; p.wells["Y"][2 * t.n / 3] += in / 4;
            p.wells["Px"][t.n / 2] = -out; p.wells["Py"][t.n / 4] += -out / 4;
            for (double& v : p.pv) v = SC[t.sc] == 0 ? 0.0 : std::ldexp(v, int(SC[t.sc]));
            return p;
        } } };
}

// Loops that are hardly fed: the iteration needs up to millions of sweeps.
inline std::vector<Family> slowFamilies(bool thorough, bool asan)
{
    struct It { int n, e, pos, rev, big; };
    auto L = std::make_shared<std::vector<It>>();
    const int E = thorough ? 19 : asan ? 10 : 17;
    for (int e = E; e >= 5; --e) // expensive cases first
        for (int n = 2; n <= (thorough ? 6 : 4); ++n)
            for (int pos = 0; pos < n; ++pos) {
                if (!thorough && e > 12 && pos != (e % n)) continue;
                for (int rev = 0; rev < 2; ++rev)
                    for (int big = 0; big < 2; ++big) {
                        if (!thorough && e > 14 && big != (rev ^ (n & 1))) continue;
                        L->push_back({ n, e, pos, rev, big });
                    }
            }
    return { { "slow-loops",
        vf::sfmt("one loop of 2..%d cells and a tail, feed/circulation ratio 2^-5..2^-%d (amplification up to %.2g), %s feed positions, either direction, filling times of about 10 days or 150 years per cell: %zu problems", thorough ? 6 : 4, E, (thorough ? 6 : 4) * std::ldexp(1.0, E), thorough ? "all" : "all (one per size above 2^-12)", L->size()),
        uint64_t(L->size()), [L](uint64_t i) {
            auto& t = (*L)[i];
            const double u = UNIT, q = std::ldexp(u, -t.e);
            Problem p; p.n = t.n + 1;
            auto add = [&](int x, int y, double f) { p.conn.push_back({ x, y }); p.flux.push_back(f); };
            for (int k = 0; k < t.n; ++k) add(k, (k + 1) % t.n, t.rev ? -u : u);
            if (t.n == 2) { p.flux[0] = t.rev ? -2 * u : 2 * u; p.flux[1] = t.rev ? -2 * u : 2 * u; }
            add((t.pos + 1) % t.n, t.n, q);
            p.wells["I"][t.pos] = q;
            p.wells["J"][(t.pos + 1) % t.n] = q / 2;
            p.wells["P"][t.n] = -q; p.wells["Q"][t.pos] = -q / 4;
            for (int k = 0; k < p.n; ++k) p.pv.push_back((t.big ? 5e5 : 100.0) * (1 + 0.1 * k));
            p.pv[t.n] = 1;
            return p;
        }, 4e6L } };
}

// Two loops and a link, fed (or not) at every position.
inline std::vector<Family> loopFamilies(bool thorough, bool asan)
{
    struct It { int a, b, feed, ratio, link, rev; };
    auto L = std::make_shared<std::vector<It>>();
    const int N = thorough ? 9 : asan ? 4 : 6;
    for (int a = 2; a <= N; ++a)
        for (int b = 2; b <= N; ++b)
            for (int feed = 0; feed <= a + b; ++feed)
                for (int ratio = 0; ratio < (thorough ? 4 : 3); ++ratio)
                    for (int link = 0; link < 5; ++link)
                        for (int rev = 0; rev < 4; ++rev)
                            L->push_back({ a, b, feed, ratio, link, rev });
    return { { "two-loops",
        vf::sfmt("two loops of 2..%d cells each, circulating either way, 5 kinds of link (none, one way, nested back-link, double, through an extra cell), injection at every cell or none, feed/circulation ratio in {16,1,1/32%s}", N, thorough ? ",1/1024" : ""),
        uint64_t(L->size()), [L](uint64_t i) {
            auto& t = (*L)[i];
            const double u = UNIT;
            static const double R[4] = { 16, 1, 1.0 / 32, 1.0 / 1024 };
            Problem p; p.n = t.a + t.b + 1;
            const int e = t.a + t.b;
            auto add = [&](int x, int y, double q) { p.conn.push_back({ x, y }); p.flux.push_back(q); };
            for (int k = 0; k < t.a; ++k) add(k, (k + 1) % t.a, (t.rev & 1) ? -u : u);
            if (t.a == 2) p.flux[0] *= 2;
            for (int k = 0; k < t.b; ++k) add(t.a + k, t.a + (k + 1) % t.b, (t.rev & 2) ? -2 * u : 2 * u);
            switch (t.link) {
            case 0: break;
            case 1: add(t.a - 1, t.a, u * R[t.ratio]); break;
            case 2: add(t.a - 1, t.a, u * R[t.ratio]); add(t.a + t.b - 1, 0, u / 4); break;
            case 3: add(0, t.a, u * R[t.ratio]); add(t.a - 1, t.a + 1, u / 2); break;
            case 4: add(t.a / 2, e, u * R[t.ratio]); add(e, t.a + t.b / 2, u * R[t.ratio]); break;
            }
            if (t.link != 4) add(e - 1, e, u * R[t.ratio]);
            if (t.feed < e) { p.wells["I"][t.feed] = u * R[t.ratio]; p.wells["P"][e - 1 - t.feed] = -u * R[t.ratio]; }
            else { p.wells["I"][e] = u * R[t.ratio]; p.wells["P"][e] = -u * R[t.ratio]; }
            p.wells["J"][0] = u * R[t.ratio] / 2;
            for (int k = 0; k < p.n; ++k) p.pv.push_back(100.0 + 10 * (k % 4) + (k == 1 ? 0 : 1));
            return p;
        } } };
}

// Turn families into spaces: run both directions and hand (side, fields) to the monitor.
typedef std::function<void(const Problem&, const Side&, const Fields&, const char*)> Monitor;
inline std::vector<vf::Space> flowSpaces(const std::vector<Family>& fam, Monitor mon, std::function<bool(const Side&)> want = nullptr)
{
    std::vector<vf::Space> S;
    for (auto& f : fam)
        S.push_back({ f.name, f.bound, f.size, [f, mon, want](uint64_t i, vf::Ctx& c) {
            Problem p = f.make(i);
            c.note("%s", show(p).c_str());
            bool used = false;
            for (int d = 0; d < 2; ++d) {
                const bool fwd = d == 0;
                const char* dir = fwd ? "forward" : "reverse";
                Side s = makeSide(p, fwd);
                if (want && !want(s)) continue;
                if (worstKappa(s) > (f.kmax > 0 ? f.kmax : KAPPA_MAX) || (f.fits && !f.fits(s))) { ++c.skipped; continue; }
                used = true;
                Fields o = runReal(p, fwd);
                c.transitions += 5; // construct, three assignments, compute
                ++c.traces;
                mon(p, s, o, dir);
                if (s.start.size() > 1 || s.cyclic()) ++c.nontrivial;
                c.outcome(hashFields(o));
                if (c.verbose) { c.note(" | %s tof=[", dir); for (size_t k = 0; k < o.tof.size() && k < 8; ++k) c.note("%.6g ", o.tof[k]); c.note("]"); }
            }
            if (used) ++c.states;
        } });
    return S;
}

} // namespace flow
