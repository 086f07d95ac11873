// C25: independence of separate objects, over schedules of two threads and operation-level interleavings.
#include "flow.hpp"
#include "csr.hpp"
#include "scc.hpp"
#include <opm/utility/numeric/RandomVector.hpp>
#include <memory>
#include <sstream>
#ifdef VF_SCHED
#include "sched.hpp"
#include <signal.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#endif
using namespace flow;
namespace {
const double u = UNIT;
struct Dig { uint64_t h = 1; void i(uint64_t x) { h = vf::mix(h, x); } void d(double x) { uint64_t b; memcpy(&b, &x, 8); i(b); } void v(const std::vector<double>& x) { i(x.size()); for (double y : x) d(y); } void m(const std::map<int, double>& x) { i(x.size()); for (auto& e : x) { i(e.first); d(e.second); } } };
Problem chain()
{
    Problem p; p.n = 3; p.conn = { { 0, 1 }, { 2, 1 } }; p.flux = { u, -u }; p.pv = { 100, 50, 25 };
    p.wells = { { "I", { { 0, u } } }, { "P", { { 2, -u } } } };
    return p;
}
Problem ring()
{
    Problem p; p.n = 4; p.conn = { { 0, 1 }, { 1, 2 }, { 2, 1 }, { 2, 3 } }; p.flux = { u, 2 * u, u, u }; p.pv = { 10, 20, 30, 40 };
    p.wells = { { "I", { { 0, u } } }, { "P", { { 3, -u } } } };
    return p;
}
Problem wide()
{
    Problem p; p.n = 5; p.nph = 2; p.conn = { { 0, 1 }, { 2, 1 }, { 1, 3 } }; p.flux = { u, u, u, 0, 2 * u, u }; p.pv = { 1, 2, 3, 4, 5 };
    p.wells = { { "A", { { 0, 2 * u } } }, { "B", { { 2, u } } }, { "P", { { 3, -3 * u } } } };
    return p;
}
const Problem& prob(int k) { static const Problem P[3] = { chain(), ring(), wide() }; return P[k]; }
void digest(Dig& g, const Fields& f) { g.v(f.tof); for (auto& s : f.start) for (char c : s) g.i(c); for (auto& e : f.ltof) g.m(e.second); for (auto& e : f.conc) g.m(e.second); }
uint64_t toolbox(int k, bool fwd) { Toolbox t(graphOf(prob(k))); setup(t, prob(k)); Dig g; digest(g, compute(t, prob(k).wells, fwd)); return g.h; }
uint64_t both(int k) { Toolbox t(graphOf(prob(k))); setup(t, prob(k)); Dig g; digest(g, compute(t, prob(k).wells, true)); digest(g, compute(t, prob(k).wells, false)); digest(g, compute(t, prob(k).wells, true)); return g.h; }
uint64_t graph(int k)
{
    Opm::AssembledConnections g; Dig d;
    int n = k ? 4 : 3;
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if ((a * 3 + b * (k + 1)) % 4 != 1) g.addConnection(n - 1 - a, b, a + 0.25 * b);
    g.addConnection(0, 1, 5); g.compress(n + k);
    for (size_t x : g.startPointers()) d.i(x);
    for (size_t r = 0; r < g.numRows(); ++r) for (const auto& e : g.cellNeighbourhood(int(r))) { d.i(e.neighbour); d.d(e.weight); }
    return d.h;
}
void scc(Dig& d, const TarjanSCCResult* r) { size_t n = tarjan_get_numcomponents(r); d.i(n); for (size_t k = 0; k < n; ++k) { auto c = tarjan_get_strongcomponent(r, k); d.i(c.size); for (size_t j = 0; j < c.size; ++j) d.i(c.vertex[j]); } }
struct Del { void operator()(TarjanSCCResult* p) { destroy_tarjan_sccresult(p); } void operator()(TarjanWorkSpace* p) { destroy_tarjan_workspace(p); } };
typedef std::unique_ptr<TarjanSCCResult, Del> Res;
uint64_t components(int k)
{
    ::scc::Graph g;
    if (k) { g.row({ 1 }); g.row({ 2, 3 }); g.row({ 0 }); g.row({ 4 }); g.row({ 3 }); } else { g.row({ 1, 2 }); g.row({}); g.row({ 1, 3 }); g.row({ 2 }); }
    Dig d;
    Res r(tarjan(g.n(), g.ia.data(), g.ja.data())); scc(d, r.get());
    d.i(tarjan_reverse_sccresult(r.get())); scc(d, r.get());
    std::unique_ptr<TarjanWorkSpace, Del> w(create_tarjan_workspace(g.n()));
    int st[2] = { 3, 1 };
    for (int j = 1; j <= 2; ++j) { Res q(tarjan_reachable_sccs(g.n(), g.ia.data(), g.ja.data(), j, st, w.get())); scc(d, q.get()); }
    return d.h;
}
uint64_t curve(int k)
{
    std::vector<double> ti{ 1, 4, 2, 0.5 }, tp{ 3, 1, 1, 2 }, pv{ 2, 1, 3, 100 };
    if (k) { ti = { 9, 1, 5 }; tp = { 1, 1, 2 }; pv = { 1, 1, 4 }; }
    Graph g = flowCapacityStorageCapacityCurve(ti, tp, pv, k ? 1.0 : 0.5); Graph s = sweepEfficiency(g);
    Dig d; d.v(g.first); d.v(g.second); d.v(s.first); d.v(s.second); d.d(lorenzCoefficient(g));
    return d.h;
}
uint64_t random(int k) { Opm::RandomVector r; Dig d; for (int j = 0; j < 2; ++j) { for (int x : r.index(3 + k, 9)) d.i(x); d.v(r.normal(3, k, 2)); } return d.h; }
uint64_t printing(int k)
{
    Opm::AssembledConnections g; g.addConnection(0, 1, 0.1 + k); g.addConnection(k, 0, 1e-7); g.compress(2);
    std::ostringstream s; s.precision(5); s << 1.0 / 3 << g << 1.0 / 3;
    Dig d; for (char c : s.str()) d.i(c);
    return d.h;
}
uint64_t containers(int k)
{
    CellSet s(CellSetID(k ? "W1" : "another rather long well name"), { 3, 1, 3 }); s.insert(k); s.insert(7);
    CellSet t(s); t.insert(50);
    ConnectionValues v(ConnectionValues::NumConnections{ 3 }, ConnectionValues::NumPhases{ size_t(k + 1) }); v(ConnectionValues::ConnID{ 2 }, ConnectionValues::PhaseID{ size_t(k) }) = 4 + k;
    Solution a; a.assignGlobalToF({ 1.0 * k, 2 }); a.assign(s.id(), Solution::TimeOfFlight{ { { 1, 2.0 + k } } }); a.assign(s.id(), Solution::TracerConcentration{ { { 1, 0.5 } } }); Solution b(a);
    Dig d; std::set<int> m(s.begin(), s.end()), n(t.begin(), t.end()); for (int x : m) d.i(x); for (int x : n) d.i(x);
    for (size_t c = 0; c < 3; ++c) for (size_t p = 0; p <= size_t(k); ++p) d.d(v(ConnectionValues::ConnID{ c }, ConnectionValues::PhaseID{ p }));
    digest(d, extract(b));
    return d.h;
}
uint64_t rejecting(int k) // failing operations
{
    Dig d;
    try { ConnectivityGraph g(2, { 0, 1, k ? 2 : -1, 0 }); d.i(1); } catch (const std::exception&) { d.i(2); }
    Toolbox t(graphOf(prob(0)));
    try { t.assignPoreVolume({ 1.0 }); d.i(1); } catch (const std::exception&) { d.i(2); }
    try { t.computeInjectionDiagnostics({}); d.i(1); } catch (const std::exception&) { d.i(2); }
    Opm::AssembledConnections g; g.addConnection(3, 0); try { g.compress(2); d.i(1); } catch (const std::exception&) { d.i(2); }
    return d.h;
}
// shared, finished results read by both threads
struct Shared {
    Toolbox t; Toolbox::Forward f; Toolbox::Reverse b; Opm::AssembledConnections g; Res r; ::scc::Graph sg;
    std::map<CellSetID, CellSetValues> w; Graph cv;
    // inputs given to objects of both threads
    ConnectivityGraph ig = graphOf(prob(0)); ConnectionValues iq = fluxOf(prob(0)); std::map<CellSetID, CellSetValues> iw{ { CellSetID("an injector with a long name"), { { 0, u } } }, { CellSetID("P"), { { 2, -u } } } }; std::vector<CellSet> is{ CellSet(CellSetID("an injector with a long name"), { 0 }) }; Opm::AssembledConnections dn, up; CellSetValues src{ { 0, u } };
    static Toolbox make() { Toolbox t(graphOf(prob(2))); setup(t, prob(2)); return t; }
    Shared() : t(make()), f(t.computeInjectionDiagnostics(startSets(prob(2).wells, true))), b(t.computeProductionDiagnostics(startSets(prob(2).wells, false))), w(wellsOf(prob(2).wells))
    {
        for (int a = 0; a < 4; ++a) g.addConnection(a, (a * 2 + 1) % 4, a + 1.0); g.compress(4);
        sg.row({ 1 }); sg.row({ 0, 2 }); sg.row({ 3 }); sg.row({}); r.reset(tarjan(sg.n(), sg.ia.data(), sg.ja.data()));
        dn.addConnection(0, 1, u); dn.addConnection(1, 2, u); dn.compress(3); up.addConnection(1, 0, u); up.addConnection(2, 1, u); up.compress(3);
        cv = flowCapacityStorageCapacityCurve({ 1, 2, 4 }, { 1, 1, 1 }, { 1, 2, 1 });
    }
};
std::unique_ptr<const Shared> sharedNow; // made anew before every execution: nobody has read it yet
const Shared& shared() { return *sharedNow; }
uint64_t readers(int k)
{
    const Shared& s = shared(); Dig d;
    if (k == 0) { digest(d, extract(s.f.fd)); digest(d, extract(s.b.fd)); Solution c(s.f.fd); digest(d, extract(c)); }
    else if (k == 1) {
        d.d(injectorProducerPairVolume(s.f, s.b, prob(2).pv, CellSetID("A"), CellSetID("P"))); d.d(injectorProducerPairFlux(s.f, s.b, CellSetID("B"), CellSetID("P"), s.w).second);
        d.v(sweepEfficiency(s.cv).second); d.d(lorenzCoefficient(s.cv));
        Graph g = flowCapacityStorageCapacityCurve(s.f, s.b, prob(2).pv); d.v(g.second);
    } else if (k == 3) {
        Toolbox t(s.ig); t.assignPoreVolume(prob(0).pv); t.assignConnectionFlux(s.iq); t.assignInflowFlux(s.iw);
        digest(d, extract(t.computeInjectionDiagnostics(s.is).fd));
        TracerTofSolver v(s.dn, s.up, prob(0).pv, s.src); d.v(v.solveGlobal()); d.m(v.solveLocal(s.src).concentration);
        for (auto& c : s.is) { for (char x : c.id().to_string()) d.i(x); for (int x : c) d.i(x); }
        for (size_t c = 0; c < s.ig.numConnections(); ++c) { d.i(s.ig.connection(c).second); d.d(s.iq(ConnectionValues::ConnID{ c }, ConnectionValues::PhaseID{ 0 })); }
    } else {
        for (size_t r = 0; r < s.g.numRows(); ++r) for (const auto& e : s.g.cellNeighbourhood(int(r))) { d.i(e.neighbour); d.d(e.weight); }
        scc(d, s.r.get()); Opm::AssembledConnections h(s.g); d.i(h.neighbourhood().size());
        Res q(tarjan(s.sg.n(), s.sg.ia.data(), s.sg.ja.data())); scc(d, q.get());
        std::ostringstream o; o << s.g; d.i(o.str().size());
    }
    return d.h;
}
// larger problems: code that only runs above some size
Problem field()
{
    Problem p; const int n = 7; p.n = n * n; p.nph = 2;
    for (int y = 0; y < n; ++y) for (int x = 0; x < n; ++x) {
        auto add = [&](int a, int b, double f) { p.conn.push_back({ { a, b } }); p.flux.push_back(f * u); p.flux.push_back(0.25 * f * u); };
        if (x + 1 < n) add(y * n + x, y * n + x + 1, (y % 3 == 1 ? -1 : 1) * (1 + (x * 3 + y) % 4)); // rows in opposite directions: loops
        if (y + 1 < n) add(y * n + x, (y + 1) * n + x, (x + y) % 3 == 0 ? -1.0 : 2.0);
        p.pv.push_back(10 + (x * 7 + y * 5) % 9);
    }
    for (int k = 0; k < 12; ++k) { p.wells[vf::sfmt("I%02d", k)] = { { k * 4 % p.n, u * (1 + k % 3) }, { (k * 4 + 7) % p.n, u } }; p.wells[vf::sfmt("P%02d", k)] = { { (k * 4 + 2) % p.n, -u * (1 + k % 2) } }; }
    return p;
}
const Problem& big() { static const Problem P = field(); return P; }
uint64_t large(int k)
{
    Dig d;
    switch (k) {
    case 0: case 1: { Toolbox t(graphOf(big())); setup(t, big()); digest(d, compute(t, big().wells, k == 0)); break; }
    case 2: {
        Opm::AssembledConnections g; for (int i = 0; i < 3000; ++i) g.addConnection(i * 37 % 1300, i * 101 % 1250, 1.0 + i % 5);
        g.compress(1400); for (size_t x : g.startPointers()) d.i(x);
        for (size_t r = 0; r < g.numRows(); r += 3) for (const auto& e : g.cellNeighbourhood(int(r))) { d.i(e.neighbour); d.d(e.weight); }
        std::ostringstream o; o << g; d.i(o.str().size()); break; }
    case 3: {
        ::scc::Graph g; const int n = 2600; for (int i = 0; i < n; ++i) { if (i < 1200) g.row({ (i + 1) % 1200 }); else if (i < 2400) g.row({ i == 2399 ? 1200 : i + 1, i % 700 }); else g.row({ i - 5, i - 2400 }); }
        Res r(tarjan(g.n(), g.ia.data(), g.ja.data())); scc(d, r.get()); d.i(tarjan_reverse_sccresult(r.get())); scc(d, r.get());
        std::unique_ptr<TarjanWorkSpace, Del> w(create_tarjan_workspace(g.n())); int st[3] = { 2500, 1300, 5 };
        Res q(tarjan_reachable_sccs(g.n(), g.ia.data(), g.ja.data(), 3, st, w.get())); scc(d, q.get()); d.i(tarjan_reverse_sccresult(q.get())); scc(d, q.get()); break; }
    case 4: {
        std::vector<double> a, b, v; for (int i = 0; i < 3000; ++i) { a.push_back(1 + i * 577 % 3001); b.push_back(2 + i * 91 % 1009); v.push_back(1 + i % 7); }
        Graph g = flowCapacityStorageCapacityCurve(a, b, v, 0.5), e = sweepEfficiency(g); d.v(g.first); d.v(g.second); d.v(e.first); d.v(e.second); d.d(lorenzCoefficient(g)); break; }
    case 5: { Opm::RandomVector r; for (int x : r.index(6000, 100)) d.i(x); d.v(r.normal(6000, 1, 2)); for (int x : r.index(7, 100)) d.i(x); break; }
    default: {
        std::vector<int> l; for (int i = 0; i < 2000; ++i) l.push_back(i * 13 % 1777);
        CellSet s(CellSetID("LARGE"), l), t(s); t.insert(5000); std::set<int> m(s.begin(), s.end()), n(t.begin(), t.end()); for (int x : m) d.i(x); d.i(n.size());
        ConnectionValues v(ConnectionValues::NumConnections{ 700 }, ConnectionValues::NumPhases{ 3 });
        for (size_t c = 0; c < 700; ++c) v(ConnectionValues::ConnID{ c }, ConnectionValues::PhaseID{ c % 3 }) = 1.0 * c;
        for (size_t c = 0; c < 700; ++c) d.d(v(ConnectionValues::ConnID{ c }, ConnectionValues::PhaseID{ 1 }));
        Solution a; a.assignGlobalToF(std::vector<double>(500, 3.0));
        for (int i = 0; i < 60; ++i) { CellSetValues x; for (int j = 0; j < i; ++j) x[j * 3] = i + j; a.assign(CellSetID(vf::sfmt("W%d", i)), Solution::TimeOfFlight{ x }); a.assign(CellSetID(vf::sfmt("W%d", i)), Solution::TracerConcentration{ x }); }
        Solution b(a); digest(d, extract(b)); break; }
    }
    return d.h;
}
struct SharedBig { Toolbox t; Toolbox::Forward f; Toolbox::Reverse b; std::map<CellSetID, CellSetValues> w; static Toolbox make() { Toolbox t(graphOf(big())); setup(t, big()); return t; } SharedBig() : t(make()), f(t.computeInjectionDiagnostics(startSets(big().wells, true))), b(t.computeProductionDiagnostics(startSets(big().wells, false))), w(wellsOf(big().wells)) {} };
std::unique_ptr<const SharedBig> sharedBigNow;
const SharedBig& sharedBig() { return *sharedBigNow; }
uint64_t readBig()
{
    const SharedBig& s = sharedBig(); Dig d;
    digest(d, extract(s.f.fd)); digest(d, extract(s.b.fd));
    for (int k = 0; k < 12; k += 5) { d.d(injectorProducerPairVolume(s.f, s.b, big().pv, CellSetID(vf::sfmt("I%02d", k)), CellSetID(vf::sfmt("P%02d", 11 - k)))); d.d(injectorProducerPairFlux(s.f, s.b, CellSetID(vf::sfmt("I%02d", k)), CellSetID(vf::sfmt("P%02d", k)), s.w).first); }
    Graph g = flowCapacityStorageCapacityCurve(s.f, s.b, big().pv); d.v(g.first);
    return d.h;
}
struct Load { const char* name; uint64_t (*f)(); };
#define L(n, e) { n, [] { return uint64_t(e); } }
const Load LOADS[] = {
    L("graph-a", graph(0)), L("graph-b", graph(1)), L("components-a", components(0)), L("components-b", components(1)),
    L("curve-a", curve(0)), L("curve-b", curve(1)), L("random-a", random(0)), L("random-b", random(1)),
    L("printing-a", printing(0)), L("printing-b", printing(1)), L("containers-a", containers(0)), L("containers-b", containers(1)), L("rejecting-a", rejecting(0)), L("rejecting-b", rejecting(1)),
    L("read-solution", readers(0)), L("read-derived", readers(1)), L("read-graphs", readers(2)), L("read-inputs", readers(3)),
    L("toolbox-chain-forward", toolbox(0, true)), L("toolbox-loop-reverse", toolbox(1, false)), L("toolbox-two-phase", toolbox(2, true)), L("toolbox-both", both(0)),
    L("large-toolbox-forward", large(0)), L("large-toolbox-reverse", large(1)), L("large-graph", large(2)), L("large-components", large(3)), L("large-curve", large(4)), L("large-random", large(5)), L("large-containers", large(6)), L("read-large", readBig()),
};
const int NL = 22, NBIG = 8; // small and large workloads
void freshShared(int l) { if (l >= 14 && l <= 17) sharedNow.reset(new Shared); if (l == 29) sharedBigNow.reset(new SharedBig); }

// ---- operation-level interleavings within one thread
// A script is a fixed sequence of operations on its own objects; all merges of two scripts are executed.
struct Script {
    int kind, k; Dig d;
    std::unique_ptr<Toolbox> t; std::unique_ptr<Opm::AssembledConnections> g; std::unique_ptr<TarjanWorkSpace, Del> w; Res r; ::scc::Graph sg;
    std::unique_ptr<Opm::AssembledConnections> dn, up; std::unique_ptr<TracerTofSolver> s; CellSetValues src;
    Script(int kind_, int k_) : kind(kind_), k(k_) {}
    std::unique_ptr<Toolbox::Forward> fw; std::unique_ptr<Toolbox::Reverse> rv; Graph cv; std::unique_ptr<Opm::RandomVector> rnd; std::unique_ptr<std::ostringstream> os;
    static int len(int kind) { return kind == 3 || kind == 5 ? 6 : 7; }
    void step(int q)
    {
        const Problem& p = prob(k);
        if (kind == 0) switch (q) {
            case 0: t.reset(new Toolbox(graphOf(p))); break;
            case 1: t->assignPoreVolume(p.pv); break;
            case 2: t->assignInflowFlux(wellsOf(p.wells)); break;
            case 3: t->assignConnectionFlux(fluxOf(p)); break;
            case 4: digest(d, compute(*t, p.wells, true)); break;
            case 5: digest(d, compute(*t, p.wells, false)); break;
            case 6: digest(d, compute(*t, p.wells, true)); t.reset(); break;
        } else if (kind == 1) switch (q) {
            case 0: g.reset(new Opm::AssembledConnections); break;
            case 1: g->addConnection(2, k, 1.0); break;
            case 2: g->addConnection(0, 3, 2.0 + k); break;
            case 3: g->compress(3 + k); break;
            case 4: read(); break;
            case 5: g->addConnection(k, 1, 7); g->addConnection(k, 1, 8); g->compress(4); break;
            case 6: read(); g.reset(); break;
        } else if (kind == 2) switch (q) {
            case 0: if (k) { sg.row({ 1 }); sg.row({ 2, 3 }); sg.row({ 0 }); sg.row({ 4 }); sg.row({ 3 }); } else { sg.row({ 1, 2 }); sg.row({}); sg.row({ 1, 3 }); sg.row({ 2 }); } w.reset(create_tarjan_workspace(sg.n())); break;
            case 1: { int st[1] = { 3 }; r.reset(tarjan_reachable_sccs(sg.n(), sg.ia.data(), sg.ja.data(), 1, st, w.get())); break; }
            case 2: scc(d, r.get()); break;
            case 3: d.i(tarjan_reverse_sccresult(r.get())); scc(d, r.get()); break;
            case 4: r.reset(tarjan(sg.n(), sg.ia.data(), sg.ja.data())); break;
            case 5: scc(d, r.get()); break;
            case 6: { int st[2] = { 1, 0 }; r.reset(tarjan_reachable_sccs(sg.n(), sg.ia.data(), sg.ja.data(), 2, st, w.get())); scc(d, r.get()); r.reset(); w.reset(); break; }
        } else if (kind == 4) switch (q) {
            case 0: { Toolbox x(graphOf(p)); setup(x, p); fw.reset(new Toolbox::Forward(x.computeInjectionDiagnostics(startSets(p.wells, true)))); rv.reset(new Toolbox::Reverse(x.computeProductionDiagnostics(startSets(p.wells, false)))); break; }
            case 1: d.d(injectorProducerPairVolume(*fw, *rv, p.pv, CellSetID(k == 2 ? "A" : "I"), CellSetID("P"))); break;
            case 2: { auto x = injectorProducerPairFlux(*fw, *rv, CellSetID(k == 2 ? "A" : "I"), CellSetID("P"), wellsOf(p.wells)); d.d(x.first); d.d(x.second); break; }
            case 3: cv = flowCapacityStorageCapacityCurve(*fw, *rv, p.pv, 0.6); d.v(cv.first); d.v(cv.second); break;
            case 4: d.d(lorenzCoefficient(cv)); break;
            case 5: { Graph x = sweepEfficiency(cv); d.v(x.first); d.v(x.second); break; }
            case 6: digest(d, extract(fw->fd)); d.d(injectorProducerPairVolume(*fw, *rv, p.pv, CellSetID(k == 2 ? "A" : "I"), CellSetID("P"))); fw.reset(); rv.reset(); break;
        } else if (kind == 5) switch (q) {
            case 0: rnd.reset(new Opm::RandomVector); os.reset(new std::ostringstream); break;
            case 1: d.v(rnd->normal(3 + k, 1.0 * k, 2.0)); break;
            case 2: for (int x : rnd->index(5, 9 + k)) d.i(x); break;
            case 3: { Opm::AssembledConnections a; a.addConnection(k, 0, 0.1 + k); a.compress(3); os->precision(3 + k); *os << 1.0 / 3 << a << 2.0 / 3; for (char x : os->str()) d.i(x); break; }
            case 4: d.v(rnd->normal(2)); break;
            case 5: for (int x : rnd->index(200, 3)) d.i(x); rnd.reset(); break;
        } else switch (q) {
            case 0: dn.reset(new Opm::AssembledConnections); up.reset(new Opm::AssembledConnections);
                for (size_t c = 0; c < p.conn.size(); ++c) { double f = 0; for (int h = 0; h < p.nph; ++h) f += p.flux[c * p.nph + h]; int a = p.conn[c][f > 0 ? 0 : 1], b = p.conn[c][f > 0 ? 1 : 0]; dn->addConnection(a, b, std::fabs(f)); up->addConnection(b, a, std::fabs(f)); }
                break;
            case 1: dn->compress(p.n); up->compress(p.n); break;
            case 2: for (auto& e : p.wells) for (auto& x : e.second) if (x.second > 0) src[x.first] += x.second; s.reset(new TracerTofSolver(*dn, *up, p.pv, src)); break;
            case 3: d.v(s->solveGlobal()); break;
            case 4: { auto l = s->solveLocal(CellSetValues{ *src.begin() }); d.m(l.tof); d.m(l.concentration); break; }
            case 5: d.v(s->solveGlobal()); s.reset(); break;
        }
    }
    void read() { for (size_t x : g->startPointers()) d.i(x); for (size_t r = 0; r < g->numRows(); ++r) for (const auto& e : g->cellNeighbourhood(int(r))) { d.i(e.neighbour); d.d(e.weight); } }
};
uint64_t alone(int kind, int k) { Script s(kind, k); for (int q = 0; q < Script::len(kind); ++q) s.step(q); return s.d.h; }
uint64_t choose(unsigned n, unsigned k) { uint64_t r = 1; for (unsigned i = 1; i <= k; ++i) r = r * (n - k + i) / i; return r; }
const int NK = 6;

vf::Space merges()
{
    struct Item { int a, ka, b, kb; };
    auto items = std::make_shared<std::vector<Item>>(); auto off = std::make_shared<std::vector<uint64_t>>(); uint64_t tot = 0;
    for (int a = 0; a < NK; ++a) for (int b = a; b < NK; ++b) for (int ka = 0; ka < 3; ++ka) for (int kb = 0; kb < 3; ++kb) {
        items->push_back({ a, ka, b, kb }); off->push_back(tot); tot += choose(Script::len(a) + Script::len(b), Script::len(a));
    }
    auto ref = std::make_shared<std::vector<uint64_t>>();
    for (int a = 0; a < NK; ++a) for (int k = 0; k < 3; ++k) ref->push_back(alone(a, k));
    return { "merges", "two scripts of 6..7 operations each on separate objects (toolboxes, solvers, graphs, component work-spaces, derived quantities, random vectors and output streams; 3 data sets each) in one thread, every order-preserving merge", tot, [=](uint64_t i, vf::Ctx& c) {
        size_t q = std::upper_bound(off->begin(), off->end(), i) - off->begin() - 1;
        Item it = (*items)[q]; uint64_t rank = i - (*off)[q];
        int n = Script::len(it.a), m = Script::len(it.b);
        c.note("script %d/%d with %d/%d, order ", it.a, it.ka, it.b, it.kb);
        Script A(it.a, it.ka), B(it.b, it.kb);
        int x = 0, y = 0;
        while (x < n || y < m) { // unrank the merge
            bool first;
            if (x == n) first = false; else if (y == m) first = true;
            else { uint64_t ways = choose(n - x - 1 + m - y, m - y); if (rank < ways) first = true; else { rank -= ways; first = false; } }
            c.note(first ? "A" : "B");
            if (first) A.step(x++); else B.step(y++);
            ++c.transitions; ++c.states;
        }
        VF_REQUIRE(A.d.h == (*ref)[it.a * 3 + it.ka], "the first object's results differ from those of the same operations alone");
        VF_REQUIRE(B.d.h == (*ref)[it.b * 3 + it.kb], "the second object's results differ from those of the same operations alone");
        ++c.traces; ++c.nontrivial; c.outcome(vf::mix(q, i % 97));
    } };
}
}

#ifdef VF_SCHED
namespace {
const std::vector<uint64_t>& refs() { static const std::vector<uint64_t> R = [] { std::vector<uint64_t> r; for (int l = 0; l < NL + NBIG; ++l) { freshShared(l); r.push_back(LOADS[l].f()); } return r; }(); return R; }
struct Res2 { uint64_t h[2] = { 0, 0 }; };
sched::Outcome execute(int a, int b, std::vector<sched::Segment> plan, vf::Ctx& c, std::vector<sched::Access>* la = nullptr, std::vector<sched::Access>* lb = nullptr)
{
    uint64_t h[2] = { 0, 0 }; bool threw[2] = { false, false };
    freshShared(a); if ((a == 29) != (b == 29) || !(a >= 14 && a <= 17)) freshShared(b);
    auto job = [&](int t, int l) { return [&, t, l] { try { h[t] = LOADS[l].f(); } catch (const std::exception&) { threw[t] = true; } }; };
    auto o = sched::run(job(0, a), job(1, b), std::move(plan), la, lb);
    for (int t = 0; t < 2; ++t) {
        VF_REQUIRE(!threw[t], "thread %d (%s) got an exception it does not get alone", t, LOADS[t ? b : a].name);
        VF_REQUIRE(h[t] == refs()[t ? b : a], "thread %d (%s) got a result different from the one it gets alone", t, LOADS[t ? b : a].name);
    }
    c.transitions += o.switches + 2; c.states += o.steps[0] + o.steps[1]; ++c.traces; c.nontrivial += o.switches > 1; c.skipped += o.blocked;
    c.outcome(vf::mix(vf::mix(a, b), o.switches));
    return o;
}
struct Pair { int a, b; uint64_t steps[2]; std::vector<uint64_t> hot[2]; size_t shared; bool large; };

// Steps of each thread that touch data both threads touch, at least one of them writing.
size_t conflicts(const std::vector<sched::Access>* l, std::vector<uint64_t>* hot)
{
    // byte -> bit 0/1 read by 0/1, bit 2/3 written by 0/1; eight bytes to a word
    std::unordered_map<uint64_t, std::array<uint8_t, 8>> use; use.reserve(1 << 16);
    auto each = [&](const sched::Access& x, auto f) { uint64_t e = x.addr + x.size; for (uint64_t q = x.addr; q < e;) { auto& w = use[q >> 3]; do { if (f(w[q & 7])) return true; ++q; } while (q < e && (q & 7)); } return false; };
    for (int t = 0; t < 2; ++t) for (auto& x : l[t]) each(x, [&](uint8_t& m) { m |= (x.write ? 4 : 1) << t; return false; });
    auto conflict = [&](const sched::Access& x) { return each(x, [](uint8_t& m) { return (m & 5) && (m & 10) && (m & 12); }); };
    std::set<uint64_t> cells;
    for (int t = 0; t < 2; ++t) for (auto& x : l[t]) if (conflict(x)) { cells.insert(x.addr); if (hot[t].empty() || hot[t].back() != x.step) hot[t].push_back(x.step); }
    return cells.size();
}
void analyse(Pair& p)
{
    vf::Ctx c;
    std::vector<sched::Access> l[2];
    for (auto& x : l) x.reserve(1 << 21);
    sched::arenaReset();
    try { execute(p.a, p.b, { { 0, ~0ull }, { 1, ~0ull } }, c, &l[0], &l[1]); } catch (const vf::Fail&) {} // reported by the enumeration
    p.shared = conflicts(l, p.hot);
}
std::vector<uint64_t> thin(const std::vector<uint64_t>& v, size_t cap) // the first quarter and an even selection of the rest
{
    if (v.size() <= cap) return v;
    std::vector<uint64_t> h(v.begin(), v.begin() + cap / 4);
    for (size_t k = 0; k < cap - cap / 4; ++k) h.push_back(v[cap / 4 + k * (v.size() - cap / 4) / (cap - cap / 4)]);
    return h;
}

// Executions in a process in which nothing of the library has run before: a helper process forked at the very
// start forks one child per execution.
const size_t COLDCAP = 40;
struct Request { int a, b, log, nseg; sched::Segment seg[5]; };
struct Reply { int status; uint64_t h[2]; int threw[2]; sched::Outcome o; uint64_t shared, nhot[2], hot[2][COLDCAP]; };
struct Zygote {
    int fd = -1;
    static bool all(int f, void* p, size_t n, bool w) { char* c = (char*)p; while (n) { ssize_t k = w ? write(f, c, n) : read(f, c, n); if (k <= 0) return false; c += k; n -= size_t(k); } return true; }
    static Reply child(const Request& q)
    {
        Reply r; memset(&r, 0, sizeof r);
        alarm(60);
        freshShared(q.a); if ((q.a == 29) != (q.b == 29) || !(q.a >= 14 && q.a <= 17)) freshShared(q.b);
        auto job = [&](int t, int l) { return [&r, t, l] { try { r.h[t] = LOADS[l].f(); } catch (const std::exception&) { r.threw[t] = 1; } }; };
        std::vector<sched::Access> l[2];
        if (q.log) for (auto& x : l) x.reserve(1 << 21);
        r.o = sched::run(job(0, q.a), job(1, q.b), std::vector<sched::Segment>(q.seg, q.seg + q.nseg), q.log ? &l[0] : nullptr, q.log ? &l[1] : nullptr);
        if (q.log) { std::vector<uint64_t> hot[2]; r.shared = conflicts(l, hot); for (int t = 0; t < 2; ++t) { auto h = thin(hot[t], COLDCAP); r.nhot[t] = h.size(); std::copy(h.begin(), h.end(), r.hot[t]); } }
        return r;
    }
    void start()
    {
        int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { perror("socketpair"); exit(2); }
        pid_t me = getpid(), z = fork();
        if (z < 0) { perror("fork"); exit(2); }
        if (z > 0) { close(sv[1]); fd = sv[0]; return; }
        prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != me) _exit(0);
        close(sv[0]);
        Request q;
        while (all(sv[1], &q, sizeof q, false)) {
            pid_t c = fork();
            if (c == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); Reply r = child(q); _exit(all(sv[1], &r, sizeof r, true) ? 0 : 1); }
            int st = 0; Reply r; memset(&r, 0, sizeof r);
            if (c < 0) r.status = -1;
            else { while (waitpid(c, &st, 0) < 0) {} r.status = WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st) ? 1000 + WEXITSTATUS(st) : 0; }
            if (r.status) all(sv[1], &r, sizeof r, true);
        }
        _exit(0);
    }
    Reply run(int a, int b, const std::vector<sched::Segment>& plan, bool log)
    {
        Request q; memset(&q, 0, sizeof q); q.a = a; q.b = b; q.log = log; q.nseg = int(plan.size()); std::copy(plan.begin(), plan.end(), q.seg);
        Reply r; memset(&r, 0, sizeof r);
        if (!all(fd, &q, sizeof q, true) || !all(fd, &r, sizeof r, false) || r.status < 0) { fprintf(stderr, "the helper process is gone\n"); exit(2); }
        return r;
    }
};
Zygote& zygote() { static Zygote z; return z; }
Reply cold(int a, int b, const std::vector<sched::Segment>& plan, vf::Ctx& c)
{
    Reply r = zygote().run(a, b, plan, false);
    VF_REQUIRE(r.status != SIGALRM, "the threads (%s with %s) did not finish within 60 seconds in a new process", LOADS[a].name, LOADS[b].name);
    VF_REQUIRE(r.status == 0, "the process crashed (status %d) running %s with %s for the first time", r.status, LOADS[a].name, LOADS[b].name);
    for (int t = 0; t < 2; ++t) {
        VF_REQUIRE(!r.threw[t], "thread %d (%s) got an exception it does not get alone", t, LOADS[t ? b : a].name);
        VF_REQUIRE(r.h[t] == refs()[t ? b : a], "thread %d (%s) got a result different from the one it gets alone", t, LOADS[t ? b : a].name);
    }
    c.transitions += r.o.switches + 2; c.states += r.o.steps[0] + r.o.steps[1]; ++c.traces; c.nontrivial += r.o.switches > 1; c.skipped += r.o.blocked;
    c.outcome(vf::mix(vf::mix(a + 100, b), r.o.switches));
    return r;
}
}
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    prob(0); big();   // the harness's own data
    zygote().start(); // before anything of the library has run in this process
    refs();
    auto pairs = std::make_shared<std::vector<Pair>>();
    const int TB = 18; // the first toolbox load
    std::vector<std::pair<int, int>> select;
    for (int a = 0; a < NL; ++a) for (int b = a; b < NL; ++b) {
        // quick tier: all pairs of like kinds, and one pair of every two different kinds
        bool like = a / 2 == b / 2 || (a >= 14 && a < TB && b >= 14 && b < TB) || (a >= TB && b >= TB);
        if (!o.thorough && !like && !(a % 2 == 0 && b % 2 == 1)) continue;
        select.push_back({ a, b });
    }
    for (int a = 0; a < NBIG; ++a) for (int b = a; b < NBIG; ++b) select.push_back({ NL + a, NL + b });
    for (auto& ab : select) {
        const int a = ab.first, b = ab.second;
        Pair p{ a, b, { 0, 0 }, {}, 0, a >= NL };
        vf::Ctx c;
        try { auto r = execute(a, b, { { 0, ~0ull }, { 1, ~0ull } }, c); p.steps[0] = r.steps[0]; p.steps[1] = r.steps[1]; r = execute(a, b, { { 0, ~0ull }, { 1, ~0ull } }, c); p.steps[0] = r.steps[0]; p.steps[1] = r.steps[1]; }
        catch (const vf::Fail&) {}
        analyse(p);
        pairs->push_back(p);
    }
    std::vector<vf::Space> S;
    uint64_t n = pairs->size();
    S.push_back({ "independence", vf::sfmt("%llu pairs of workloads run one after the other in both orders with every load and store of the library recorded: locations touched by both threads and written by one", (unsigned long long)n), n, [=](uint64_t i, vf::Ctx& c) {
        Pair p = (*pairs)[i];
        c.note("%s with %s: %llu and %llu steps, %zu shared written locations", LOADS[p.a].name, LOADS[p.b].name, (unsigned long long)p.steps[0], (unsigned long long)p.steps[1], p.shared);
        execute(p.a, p.b, { { 0, ~0ull }, { 1, ~0ull } }, c); execute(p.a, p.b, { { 1, ~0ull }, { 0, ~0ull } }, c);
        c.outcome(p.shared * 1000 + i);
    } });
    // one preemption: thread f runs k steps, the other runs to its end, f continues
    auto off1 = std::make_shared<std::vector<uint64_t>>(); uint64_t t1 = 0;
    for (auto& p : *pairs) { off1->push_back(t1); if (!p.large) t1 += p.steps[0] + p.steps[1]; }
    S.push_back({ "one-preemption", "every schedule with one preemption, at every basic block, load and store of the library, of either thread", t1, [=](uint64_t i, vf::Ctx& c) {
        size_t q = std::upper_bound(off1->begin(), off1->end(), i) - off1->begin() - 1;
        const Pair& p = (*pairs)[q]; uint64_t k = i - (*off1)[q];
        int f = k >= p.steps[0]; if (f) k -= p.steps[0];
        c.note("%s with %s: thread %d runs %llu steps, then the other", LOADS[p.a].name, LOADS[p.b].name, f, (unsigned long long)k + 1);
        execute(p.a, p.b, { { f, k + 1 }, { 1 - f, ~0ull }, { f, ~0ull } }, c);
    } });
    // two preemptions, small pairs in full
    const uint64_t LIM = o.thorough ? 3000000 : 150000;
    auto small = std::make_shared<std::vector<size_t>>(); auto off2 = std::make_shared<std::vector<uint64_t>>(); uint64_t t2 = 0;
    for (size_t q = 0; q < pairs->size(); ++q) { auto& p = (*pairs)[q]; uint64_t s = p.steps[0] * p.steps[1]; if (s && s <= LIM && !p.large) { small->push_back(q); off2->push_back(t2); t2 += s; } }
    S.push_back({ "two-preemptions", vf::sfmt("every schedule with two preemptions for the %zu pairs with at most %llu of them", small->size(), (unsigned long long)LIM), t2, [=](uint64_t i, vf::Ctx& c) {
        size_t z = std::upper_bound(off2->begin(), off2->end(), i) - off2->begin() - 1;
        const Pair& p = (*pairs)[(*small)[z]]; uint64_t k = i - (*off2)[z];
        uint64_t k0 = k / p.steps[1] + 1, k1 = k % p.steps[1] + 1;
        c.note("%s with %s: %llu steps of thread 0, %llu of thread 1", LOADS[p.a].name, LOADS[p.b].name, (unsigned long long)k0, (unsigned long long)k1);
        execute(p.a, p.b, { { 0, k0 }, { 1, k1 }, { 0, ~0ull }, { 1, ~0ull } }, c);
    } });
    // shared written locations: up to three preemptions around every access to them
    auto hot = std::make_shared<std::vector<size_t>>(); auto off3 = std::make_shared<std::vector<uint64_t>>(); uint64_t t3 = 0;
    const size_t CAP = 60;
    for (size_t q = 0; q < pairs->size(); ++q) {
        auto& p = (*pairs)[q];
        if (p.large || p.hot[0].empty() || p.hot[1].empty()) continue;
        for (int t = 0; t < 2; ++t) if (p.hot[t].size() > CAP) { std::vector<uint64_t> h(p.hot[t].begin(), p.hot[t].begin() + CAP); p.hot[t] = h; }
        hot->push_back(q); off3->push_back(t3); t3 += p.hot[0].size() * p.hot[1].size() * p.hot[0].size();
    }
    S.push_back({ "shared-locations", vf::sfmt("every schedule with three preemptions just before accesses to shared written locations (%zu pairs have any; first %zu accesses)", hot->size(), CAP), t3, [=](uint64_t i, vf::Ctx& c) {
        size_t z = std::upper_bound(off3->begin(), off3->end(), i) - off3->begin() - 1;
        const Pair& p = (*pairs)[(*hot)[z]]; vf::Radix r(i - (*off3)[z]);
        uint64_t a = p.hot[0][r.take(p.hot[0].size())], b = p.hot[1][r.take(p.hot[1].size())], d = p.hot[0][r.take(p.hot[0].size())];
        c.note("%s with %s: thread 0 to step %llu, thread 1 to step %llu, thread 0 to step %llu", LOADS[p.a].name, LOADS[p.b].name, (unsigned long long)a, (unsigned long long)b, (unsigned long long)d);
        if (d <= a) return;
        execute(p.a, p.b, { { 0, a }, { 1, b }, { 0, d - a }, { 1, ~0ull }, { 0, ~0ull } }, c);
    } });
    // large workloads: preemption only matters at shared written locations, the other steps of the threads commute
    auto off4 = std::make_shared<std::vector<uint64_t>>(); auto lp = std::make_shared<std::vector<size_t>>(); uint64_t t4 = 0;
    const size_t CAP4 = 400;
    for (size_t q = 0; q < pairs->size(); ++q) {
        auto& p = (*pairs)[q];
        if (!p.large || p.hot[0].empty() || p.hot[1].empty()) continue;
        for (auto& h : p.hot) h = thin(h, CAP4);
        lp->push_back(q); off4->push_back(t4); t4 += p.hot[0].size() + p.hot[1].size();
    }
    S.push_back({ "large-shared-locations", vf::sfmt("the %d pairs of large workloads (49 cells and 24 wells, 3000 connections, 2600 vertices with components of 1200, 3000 curve points, 6000 samples): every schedule with one preemption just before an access to a shared written location (%zu pairs have any; at most %zu accesses each)", NBIG * (NBIG + 1) / 2, lp->size(), CAP4), t4, [=](uint64_t i, vf::Ctx& c) {
        size_t z = std::upper_bound(off4->begin(), off4->end(), i) - off4->begin() - 1;
        const Pair& p = (*pairs)[(*lp)[z]]; uint64_t k = i - (*off4)[z];
        int f = k >= p.hot[0].size(); if (f) k -= p.hot[0].size();
        c.note("%s with %s: thread %d to step %llu", LOADS[p.a].name, LOADS[p.b].name, f, (unsigned long long)p.hot[f][k]);
        execute(p.a, p.b, { { f, p.hot[f][k] }, { 1 - f, ~0ull }, { f, ~0ull } }, c);
    } });
    // first use: every execution in a new process, preempting at what is shared and written there
    struct ColdPair { int a, b; std::vector<uint64_t> hot[2]; size_t shared; };
    auto cp = std::make_shared<std::vector<ColdPair>>(); auto off5 = std::make_shared<std::vector<uint64_t>>(); uint64_t t5 = 0; size_t with = 0;
    for (auto& ab : select) for (int d = 0; d < (ab.first == ab.second ? 1 : 2); ++d) {
        ColdPair p{ d ? ab.second : ab.first, d ? ab.first : ab.second, {}, 0 };
        Reply r = zygote().run(p.a, p.b, { { 0, ~0ull }, { 1, ~0ull } }, true);
        for (int t = 0; t < 2; ++t) p.hot[t].assign(r.hot[t], r.hot[t] + r.nhot[t]);
        p.shared = r.shared; with += r.shared > 0;
        cp->push_back(p); off5->push_back(t5); t5 += 1 + p.hot[0].size() * (1 + p.hot[1].size());
    }
    S.push_back({ "first-use", vf::sfmt("%zu ordered pairs of workloads, each execution in a process in which the library has not been used before: one after the other, and every schedule with one or two preemptions just before accesses to locations shared and written in such a process (%zu pairs have any; at most %zu accesses per thread)", cp->size(), with, COLDCAP), t5, [=](uint64_t i, vf::Ctx& c) {
        size_t z = std::upper_bound(off5->begin(), off5->end(), i) - off5->begin() - 1;
        const ColdPair& p = (*cp)[z]; uint64_t k = i - (*off5)[z];
        c.note("%s then %s in a new process, %zu shared written locations", LOADS[p.a].name, LOADS[p.b].name, p.shared);
        if (k == 0) { cold(p.a, p.b, { { 0, ~0ull }, { 1, ~0ull } }, c); return; }
        uint64_t x = p.hot[0][(k - 1) % p.hot[0].size()], y = (k - 1) / p.hot[0].size();
        c.note(": thread 0 to step %llu", (unsigned long long)x);
        if (y == 0) { cold(p.a, p.b, { { 0, x }, { 1, ~0ull }, { 0, ~0ull } }, c); return; }
        c.note(", thread 1 to step %llu", (unsigned long long)p.hot[1][y - 1]);
        cold(p.a, p.b, { { 0, x }, { 1, p.hot[1][y - 1] }, { 0, ~0ull }, { 1, ~0ull } }, c);
    } });
    return S;
}
#else
std::vector<vf::Space> vf::make_spaces(const Opt&) { return { merges() }; }
#endif
VF_MAIN
