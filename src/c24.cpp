// C24: every allocation failure of every public operation, alone, persistent, and in pairs over a retry.
#include "allocfault.hpp"
#include "flow.hpp"
#include "csr.hpp"
#include "scc.hpp"
#include <opm/utility/numeric/RandomVector.hpp>
#include <memory>
#include <sstream>
using namespace flow;
namespace {
const double u = UNIT;

struct Fault { long at = -1; bool persistent = false; };
// One run of a scenario: attempt(op) performs op with the next planned fault; op returns false to report failure.
struct Run {
    std::vector<Fault> plan;
    size_t attempts = 0;
    std::vector<long> allocs;  // allocations seen per attempt
    long injected = 0, reported = 0;
    template <class F> bool attempt(F&& op)
    {
        Fault f = attempts < plan.size() ? plan[attempts] : Fault{};
        ++attempts;
        bool ok = false, crashed = false;
        long seen = 0, failed = 0;
        {
            af::Arm arm(f.at, f.persistent);
            try { ok = op(); }
            catch (const std::exception&) {}
            catch (...) { crashed = true; }
            seen = af::st().count; failed = af::st().failures;
        }
        allocs.push_back(seen); injected += failed;
        if (crashed) VF_FAIL("an exception not derived from std::exception was thrown");
        if (!ok) { ++reported; if (failed == 0) VF_FAIL("the operation failed although no allocation failed"); }
        return ok;
    }
};
struct Scenario { std::string name; std::function<void(Run&)> body; };

Problem chain()
{
    Problem p; p.n = 4;
    p.conn = { { 0, 1 }, { 1, 2 }, { 3, 2 } }; p.flux = { 2 * u, 2 * u, -u }; p.pv = { 100, 50, 25, 10 };
    p.wells = { { "I", { { 0, 2 * u } } }, { "P", { { 2, -u } } }, { "Q", { { 3, -u } } } };
    return p;
}
Problem ring() // a loop 1-2-3 fed from 0, emptied at 4
{
    Problem p; p.n = 5;
    p.conn = { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 1 }, { 3, 4 } }; p.flux = { u, 2 * u, 2 * u, u, u }; p.pv = { 10, 20, 30, 40, 50 };
    p.wells = { { "I", { { 0, u } } }, { "P", { { 4, -u } } } };
    return p;
}
Problem twoPhase() // two injectors (one of them perforating two cells), one producer, two phases, an isolated cell
{
    Problem p; p.n = 6; p.nph = 2;
    p.conn = { { 0, 1 }, { 2, 1 }, { 1, 3 }, { 4, 3 } }; p.flux = { u, u, u, 0, 2 * u, u, -u, 2 * u }; p.pv = { 1, 2, 3, 4, 5, 6 };
    p.wells = { { "A", { { 0, 2 * u } } }, { "B", { { 2, u }, { 4, u } } }, { "P", { { 3, -4 * u } } } };
    return p;
}
Problem along() // wells completed in every cell of their flow path, so that cells solved in a wrong order still see tracer
{
    Problem p; p.n = 4;
    p.conn = { { 0, 1 }, { 1, 2 }, { 3, 2 } }; p.flux = { 2 * u, 2 * u, -u }; p.pv = { 100, 50, 25, 10 };
    p.wells = { { "A", { { 0, 2 * u }, { 1, u }, { 2, u }, { 3, u } } }, { "P", { { 0, -u }, { 1, -u }, { 2, -2 * u }, { 3, -u } } } };
    return p;
}
const Problem& prob(int k) { static const Problem P[4] = { chain(), ring(), twoPhase(), along() }; return P[k]; }
const char* PN[4] = { "chain", "loop", "two-phase", "along" };
const Fields& want(int k, bool fwd) { static const Fields F[8] = { runReal(chain(), true), runReal(chain(), false), runReal(ring(), true), runReal(ring(), false), runReal(twoPhase(), true), runReal(twoPhase(), false), runReal(along(), true), runReal(along(), false) }; return F[2 * k + !fwd]; }
void equal(const Fields& a, const Fields& b, const char* what)
{
    VF_REQUIRE(a.tof == b.tof && a.ltof == b.ltof && a.conc == b.conc && a.start == b.start, "%s: result differs from the one without failures", what);
}
void checkBoth(Toolbox& t, int k) { for (int d = 0; d < 2; ++d) equal(compute(t, prob(k).wells, d == 0), want(k, d == 0), "computation after recovery"); }
// Using the objects between the failure and its repetition must be safe (results are not compared).
void use(Toolbox& t, int k) { for (int d = 0; d < 2; ++d) try { compute(t, prob(k).wells, d == 0); } catch (const std::exception&) {} }

std::vector<Scenario> scenarios()
{
    std::vector<Scenario> S;
    for (int k = 0; k < 4; ++k) {
        const std::string n = PN[k];
        S.push_back({ "toolbox-create-" + n, [k](Run& r) {
            auto g = graphOf(prob(k)); std::unique_ptr<Toolbox> t;
            while (!r.attempt([&] { t.reset(new Toolbox(g)); return true; })) {}
            setup(*t, prob(k)); checkBoth(*t, k);
        } });
        S.push_back({ "toolbox-graph-" + n, [k](Run& r) {
            std::vector<int> l; for (auto& e : prob(k).conn) { l.push_back(e[0]); l.push_back(e[1]); }
            std::unique_ptr<ConnectivityGraph> g;
            while (!r.attempt([&] { g.reset(new ConnectivityGraph(prob(k).n, l)); return true; })) {}
            for (size_t q = 0; q < prob(k).conn.size(); ++q) VF_REQUIRE(g->connection(q).first == l[2 * q] && g->connection(q).second == l[2 * q + 1], "graph differs");
        } });
        for (int pre = 0; pre < 3; ++pre) // 0: fresh, 1: other data of the same grid assigned, 2: and computed with
            for (int what = 0; what < 3; ++what)
                S.push_back({ vf::sfmt("toolbox-assign-%s-%s-%d", what == 0 ? "porevolume" : what == 1 ? "flux" : "wells", PN[k], pre), [k, pre, what](Run& r) {
                    const Problem& p = prob(k);
                    Toolbox t(graphOf(p));
                    if (pre) {
                        Problem q = p;
                        q.nph = 1; q.flux.assign(p.conn.size(), 3 * u); q.pv.assign(p.n, 7.0); q.wells = { { "I", { { 0, u } } }, { "Z", { { p.n - 1, -u } } } };
                        setup(t, q);
                        if (pre == 2) { compute(t, q.wells, true); compute(t, q.wells, false); }
                    }
                    auto f = fluxOf(p); auto w = wellsOf(p.wells);
                    if (what != 0) t.assignPoreVolume(p.pv);
                    if (what != 1) t.assignConnectionFlux(f);
                    if (what != 2) t.assignInflowFlux(w);
                    while (!r.attempt([&] { if (what == 0) t.assignPoreVolume(p.pv); else if (what == 1) t.assignConnectionFlux(f); else t.assignInflowFlux(w); return true; })) use(t, k);
                    checkBoth(t, k);
                } });
        for (int dir = 0; dir < 2; ++dir)
            for (int warm = 0; warm < 2; ++warm)
                S.push_back({ vf::sfmt("toolbox-compute-%s-%s-%s", dir ? "reverse" : "forward", PN[k], warm ? "again" : "first"), [k, dir, warm](Run& r) {
                    const Problem& p = prob(k);
                    Toolbox t(graphOf(p)); setup(t, p);
                    if (warm) checkBoth(t, k);
                    auto ss = startSets(p.wells, dir == 0);
                    std::unique_ptr<Toolbox::Forward> f; std::unique_ptr<Toolbox::Reverse> b;
                    while (!r.attempt([&] {
                        if (dir == 0) f.reset(new Toolbox::Forward(t.computeInjectionDiagnostics(ss)));
                        else b.reset(new Toolbox::Reverse(t.computeProductionDiagnostics(ss)));
                        return true; })) {}
                    equal(extract(dir == 0 ? f->fd : b->fd), want(k, dir == 0), "computation");
                    checkBoth(t, k);
                } });
        S.push_back({ "solver-" + n, [k](Run& r) { // a solver reused after failures, global and local
            const Problem& p = prob(k);
            Opm::AssembledConnections d, v;
            for (size_t c = 0; c < p.conn.size(); ++c) {
                double q = 0; for (int h = 0; h < p.nph; ++h) q += p.flux[c * p.nph + h];
                int a = p.conn[c][q > 0 ? 0 : 1], b = p.conn[c][q > 0 ? 1 : 0];
                if (q != 0) { d.addConnection(a, b, std::fabs(q)); v.addConnection(b, a, std::fabs(q)); }
            }
            d.compress(p.n); v.compress(p.n);
            CellSetValues all; std::map<std::string, CellSetValues> src;
            for (auto& w : p.wells) for (auto& e : w.second) if (e.second > 0) { all[e.first] += e.second; src[w.first][e.first] = e.second; }
            std::unique_ptr<TracerTofSolver> s;
            const Fields& F = want(k, true);
            std::vector<double> tof; std::map<std::string, TracerTofSolver::LocalSolution> loc;
            std::vector<TracerTofSolver::LocalSolution> hold; hold.reserve(8);
            while (!r.attempt([&] {
                s.reset(); s.reset(new TracerTofSolver(d, v, p.pv, all));
                tof = s->solveGlobal();
                hold.clear();
                for (auto& e : src) hold.push_back(s->solveLocal(e.second));
                return true; }))
                if (s) { // the solver that failed is used again
                    auto g = s->solveGlobal(); VF_REQUIRE(g == F.tof, "global solution of a reused solver differs");
                    for (auto& e : src) { auto l = s->solveLocal(e.second); VF_REQUIRE(l.tof == F.ltof.at(e.first) && l.concentration == F.conc.at(e.first), "local solution of a reused solver differs"); }
                }
            VF_REQUIRE(tof == F.tof, "global solution differs");
            size_t q = 0;
            for (auto& e : src) { VF_REQUIRE(hold[q].tof == F.ltof.at(e.first) && hold[q].concentration == F.conc.at(e.first), "local solution differs"); ++q; }
        } });
        S.push_back({ "derived-" + n, [k](Run& r) {
            const Problem& p = prob(k);
            Toolbox t(graphOf(p)); setup(t, p);
            auto f = t.computeInjectionDiagnostics(startSets(p.wells, true)); auto b = t.computeProductionDiagnostics(startSets(p.wells, false));
            auto w = wellsOf(p.wells); CellSetID i(p.wells.begin()->first), o("P");
            struct Out { Graph c1, c2, s; double l, v; std::pair<double, double> q; } x, y;
            std::vector<double> ti{ 1, 2, 3, 4, 5, 6 }, tp{ 6, 5, 3, 2, 2, 1 }, pv{ 1, 2, 3, 1, 2, 3 };
            auto run = [&](Out& z) {
                z.c1 = flowCapacityStorageCapacityCurve(f, b, p.pv); z.c2 = flowCapacityStorageCapacityCurve(ti, tp, pv, 0.3);
                z.s = sweepEfficiency(z.c2); z.l = lorenzCoefficient(z.c2);
                z.v = injectorProducerPairVolume(f, b, p.pv, i, o); z.q = injectorProducerPairFlux(f, b, i, o, w);
                return true; };
            run(x);
            while (!r.attempt([&] { return run(y); })) {}
            VF_REQUIRE(x.c1 == y.c1 && x.c2 == y.c2 && x.s == y.s && x.l == y.l && x.v == y.v && x.q == y.q, "derived quantities differ from those without failures");
        } });
        S.push_back({ "solution-" + n, [k](Run& r) {
            const Fields& F = want(k, true);
            std::unique_ptr<Solution> s;
            auto same = [&](const Solution& q) { equal(extract(q), F, "solution object"); };
            while (!r.attempt([&] {
                s.reset(); s.reset(new Solution);
                s->assignGlobalToF(std::vector<double>(F.tof));
                for (auto& e : F.ltof) s->assign(CellSetID(e.first), Solution::TimeOfFlight{ e.second });
                for (auto& e : F.conc) s->assign(CellSetID(e.first), Solution::TracerConcentration{ e.second });
                return true; })) if (s) extract(*s);
            same(*s);
        } });
        S.push_back({ "solution-copy-" + n, [k](Run& r) {
            const Fields& F = want(k, true);
            Solution s; s.assignGlobalToF(std::vector<double>(F.tof));
            for (auto& e : F.ltof) s.assign(CellSetID(e.first), Solution::TimeOfFlight{ e.second });
            for (auto& e : F.conc) s.assign(CellSetID(e.first), Solution::TracerConcentration{ e.second });
            std::unique_ptr<Solution> q; std::vector<CellSetID> sp; CellSetValues a, b; CellSetID id(F.conc.begin()->first);
            while (!r.attempt([&] { q.reset(new Solution(s)); sp = s.startPoints(); a = s.timeOfFlight(id); b = s.concentration(id); return true; })) equal(extract(s), F, "copied-from solution");
            equal(extract(*q), F, "copy"); equal(extract(s), F, "original");
            VF_REQUIRE(sp.size() == F.conc.size() && a == F.ltof.begin()->second && b == F.conc.begin()->second, "query differs");
        } });
    }
    // compressed graphs: building from scratch, adding to an existing list, compressing, recompressing
    static const std::vector<csr::Add> L1{ { 0, 2, true, 1 }, { 3, 1, true, 2 }, { 0, 2, true, 4 }, { 2, 5, true, 8 }, { 3, 3, true, 16 }, { 1, 0, true, 32 } };
    static const std::vector<csr::Add> L2{ { 1, 1, true, 64 }, { 4, 0, true, 128 }, { 1, 1, true, 256 } };
    static const std::vector<csr::Add> L3{ { 1, 1, false, 0 }, { 4, 0, false, 0 }, { 0, 6, false, 0 } };
    for (int l = 0; l < 3; ++l) {
        S.push_back({ vf::sfmt("graph-add-%d", l), [l](Run& r) { // each addition may fail and is repeated
            auto& list = l == 0 ? L1 : l == 1 ? L2 : L3;
            Opm::AssembledConnections g; csr::Model m;
            size_t k = 0;
            while (!r.attempt([&] { for (; k < list.size(); ++k) csr::add(g, list[k]); return true; })) {}
            m.pending = list; m.compress(7);
            g.compress(7); csr::check(g, m);
        } });
        for (int pre = 0; pre < 3; ++pre)
            S.push_back({ vf::sfmt("graph-compress-%d-%d", l, pre), [l, pre](Run& r) {
                auto& list = l == 0 ? L1 : l == 1 ? L2 : L3;
                Opm::AssembledConnections g; csr::Model m, before;
                if (pre) { for (auto& a : pre == 1 ? L1 : L3) csr::add(g, a); m.pending = pre == 1 ? L1 : L3; g.compress(6); m.compress(6); before = m; }
                for (auto& a : list) csr::add(g, a);
                m.pending = list; m.compress(7);
                while (!r.attempt([&] { g.compress(7); return true; }))
                    if (pre) { // the graph must still be one that can be walked safely
                        auto& ia = g.startPointers(); auto& ja = g.neighbourhood();
                        bool old = true; try { csr::check(g, before); } catch (const vf::Fail&) { old = false; }
                        if (!old) csr::check(g, m);
                        VF_REQUIRE(ia.back() <= ja.size(), "start pointers beyond the neighbour list after a failed compression");
                    }
                csr::check(g, m);
            } });
    }
    S.push_back({ "graph-copy", [](Run& r) {
        Opm::AssembledConnections g; csr::Model m; for (auto& a : L1) csr::add(g, a);
        m.pending = L1; g.compress(6); m.compress(6);
        for (auto& a : L2) csr::add(g, a);
        std::unique_ptr<Opm::AssembledConnections> h;
        while (!r.attempt([&] { h.reset(new Opm::AssembledConnections(g)); return true; })) csr::check(g, m);
        csr::check(*h, m); csr::check(g, m);
        m.pending = L2; m.compress(5); h->compress(5); csr::check(*h, m);
    } });
    // strong components
    static const auto graph = [] { scc::Graph g; g.row({ 1, 2 }); g.row({ 2 }); g.row({ 0, 3 }); g.row({}); g.row({ 3, 5 }); g.row({ 4, 6 }); g.row({ 6 }); return g; };
    struct D { void operator()(TarjanSCCResult* p) { destroy_tarjan_sccresult(p); } void operator()(TarjanWorkSpace* p) { destroy_tarjan_workspace(p); } };
    S.push_back({ "tarjan", [](Run& r) {
        auto g = graph(); std::unique_ptr<TarjanSCCResult, D> q;
        while (!r.attempt([&] { q.reset(tarjan(g.n(), g.ia.data(), g.ja.data())); return bool(q); })) {}
        scc::checkSmall(g, scc::Closure(g), 127, q.get(), false);
    } });
    S.push_back({ "workspace", [](Run& r) {
        auto g = graph(); std::unique_ptr<TarjanWorkSpace, D> w; int st[2] = { 0, 4 };
        while (!r.attempt([&] { w.reset(create_tarjan_workspace(g.n())); return bool(w); })) {}
        std::unique_ptr<TarjanSCCResult, D> q(tarjan_reachable_sccs(g.n(), g.ia.data(), g.ja.data(), 2, st, w.get()));
        scc::checkSmall(g, scc::Closure(g), 127, q.get(), false);
    } });
    S.push_back({ "reachable", [](Run& r) {
        auto g = graph(); scc::Closure cl(g); std::unique_ptr<TarjanWorkSpace, D> w(create_tarjan_workspace(g.n())); std::unique_ptr<TarjanSCCResult, D> q; int st[2] = { 1, 4 };
        for (int k = 0; k < 2; ++k) {
            while (!r.attempt([&] { q.reset(tarjan_reachable_sccs(g.n(), g.ia.data(), g.ja.data(), k + 1, st, w.get())); return bool(q); })) {}
            scc::checkSmall(g, cl, k ? cl.r[1] | cl.r[4] : cl.r[1], q.get(), false);
        }
    } });
    S.push_back({ "reverse", [](Run& r) {
        auto g = graph(); scc::Closure cl(g); std::unique_ptr<TarjanSCCResult, D> q(tarjan(g.n(), g.ia.data(), g.ja.data()));
        while (!r.attempt([&] { return tarjan_reverse_sccresult(q.get()) != 0; })) scc::checkSmall(g, cl, 127, q.get(), false);
        scc::checkSmall(g, cl, 127, q.get(), true);
    } });
    // small containers
    S.push_back({ "cellset", [](Run& r) {
        std::unique_ptr<CellSet> s, t; std::vector<int> l{ 5, 1, 5, 99 };
        while (!r.attempt([&] { s.reset(new CellSet(CellSetID("a rather long name of a well group"), l)); for (int k = 0; k < 20; ++k) s->insert(k * 7); t.reset(new CellSet(*s)); return true; })) {}
        std::set<int> m(l.begin(), l.end()); for (int k = 0; k < 20; ++k) m.insert(k * 7);
        for (auto* p : { s.get(), t.get() }) VF_REQUIRE(std::set<int>(p->begin(), p->end()) == m && p->id().to_string() == "a rather long name of a well group", "cell set differs");
    } });
    S.push_back({ "cellset-insert", [](Run& r) {
        CellSet s(CellSetID("W")); std::set<int> m; int k = 0;
        while (!r.attempt([&] { for (; k < 40; ++k) s.insert(k * 3); return true; })) { std::set<int> h; for (int j = 0; j < k; ++j) h.insert(j * 3); std::set<int> got(s.begin(), s.end()); h.insert(k * 3); got.insert(k * 3); VF_REQUIRE(got == h, "members lost or invented by a failed insertion"); }
        for (int j = 0; j < 40; ++j) m.insert(j * 3);
        VF_REQUIRE(std::set<int>(s.begin(), s.end()) == m && std::distance(s.begin(), s.end()) == 40, "cell set differs");
    } });
    S.push_back({ "connection-values", [](Run& r) {
        typedef ConnectionValues CV; std::unique_ptr<CV> v, w;
        while (!r.attempt([&] { v.reset(new CV(CV::NumConnections{ 5 }, CV::NumPhases{ 3 })); (*v)(CV::ConnID{ 4 }, CV::PhaseID{ 2 }) = 8; w.reset(new CV(*v)); return true; })) {}
        for (auto* p : { v.get(), w.get() }) { double s = 0; for (size_t a = 0; a < 5; ++a) for (size_t b = 0; b < 3; ++b) s += (*p)(CV::ConnID{ a }, CV::PhaseID{ b }); VF_REQUIRE(s == 8 && (*p)(CV::ConnID{ 4 }, CV::PhaseID{ 2 }) == 8, "values differ"); }
    } });
    S.push_back({ "random", [](Run& r) {
        std::unique_ptr<Opm::RandomVector> g; std::vector<int> i; std::vector<double> x;
        while (!r.attempt([&] { if (!g) g.reset(new Opm::RandomVector); i = g->index(50, 9); x = g->normal(50); return true; })) {}
        VF_REQUIRE(i.size() == 50 && x.size() == 50, "sample lengths differ");
        for (int k : i) VF_REQUIRE(k >= 0 && k <= 9, "index out of range");
    } });
    // rejected input under memory shortage is still rejected, and valid input accepted afterwards
    S.push_back({ "rejection", [](Run& r) {
        const Problem& p = prob(0); Toolbox t(graphOf(p)); setup(t, p); checkBoth(t, 0);
        Wells bad{ { "X", { { 77, 1.0 } } } }; auto w = wellsOf(bad); std::vector<double> shortpv(2, 1.0);
        std::vector<CellSet> ss{ CellSet(CellSetID("nosuch"), { 0 }) };
        bool accepted = false;
        while (!r.attempt([&] {
            int rej = 0;
            try { t.assignPoreVolume(shortpv); } catch (const std::bad_alloc&) { throw; } catch (const std::exception&) { ++rej; }
            try { t.assignInflowFlux(w); } catch (const std::bad_alloc&) { throw; } catch (const std::exception&) { ++rej; }
            try { t.computeInjectionDiagnostics(ss); } catch (const std::bad_alloc&) { throw; } catch (const std::exception&) { ++rej; }
            accepted |= rej != 3; return true; })) checkBoth(t, 0);
        VF_REQUIRE(!accepted, "invalid input accepted");
        checkBoth(t, 0);
    } });
    return S;
}

void execute(const Scenario& s, const std::vector<Fault>& plan, vf::Ctx& c, std::vector<long>* seen = nullptr)
{
    long before = af::st().live;
    {
        Run r; r.plan = plan;
        s.body(r);
        c.transitions += r.attempts; ++c.traces; for (long k : r.allocs) c.states += k; // allocation points passed
        c.nontrivial += r.injected > 0;
        c.outcome(vf::mix(std::hash<std::string>()(s.name), r.reported * 100 + r.attempts));
        if (seen) *seen = r.allocs;
    }
    long after = af::st().live;
    VF_REQUIRE(after == before, "%ld memory blocks leaked", after - before);
}
}

std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    std::vector<vf::Space> S;
    for (int k = 0; k < 4; ++k) { prob(k); want(k, true); want(k, false); }
    auto list = std::make_shared<std::vector<Scenario>>(scenarios());
    struct Count { long k = -1; };
    auto counts = std::make_shared<std::vector<long>>(list->size(), 0);
    vf::Ctx dummy;
    std::vector<uint64_t> offS, offP; uint64_t single = 0, pairs = 0;
    for (size_t i = 0; i < list->size(); ++i) {
        std::vector<long> seen;
        // twice: the first run also absorbs one-time initialisation
        try { Run w; (*list)[i].body(w); execute((*list)[i], {}, dummy, &seen); } catch (const vf::Fail&) {}
        long k = seen.empty() ? 0 : seen[0];
        (*counts)[i] = k;
        offS.push_back(single); offP.push_back(pairs);
        single += 1 + 2 * k;
        pairs += uint64_t(k) * (k + 2);
    }
    S.push_back({ "single", vf::sfmt("%zu scenarios of public operations; no failure, and each allocation of the first attempt failing alone or with all later ones; then repetition with memory available", list->size()), single, [=](uint64_t i, vf::Ctx& c) {
        size_t s = std::upper_bound(offS.begin(), offS.end(), i) - offS.begin() - 1;
        long j = long(i - offS[s]);
        std::vector<Fault> plan;
        if (j > 0) plan.push_back(Fault{ (j - 1) / 2, bool((j - 1) % 2) });
        c.note("scenario %s, %ld allocations, %s%ld", (*list)[s].name.c_str(), (*counts)[s], j == 0 ? "no failure " : (j - 1) % 2 ? "failing from allocation " : "failing allocation ", j ? (j - 1) / 2 : 0);
        execute((*list)[s], plan, c);
    } });
    const unsigned kinds = o.thorough ? 4 : 1;
    S.push_back({ "pairs", "the same scenarios; each allocation of the first attempt fails, then each allocation of the second attempt fails too (thorough: alone or with all later ones), then repetition with memory available", pairs * kinds, [=](uint64_t i, vf::Ctx& c) {
        unsigned kind = unsigned(i % kinds); i /= kinds;
        size_t s = std::upper_bound(offP.begin(), offP.end(), i) - offP.begin() - 1;
        uint64_t j = i - offP[s]; long k = (*counts)[s];
        if (k == 0) return;
        std::vector<Fault> plan{ Fault{ long(j / (k + 2)), bool(kind & 1) }, Fault{ long(j % (k + 2)), bool(kind & 2) } };
        c.note("scenario %s, failing allocation %ld of the first and %ld of the second attempt", (*list)[s].name.c_str(), plan[0].at, plan[1].at);
        execute((*list)[s], plan, c);
    } });
    return S;
}
VF_MAIN
