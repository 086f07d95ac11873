// C08: every sequence of operations on a toolbox up to a depth, against a fresh toolbox
// given only the latest accepted data.
#include "equiv.hpp"
#include <memory>
using namespace flow;

namespace {
const double u = UNIT;

// One grid with the data alternatives that operations choose from.
struct World {
    Problem base;
    std::vector<std::vector<double>> pv;
    struct Flux { int nph; std::vector<double> v; };
    std::vector<Flux> flux;
    std::vector<Wells> wells;
};

World makeWorld(int which)
{
    World w;
    Problem& p = w.base;
    if (which == 0) {
        p.n = 5; p.conn = { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 0 }, { 1, 4 }, { 4, 3 } };
        w.pv = { { 100, 200, 300, 400, 500 }, { 7, 0, 3.0e7, 40, 2 }, { 100, 300, 200, 400, 500 } };
        w.flux.push_back({ 1, { u, u, u, -u, 2 * u, u } });
        w.flux.push_back({ 2, { -u, -u, u, -3 * u, -u, u, u, u, 0, -2 * u, 0, -u } });
        w.flux.push_back({ 3, { u, 0, u, 2 * u, 0, 0, u, u, 0, u, 2 * u, -u, 0, u, -u, 0, 0, 0 } }); // contains the loop 0-1-2-3
        w.flux.push_back({ 1, { u, u, -u, -u, u, 2 * u } });
        w.flux.push_back({ 1, { -u, u, u, -u, 2 * u, u } }); // the first one with one sign changed
        w.wells.push_back({ { "A", { { 0, 2 * u } } }, { "B", { { 1, u }, { 3, u } } }, { "P", { { 3, -2 * u }, { 4, -u } } } });
        w.wells.push_back({ { "B", { { 0, u }, { 2, 3 * u }, { 3, 4 * u } } }, { "A", { { 3, -u } } }, { "P", { { 1, -u }, { 3, -4 * u } } }, { "Q", { { 0, -u } } } });
        w.wells.push_back({});
        w.wells.push_back({ { "A", { { 0, 2 * u } } }, { "B", { { 1, 1.5 * u }, { 3, u / 2 } } }, { "P", { { 3, -u }, { 4, -2 * u } } } }); // same cells and totals as the first
    } else {
        p.n = 3; p.conn = { { 0, 1 }, { 2, 1 } };
        w.pv = { { 10, 20, 30 }, { 1, 2, 0 }, { 10, 7, 30 } };
        w.flux.push_back({ 1, { u, u } });
        w.flux.push_back({ 2, { -u, 0, u, u } });
        w.flux.push_back({ 1, { 0, -u } });
        w.flux.push_back({ 1, { -u, u } });
        w.flux.push_back({ 1, { u, -u } });
        w.wells.push_back({ { "A", { { 0, u } } }, { "P", { { 1, -2 * u } } } });
        w.wells.push_back({ { "A", { { 2, u } } }, { "Z", { { 1, u }, { 2, u } } }, { "P", { { 0, -u } } } });
        w.wells.push_back({});
        w.wells.push_back({ { "A", { { 0, 2 * u } } }, { "P", { { 1, -2 * u } } } });
    }
    return w;
}

struct Model { int world = 0, pv = -1, flux = -1, wells = -1; };

struct Expect { Fields f; Tol t; Side s; };

Problem problemOf(const World& w, const Model& m)
{
    Problem p = w.base;
    p.pv = w.pv[m.pv];
    p.nph = w.flux[m.flux].nph; p.flux = w.flux[m.flux].v;
    if (m.wells >= 0) p.wells = w.wells[m.wells];
    return p;
}

struct Oracle {
    World worlds[2] = { makeWorld(0), makeWorld(1) };
    std::map<std::array<int, 5>, Expect> memo;
    const Expect& get(const Model& m, bool fwd)
    {
        std::array<int, 5> k{ m.world, m.pv, m.flux, m.wells, fwd };
        auto it = memo.find(k);
        if (it != memo.end()) return it->second;
        Problem p = problemOf(worlds[m.world], m);
        Expect e;
        e.s = makeSide(p, fwd);
        Toolbox t(graphOf(p));
        t.assignPoreVolume(p.pv);
        t.assignConnectionFlux(fluxOf(p));
        if (m.wells >= 0) t.assignInflowFlux(wellsOf(p.wells));
        e.f = compute(t, p.wells, fwd);
        e.t = tolerances(e.s);
        return memo[k] = e;
    }
};
Oracle& oracle() { static Oracle o; return o; }

ConnectionValues makeFlux(size_t nc, const World::Flux& f)
{
    ConnectionValues v(ConnectionValues::NumConnections{ nc }, ConnectionValues::NumPhases{ size_t(f.nph) });
    for (size_t c = 0; c < nc; ++c) for (int k = 0; k < f.nph; ++k)
        v(ConnectionValues::ConnID{ c }, ConnectionValues::PhaseID{ size_t(k) }) = f.v[c * f.nph + k];
    return v;
}
void scribble(ConnectionValues& v)
{
    for (size_t c = 0; c < v.numConnections(); ++c) for (size_t k = 0; k < v.numPhases(); ++k)
        v(ConnectionValues::ConnID{ c }, ConnectionValues::PhaseID{ k }) = -1e30;
}

struct Kept { std::shared_ptr<Toolbox::Forward> f; std::shared_ptr<Toolbox::Reverse> r; Fields want; };

void compareFields(const Expect& e, const Fields& got, const char* what)
{
    VF_REQUIRE(got.start == e.f.start, "%s: start points differ from a fresh toolbox", what);
    auto id = identity(int(e.f.tof.size()));
    sameGlobal(e.t, e.f, got, id, what);
    for (auto& w : e.f.start) sameWell(e.t, e.f, got, id, w, w, what);
}

const int NOPS = 21;
const char* NAME[NOPS] = { "inj", "prod", "pv0", "pv1", "flux0", "flux1", "flux2", "wells0", "wells1", "wells-empty", "bad-pv", "bad-flux", "bad-start-inj", "bad-start-prod", "bad-wells", "move", "swap-grid", "flux3", "flux4", "pv2", "wells3" };

template <class F> bool throws(F f)
{
    try { f(); return false; } catch (const std::exception&) { return true; }
}

struct Runner {
    std::unique_ptr<Toolbox> t;
    Model m;
    std::vector<Kept> kept;
    vf::Ctx& c;
    explicit Runner(vf::Ctx& c_) : c(c_) { fresh(0); }
    void fresh(int world)
    {
        m = Model(); m.world = world;
        auto g = std::make_unique<ConnectivityGraph>(graphOf(oracle().worlds[world].base));
        t = std::make_unique<Toolbox>(*g);
    }
    void doCompute(bool fwd, const char* what)
    {
        const World& w = oracle().worlds[m.world];
        Wells wl = m.wells >= 0 ? w.wells[m.wells] : Wells();
        auto starts = std::make_unique<std::vector<CellSet>>(startSets(wl, fwd));
        if (m.pv < 0 || m.flux < 0) {
            VF_REQUIRE(throws([&] { if (fwd) t->computeInjectionDiagnostics(*starts); else t->computeProductionDiagnostics(*starts); }), "%s: computation accepted without pore volumes and fluxes", what);
            return;
        }
        Kept k;
        if (fwd) k.f = std::make_shared<Toolbox::Forward>(t->computeInjectionDiagnostics(*starts));
        else k.r = std::make_shared<Toolbox::Reverse>(t->computeProductionDiagnostics(*starts));
        starts.reset();
        k.want = extract(fwd ? k.f->fd : k.r->fd);
        ++c.traces;
        const Expect& e = oracle().get(m, fwd);
        compareFields(e, k.want, what);
        c.outcome(vf::mix(hashFields(k.want), fwd));
        kept.push_back(std::move(k));
    }
    void badStart(bool fwd)
    {
        const World& w = oracle().worlds[m.world];
        Wells wl = m.wells >= 0 ? w.wells[m.wells] : Wells();
        auto starts = startSets(wl, fwd);
        starts.emplace_back(CellSetID("nosuch"), std::vector<int>{ 0 });
        VF_REQUIRE(throws([&] { if (fwd) t->computeInjectionDiagnostics(starts); else t->computeProductionDiagnostics(starts); }), "start set with unknown id accepted");
        // ids that other well alternatives know but the current one does not
        static const char* IDS[5] = { "A", "B", "P", "Q", "Z" };
        for (const char* id : IDS) {
            bool known = false;
            auto it = wl.find(id);
            if (it != wl.end()) for (auto& q : it->second) known |= fwd ? q.second > 0 : q.second < 0;
            if (known) continue;
            std::vector<CellSet> one{ CellSet(CellSetID(id)) };
            VF_REQUIRE(throws([&] { if (fwd) t->computeInjectionDiagnostics(one); else t->computeProductionDiagnostics(one); }), "start set with id %s accepted although it is not %s", id, fwd ? "injecting" : "producing");
        }
    }
    void op(int k)
    {
        ++c.transitions;
        const World& w = oracle().worlds[m.world];
        const size_t nc = w.base.conn.size();
        switch (k) {
        case 0: doCompute(true, "injection diagnostics"); break;
        case 1: doCompute(false, "production diagnostics"); break;
        case 2: case 3: case 19: {
            const int a = k == 19 ? 2 : k - 2;
            auto v = std::make_unique<std::vector<double>>(w.pv[a]);
            t->assignPoreVolume(*v); m.pv = a;
            std::fill(v->begin(), v->end(), -1e30);
            break; }
        case 4: case 5: case 6: case 17: case 18: {
            const int a = k >= 17 ? k - 14 : k - 4;
            auto v = std::make_unique<ConnectionValues>(makeFlux(nc, w.flux[a]));
            t->assignConnectionFlux(*v); m.flux = a;
            scribble(*v);
            break; }
        case 7: case 8: case 9: case 20: {
            const int a = k == 20 ? 3 : k - 7;
            auto v = std::make_unique<std::map<CellSetID, CellSetValues>>(wellsOf(w.wells[a]));
            t->assignInflowFlux(*v); m.wells = a;
            for (auto& e : *v) for (auto& q : e.second) q.second = -1e30;
            break; }
        case 10: {
            std::vector<double> v(w.base.n + ((c.transitions & 1) ? 1 : -1), 5.0);
            VF_REQUIRE(throws([&] { t->assignPoreVolume(v); }), "pore volumes of the wrong size accepted");
            break; }
        case 11: {
            World::Flux f{ 2, std::vector<double>(2 * (nc + 1), 3.0) };
            auto v = makeFlux(nc + ((c.transitions & 1) ? 1 : -1), f);
            VF_REQUIRE(throws([&] { t->assignConnectionFlux(v); }), "fluxes of the wrong size accepted");
            break; }
        case 12: badStart(true); break;
        case 13: badStart(false); break;
        case 14: {
            Wells bad{ { "A", { { 1, 5 * u } } }, { "C", { { 0, u }, { w.base.n, 2 * u } } }, { "P", { { 2, -u } } } };
            VF_REQUIRE(throws([&] { t->assignInflowFlux(wellsOf(bad)); }), "well rates outside the grid accepted");
            break; }
        case 15: t = std::make_unique<Toolbox>(std::move(*t)); break;
        case 16: { // assign this toolbox into one that was used on the other grid
            Runner other(c);
            other.fresh(1 - m.world);
            other.op(2); other.op(5); other.op(7); other.op(0); other.op(1);
            *other.t = std::move(*t);
            std::swap(t, other.t);
            break; }
        }
    }
    void finish()
    {
        doCompute(true, "final injection diagnostics");
        doCompute(false, "final production diagnostics");
        t.reset();
        for (auto& k : kept) {
            Fields now = extract(k.f ? k.f->fd : k.r->fd);
            VF_REQUIRE(now.tof == k.want.tof && now.conc == k.want.conc && now.ltof == k.want.ltof && now.start == k.want.start, "a result returned earlier changed");
        }
    }
};

vf::Space space(const char* name, unsigned depth, std::vector<int> prefix)
{
    std::string b = vf::sfmt("all sequences of %u operations out of %d (assign 3 pore-volume, 5 flux, 4 well alternatives, among them ones with equal ends, magnitudes or totals; rejected assignments and start sets; compute either direction; move construction and move assignment onto a used toolbox of another grid)", depth, NOPS);
    if (!prefix.empty()) b += ", after assigning everything and computing both directions";
    b += "; every computation compared with a fresh toolbox, inputs overwritten and destroyed after each call, all earlier results re-read at the end";
    return { name, b, vf::ipow(NOPS, depth), [=](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i);
        std::vector<int> seq;
        for (unsigned k = 0; k < depth; ++k) seq.push_back(r.take(NOPS));
        for (int k : seq) c.note("%s ", NAME[k]);
        Runner R(c);
        for (int k : prefix) R.op(k);
        for (int k : seq) R.op(k);
        R.finish();
        ++c.states;
        if (R.kept.size() > 2) ++c.nontrivial;
    } };
}

// One number of the data changed, by little or much, after a computation.
vf::Space reassign()
{
    struct Datum { int kind; size_t at; std::string well; int cell; };
    struct Base { int flux, wells; std::vector<Datum> d; };
    auto bases = std::make_shared<std::vector<Base>>();
    const World w = makeWorld(0);
    uint64_t nd = 0;
    for (int f : { 0, 1, 2, 3 }) for (int x : { 0, 1 }) {
        Base b{ f, x, {} };
        for (size_t k = 0; k < w.pv[0].size(); ++k) b.d.push_back({ 0, k, "", 0 });
        for (size_t k = 0; k < w.flux[f].v.size(); ++k) b.d.push_back({ 1, k, "", 0 });
        for (auto& e : w.wells[x]) for (auto& y : e.second) b.d.push_back({ 2, 0, e.first, y.first });
        nd = std::max<uint64_t>(nd, b.d.size());
        bases->push_back(b);
    }
    return { "reassignments", vf::sfmt("5 cells, 4 flow fields of 1..3 phases, 2 well sets, 3 scales (1, 2^-20, 2^20): after computing nothing, either or both directions, one of up to %llu numbers (pore volumes, fluxes, rates) changed by a relative 2^-16 or 2^-10, doubled, zeroed or negated, its field assigned again, and both directions computed", (unsigned long long)nd),
        bases->size() * 3 * nd * 5 * 4, [=](uint64_t i, vf::Ctx& c) {
            vf::Radix r(i);
            const unsigned first = r.take(4), how = r.take(5); const size_t di = r.take(nd); const double sc = std::ldexp(1.0, 20 * (int(r.take(3)) - 1)); const Base& b = (*bases)[r.take(bases->size())];
            if (di >= b.d.size()) { ++c.skipped; return; }
            const Datum& d = b.d[di];
            Problem p = w.base; p.pv = w.pv[0]; p.nph = w.flux[b.flux].nph; p.flux = w.flux[b.flux].v; p.wells = w.wells[b.wells];
            for (auto& x : p.pv) x *= sc;
            for (auto& x : p.flux) x *= sc;
            for (auto& e : p.wells) for (auto& y : e.second) y.second *= sc;
            Problem q = p;
            double& v = d.kind == 0 ? q.pv[d.at] : d.kind == 1 ? q.flux[d.at] : q.wells[d.well][d.cell];
            const double before = v;
            switch (how) { case 0: v *= 1 + std::ldexp(1.0, -16); break; case 1: v *= 1 - std::ldexp(1.0, -10); break; case 2: v *= 2; break; case 3: v = 0; break; default: v = -v; }
            if (v == before || (d.kind == 0 && v < 0) || (d.kind == 2 && v == 0)) { ++c.skipped; return; }
            c.note("flow %d wells %d scale %g: %s[%zu%s/%d] %g -> %g after computing %u", b.flux, b.wells, sc, d.kind == 0 ? "pore volume" : d.kind == 1 ? "flux" : "well", d.at, d.well.c_str(), d.cell, before, v, first);
            Toolbox t(graphOf(p)); setup(t, p);
            if (first & 1) compute(t, p.wells, true);
            if (first & 2) compute(t, p.wells, false);
            if (d.kind == 0) t.assignPoreVolume(q.pv); else if (d.kind == 1) t.assignConnectionFlux(fluxOf(q)); else t.assignInflowFlux(wellsOf(q.wells));
            c.transitions += 6;
            for (int dir = 0; dir < 2; ++dir) {
                const bool fwd = dir == 0;
                Expect e; e.s = makeSide(q, fwd);
                if (worstKappa(e.s) > KAPPA_MAX) { ++c.skipped; continue; }
                e.t = tolerances(e.s);
                Toolbox f(graphOf(q)); setup(f, q); e.f = compute(f, q.wells, fwd);
                Fields got = compute(t, q.wells, fwd);
                compareFields(e, got, fwd ? "injection after reassignment" : "production after reassignment");
                ++c.traces; c.outcome(hashFields(got));
            }
            ++c.states; ++c.nontrivial;
        } };
}

// All ordered pairs of data sets of one kind (or of all kinds at once) on one toolbox, computing in between.
vf::Space pairsOf(const char* name, const std::string& bound, uint64_t n, std::function<Problem(uint64_t)> make, unsigned kinds, unsigned between)
{
    struct Memo { std::vector<std::array<std::unique_ptr<Expect>, 2>> e; };
    auto memo = std::make_shared<Memo>();
    memo->e.resize(n);
    auto expect = [=](uint64_t k, bool fwd) -> const Expect& {
        auto& m = memo->e[k][fwd];
        if (!m) {
            Problem p = make(k);
            m.reset(new Expect);
            m->s = makeSide(p, fwd);
            Toolbox t(graphOf(p)); setup(t, p);
            m->f = compute(t, p.wells, fwd);
            m->t = tolerances(m->s);
        }
        return *m;
    };
    return { name, bound + vf::sfmt(": all %llu ordered pairs, %s computed in between", (unsigned long long)(n * n), between == 1 ? "both directions" : "injection, production or both"), n * n * between, [=](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i);
        const unsigned first = between == 1 ? 3 : 1 + r.take(3);
        const uint64_t b = r.take(n), a = r.take(n);
        Problem p = make(a), q = make(b);
        c.note("computing %u with %s, then with %s", first, show(p).c_str(), show(q).c_str());
        Toolbox t(graphOf(p)); setup(t, p);
        if (first & 1) compute(t, p.wells, true);
        if (first & 2) compute(t, p.wells, false);
        if (kinds & 1) t.assignPoreVolume(q.pv);
        if (kinds & 2) t.assignConnectionFlux(fluxOf(q));
        if (kinds & 4) t.assignInflowFlux(wellsOf(q.wells));
        c.transitions += 8;
        for (int dir = 0; dir < 2; ++dir) {
            const Expect& e = expect(b, dir == 0);
            if (worstKappa(e.s) > KAPPA_MAX) { ++c.skipped; continue; }
            Fields got = compute(t, q.wells, dir == 0);
            compareFields(e, got, dir == 0 ? "injection with the second data" : "production with the second data");
            ++c.traces;
        }
        ++c.states; c.nontrivial += a != b;
    } };
}
Problem triangle() { Problem p; p.n = 3; p.conn = { { 0, 1 }, { 1, 2 }, { 0, 2 }, { 1, 0 } }; p.flux = { 2 * u, u, -u, -u }; p.pv = { 1000, 350, 700 }; p.wells = { { "A", { { 0, 2 * u } } }, { "B", { { 1, u } } }, { "P", { { 2, -2 * u } } } }; return p; }
vf::Space wellPairs(bool asan)
{
    const unsigned W = asan ? 4 : 8;
    return pairsOf("well-pairs", vf::sfmt("3 cells, %u well options per cell (%u well sets, also of injectors or producers only)", W, W * W * W), vf::ipow(W, 3), [=](uint64_t k) {
        vf::Radix r(k);
        Problem p = triangle(); p.wells.clear();
        for (int j = 0; j < 3; ++j) addWell(p.wells, j, r.take(W), u);
        return p;
    }, 4, 1);
}
vf::Space fluxPairs(bool asan)
{
    const unsigned nf = asan ? 3 : 5;
    return pairsOf("flux-pairs", vf::sfmt("3 cells, 4 connections, %u flux values each in one or two phases", nf), vf::ipow(nf, 4), [=](uint64_t k) {
        static const double FL[5] = { 0, 1, -1, 3, -2 };
        vf::Radix r(k);
        Problem p = triangle(); p.flux.clear();
        const bool two = k % 3 == 1; p.nph = two ? 2 : 1;
        for (int j = 0; j < 4; ++j) { double q = FL[r.take(nf)] * u; if (two) { p.flux.push_back(q - 4 * u); p.flux.push_back(4 * u); } else p.flux.push_back(q); }
        return p;
    }, 2, 1);
}
vf::Space allPairs(bool thorough, bool asan)
{
    const unsigned np = 4, nf = asan ? 5 : thorough ? 27 : 12, nw = asan ? 5 : thorough ? 27 : 12;
    return pairsOf("data-pairs", vf::sfmt("3 cells, %u pore-volume, %u flux and %u well alternatives combined, all three assigned", np, nf, nw), uint64_t(np) * nf * nw, [=](uint64_t k) {
        static const double FL[3] = { 1, -1, 0 };
        static const std::vector<double> PV[4] = { { 1000, 350, 700 }, { 0, 350, 1 }, { 3e7, 20, 700 }, { 1000, 350, 701 } };
        vf::Radix r(k);
        Problem p = triangle();
        p.pv = PV[r.take(np)];
        vf::Radix f(r.take(nf)); for (int j = 0; j < 3; ++j) p.flux[j] = FL[f.take(3)] * u * (1 + j);
        vf::Radix w(r.take(nw)); p.wells.clear(); for (int j = 0; j < 3; ++j) { static const unsigned O[3] = { 1, 2, 5 }; addWell(p.wells, j, O[w.take(3)], u); }
        return p;
    }, 7, asan ? 1 : 3);
}
}

std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    const int d = o.thorough ? 1 : 0, a = o.asan ? 1 : 0;
    return { space("fresh", 4 + d - a, {}), space("primed", 5 + d - 2 * a, { 2, 4, 7, 0, 1 }), reassign(), wellPairs(o.asan), fluxPairs(o.asan), allPairs(o.thorough, o.asan) };
}
VF_MAIN
