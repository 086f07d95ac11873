// C10: independence of start sets within one call, and of solves through one solver.
#include "equiv.hpp"
#include <memory>
using namespace flow;

namespace {
const double u = UNIT;

Problem k4(uint64_t i, unsigned wellset)
{
    vf::Radix r(i);
    static const double FL[3] = { 0, 1, -1 };
    Problem p; p.n = 4; p.conn = complete(4);
    for (int c = 0; c < 6; ++c) p.flux.push_back(FL[r.take(3)] * u * (1 + c % 3));
    p.pv = { 1000.1, 350.3, 725.7, 125.0 };
    switch (wellset) {
    case 0: p.wells = { { "A", { { 0, 2 * u } } }, { "B", { { 1, u }, { 2, u } } }, { "C", { { 0, u }, { 3, 2 * u } } }, { "P", { { 3, -u }, { 2, -u } } }, { "Q", { { 1, -2 * u } } } }; break;
    case 1: p.wells = { { "A", { { 2, u }, { 1, -u } } }, { "B", { { 1, u }, { 0, -u } } }, { "C", { { 1, u / 4 }, { 2, 3 * u }, { 3, -u } } } }; break;
    case 2: p.wells = { { "A", { { 3, 4 * u } } }, { "B", { { 3, u } } }, { "C", { { 2, u } } }, { "D", { { 0, u }, { 1, u } } }, { "P", { { 0, -u }, { 3, -u } } } }; break;
    case 4: p.wells = { { "A", { { 0, 2 * u }, { 1, u }, { 3, u } } }, { "B", { { 0, u }, { 2, u }, { 3, u } } }, { "C", { { 0, u }, { 3, 4 * u } } }, { "P", { { 0, -u }, { 1, -u }, { 3, -2 * u } } }, { "Q", { { 0, -u }, { 2, -u }, { 3, -u } } } }; break; // same ends, different middle
    case 5: p.wells = { { "A", { { 0, u }, { 1, 2 * u }, { 3, u } } }, { "B", { { 0, u }, { 1, 3 * u }, { 3, u } } }, { "C", { { 0, u }, { 1, 2 * u }, { 3, 4 * u } } }, { "P", { { 0, -u }, { 1, -u }, { 3, -u } } }, { "Q", { { 0, -u }, { 1, -4 * u }, { 3, -u } } }, { "R", { { 0, -2 * u }, { 1, -u }, { 3, -u } } } }; break; // same cells, one rate different
    case 6: p.wells = { { "A", { { 1, u }, { 2, 2 * u } } }, { "B", { { 1, u }, { 2, 2 * u } } }, { "C", { { 1, 2 * u }, { 2, u } } }, { "P", { { 0, -u }, { 3, -2 * u } } }, { "Q", { { 0, -2 * u }, { 3, -u } } }, { "R", { { 0, -u }, { 3, -2 * u } } } }; break; // same total, two wells alike
    case 3: p.wells = { { "A", { { 1, 2 * u } } }, { "B", { { 1, u }, { 2, u } } }, { "C", { { 2, 3 * u } } }, { "P", { { 0, -u }, { 3, -u } } } }; break; // two cells without a source
    }
    return p;
}

// ordered selections of k out of m, as index lists; plus lists with a repeated id
std::vector<std::vector<int>> selections(int m)
{
    std::vector<std::vector<int>> out{ {} };
    std::vector<int> cur; std::vector<char> used(m, 0);
    std::function<void()> rec = [&] {
        for (int i = 0; i < m; ++i) if (!used[i]) {
            used[i] = 1; cur.push_back(i); out.push_back(cur); rec(); cur.pop_back(); used[i] = 0;
        }
    };
    rec();
    for (int i = 0; i < m; ++i) { out.push_back({ i, i }); for (int j = 0; j < m; ++j) if (j != i) { out.push_back({ i, j, i }); out.push_back({ j, i, i }); } }
    return out;
}

vf::Space selectionSpace(bool thorough, bool asan)
{
    const unsigned nw = 7;
    const uint64_t nf = asan ? 81 : 729;
    return { "start-set-selections", vf::sfmt("4 cells, 6 connections, %llu flux fields over {0,+-1}, %u sets of 2 to 6 wells sharing cells, ends, totals or all rates, every ordered selection of start sets (with repeated ids), both directions", (unsigned long long)nf, nw),
        nf * nw, [=](uint64_t i, vf::Ctx& c) {
            vf::Radix r(i);
            unsigned w = r.take(nw); uint64_t f = r.take(nf);
            Problem p = k4(asan ? f * 9 + 4 : f, w);
            c.note("%s", show(p).c_str());
            for (int d = 0; d < 2; ++d) {
                const bool fwd = d == 0;
                Side s = makeSide(p, fwd);
                if (worstKappa(s) > KAPPA_MAX) { ++c.skipped; continue; }
                Tol t = tolerances(s);
                auto all = startSets(p.wells, fwd);
                // reference: each start set requested alone from a new toolbox
                std::map<std::string, Fields> alone;
                for (auto& x : all) {
                    Toolbox tb(graphOf(p)); setup(tb, p);
                    alone[x.id().to_string()] = fwd ? extract(tb.computeInjectionDiagnostics({ x }).fd) : extract(tb.computeProductionDiagnostics({ x }).fd);
                }
                Fields none;
                { Toolbox tb(graphOf(p)); setup(tb, p); none = fwd ? extract(tb.computeInjectionDiagnostics({}).fd) : extract(tb.computeProductionDiagnostics({}).fd); }
                auto id = identity(p.n);
                Toolbox tb(graphOf(p)); setup(tb, p);
                for (auto& sel : selections(int(all.size()))) {
                    std::vector<CellSet> req; std::set<std::string> ids;
                    for (int k : sel) { req.push_back(all[k]); ids.insert(all[k].id().to_string()); }
                    Fields o = fwd ? extract(tb.computeInjectionDiagnostics(req).fd) : extract(tb.computeProductionDiagnostics(req).fd);
                    ++c.transitions; ++c.traces;
                    VF_REQUIRE(o.start.size() == ids.size(), "%zu ids requested, %zu start points reported", ids.size(), o.start.size());
                    for (auto& x : o.start) VF_REQUIRE(ids.count(x), "start point %s was not requested", x.c_str());
                    sameGlobal(t, none, o, id, "selection of start sets");
                    for (auto& x : ids) { sameGlobal(t, alone[x], o, id, "start set alone"); sameWell(t, alone[x], o, id, x, x, "start set alone vs with others"); }
                    c.outcome(hashFields(o));
                }
                if (all.size() > 1) ++c.nontrivial;
            }
            ++c.states;
        } };
}

// Many wells on few cells: a long request is the same as many single ones.
vf::Space manySpace(bool thorough, bool asan)
{
    static const int K[] = { 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025 };
    const unsigned nk = thorough ? 28 : asan ? 16 : 25;
    return { "many-start-sets", vf::sfmt("6 cells with and without a loop, up to %d wells of one or two cells, spread over all cells or over two of them, request in ascending, descending and interleaved order and with every third left out, both directions", K[nk - 1]),
        nk * 2 * 4 * 2, [=](uint64_t i, vf::Ctx& c) {
            vf::Radix r(i);
            const int order = r.take(4); const bool loop = r.take(2); const int k = K[r.take(nk)]; const bool few = r.take(2);
            Problem p; p.n = 6;
            p.conn = { { 0, 1 }, { 1, 2 }, { 3, 2 }, { 3, 4 }, { 4, 5 }, { 5, 0 }, { 1, 4 } };
            p.flux = { u, 2 * u, -u, u, loop ? 3 * u : -3 * u, loop ? u : 2 * u, u };
            p.pv = { 100, 200, 0, 400, 50, 600 };
            for (int j = 0; j < k; ++j) for (int sg = 1; sg >= -1; sg -= 2) {
                auto& w = p.wells[vf::sfmt("%c%d", sg > 0 ? 'I' : 'P', j)];
                // spread over all cells, or over two of them (the others have no source)
                w[few ? (j % 5 ? 0 : 3) : j % 6] = sg * u * (1 + j % 3);
                if (j % 2) w[few ? 3 : (j / 6 + 1) % 6] = sg * u / 2;
            }
            c.note("%d wells, order %d, loop %d, few cells %d", k, order, int(loop), int(few));
            for (int d = 0; d < 2; ++d) {
                const bool fwd = d == 0;
                Side s = makeSide(p, fwd);
                if (worstKappa(s) > KAPPA_MAX) { ++c.skipped; continue; }
                Tol t = tolerances(s);
                auto all = startSets(p.wells, fwd);
                std::vector<CellSet> req;
                const int n = int(all.size());
                for (int j = 0; j < n; ++j) {
                    if (order == 0) req.push_back(all[j]);
                    if (order == 1) req.push_back(all[n - 1 - j]);
                    if (order == 2) req.push_back(all[j % 2 ? n - 1 - j / 2 : j / 2]);
                    if (order == 3 && j % 3) req.push_back(all[j]);
                }
                Toolbox tb(graphOf(p)); setup(tb, p);
                Fields o = fwd ? extract(tb.computeInjectionDiagnostics(req).fd) : extract(tb.computeProductionDiagnostics(req).fd);
                ++c.traces;
                VF_REQUIRE(o.start.size() == req.size(), "%zu ids requested, %zu start points reported", req.size(), o.start.size());
                auto id = identity(p.n);
                for (auto& x : req) {
                    const std::string w = x.id().to_string();
                    Toolbox one(graphOf(p)); setup(one, p);
                    Fields a = fwd ? extract(one.computeInjectionDiagnostics({ x }).fd) : extract(one.computeProductionDiagnostics({ x }).fd);
                    ++c.transitions;
                    sameGlobal(t, a, o, id, "start set alone");
                    sameWell(t, a, o, id, w, w, "start set alone vs with many others");
                }
                c.outcome(hashFields(o));
            }
            ++c.states; ++c.nontrivial;
        } };
}

struct SolverWorld { Problem p; Opm::AssembledConnections down, up; CellSetValues src; std::vector<CellSetValues> starts; };

std::shared_ptr<SolverWorld> makeSolver(const Problem& p, bool fwd)
{
    auto w = std::make_shared<SolverWorld>();
    w->p = p;
    for (size_t c = 0; c < p.conn.size(); ++c) {
        double q = p.flux[c]; int a = p.conn[c][0], b = p.conn[c][1];
        if (q < 0) { q = -q; std::swap(a, b); }
        if (!fwd) std::swap(a, b);
        if (q > 0) { w->down.addConnection(a, b, q); w->up.addConnection(b, a, q); }
    }
    w->down.compress(p.n); w->up.compress(p.n);
    for (auto& e : p.wells) for (auto& x : e.second) if (fwd ? x.second > 0 : x.second < 0) w->src[x.first] += std::fabs(x.second);
    return w;
}

vf::Space solverSpace(bool thorough, bool asan)
{
    // operations: 0 global, 1..m local, then three rejected local solves
    const int NOP = 7;
    const unsigned depth = thorough ? 5 : asan ? 3 : 4;
    const uint64_t nf = asan ? 27 : thorough ? 243 : 81;
    return { "solver-sequences", vf::sfmt("all sequences of %u solves (global; three local start sets; local start sets with a negative rate first, last or alone) through one solver, each followed by every kind of solve, on %llu flow fields of 4 cells with and without loops, 4 well sets", depth, (unsigned long long)nf),
        nf * 4 * vf::ipow(NOP, depth), [=](uint64_t i, vf::Ctx& c) {
            vf::Radix r(i);
            std::vector<int> seq;
            for (unsigned k = 0; k < depth; ++k) seq.push_back(r.take(NOP));
            unsigned ws = r.take(4); if (ws) ++ws;
            uint64_t f = r.take(nf);
            Problem p = k4(f * (729 / nf) + (729 / nf) / 2, ws);
            struct Cached { std::shared_ptr<SolverWorld> w; Side s; Tol t; std::vector<CellSetValues> st; std::vector<double> g; std::vector<TracerTofSolver::LocalSolution> l; std::vector<std::string> names; bool skip; };
            static std::map<std::pair<uint64_t, unsigned>, Cached> memo;
            auto key = std::make_pair(f, ws);
            auto it = memo.find(key);
            if (it == memo.end()) {
                Cached k;
                k.w = makeSolver(p, true); k.s = makeSide(p, true); k.skip = worstKappa(k.s) > KAPPA_MAX;
                if (!k.skip) {
                    k.t = tolerances(k.s);
                    for (auto& e : k.s.start) if (k.st.size() < 3) { CellSetValues v; for (auto& x : e.second) v[x.first] = double(x.second); k.st.push_back(v); k.names.push_back(e.first); }
                    TracerTofSolver g(k.w->down, k.w->up, k.w->p.pv, k.w->src);
                    k.g = g.solveGlobal();
                    for (auto& v : k.st) { TracerTofSolver l(k.w->down, k.w->up, k.w->p.pv, k.w->src); k.l.push_back(l.solveLocal(v)); }
                }
                if (memo.size() > 4) memo.clear();
                it = memo.emplace(key, std::move(k)).first;
            }
            const Cached& k = it->second;
            if (k.skip) { ++c.skipped; return; }
            c.note("%s ops:", show(p).c_str());
            TracerTofSolver solver(k.w->down, k.w->up, k.w->p.pv, k.w->src);
            auto run = [&](int op) {
                ++c.transitions;
                if (op == 0) {
                    auto g = solver.solveGlobal();
                    ++c.traces;
                    VF_REQUIRE(g.size() == k.g.size(), "global solve: size %zu", g.size());
                    for (size_t j = 0; j < g.size(); ++j) VF_REQUIRE(fabsl(LD(g[j]) - k.g[j]) <= 2 * k.t.global.et[j], "global solve: cell %zu has time-of-flight %.17g, a fresh solver gives %.17g", j, g[j], k.g[j]);
                } else if (op <= 3) {
                    int w = op - 1;
                    if (w >= int(k.st.size())) return;
                    auto l = solver.solveLocal(k.st[w]);
                    ++c.traces;
                    auto& t = k.t.local.at(k.names[w]);
                    VF_REQUIRE(l.concentration.size() == k.l[w].concentration.size() && l.tof.size() == k.l[w].tof.size(), "local solve %d: covers %zu cells, a fresh solver %zu", w, l.concentration.size(), k.l[w].concentration.size());
                    for (auto& e : k.l[w].concentration) {
                        auto g = l.concentration.find(e.first);
                        VF_REQUIRE(g != l.concentration.end() && fabsl(LD(g->second) - e.second) <= 2 * t.ec[e.first], "local solve %d: concentration in cell %d is %.17g, a fresh solver gives %.17g", w, e.first, g == l.concentration.end() ? -1.0 : g->second, e.second);
                    }
                    for (auto& e : k.l[w].tof) {
                        auto g = l.tof.find(e.first);
                        VF_REQUIRE(g != l.tof.end() && fabsl(LD(g->second) - e.second) <= 2 * t.et[e.first], "local solve %d: time-of-flight in cell %d is %.17g, a fresh solver gives %.17g", w, e.first, g == l.tof.end() ? -1.0 : g->second, e.second);
                    }
                    uint64_t h = op; for (auto& e : l.concentration) h = vf::mixd(vf::mix(h, e.first), e.second);
                    c.outcome(h);
                } else {
                    CellSetValues bad;
                    if (op == 4) bad = { { 0, 5 * u }, { 1, 3 * u }, { 3, -u } };
                    if (op == 5) bad = { { 0, -u }, { 2, u } };
                    if (op == 6) bad = { { 2, -u } };
                    try { solver.solveLocal(bad); VF_FAIL("local solve with a negative source was accepted"); } catch (const std::exception&) {}
                }
            };
            static const char* NM[7] = { "global", "local0", "local1", "local2", "bad(+,+,-)", "bad(-,+)", "bad(-)" };
            for (int op : seq) c.note(" %s", NM[op]);
            for (int op : seq) run(op);
            for (int op = 3; op >= 0; --op) run(op);
            ++c.states; ++c.nontrivial;
        } };
}
}

std::vector<vf::Space> vf::make_spaces(const Opt& o) { return { selectionSpace(o.thorough, o.asan), manySpace(o.thorough, o.asan), solverSpace(o.thorough, o.asan) }; }
VF_MAIN
