// C09: acceptance and rejection of input, over sizes and indices around the valid ranges.
#include "flow.hpp"
#include <climits>
#include <memory>
using namespace flow;

namespace {
const double u = UNIT;
template <class F> bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }

vf::Space graphSpace(bool thorough, bool asan)
{
    static const int VAL[] = { 0, 1, 2, 3, -1, 4, 5, -2, INT_MAX, INT_MIN };
    const unsigned NV = 10, L = (thorough ? 6 : 5), NC = 6;
    uint64_t lists = 0;
    for (unsigned l = 0; l <= L; ++l) lists += vf::ipow(NV, l);
    return { "connectivity-graph", vf::sfmt("0..%u cells, every cell list of length 0..%u over {0..5,-1,-2,INT_MIN,INT_MAX}", NC - 1, L), lists * NC, [=](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i);
        int n = r.take(NC);
        uint64_t k = r.x; unsigned len = 0;
        while (k >= vf::ipow(NV, len)) { k -= vf::ipow(NV, len); ++len; }
        std::vector<int> cells;
        for (unsigned j = 0; j < len; ++j) { cells.push_back(VAL[k % NV]); k /= NV; }
        bool bad = cells.size() % 2 != 0;
        for (int x : cells) if (x < 0 || x >= n) bad = true;
        c.note("cells=%d list=[", n); for (int x : cells) c.note("%d ", x); c.note("] expect %s", bad ? "reject" : "accept");
        auto copy = cells;
        bool threw = throws([&] {
            ConnectivityGraph g(n, copy);
            VF_REQUIRE(g.numCells() == size_t(n) && g.numConnections() == cells.size() / 2, "sizes %zu,%zu", size_t(g.numCells()), size_t(g.numConnections()));
        });
        VF_REQUIRE(threw == bad, "%s", bad ? "invalid cell list accepted" : "valid cell list rejected");
        ++c.states; ++c.transitions; ++c.traces; c.nontrivial += len >= 2; c.outcome(bad * 100 + len);
    } };
}

struct World { Problem p; };
Problem line(int n)
{
    Problem p; p.n = n;
    for (int i = 0; i + 1 < n; ++i) { p.conn.push_back({ i, i + 1 }); p.flux.push_back(u); }
    p.pv.assign(n, 100.0);
    p.wells = { { "A", { { 0, u } } }, { "P", { { n - 1, -u } } } };
    return p;
}
ConnectionValues zeros(size_t nc, size_t np) { return ConnectionValues(ConnectionValues::NumConnections{ nc }, ConnectionValues::NumPhases{ np }); }

vf::Space sizeSpace()
{
    // grid size, pv size, flux connections, phases
    const unsigned N = 6, S = 9, P = 4;
    return { "assignment-sizes", "grids of 2..7 cells in a line; pore-volume length 0..8, flux tables of 0..8 connections x 0..3 phases; then computing", uint64_t(N) * S * S * P, [=](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i);
        int n = 2 + r.take(N); unsigned ps = r.take(S), fc = r.take(S), fp = r.take(P);
        Problem p = line(n);
        c.note("cells=%d pv=%u flux=%ux%u", n, ps, fc, fp);
        Toolbox t(graphOf(p));
        t.assignInflowFlux(wellsOf(p.wells));
        bool okp = !throws([&] { t.assignPoreVolume(std::vector<double>(ps, 5.0)); });
        VF_REQUIRE(okp == (int(ps) == n), "%u pore volumes for %d cells %s", ps, n, okp ? "accepted" : "rejected");
        bool okf = !throws([&] { t.assignConnectionFlux(zeros(fc, fp)); });
        VF_REQUIRE(okf == (int(fc) == n - 1), "fluxes on %u connections of %d %s", fc, n - 1, okf ? "accepted" : "rejected");
        for (int d = 0; d < 2; ++d) {
            bool ok = !throws([&] { compute(t, p.wells, d == 0); });
            VF_REQUIRE(ok == (okp && okf), "computing with %s pore volumes and %s fluxes %s", okp ? "valid" : "no", okf ? "valid" : "no", ok ? "accepted" : "rejected");
        }
        // afterwards valid data must be accepted
        t.assignPoreVolume(p.pv); t.assignConnectionFlux(fluxOf(p));
        compute(t, p.wells, true); compute(t, p.wells, false);
        ++c.states; c.transitions += 9; ++c.traces; c.nontrivial += okp != okf; c.outcome(okp * 2 + okf);
    } };
}

vf::Space wellSpace(bool asan)
{
    // two wells with two entries each; cells around the valid range, rates of both signs and zero
    static const int OFF[] = { 0, 1, -1, 1000, 1001, -2, 2000, 2001 }; // 1000: n, 1001: n+1, 2000/2001: extremes
    static const double RATE[] = { 1, -1, 0 };
    const unsigned NO = 8, NR = 3, NN = 3;
    return { "well-cells", "grids of 2..4 cells; two wells with two entries each, cells over {0,1,-1,-2,n,n+1,INT_MAX,INT_MIN}, rates over {+,-,0}; then computing both directions", vf::ipow(NO * NR, 3) * NN, [=](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i);
        int n = 2 + r.take(NN);
        Problem p = line(n);
        Wells w;
        bool bad = false, unspecified = false;
        const char* name[3] = { "A", "A", "B" };
        for (int k = 0; k < 3; ++k) {
            int o = OFF[r.take(NO)];
            int cell = o == 1000 ? n : o == 1001 ? n + 1 : o == 2000 ? INT_MAX : o == 2001 ? INT_MIN : o;
            double q = RATE[r.take(NR)] * u * (1 + k);
            w[name[k]][cell] = q;
        }
        for (auto& e : w) for (auto& x : e.second) if (x.first < 0 || x.first >= n) { if (x.second == 0) unspecified = true; else bad = true; }
        Problem q = p; q.wells = w;
        c.note("%s expect %s", show(q).c_str(), bad ? "reject" : unspecified ? "either" : "accept");
        Toolbox t(graphOf(p));
        setup(t, p);
        bool ok = !throws([&] { t.assignInflowFlux(wellsOf(w)); });
        if (bad) VF_REQUIRE(!ok, "well rates in cells outside the grid accepted");
        if (!bad && !unspecified) VF_REQUIRE(ok, "valid well rates rejected");
        // computing must work with whichever data are in force
        const Wells& cur = ok ? w : p.wells;
        for (int d = 0; d < 2; ++d) {
            Fields f = compute(t, cur, d == 0);
            VF_REQUIRE(int(f.tof.size()) == n, "wrong size");
            c.outcome(hashFields(f));
        }
        ++c.states; c.transitions += 3; ++c.traces; c.nontrivial += bad;
    } };
}

vf::Space orderSpace()
{
    // every order and subset of the three assignments before computing
    return { "assignment-order", "every sequence of 0..4 assignments out of {pore volume, flux, wells}, then both computations with and without start sets", 1 + 3 + 9 + 27 + 81, [](uint64_t i, vf::Ctx& c) {
        unsigned len = 0; while (i >= vf::ipow(3, len)) { i -= vf::ipow(3, len); ++len; }
        Problem p = line(4);
        Toolbox t(graphOf(p));
        bool have[3] = { false, false, false };
        for (unsigned k = 0; k < len; ++k) {
            int op = i % 3; i /= 3; have[op] = true;
            c.note("%d ", op);
            if (op == 0) t.assignPoreVolume(p.pv);
            if (op == 1) t.assignConnectionFlux(fluxOf(p));
            if (op == 2) t.assignInflowFlux(wellsOf(p.wells));
        }
        for (int rep = 0; rep < 2; ++rep)
            for (int d = 0; d < 2; ++d)
                for (int s = 0; s < 2; ++s) {
                    bool want = have[0] && have[1] && (have[2] || !s);
                    bool ok = !throws([&] {
                        auto st = s ? startSets(p.wells, d == 0) : std::vector<CellSet>();
                        if (d == 0) t.computeInjectionDiagnostics(st); else t.computeProductionDiagnostics(st);
                    });
                    VF_REQUIRE(ok == want, "computing with pv:%d flux:%d wells:%d start sets:%d %s", have[0], have[1], have[2], s, ok ? "accepted" : "rejected");
                    ++c.transitions; ++c.traces;
                }
        ++c.states; c.nontrivial += len > 1; c.outcome(have[0] + 2 * have[1] + 4 * have[2]);
    } };
}

vf::Space startSpace(bool asan)
{
    // wells on 4 cells; A and B inject, P and Q produce, X does both
    static const char* ID[] = { "A", "B", "P", "Q", "X", "none", "" };
    const unsigned NI = 7, NS = 1u << 6, NPOS = 4, NW = 3, NMULT = 2;
    return { "start-sets", "4 cells, 3 well sets (wells of one and both signs, shared cells, zero rates), every start set with an id out of 7 and any subset of cells {-1,0,1,2,3,4}, alone or at each position among valid start sets, cells listed once or repeated, both directions", uint64_t(NI) * NS * NPOS * NW * NMULT * 2, [=](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i);
        std::string id = ID[r.take(NI)]; unsigned sub = r.take(NS), pos = r.take(NPOS), ws = r.take(NW), mult = r.take(NMULT); bool fwd = r.take(2);
        Problem p = line(4);
        if (ws == 0) p.wells = { { "A", { { 0, u } } }, { "B", { { 1, u }, { 2, u } } }, { "P", { { 3, -u } } }, { "Q", { { 2, -u }, { 0, -u } } }, { "X", { { 1, -u }, { 3, u } } } };
        if (ws == 1) p.wells = { { "A", { { 0, u }, { 1, u } } }, { "B", { { 0, 2 * u } } }, { "P", { { 3, -u }, { 2, -u } } }, { "Q", { { 3, -u } } } };
        if (ws == 2) p.wells = { { "A", { { 2, u }, { 3, 0.0 } } }, { "B", { { 1, 0.0 } } }, { "P", { { 0, -u } } }, { "Q", { { 2, 0.0 }, { 1, -u } } }, { "", { { 3, u }, { 3, u } } } };
        std::vector<int> cells;
        for (int k = 0; k < 6; ++k) if ((sub >> k) & 1) { cells.push_back(k - 1); if (mult) cells.insert(cells.begin(), k - 1); }
        std::set<int> own, any;
        for (auto& w : p.wells) for (auto& x : w.second) if (fwd ? x.second > 0 : x.second < 0) { any.insert(x.first); if (w.first == id) own.insert(x.first); }
        bool mustReject = own.empty(), mustAccept = !own.empty();
        for (int x : cells) { if (!any.count(x)) mustReject = true; if (!own.count(x)) mustAccept = false; }
        c.note("%s direction=%s id='%s' cells=[", show(p).c_str(), fwd ? "inj" : "prod", id.c_str()); for (int x : cells) c.note("%d ", x);
        c.note("] position=%u expect %s", pos, mustReject ? "reject" : mustAccept ? "accept" : "either");
        Toolbox t(graphOf(p)); setup(t, p);
        auto valid = startSets(p.wells, fwd);
        std::vector<CellSet> req;
        CellSet x(CellSetID(id), cells);
        if (pos == 0) req = { x };
        else { req = valid; req.insert(req.begin() + (pos == 1 ? 0 : pos == 2 ? valid.size() / 2 : valid.size()), x); }
        bool ok = !throws([&] { if (fwd) t.computeInjectionDiagnostics(req); else t.computeProductionDiagnostics(req); });
        if (mustReject) VF_REQUIRE(!ok, "invalid start set accepted");
        if (mustAccept) VF_REQUIRE(ok, "valid start set rejected");
        Fields f = compute(t, p.wells, fwd);
        VF_REQUIRE(f.start.size() == valid.size(), "valid request fails afterwards");
        ++c.states; c.transitions += 2; ++c.traces; c.nontrivial += mustReject; c.outcome(mustReject + 2 * ok + 4 * pos);
    } };
}

// One wrong element anywhere in long, otherwise valid input.
std::vector<int> longSizes(bool asan)
{
    std::vector<int> v;
    for (int i = 1; i <= (asan ? 20 : 70); ++i) v.push_back(i);
    for (int b : { 128, 256, 1024 }) for (int d = -1; d <= 1; ++d) v.push_back(b + d);
    return v;
}
std::vector<int> positions(int n)
{
    std::vector<int> v;
    if (n <= 72) { for (int i = 0; i < n; ++i) v.push_back(i); return v; }
    for (int i : { 0, 1, 2, 63, 64, n / 3, n / 2, n - 65, n - 64, n - 3, n - 2, n - 1 }) v.push_back(i);
    for (int i = 0; i < n; i += 37) v.push_back(i);
    return v;
}
vf::Space longGraphs(bool asan)
{
    auto sz = longSizes(asan);
    return { "long-cell-lists", vf::sfmt("rings of %zu sizes up to 1025 connections, valid, with one more index, and with -1, n, n+1, INT_MIN or INT_MAX at every position (every 37th and the ends above 72)", sz.size()), sz.size(), [sz](uint64_t i, vf::Ctx& c) {
        const int m = sz[i], n = m;
        std::vector<int> good;
        for (int k = 0; k < m; ++k) { good.push_back(k); good.push_back((k + 1) % n); }
        c.note("%d connections", m);
        auto accepted = [&](const std::vector<int>& l) { ++c.transitions; ++c.traces; return !throws([&] { ConnectivityGraph g(n, l); VF_REQUIRE(g.numConnections() == l.size() / 2, "wrong size"); }); };
        VF_REQUIRE(accepted(good), "valid cell list rejected");
        { auto l = good; l.push_back(0); VF_REQUIRE(!accepted(l), "list of odd length accepted"); l = good; l.pop_back(); VF_REQUIRE(!accepted(l), "list of odd length accepted"); }
        for (int pos : positions(2 * m)) for (int v : { -1, n, n + 1, INT_MIN, INT_MAX }) {
            auto l = good; l[pos] = v;
            VF_REQUIRE(!accepted(l), "cell %d at position %d of %zu accepted in a grid of %d cells", v, pos, l.size(), n);
        }
        ++c.states; ++c.nontrivial; c.outcome(m);
    } };
}
vf::Space longSizesSpace(bool asan)
{
    auto sz = longSizes(asan);
    sz.insert(sz.end(), { 32768, 65536, 65537, 70000 });
    return { "large-assignment-sizes", vf::sfmt("lines of %zu sizes up to 70001 cells; pore volumes and fluxes of the right size and off by 1, 2, 256, 65536, half and double, also with a phase count that makes the tables equally long", sz.size()), sz.size(), [sz](uint64_t i, vf::Ctx& c) {
        const int n = sz[i] + 1;
        Problem p = line(n);
        c.note("%d cells", n);
        Toolbox t(graphOf(p));
        for (long d : { -1l, 1l, -2l, 2l, 256l, -256l, 65536l, -65536l, long(n), -long(n) / 2, 0l }) {
            const long k = n + d;
            if (k >= 0 && k != n) VF_REQUIRE(throws([&] { t.assignPoreVolume(std::vector<double>(size_t(k), 1.0)); }), "%ld pore volumes accepted for %d cells", k, n);
            const long m = n - 1 + d;
            for (size_t ph : { 0, 1, 2, 3 }) if (m >= 0 && m != n - 1) VF_REQUIRE(throws([&] { t.assignConnectionFlux(zeros(size_t(m), ph)); }), "fluxes on %ld connections accepted for %d", m, n - 1);
            c.transitions += 5;
        }
        VF_REQUIRE(throws([&] { compute(t, Wells(), true); }) && throws([&] { compute(t, Wells(), false); }), "computing accepted although every assignment was rejected");
        setup(t, p);
        VF_REQUIRE(int(compute(t, p.wells, true).tof.size()) == n && int(compute(t, p.wells, false).tof.size()) == n, "wrong size");
        ++c.states; ++c.nontrivial; ++c.traces; c.outcome(n);
    } };
}
vf::Space longWells(bool asan)
{
    auto sz = longSizes(asan);
    return { "long-well-lists", vf::sfmt("%zu sizes up to 1025 well cells in one well, one well per cell and three wells; one cell outside the grid in every well position; start sets of all well cells, and with one cell without injection (production) added or one unknown id in every position of the request", sz.size()), sz.size() * 3, [sz](uint64_t i, vf::Ctx& c) {
        const int m = sz[i / 3], kind = int(i % 3), n = m + 2;
        c.note("%d well cells, %s", m, kind == 0 ? "one well" : kind == 1 ? "one well per cell" : "three wells");
        Problem p = line(n);
        p.wells.clear();
        auto name = [&](int k) { return kind == 0 ? std::string("W") : vf::sfmt("W%d", kind == 1 ? k : k % 3); };
        for (int dir = 0; dir < 2; ++dir) {
            const double q = dir == 0 ? u : -u;
            Wells w;
            for (int k = 0; k < m; ++k) w[name(k)][k] = q;
            Toolbox t(graphOf(p)); setup(t, p);
            for (int pos : positions(m)) {
                Wells b = w; b[name(pos)].erase(pos); b[name(pos)][pos % 2 ? n + pos / 2 : -1 - pos / 2] = q;
                VF_REQUIRE(throws([&] { t.assignInflowFlux(wellsOf(b)); }), "well cell %d of %d outside the grid accepted", pos, m);
                ++c.transitions;
            }
            t.assignInflowFlux(wellsOf(w));
            auto good = startSets(w, dir == 0);
            auto ok = [&](const std::vector<CellSet>& r) { ++c.transitions; ++c.traces; return !throws([&] { if (dir == 0) t.computeInjectionDiagnostics(r); else t.computeProductionDiagnostics(r); }); };
            VF_REQUIRE(ok(good), "valid start sets rejected");
            // a cell without injection in every start set, and an unknown id at every place
            for (int pos : positions(int(good.size()))) {
                auto r = good; r[pos].insert(n - 1);
                VF_REQUIRE(!ok(r), "start set %d of %zu with a cell without %s accepted", pos, good.size(), dir == 0 ? "injection" : "production");
                r = good; r.insert(r.begin() + pos, CellSet(CellSetID("nosuch"), { 0 }));
                VF_REQUIRE(!ok(r), "unknown id at place %d of %zu accepted", pos, good.size());
            }
            VF_REQUIRE(ok(good), "valid start sets rejected");
        }
        ++c.states; ++c.nontrivial; c.outcome(m * 3 + kind);
    } };
}
}

std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    return { graphSpace(o.thorough, o.asan), sizeSpace(), wellSpace(o.asan), orderSpace(), startSpace(o.asan), longGraphs(o.asan), longSizesSpace(o.asan), longWells(o.asan) };
}
VF_MAIN
