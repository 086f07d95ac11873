// C13: decomposition from start points; work-space size and reuse.
#include "scc.hpp"
using namespace scc;
namespace {
std::string showStart(const std::vector<int>& s) { std::string r = "start=["; for (int x : s) r += vf::sfmt("%d ", x); return r + "]"; }

void one(const Graph& g, const Closure& cl, const std::vector<int>& st, TarjanWorkSpace* w, vf::Ctx& c)
{
    Result r(tarjan_reachable_sccs(g.n(), g.ia.data(), g.ja.data(), st.size(), st.data(), w));
    if (!r) VF_FAIL("no result");
    uint32_t want = 0;
    for (int s : st) want |= cl.r[s];
    try { checkSmall(g, cl, want, r.get(), false); } catch (const vf::Fail& f) { VF_FAIL("%s on %s %s", f.msg.c_str(), show(g).c_str(), showStart(st).c_str()); }
    size_t nc = tarjan_get_numcomponents(r.get());
    c.transitions += 2 + nc; ++c.traces;
    if (nc > 1 && want != (1u << g.n()) - 1) ++c.nontrivial;
    uint64_t h = nc; for (size_t k = 0; k < nc; ++k) { auto t = tarjan_get_strongcomponent(r.get(), k); h = vf::mix(h, t.size * 64 + t.vertex[0]); }
    c.outcome(h);
}
std::vector<std::vector<int>> startLists(unsigned n, unsigned L)
{
    std::vector<std::vector<int>> v{ {} }; size_t a = 0;
    for (unsigned l = 1; l <= L; ++l) { size_t z = v.size(); for (; a < z; ++a) for (unsigned x = 0; x < n; ++x) { auto q = v[a]; q.push_back(int(x)); v.push_back(q); } }
    return v;
}
// all digraphs, all start lists, work-space of every size n..n+2, and one work-space reused throughout the case
vf::Space all(unsigned n, bool loops, unsigned L, unsigned orders, unsigned shift)
{
    uint64_t N = nGraphs(n, loops), B = std::min<uint64_t>(1ull << shift, N);
    auto st = std::make_shared<std::vector<std::vector<int>>>(startLists(n, L));
    return { vf::sfmt("digraphs-%u%s-starts-%u", n, loops ? "-loops" : "", L), vf::sfmt("all digraphs on %u vertices %s self-loops, %u neighbour orders, all %zu start lists of length 0..%u (order and repetition), work-spaces of size n, n+1, n+3 used for all start lists in turn", n, loops ? "with" : "without", unsigned(__builtin_popcount(orders)), st->size(), L), N / B, [=](uint64_t i, vf::Ctx& c) {
        Graph g;
        for (uint64_t b = i * B; b < (i + 1) * B; ++b)
            for (unsigned o = 0; o < 4; ++o) if (orders >> o & 1) {
                fromBits(g, n, b, loops, o);
                if (b == i * B) c.note("%s ...", show(g).c_str());
                Closure cl(g);
                ++c.states;
                for (unsigned x : { 0u, 1u, 3u }) {
                    Work w(create_tarjan_workspace(n + x));
                    if (!w) VF_FAIL("no work-space");
                    for (auto& s : *st) one(g, cl, s, w.get(), c);
                }
            }
    } };
}
// every pair (graph, start set) then (graph, start set) through one work-space, sizes may differ
vf::Space pairs(bool asan, bool thorough)
{
    // items: all digraphs with loops on 1..2 vertices and all on 3 vertices without loops, with all start subsets
    struct It { unsigned n; uint64_t b; bool loops; unsigned s; };
    auto I = std::make_shared<std::vector<It>>();
    for (unsigned n = 1; n <= 3; ++n) {
        bool loops = n < 3 || thorough;
        for (uint64_t b = 0; b < nGraphs(n, loops); ++b) for (unsigned s = 0; s < (1u << n); ++s) {
            if (asan && (b % 5)) continue;
            I->push_back({ n, b, loops, s });
        }
    }
    return { "reuse-pairs", vf::sfmt("all ordered pairs of %zu (graph of 1..3 vertices, start subset) problems through one work-space of size 3 or 5, the first repeated after the second", I->size()), I->size(), [I](uint64_t i, vf::Ctx& c) {
        Graph g, h; const It& a = (*I)[i];
        auto subset = [](unsigned s, unsigned n) { std::vector<int> v; for (unsigned k = 0; k < n; ++k) if (s >> k & 1) v.push_back(int(k)); return v; };
        fromBits(g, a.n, a.b, a.loops, 0);
        Closure cg(g); auto sg = subset(a.s, a.n);
        c.note("first: %s %s, then every other", show(g).c_str(), showStart(sg).c_str());
        for (auto& b : *I) {
            fromBits(h, b.n, b.b, b.loops, 1);
            Closure ch(h); auto sh = subset(b.s, b.n);
            for (size_t sz : { size_t(3), size_t(5) }) {
                Work w(create_tarjan_workspace(sz));
                one(g, cg, sg, w.get(), c); one(h, ch, sh, w.get(), c); one(g, cg, sg, w.get(), c);
            }
            ++c.states;
        }
    } };
}
}
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    std::vector<vf::Space> S;
    for (unsigned n = 1; n <= 3; ++n) S.push_back(all(n, true, n + 1, 15, 2));
    S.push_back(all(4, false, o.asan ? 2 : 4, o.asan ? 1 : 7, 2));
    if (!o.asan) S.push_back(all(4, true, o.thorough ? 4 : 2, 2, 4));
    if (!o.asan && o.thorough) S.push_back(all(5, false, 2, 3, 6));
    if (!o.asan && !o.thorough) S.push_back(all(5, false, 1, 1, 6));
    S.push_back(pairs(o.asan, o.thorough));
    auto sz = std::make_shared<std::vector<int>>(sizes(o.thorough, o.asan));
    S.push_back({ "large", vf::sfmt("%d shapes x %zu sizes up to %d vertices, 7 start lists each through one work-space (exact and oversized)", NSHAPE, sz->size(), sz->back()), uint64_t(NSHAPE) * sz->size(), [sz](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i); int n = (*sz)[r.take(sz->size())], s = r.take(NSHAPE);
        Graph g = shape(s, n);
        c.note("shape %d, %d vertices", s, n);
        auto comp = kosaraju(g);
        for (int over = 0; over < 2; ++over) {
            Work w(create_tarjan_workspace(n + over * 17));
            if (!w) VF_FAIL("no work-space");
            std::vector<std::vector<int>> st{ { 0 }, { n - 1 }, { n / 2 }, { n / 3, n / 3, 0 }, {}, { n - 1, 0, n / 2, n - 1 } };
            std::vector<int> all; for (int k = n - 1; k >= 0; k -= 1 + k % 3) all.push_back(k); st.push_back(all);
            for (auto& q : st) {
                Result res(tarjan_reachable_sccs(g.n(), g.ia.data(), g.ja.data(), q.size(), q.data(), w.get()));
                VF_REQUIRE(res != nullptr, "no result");
                checkLarge(g, comp, reachable(g, q), res.get(), false);
                ++c.traces; c.transitions += 2 + tarjan_get_numcomponents(res.get());
            }
        }
        ++c.states; ++c.nontrivial;
    } });
    return S;
}
VF_MAIN
