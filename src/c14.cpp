// C14: reversal of decompositions.
#include "scc.hpp"
#ifdef VF_ALLOC
#include "allocfault.hpp"
#endif
using namespace scc;
namespace {
typedef std::vector<std::vector<int>> Seq;
Seq snapshot(const TarjanSCCResult* r)
{
    Seq s; size_t nc = tarjan_get_numcomponents(r);
    for (size_t k = 0; k < nc; ++k) { auto t = tarjan_get_strongcomponent(r, k); s.emplace_back(t.vertex, t.vertex + t.size); }
    return s;
}
void reversals(Result& r, int times, vf::Ctx& c)
{
    Seq want = snapshot(r.get());
    const Seq orig = want;
    for (int k = 0; k < times; ++k) {
        int ok = tarjan_reverse_sccresult(r.get());
        VF_REQUIRE(ok, "reversal failed");
        std::reverse(want.begin(), want.end());
        Seq got = snapshot(r.get());
        VF_REQUIRE(got == want, "reversal number %d: components, their order or their vertex lists are wrong", k + 1);
        ++c.transitions;
    }
    ++c.traces;
}
void graphCase(const Graph& g, const Closure& cl, vf::Ctx& c)
{
    const uint32_t all = g.n() ? (1u << g.n()) - 1 : 0;
    {
        Result r(tarjan(g.n(), g.ia.data(), g.ja.data()));
        if (!r) VF_FAIL("no result");
        reversals(r, 3, c);
        checkSmall(g, cl, all, r.get(), true); // odd number of reversals: topological order
        if (tarjan_get_numcomponents(r.get()) > 1) ++c.nontrivial;
        uint64_t h = 0; for (auto& q : snapshot(r.get())) h = vf::mix(h, q.size() * 64 + q[0]);
        c.outcome(h);
    }
    Work w(create_tarjan_workspace(g.n() + (g.ja.size() % 2)));
    for (unsigned s = 0; s < (1u << g.n()); ++s) {
        std::vector<int> st; uint32_t want = 0;
        for (unsigned v = 0; v < g.n(); ++v) if (s >> v & 1) { st.push_back(int(v)); want |= cl.r[v]; }
        Result r(tarjan_reachable_sccs(g.n(), g.ia.data(), g.ja.data(), st.size(), st.data(), w.get()));
        if (!r) VF_FAIL("no result");
        reversals(r, 2, c);
        if (!tarjan_reverse_sccresult(r.get())) VF_FAIL("reversal failed");
        checkSmall(g, cl, want, r.get(), true);
    }
    ++c.states;
}
vf::Space bits(unsigned n, bool loops, unsigned orders, unsigned shift)
{
    uint64_t N = nGraphs(n, loops), B = std::min<uint64_t>(1ull << shift, N);
    return { vf::sfmt("digraphs-%u%s", n, loops ? "-loops" : ""), vf::sfmt("full decomposition and decompositions from every start subset of all %llu digraphs on %u vertices %s self-loops, reversed one, two and three times", (unsigned long long)N, n, loops ? "with" : "without"), N / B, [=](uint64_t i, vf::Ctx& c) {
        Graph g;
        for (uint64_t b = i * B; b < (i + 1) * B; ++b)
            for (unsigned o = 0; o < 4; ++o) if (orders >> o & 1) {
                fromBits(g, n, b, loops, o);
                if (b == i * B) c.note("%s ...", show(g).c_str());
                Closure cl(g);
                try { graphCase(g, cl, c); } catch (const vf::Fail& f) { VF_FAIL("%s on %s", f.msg.c_str(), show(g).c_str()); }
            }
    } };
}
// rings of the given sizes, the first leading to the second and so on
Graph rings(const std::vector<int>& sz)
{
    Graph g; int base = 0;
    for (size_t k = 0; k < sz.size(); ++k) {
        for (int i = 0; i < sz[k]; ++i) {
            g.ja.push_back(base + (i + 1) % sz[k]);
            if (i == 0 && k + 1 < sz.size()) g.ja.push_back(base + sz[k]);
            g.endrow();
        }
        base += sz[k];
    }
    return g;
}
const std::vector<int>& compSizes(bool thorough, bool asan)
{
    static std::vector<int> v;
    if (v.empty()) {
        v = { 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4095, 4096, 4097, 5000 };
        if (asan) v = { 1, 2, 63, 64, 65, 255, 256, 257, 1023, 1024, 1025, 4096 };
        if (thorough) for (int i = 4; i < 2100; i += 13) v.push_back(i);
    }
    return v;
}
}
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    std::vector<vf::Space> S;
#ifdef VF_ALLOC
    // every allocation of a reversal fails in turn, once or persistently
    S.push_back({ "allocation-failure", "all digraphs on 1..3 vertices with self-loops and component sizes around 1024: each allocation made by the reversal fails in turn (once, and from there on); failure must be reported and the sequence kept, and a later reversal must work", 2 + 16 + 512 + 8, [](uint64_t i, vf::Ctx& c) {
        Graph g;
        if (i < 2) fromBits(g, 1, i, true, 0);
        else if (i < 18) fromBits(g, 2, i - 2, true, 0);
        else if (i < 530) fromBits(g, 3, i - 18, true, 0);
        else { static const int Z[8] = { 1, 10, 1023, 1024, 1025, 2048, 5000, 0 }; g = Z[i - 530] ? rings({ Z[i - 530], 3, 1 + Z[i - 530] / 2 }) : Graph(); }
        c.note("%s", show(g).c_str());
        for (int pers = 0; pers < 2; ++pers)
            for (long k = 0;; ++k) {
                const long live0 = af::st().live;
                {
                    Result r(tarjan(g.n(), g.ia.data(), g.ja.data()));
                    Seq before = snapshot(r.get());
                    const long live1 = af::st().live;
                    int ok; long failed;
                    { af::Arm a(k, pers); ok = tarjan_reverse_sccresult(r.get()); failed = af::st().failures; }
                    ++c.transitions; ++c.traces; ++c.states;
                    VF_REQUIRE(af::st().live == live1, "reversal changed the number of live blocks by %ld (failing allocation %ld)", af::st().live - live1, k);
                    Seq after = snapshot(r.get());
                    if (!ok) VF_REQUIRE(after == before, "failed reversal changed the sequence");
                    else { std::reverse(after.begin(), after.end()); VF_REQUIRE(after == before, "reversal reported success with a wrong sequence"); std::reverse(after.begin(), after.end()); }
                    VF_REQUIRE(ok || failed, "reversal failed although no allocation did");
                    int ok2 = tarjan_reverse_sccresult(r.get());
                    Seq last = snapshot(r.get());
                    std::reverse(after.begin(), after.end());
                    VF_REQUIRE(ok2 && last == after, "reversal after a failed one is wrong");
                    if (failed) ++c.nontrivial;
                    c.outcome(ok * 2 + (failed > 0) + k * 8);
                    r.reset();
                    Seq().swap(before); Seq().swap(after); Seq().swap(last);
                    VF_REQUIRE(af::st().live == live0, "blocks leaked: %ld", af::st().live - live0);
                    if (!failed) break;
                }
                VF_REQUIRE(k < 1000, "too many allocations");
            }
    } });
#else
    for (unsigned n = 1; n <= 3; ++n) S.push_back(bits(n, true, 15, 3));
    S.push_back({ "empty", "the empty graph, and empty start lists", 1, [](uint64_t, vf::Ctx& c) {
        Graph g; Result r(tarjan(0, g.ia.data(), g.ja.data()));
        VF_REQUIRE(r != nullptr, "no result");
        reversals(r, 3, c); ++c.states;
        VF_REQUIRE(tarjan_get_numcomponents(r.get()) == 0, "components in the empty graph");
    } });
    S.push_back(bits(4, !o.asan, o.thorough ? 15 : 1, 4));
    if (!o.asan && o.thorough) S.push_back(bits(5, false, 1, 6));
    auto& cs = compSizes(o.thorough, o.asan);
    const uint64_t m = cs.size();
    S.push_back({ "component-sizes", vf::sfmt("chains of three rings with sizes over all pairs from %zu values in 1..5000 (around powers of two), full and start-point decompositions, reversed one, two and three times", cs.size()), m * m, [&cs, m](uint64_t i, vf::Ctx& c) {
        int a = cs[i % m], b = cs[i / m];
        Graph g = rings({ a, b, (a + b) % 50 + 1 });
        c.note("ring sizes %d, %d, %d", a, b, (a + b) % 50 + 1);
        auto comp = kosaraju(g);
        { Result r(tarjan(g.n(), g.ia.data(), g.ja.data())); VF_REQUIRE(r != nullptr, "no result"); reversals(r, 3, c); checkLarge(g, comp, std::vector<char>(g.n(), 1), r.get(), true); }
        Work w(create_tarjan_workspace(g.n() + 5));
        for (std::vector<int> st : { std::vector<int>{ a }, std::vector<int>{ a + b, a }, std::vector<int>{ int(g.n()) - 1, 0 } }) {
            Result r(tarjan_reachable_sccs(g.n(), g.ia.data(), g.ja.data(), st.size(), st.data(), w.get()));
            VF_REQUIRE(r != nullptr, "no result");
            reversals(r, 3, c);
            checkLarge(g, comp, reachable(g, st), r.get(), true);
        }
        ++c.states; ++c.nontrivial; c.outcome(vf::mix(a, b));
    } });
    auto sz = std::make_shared<std::vector<int>>(sizes(o.thorough, o.asan));
    S.push_back({ "large", vf::sfmt("%d shapes x %zu sizes up to %d vertices, reversed three times", NSHAPE, sz->size(), sz->back()), uint64_t(NSHAPE) * sz->size(), [sz](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i); int n = (*sz)[r.take(sz->size())], s = r.take(NSHAPE);
        Graph g = shape(s, n);
        c.note("shape %d, %d vertices", s, n);
        Result res(tarjan(g.n(), g.ia.data(), g.ja.data()));
        VF_REQUIRE(res != nullptr, "no result");
        reversals(res, 3, c);
        checkLarge(g, kosaraju(g), std::vector<char>(n, 1), res.get(), true);
        ++c.states; ++c.nontrivial;
    } });
#endif
    return S;
}
VF_MAIN
