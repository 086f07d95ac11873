// Directed graphs in compressed form, enumeration, and the reference for strong components.
#pragma once
#include "vf.hpp"
#include <opm/utility/graph/tarjan.h>
#include <algorithm>
#include <memory>

namespace scc {

struct Graph {
    std::vector<size_t> ia{ 0 };
    std::vector<int> ja;
    size_t n() const { return ia.size() - 1; }
    void clear() { ia.assign(1, 0); ja.clear(); }
    void row(std::initializer_list<int> l) { ja.insert(ja.end(), l); ia.push_back(ja.size()); }
    void endrow() { ia.push_back(ja.size()); }
};

inline std::string show(const Graph& g)
{
    std::string s = vf::sfmt("n=%zu ", g.n());
    for (size_t i = 0; i < g.n() && i < 30; ++i) {
        s += vf::sfmt("%zu:[", i);
        for (size_t k = g.ia[i]; k < g.ia[i + 1] && k < g.ia[i] + 20; ++k) s += vf::sfmt("%d ", g.ja[k]);
        s += "] ";
    }
    return s;
}

// adjacency bits; row i, column j = bit i*n+j (or without the diagonal)
// order: 0 ascending, 1 descending, 2 rotated by i, 3 ascending with every edge doubled
inline void fromBits(Graph& g, unsigned n, uint64_t bits, bool loops, unsigned order)
{
    g.clear();
    for (unsigned i = 0; i < n; ++i) {
        unsigned row = 0;
        for (unsigned j = 0; j < n; ++j) {
            if (!loops && i == j) continue;
            if (bits & 1) row |= 1u << j;
            bits >>= 1;
        }
        for (unsigned k = 0; k < n; ++k) {
            unsigned j = order == 1 ? n - 1 - k : order == 2 ? (k + i + 1) % n : k;
            if ((row >> j) & 1) { g.ja.push_back(int(j)); if (order == 3) g.ja.push_back(int(j)); }
        }
        g.endrow();
    }
}
inline uint64_t nGraphs(unsigned n, bool loops) { return 1ull << (loops ? n * n : n * (n - 1)); }

// Reference for up to 16 vertices: reachability as bit masks (reflexive).
struct Closure {
    unsigned n; uint32_t r[16];
    explicit Closure(const Graph& g) : n(unsigned(g.n()))
    {
        for (unsigned i = 0; i < n; ++i) { r[i] = 1u << i; for (size_t k = g.ia[i]; k < g.ia[i + 1]; ++k) r[i] |= 1u << g.ja[k]; }
        for (unsigned k = 0; k < n; ++k) for (unsigned i = 0; i < n; ++i) if ((r[i] >> k) & 1) r[i] |= r[k];
    }
};

// Reference for any size: Kosaraju.
inline std::vector<int> kosaraju(const Graph& g)
{
    const size_t n = g.n();
    Graph t; t.ia.assign(n + 1, 0);
    for (int j : g.ja) ++t.ia[j + 1];
    for (size_t i = 0; i < n; ++i) t.ia[i + 1] += t.ia[i];
    t.ja.resize(g.ja.size());
    { auto p = t.ia; for (size_t i = 0; i < n; ++i) for (size_t k = g.ia[i]; k < g.ia[i + 1]; ++k) t.ja[p[g.ja[k]]++] = int(i); }
    std::vector<char> seen(n, 0); std::vector<int> post; std::vector<std::pair<int, size_t>> st;
    for (size_t r = 0; r < n; ++r) if (!seen[r]) {
        seen[r] = 1; st.push_back({ int(r), g.ia[r] });
        while (!st.empty()) {
            auto& x = st.back();
            if (x.second < g.ia[x.first + 1]) { int v = g.ja[x.second++]; if (!seen[v]) { seen[v] = 1; st.push_back({ v, g.ia[v] }); } }
            else { post.push_back(x.first); st.pop_back(); }
        }
    }
    std::vector<int> comp(n, -1), q; int nc = 0;
    for (size_t k = n; k-- > 0;) if (comp[post[k]] < 0) {
        comp[post[k]] = nc; q.push_back(post[k]);
        while (!q.empty()) { int u = q.back(); q.pop_back(); for (size_t e = t.ia[u]; e < t.ia[u + 1]; ++e) if (comp[t.ja[e]] < 0) { comp[t.ja[e]] = nc; q.push_back(t.ja[e]); } }
        ++nc;
    }
    return comp;
}

struct Res { void operator()(TarjanSCCResult* r) { destroy_tarjan_sccresult(r); } };
struct Ws { void operator()(TarjanWorkSpace* r) { destroy_tarjan_workspace(r); } };
typedef std::unique_ptr<TarjanSCCResult, Res> Result;
typedef std::unique_ptr<TarjanWorkSpace, Ws> Work;

// Check a decomposition of the vertices in 'want' (all vertices with want[v] true).
// reversed: components in topological instead of reverse topological order.
inline void checkSmall(const Graph& g, const Closure& c, uint32_t want, const TarjanSCCResult* r, bool reversed)
{
    uint32_t seen = 0;
    const size_t nc = tarjan_get_numcomponents(r);
    VF_REQUIRE(nc <= g.n(), "%zu components for %zu vertices", nc, g.n());
    for (size_t k = 0; k < nc; ++k) {
        TarjanComponent t = tarjan_get_strongcomponent(r, k);
        VF_REQUIRE(t.size > 0 && t.size <= g.n(), "component %zu has size %zu", k, t.size);
        uint32_t m = 0;
        for (size_t i = 0; i < t.size; ++i) {
            int v = t.vertex[i];
            VF_REQUIRE(v >= 0 && unsigned(v) < c.n, "component %zu lists vertex %d", k, v);
            VF_REQUIRE(!((m | seen) >> v & 1), "vertex %d listed twice", v);
            m |= 1u << v;
        }
        for (size_t i = 0; i < t.size; ++i) {
            int v = t.vertex[i];
            // the strong component of v
            uint32_t s = 0;
            for (unsigned w = 0; w < c.n; ++w) if ((c.r[v] >> w & 1) && (c.r[w] >> v & 1)) s |= 1u << w;
            VF_REQUIRE(s == m, "component %zu contains vertices %#x, the strong component of vertex %d is %#x", k, m, v, s);
            // everything reachable must already be listed (reverse topological), or nothing before (topological)
            if (!reversed) VF_REQUIRE((c.r[v] & ~(seen | m)) == 0, "component %zu is listed before a component it leads to", k);
            else VF_REQUIRE((c.r[v] & seen) == 0, "component %zu is listed after a component it leads to", k);
        }
        seen |= m;
    }
    VF_REQUIRE(seen == want, "vertices listed %#x, expected %#x", seen, want);
}

inline void checkLarge(const Graph& g, const std::vector<int>& comp, const std::vector<char>& want, const TarjanSCCResult* r, bool reversed)
{
    const size_t n = g.n(), nc = tarjan_get_numcomponents(r);
    std::vector<int> pos(n, -1), size(n, 0);
    for (int c : comp) ++size[c];
    for (size_t k = 0; k < nc; ++k) {
        TarjanComponent t = tarjan_get_strongcomponent(r, k);
        VF_REQUIRE(t.size > 0 && t.size <= n, "component %zu has size %zu", k, t.size);
        for (size_t i = 0; i < t.size; ++i) {
            int v = t.vertex[i];
            VF_REQUIRE(v >= 0 && size_t(v) < n, "component %zu lists vertex %d", k, v);
            VF_REQUIRE(pos[v] < 0, "vertex %d listed twice", v);
            pos[v] = int(k);
            VF_REQUIRE(comp[v] == comp[t.vertex[0]], "component %zu merges different strong components", k);
        }
        VF_REQUIRE(int(t.size) == size[comp[t.vertex[0]]], "component %zu has %zu of %d vertices", k, t.size, size[comp[t.vertex[0]]]);
    }
    for (size_t i = 0; i < n; ++i) {
        VF_REQUIRE((pos[i] >= 0) == bool(want[i]), "vertex %zu is %s", i, want[i] ? "missing" : "listed but not wanted");
        if (pos[i] >= 0)
            for (size_t k = g.ia[i]; k < g.ia[i + 1]; ++k) {
                int a = pos[i], b = pos[g.ja[k]];
                if (comp[i] != comp[g.ja[k]]) VF_REQUIRE(reversed ? a < b : b < a, "edge %zu->%d violates the component order", i, g.ja[k]);
            }
    }
}

inline std::vector<char> reachable(const Graph& g, const std::vector<int>& st)
{
    std::vector<char> r(g.n(), 0); std::vector<int> q;
    for (int s : st) if (!r[s]) { r[s] = 1; q.push_back(s); }
    while (!q.empty()) { int u = q.back(); q.pop_back(); for (size_t k = g.ia[u]; k < g.ia[u + 1]; ++k) if (!r[g.ja[k]]) { r[g.ja[k]] = 1; q.push_back(g.ja[k]); } }
    return r;
}

// Large deterministic shapes.
static const int NSHAPE = 11;
inline Graph shape(int s, int n)
{
    Graph g;
    for (int i = 0; i < n; ++i) {
        auto e = [&](int j) { if (j >= 0 && j < n) g.ja.push_back(j); };
        switch (s) {
        case 0: e(i + 1); break;                                   // line
        case 1: e(i - 1); break;                                   // line, downwards
        case 2: e((i + 1) % n); break;                             // ring
        case 3: e((i + n - 1) % n); e(i); break;                   // ring, downwards, self-loops
        case 4: if (i) e(0); break;                                // into a hub
        case 5: if (!i) for (int j = 1; j < n; ++j) e(j); break;    // from a hub
        case 6: if (!i) for (int j = n - 1; j >= 0; --j) e(j); else e(0); break; // hub both ways: one component
        case 7: e(2 * i + 2); e(2 * i + 1); break;                 // tree
        case 8: e(i % 8 == 7 ? i - 7 : i + 1); if (i % 8 == 3) e(i + 8); break;  // chain of rings of 8
        case 9: e(i + 1); if (i % 5 == 4) e(i - 3); if (i % 7 == 0) e(i / 2); e(i + 1); break; // nested loops, doubled edges
        case 10: { unsigned x = unsigned(i) * 2654435761u; e(int(x % unsigned(n))); e(int((x >> 7) % unsigned(n))); break; } // scattered
        }
        g.endrow();
    }
    return g;
}
inline std::vector<int> sizes(bool thorough, bool asan)
{
    std::vector<int> v;
    for (int i = 1; i <= (asan ? 40 : 140); ++i) v.push_back(i);
    for (int b : { 256, 512, 1024, 2048, 4096, 32768, 65536 }) if (!asan || b == 1024 || b == 65536) for (int d = -2; d <= 2; ++d) v.push_back(b + d);
    v.push_back(200000);
    if (!asan) v.push_back(1048577);
    if (thorough) { for (int i = 141; i <= 1500; ++i) v.push_back(i); v.push_back(3000000); }
    return v;
}

} // namespace scc
