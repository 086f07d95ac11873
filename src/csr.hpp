// Model of AssembledConnections: pending list and compressed graph as ordered maps.
#pragma once
#include "vf.hpp"
#include <opm/utility/graph/AssembledConnections.hpp>
#include <stdexcept>

namespace csr {

struct Add { int i, j; bool weighted; double v; };
typedef std::map<std::pair<int, int>, double> Pairs;

struct Model {
    std::vector<Add> pending;
    bool have = false, weighted = false;
    size_t rows = 0;
    Pairs graph;
    enum Verdict { Ok, Mixed, TooFew };
    Verdict verdict(size_t n) const
    {
        size_t w = 0; int mx = -1;
        for (auto& a : pending) { w += a.weighted; mx = std::max(mx, a.i); }
        if (w != 0 && w != pending.size()) return Mixed;
        if (mx >= 0 && size_t(mx) >= n) return TooFew;
        return Ok;
    }
    Verdict compress(size_t n)
    {
        Verdict v = verdict(n);
        if (v != Ok) return v;
        graph.clear(); have = true; rows = n; weighted = !pending.empty() && pending[0].weighted;
        for (auto& a : pending) graph[{ a.i, a.j }] += a.v;
        pending.clear();
        return v;
    }
};

inline std::string show(const std::vector<Add>& l)
{
    std::string s;
    for (size_t k = 0; k < l.size() && k < 30; ++k) s += l[k].weighted ? vf::sfmt("(%d,%d,%.17g) ", l[k].i, l[k].j, l[k].v) : vf::sfmt("(%d,%d) ", l[k].i, l[k].j);
    return s;
}

inline void add(Opm::AssembledConnections& c, const Add& a) { if (a.weighted) c.addConnection(a.i, a.j, a.v); else c.addConnection(a.i, a.j); }

// The three views of a compressed graph against the model.
inline void check(const Opm::AssembledConnections& c, const Model& m)
{
    VF_REQUIRE(c.numRows() == m.rows, "%zu rows, requested %zu", size_t(c.numRows()), m.rows);
    auto& ia = c.startPointers(); auto& ja = c.neighbourhood(); auto& sa = c.connectionWeight();
    VF_REQUIRE(ia.size() == m.rows + 1, "%zu start pointers for %zu rows", ia.size(), m.rows);
    VF_REQUIRE(ia[0] == 0 && ia.back() == ja.size(), "start pointers run from %zu to %zu, %zu neighbours stored", size_t(ia[0]), size_t(ia.back()), ja.size());
    VF_REQUIRE(ja.size() == m.graph.size(), "%zu distinct connections stored, %zu added", ja.size(), m.graph.size());
    if (m.weighted || m.graph.empty()) VF_REQUIRE(sa.size() == ja.size(), "%zu weights for %zu connections", sa.size(), ja.size());
    auto it = m.graph.begin();
    for (size_t r = 0; r < m.rows; ++r) {
        VF_REQUIRE(ia[r] <= ia[r + 1] && ia[r + 1] <= ja.size(), "start pointers decrease at row %zu", r);
        for (size_t k = ia[r]; k < ia[r + 1]; ++k, ++it) {
            VF_REQUIRE(k == ia[r] || ja[k - 1] < ja[k], "neighbours of row %zu are not ascending", r);
            VF_REQUIRE(it != m.graph.end() && it->first.first == int(r) && it->first.second == ja[k], "row %zu lists neighbour %d, expected (%d,%d)", r, ja[k], it == m.graph.end() ? -1 : it->first.first, it == m.graph.end() ? -1 : it->first.second);
            if (m.weighted) VF_REQUIRE(sa[k] == it->second, "connection (%zu,%d) has weight %.17g, sum of added weights is %.17g", r, ja[k], sa[k], it->second);
        }
    }
    VF_REQUIRE(it == m.graph.end(), "connection (%d,%d) is missing", it->first.first, it->first.second);
    if (m.weighted || m.graph.empty()) {
        it = m.graph.begin();
        for (size_t r = 0; r < m.rows; ++r)
            for (const auto& x : c.cellNeighbourhood(int(r))) {
                VF_REQUIRE(it != m.graph.end() && it->first.first == int(r) && it->first.second == x.neighbour && it->second == x.weight, "iteration over row %zu yields (%d,%.17g)", r, x.neighbour, x.weight);
                ++it;
            }
        VF_REQUIRE(it == m.graph.end(), "iteration misses connections");
    }
}
inline uint64_t hash(const Model& m) { uint64_t h = m.rows * 2 + m.weighted; for (auto& e : m.graph) h = vf::mixd(vf::mix(h, e.first.first * 1000 + e.first.second), e.second); return h; }

} // namespace csr
