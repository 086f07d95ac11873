// C12: strong components of all small digraphs and of large regular ones.
#include "scc.hpp"
using namespace scc;
namespace {
void one(const Graph& g, vf::Ctx& c)
{
    Closure cl(g);
    Result r(tarjan(g.n(), g.ia.data(), g.ja.data()));
    VF_REQUIRE(r != nullptr, "no result");
    checkSmall(g, cl, g.n() ? (1u << g.n()) - 1 : 0, r.get(), false);
    size_t nc = tarjan_get_numcomponents(r.get());
    ++c.states; c.transitions += 2 + nc; ++c.traces; // calls: decomposition, count, each component
    if (nc > 1 && nc < g.n()) ++c.nontrivial;
    uint64_t h = nc; for (size_t k = 0; k < nc; ++k) { auto t = tarjan_get_strongcomponent(r.get(), k); h = vf::mix(h, t.size * 64 + t.vertex[0]); }
    c.outcome(h);
}
// all digraphs on n vertices, 2^shift per case
vf::Space bits(unsigned n, bool loops, unsigned orders, unsigned shift)
{
    uint64_t N = nGraphs(n, loops), B = std::min<uint64_t>(1ull << shift, N);
    std::string nm; for (unsigned k = 0; k < 4; ++k) if (orders >> k & 1) nm += std::string(nm.empty() ? "" : ", ") + (k == 0 ? "ascending" : k == 1 ? "descending" : k == 2 ? "rotated" : "doubled");
    return { vf::sfmt("digraphs-%u%s", n, loops ? "-loops" : ""), vf::sfmt("all %llu digraphs on %u vertices %s self-loops, neighbour lists %s (%llu graphs per case)", (unsigned long long)N, n, loops ? "with" : "without", nm.c_str(), (unsigned long long)B),
        N / B, [=](uint64_t i, vf::Ctx& c) {
            Graph g;
            for (uint64_t b = i * B; b < (i + 1) * B; ++b)
                for (unsigned o = 0; o < 4; ++o) if (orders >> o & 1) {
                    fromBits(g, n, b, loops, o);
                    if (b == i * B) c.note("%s ...", show(g).c_str());
                    try { one(g, c); } catch (const vf::Fail& f) { VF_FAIL("%s on %s", f.msg.c_str(), show(g).c_str()); }
                }
        } };
}
// all neighbour lists (order and repetition matter) up to length L
vf::Space lists(unsigned n, unsigned L)
{
    uint64_t per = 0; for (unsigned l = 0; l <= L; ++l) per += vf::ipow(n, l);
    return { vf::sfmt("lists-%u-%u", n, L), vf::sfmt("all digraphs on %u vertices given by neighbour lists of length 0..%u in every order with every repetition", n, L), vf::ipow(per, n), [=](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i);
        Graph g;
        for (unsigned v = 0; v < n; ++v) {
            uint64_t k = r.take(per); unsigned len = 0;
            while (k >= vf::ipow(n, len)) { k -= vf::ipow(n, len); ++len; }
            for (unsigned j = 0; j < len; ++j) { g.ja.push_back(int(k % n)); k /= n; }
            g.endrow();
        }
        c.note("%s", show(g).c_str());
        one(g, c);
    } };
}
}
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    std::vector<vf::Space> S;
    S.push_back({ "empty", "the empty graph and graphs of 1..64 isolated vertices", 65, [](uint64_t i, vf::Ctx& c) {
        Graph g; for (uint64_t k = 0; k < i; ++k) g.endrow();
        Result r(tarjan(g.n(), g.ia.data(), g.ja.data()));
        VF_REQUIRE(r && tarjan_get_numcomponents(r.get()) == i, "%llu isolated vertices", (unsigned long long)i);
        checkLarge(g, kosaraju(g), std::vector<char>(i, 1), r.get(), false);
        ++c.states; ++c.traces; c.transitions += 2 + i;
    } });
    for (unsigned n = 1; n <= 3; ++n) S.push_back(bits(n, true, 15, 4));
    S.push_back(bits(4, true, 15, 6));
    S.push_back(lists(2, 4));
    S.push_back(lists(3, 3));
    if (!o.asan) {
        S.push_back(lists(4, 2));
        S.push_back(bits(5, false, 15, 8));
        S.push_back(bits(5, true, o.thorough ? 15 : 2, 10));
        if (o.thorough) S.push_back(bits(6, false, 3, 14));
    }
    auto sz = std::make_shared<std::vector<int>>(sizes(o.thorough, o.asan));
    S.push_back({ "large", vf::sfmt("%d shapes (lines, rings, hubs, trees, chains of rings, nested loops, scattered) x %zu sizes up to %d vertices", NSHAPE, sz->size(), sz->back()), uint64_t(NSHAPE) * sz->size(), [sz](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i); int n = (*sz)[r.take(sz->size())], s = r.take(NSHAPE);
        Graph g = shape(s, n);
        c.note("shape %d, %d vertices", s, n);
        Result res(tarjan(g.n(), g.ia.data(), g.ja.data()));
        VF_REQUIRE(res != nullptr, "no result");
        checkLarge(g, kosaraju(g), std::vector<char>(n, 1), res.get(), false);
        ++c.states; ++c.traces; c.transitions += 2 + tarjan_get_numcomponents(res.get()); ++c.nontrivial;
    } });
    return S;
}
VF_MAIN
