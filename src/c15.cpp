// C15: compression of every short connection list, and of large patterned ones.
#include "csr.hpp"
#include "special.hpp"
#include <memory>
using namespace csr;
namespace {
void one(const std::vector<Add>& l, size_t rows, vf::Ctx& c)
{
    Opm::AssembledConnections a;
    Model m;
    for (auto& x : l) { add(a, x); m.pending.push_back(x); }
    a.compress(rows);
    if (m.compress(rows) != Model::Ok) VF_FAIL("harness: rejected list");
    check(a, m);
    ++c.states; c.transitions += l.size() + 1; ++c.traces; c.nontrivial += m.graph.size() < l.size() || m.graph.size() > 1;
    c.outcome(hash(m));
}
// weights are dyadic so that every order of summation is exact
const double W[7] = { 1, -1, 0, 0.375, -2.5, 1125899906842624.0, -1125899906842624.0 };

vf::Space lists(unsigned ents, unsigned cols, unsigned L, unsigned nw)
{
    const uint64_t per = uint64_t(ents) * cols * (nw ? nw : 1), P = 3;
    return { vf::sfmt("%s-%ux%u-length-%u", nw ? "weighted" : "unweighted", ents, cols, L), vf::sfmt("all lists of %u connections from %u sources to %u sinks%s, in every order, compressed with exactly enough, one more and four more rows", L, ents, cols, nw ? vf::sfmt(" with %u weights from {1,-1,0,0.375,-2.5,2^50,-2^50}", nw).c_str() : ""), vf::ipow(per, L) * P, [=](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i);
        static const int X[3] = { 0, 1, 4 };
        int extra = X[r.take(P)], mx = -1;
        std::vector<Add> l;
        for (unsigned k = 0; k < L; ++k) {
            Add a; a.i = r.take(ents); a.j = r.take(cols); a.weighted = nw > 0; a.v = nw ? W[r.take(nw)] : 0;
            mx = std::max(mx, a.i); l.push_back(a);
        }
        c.note("rows=%d list=%s", mx + 1 + extra, show(l).c_str());
        one(l, size_t(mx + 1 + extra), c);
    } };
}
}
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    std::vector<vf::Space> S;
    S.push_back({ "empty", "no connections, 0..20 rows", 21, [](uint64_t i, vf::Ctx& c) { one({}, i, c); } });
    const bool t = o.thorough;
    for (unsigned L = 1; L <= 3; ++L) S.push_back(lists(3, 3, L, o.asan && L == 3 ? 3 : 6));
    S.push_back(lists(2, 2, 4, o.asan ? 3 : 6));
    if (!o.asan) { S.push_back(lists(3, 3, 4, t ? 6 : 4)); S.push_back(lists(2, 2, 6, 3)); S.push_back(lists(2, 5, 3, 6)); S.push_back(lists(5, 2, 3, 6)); }
    for (unsigned L = 1; L <= (t ? 7u : o.asan ? 4u : 6u); ++L) S.push_back(lists(3, 3, L, 0));
    if (t && !o.asan) S.push_back(lists(3, 3, 5, 3));
    // cancellation, and weights of every magnitude
    const unsigned L4 = o.asan ? 3 : 4;
    S.push_back({ "magnitudes", vf::sfmt("all lists of %u connections from one source to two sinks with 7 weights {1,-1,0,0.375,-2.5,2^50,-2^50} at the scales 1, 2^-70, 2^-1060 and 2^900", L4), vf::ipow(14, L4) * 4, [L4](uint64_t i, vf::Ctx& c) {
        static const int E[4] = { 0, -70, -1060, 900 };
        vf::Radix r(i); const double sc = std::ldexp(1.0, E[r.take(4)]); std::vector<Add> l;
        for (unsigned k = 0; k < L4; ++k) { Add a; a.i = 0; a.j = r.take(2); a.weighted = true; a.v = sc * W[r.take(7)]; l.push_back(a); }
        c.note("%s", show(l).c_str());
        one(l, 1, c);
    } });
    {
        auto V = std::make_shared<std::vector<double>>(special::numbers(false));
        S.push_back({ "numbers", vf::sfmt("%zu weights (extremes, subnormals, numbers with all digits) at each position of a list of four connections, alone or beside a zero for the same pair", V->size()), V->size() * 4 * 3, [V](uint64_t i, vf::Ctx& c) {
            vf::Radix r(i); const double x = (*V)[r.take(unsigned(V->size()))]; const unsigned pos = r.take(4), dup = r.take(3);
            std::vector<Add> l{ { 0, 1, true, 2.5 }, { 2, 0, true, -1 }, { 1, 1, true, 0.1 }, { 0, 0, true, 7 } };
            l[pos].v = x;
            if (dup) { Add z = l[pos]; z.v = 0; l.insert(dup == 1 ? l.begin() : l.end(), z); }
            c.note("%s", show(l).c_str());
            one(l, 3, c);
        } });
    }
    // neighbours and sources that agree in their low bits
    for (unsigned L = 1; L <= (o.asan ? 2u : 3u); ++L) {
        S.push_back({ vf::sfmt("far-apart-%u", L), vf::sfmt("all lists of %u weighted connections from sources {0,1,65536} to sinks {0,1,256,65536,65537,131072}, exactly enough rows", L), vf::ipow(18, L), [L](uint64_t i, vf::Ctx& c) {
            static const int R[3] = { 0, 1, 65536 }, C[6] = { 0, 1, 256, 65536, 65537, 131072 };
            vf::Radix r(i); std::vector<Add> l; int mx = 0;
            for (unsigned k = 0; k < L; ++k) { Add a; a.i = R[r.take(3)]; a.j = C[r.take(6)]; a.weighted = true; a.v = 1 + 0.25 * k; mx = std::max(mx, a.i); l.push_back(a); }
            c.note("%s", show(l).c_str());
            one(l, size_t(mx + 1), c);
        } });
    }
    // large patterned lists
    auto sz = std::make_shared<std::vector<int>>();
    for (int k = 1; k <= (o.asan ? 40 : 200); ++k) sz->push_back(k);
    for (int b : { 256, 1024, 4096, 32768, 65536 }) if (!o.asan || b <= 1024) for (int d = -1; d <= 1; ++d) sz->push_back(b + d);
    S.push_back({ "large", vf::sfmt("12 patterns (dense rows and columns, bands, reversed and shuffled order, many repetitions, unweighted) x %zu sizes up to %d connections", sz->size(), 4 * sz->back()), 12 * sz->size(), [sz](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i); int n = (*sz)[r.take(sz->size())], pat = r.take(12);
        std::vector<Add> l;
        auto put = [&](int a, int b, int k) { l.push_back({ a, b, pat % 4 != 3, pat % 4 != 3 ? ((k * 37) % 64 - 20) * 0.125 : 0.0 }); };
        for (int k = 0; k < n; ++k) switch (pat % 6) {
        case 0: put(0, n - 1 - k, k); break;                      // one dense row
        case 1: put(n - 1 - k, 3, k); break;                      // one dense column
        case 2: put(k, k, k); put(k, (k + 1) % n, k); put((k + 1) % n, k, k); break;
        case 3: put(int((1ll * k * 7919) % n), int((1ll * k * 104729) % n), k); put(k % 5, k % 3, k); break;
        case 4: put(k % 3, k % 2, k); put(2, 1, k); put(n - 1, 0, k); put(0, n - 1, k); break; // repetitions
        case 5: put(k % 17, n - 1 - k, k); put(k % 17, n - 1 - k, k + 5); break;
        }
        if (pat >= 6) std::reverse(l.begin(), l.end());
        int mx = 0; for (auto& a : l) mx = std::max(mx, a.i);
        c.note("pattern %d, n=%d: %s", pat, n, show(l).c_str());
        one(l, size_t(mx + 1 + (n % 3)), c);
    } });
    return S;
}
VF_MAIN
