// C26: random vectors.
#include "vf.hpp"
#include <opm/utility/numeric/RandomVector.hpp>
#include <climits>
#include <memory>
#include <set>
using Opm::RandomVector;
namespace {
struct Req { int kind; size_t n; double a, b; int max; };
const Req REQ[] = { { 0, 0, 0, 1, 0 }, { 0, 1, 0, 1, 0 }, { 0, 3, 5, 2, 0 }, { 0, 2, 0, 1, 0 }, { 1, 0, 0, 0, 4 }, { 1, 1, 0, 0, 1 }, { 1, 3, 0, 0, 9 }, { 1, 2, 0, 0, INT_MAX }, { 1, 4, 0, 0, 0 } };
const unsigned NR = 9;
typedef std::vector<double> Obs;
Obs ask(RandomVector& g, const Req& r)
{
    if (r.kind == 0) {
        auto s = (r.n == 1 && r.a == 0 && r.b == 1) ? g.normal(r.n) : g.normal(r.n, r.a, r.b);
        VF_REQUIRE(s.size() == r.n, "normal sample of length %zu, requested %zu", s.size(), r.n);
        for (double x : s) VF_REQUIRE(std::isfinite(x), "sample %g", x);
        return s;
    }
    auto s = g.index(r.n, r.max);
    VF_REQUIRE(s.size() == r.n, "index sample of length %zu, requested %zu", s.size(), r.n);
    for (int x : s) VF_REQUIRE(x >= 0 && x <= r.max, "index %d outside [0,%d]", x, r.max);
    return Obs(s.begin(), s.end());
}
vf::Space longer(unsigned len)
{
    return { vf::sfmt("long-requests-%u", len), vf::sfmt("every sequence of %u requests out of 6 with lengths {3,129,5000} (normal) and {2,129,5000} (index) distributed in every way over two generators", len), vf::ipow(12, len), [=](uint64_t i, vf::Ctx& c) {
        static const Req Q[6] = { { 0, 3, 0, 1, 0 }, { 0, 129, 2, 3, 0 }, { 0, 5000, 0, 1, 0 }, { 1, 2, 0, 0, 9 }, { 1, 129, 0, 0, 1 }, { 1, 5000, 0, 0, 77 } };
        vf::Radix r(i); RandomVector g[2]; std::vector<Req> h[2]; std::vector<Obs> got[2];
        for (unsigned k = 0; k < len; ++k) { unsigned s = r.take(2); const Req& q = Q[r.take(6)]; c.note("generator %u %s n=%zu; ", s, q.kind ? "index" : "normal", q.n); h[s].push_back(q); got[s].push_back(ask(g[s], q)); ++c.transitions; }
        for (int s = 0; s < 2; ++s) {
            RandomVector f;
            for (size_t k = 0; k < h[s].size(); ++k) { VF_REQUIRE(ask(f, h[s][k]) == got[s][k], "request %zu of generator %d differs from the same history alone", k, s); ++c.transitions; }
            ++c.traces;
        }
        ++c.states; ++c.nontrivial; c.outcome(i);
    } };
}
vf::Space interleavings(unsigned len)
{
    return { vf::sfmt("interleavings-%u", len), vf::sfmt("every sequence of %u requests (9 kinds: normal and index, lengths 0..4) distributed in every way over two generators, the second created first, in between or last", len), vf::ipow(NR * 2, len) * 2, [=](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i);
        bool late = r.take(2);
        std::unique_ptr<RandomVector> g[2];
        g[0].reset(new RandomVector); if (!late) g[1].reset(new RandomVector);
        std::vector<Req> h[2]; std::vector<Obs> got[2];
        for (unsigned k = 0; k < len; ++k) {
            unsigned s = r.take(2); const Req& q = REQ[r.take(NR)];
            if (!g[s]) g[s].reset(new RandomVector);
            c.note("generator %u %s n=%zu; ", s, q.kind ? "index" : "normal", q.n);
            h[s].push_back(q); got[s].push_back(ask(*g[s], q)); ++c.transitions;
        }
        for (int s = 0; s < 2; ++s) { // the same history alone
            RandomVector f;
            for (size_t k = 0; k < h[s].size(); ++k) { VF_REQUIRE(ask(f, h[s][k]) == got[s][k], "request %zu of generator %d differs from the same history alone", k, s); ++c.transitions; }
            ++c.traces;
        }
        ++c.states; c.nontrivial += !h[0].empty() && !h[1].empty(); c.outcome(i % 100000);
    } };
}
}
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    std::vector<vf::Space> S{ interleavings(1), interleavings(2), longer(1), longer(2) };
    if (!o.asan) S.push_back(longer(3));
    if (!o.asan) S.push_back(longer(4));
    if (!o.asan) S.push_back(interleavings(3));
    if (!o.asan) S.push_back(interleavings(4));
    if (!o.asan) S.push_back(interleavings(5));
    if (!o.asan && o.thorough) S.push_back(interleavings(6));
    const int M = o.asan ? 20 : 200, top = o.asan ? 14 : o.thorough ? 25 : 20;
    S.push_back({ "ranges", vf::sfmt("maxima 0..%d, near INT_MAX and near every power of two from 2^8: both ends attained within 200*(max+1) samples for maxima up to %d, within 24*(max+1) near powers of two up to 2^%d; both outer percents of 40000 samples otherwise", M - 1, M - 1, top), uint64_t(M + 3 + 23 * 3), [=](uint64_t i, vf::Ctx& c) {
        const int e = int(i) < M + 3 ? 0 : 8 + int(i - M - 3) / 3;
        int max = int(i) < M ? int(i) : int(i) < M + 3 ? INT_MAX - int(i - M) : int((1u << e) - 1 + (i - M - 3) % 3);
        if (max < 0) max = INT_MAX;
        const bool ends = int(i) < M || (e && e <= top);
        size_t n = int(i) < M ? 200 * size_t(max + 1) : ends ? 24 * (size_t(max) + 1) : 40000;
        c.note("max %d", max);
        RandomVector g; size_t got = 0; int least = max, most = 0;
        while (got < n && (got == 0 || !ends || int(i) < M || least > 0 || most < max)) {
            const size_t ask = std::min<size_t>(n - got, 1 << 20);
            auto s = g.index(ask, max); got += ask;
            VF_REQUIRE(s.size() == ask, "length %zu", s.size());
            for (int x : s) { VF_REQUIRE(x >= 0 && x <= max, "index %d outside [0,%d]", x, max); least = std::min(least, x); most = std::max(most, x); }
            ++c.transitions;
        }
        if (ends) VF_REQUIRE(least == 0 && most == max, "%zu samples over [0,%d] lie in [%d,%d]", n, max, least, most);
        else VF_REQUIRE(least <= max / 100.0 && most >= max * 0.99, "samples over [0,%d] lie in [%d,%d]", max, least, most);
        ++c.traces; ++c.states; ++c.nontrivial; c.outcome(i);
    } });
    S.push_back({ "scaling", "means {0,1,-7,1e6,1e-9} x standard deviations {1,2,1/8,1000,1e-9,1e-100,1e12} x lengths 1..200: the standard sample scaled and shifted", 5 * 7 * 200, [](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i); const double M[] = { 0, 1, -7, 1e6, 1e-9 }, D[] = { 1, 2, 0.125, 1000, 1e-9, 1e-100, 1e12 };
        double m = M[r.take(5)], d = D[r.take(7)]; size_t n = r.take(200) + 1;
        c.note("n=%zu mean=%g stdev=%g", n, m, d);
        RandomVector g, f, h; auto z = g.normal(n), x = f.normal(n, m, d), y = h.normal(n, m);
        VF_REQUIRE(z.size() == n && x.size() == n && y.size() == n, "length");
        for (size_t k = 0; k < n; ++k) VF_REQUIRE(std::fabs(x[k] - (m + d * z[k])) <= 1e-12 * (std::fabs(m) + d * (1 + std::fabs(z[k]))) && std::fabs(y[k] - (m + z[k])) <= 1e-12 * (std::fabs(m) + 1 + std::fabs(z[k])), "sample %zu is %.17g, expected mean %g + stdev %g times %.17g", k, x[k], m, d, z[k]);
        c.transitions += 3; ++c.traces; ++c.states; ++c.nontrivial; c.outcome(i);
    } });
    S.push_back({ "lengths", "sample lengths 0..2000, around 4096, 32768 and 65536, 100000 and 1000000, normal and index", 2012 * 2, [](uint64_t i, vf::Ctx& c) {
        static const size_t BIG[11] = { 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 1000000 };
        size_t n = i / 2; if (n > 2000) n = BIG[n - 2001]; RandomVector g, f; c.note("n=%zu", n);
        if (i % 2) { auto a = g.index(n, 12), b = f.index(n, 12); VF_REQUIRE(a.size() == n && a == b, "index sample differs between equal generators or has wrong length"); }
        else { auto a = g.normal(n, 1.0, 3.0), b = f.normal(n, 1.0, 3.0); VF_REQUIRE(a.size() == n && a == b, "normal sample differs between equal generators or has wrong length"); }
        c.transitions += 2; ++c.traces; ++c.states; c.outcome(i);
    } });
    return S;
}
VF_MAIN
