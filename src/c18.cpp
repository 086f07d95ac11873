// C18: the F-Phi curve on all small inputs.
#include "curve.hpp"
using namespace curve;
namespace {
const double FR[5] = { 1.0, 0.5, 0.25, 0.125, 2.0 };
void one(const Input& x, double frac, vf::Ctx& c)
{
    Ref r = reference(x.ti, x.tp, x.pv, frac);
    if (!r.defined) { ++c.skipped; return; }
    Graph g = flowCapacityStorageCapacityCurve(x.ti, x.tp, x.pv, frac);
    ++c.transitions; ++c.traces;
    check(g, r);
    if (frac == 1.0) { Graph d = flowCapacityStorageCapacityCurve(x.ti, x.tp, x.pv); check(d, r); ++c.transitions; }
    Solution si, sp; si.assignGlobalToF(std::vector<double>(x.ti)); sp.assignGlobalToF(std::vector<double>(x.tp));
    Graph h = flowCapacityStorageCapacityCurve(Toolbox::Forward{ si }, Toolbox::Reverse{ sp }, x.pv, frac);
    check(h, r);
    ++c.transitions;
    c.nontrivial += r.phi.size() > 2; c.outcome(hash(g));
}
vf::Space small(unsigned n, unsigned na, unsigned nb, unsigned nv)
{
    return { vf::sfmt("fields-%u", n), vf::sfmt("%u cells, injector times from {0,1,3,2^20} (%u), producer times from {1,2,1/8} (%u), pore volumes from {1,2,0,8} (%u), limits {1,1/2,1/4,1/8,2} including cells exactly at the limit%s", n, na, nb, nv, n <= 3 ? ", in units of 1, 2^-20 and 2^30" : ""), vf::ipow(na * nb * nv, n), [=](uint64_t i, vf::Ctx& c) {
        Input x = decode(i, n, na, nb, nv);
        c.note("%s", show(x).c_str());
        // the same field in other units: exact powers of two
        static const double SC[3][2] = { { 1, 1 }, { 9.5367431640625e-07, 1048576 }, { 1073741824, 9.5367431640625e-07 } };
        for (unsigned s = 0; s < (n <= 3 ? 3u : 1u); ++s) {
            Input y = x;
            for (unsigned k = 0; k < n; ++k) { y.pv[k] *= SC[s][0]; y.ti[k] *= SC[s][1]; y.tp[k] *= SC[s][1]; }
            for (double f : FR) one(y, f, c);
        }
        ++c.states;
    } };
}
}
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    std::vector<vf::Space> S{ small(1, 4, 3, 4), small(2, 4, 3, 4), small(3, 4, o.asan ? 1 : 3, o.asan ? 3 : 4) };
    if (!o.asan) S.push_back(small(4, 3, 2, o.thorough ? 4 : 3));
    if (!o.asan) S.push_back(small(5, 3, 1, o.thorough ? 4 : 3));
    if (!o.asan && o.thorough) S.push_back(small(6, 3, 1, 4));
    S.push_back({ "length-mismatch", "every combination of lengths 0..5 of the three fields", 6 * 6 * 6, [](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i); size_t a = r.take(6), b = r.take(6), v = r.take(6);
        if (a == b && b == v) return;
        c.note("lengths %zu %zu %zu", a, b, v);
        std::vector<double> A(a, 1.0), B(b, 2.0), V(v, 3.0);
        for (int k = 0; k < 2; ++k) {
            bool threw = false;
            try {
                if (k == 0) flowCapacityStorageCapacityCurve(A, B, V, 1.0);
                else { Solution s, t; s.assignGlobalToF(std::vector<double>(A)); t.assignGlobalToF(std::vector<double>(B)); flowCapacityStorageCapacityCurve(Toolbox::Forward{ s }, Toolbox::Reverse{ t }, V); }
            } catch (const std::exception&) { threw = true; }
            VF_REQUIRE(threw, "fields of %zu, %zu and %zu cells accepted", a, b, v);
            ++c.transitions; ++c.traces;
        }
        ++c.states;
    } });
    S.push_back({ "near-the-limit", "2..5 cells of total pore volume 1, one of them (at every position) larger or smaller than the limit {1/2,1/4,1/8} by 0 or 2^-k, k=4..50 (all sums exact), in units of 1, 2^-20, 2^30 and (k<23) 1+2^-26", 4 * 5 * 3 * 48 * 2 * 4, [](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i); unsigned n = 2 + r.take(4), at = r.take(5), fi = r.take(3), k = 3 + r.take(48), neg = r.take(2), un = r.take(4);
        static const double F[3] = { 0.5, 0.25, 0.125 }, U[4] = { 1, 9.5367431640625e-07, 1073741824, 67108865.0 / 67108864 };
        if (at >= n || (un == 3 && k > 22)) return;
        double d = k == 3 ? 0 : std::ldexp(neg ? -1.0 : 1.0, -int(k)), rest = 1 - F[fi] - d;
        Input x;
        for (unsigned q = 0, left = n - 1; q < n; ++q) {
            double v;
            if (q == at) v = F[fi] + d; else { --left; v = left ? std::ldexp(1.0, -int(q) - 3) : rest; rest -= v; }
            x.pv.push_back(v * U[un]); x.ti.push_back(1.0 + (q * 3) % 5); x.tp.push_back(2.0);
        }
        c.note("limit %g, offset %g: %s", F[fi], d, show(x).c_str());
        one(x, F[fi], c);
        ++c.states;
    } });
    S.push_back({ "near-ties", "2..4 cells whose total travel times differ by factors of 1+d, d=2^-k, k=8..33 (4 cells: 1, 1+d, 1+2d, 1+3d in every order), pore volumes from {1,4,1/2}, travel times split between the sides in three ways, in units of 1, 2^30 and 2^-20 (all sums exact)", 26 * 24 * 3 * 3 * 3 * 3 * 3, [](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i);
        const double d = std::ldexp(1.0, -int(8 + r.take(26)));
        unsigned perm = r.take(24), n = 2 + r.take(3), un = r.take(3), split = r.take(3), v0 = r.take(3), v1 = r.take(3);
        static const double U[3] = { 1, 1073741824, 9.5367431640625e-07 }, V[3] = { 1, 4, 0.5 };
        std::vector<unsigned> o{ 0, 1, 2, 3 };
        for (unsigned q = 0; q < perm; ++q) std::next_permutation(o.begin(), o.end());
        Input x;
        for (unsigned q = 0; q < n; ++q) {
            const double t = 1 + o[q] * d, a = split == 0 ? 0.5 : split == 1 ? 0 : o[q] * d;
            x.ti.push_back(a * U[un]); x.tp.push_back((t - a) * U[un]);
            x.pv.push_back(V[(o[q] + v0) % 3] * (q % 2 ? V[v1] : 1));
        }
        c.note("ties within %g: %s", d, show(x).c_str());
        one(x, 1.0, c);
        ++c.states;
    } });
    S.push_back({ "extreme-limits", "one cell with all but 2^-k of the pore volume, k=1..52, the rest in one or two cells before or after it, limits 2^-j and 1-2^-j, j=0..52, in units of 1 and 2^30 (all sums exact)", 52 * 4 * 53 * 2 * 2, [](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i); const int k = 1 + r.take(52), shape = r.take(4), j = r.take(53); const bool up = r.take(2); const double u = r.take(2) ? 1073741824.0 : 1.0;
        const double e = std::ldexp(1.0, -k), f = up ? 1 - std::ldexp(1.0, -j) : std::ldexp(1.0, -j);
        Input x;
        if (shape & 2) x.pv = { e / 2, e / 2 }; else x.pv = { e };
        if (shape & 1) x.pv.push_back(1 - e); else x.pv.insert(x.pv.begin(), 1 - e);
        for (size_t q = 0; q < x.pv.size(); ++q) { x.pv[q] *= u; x.ti.push_back(1.0 + (q * 3) % 5); x.tp.push_back(2.0); }
        c.note("limit %.17g: %s", f, show(x).c_str());
        one(x, f, c);
        ++c.states;
    } });
    S.push_back({ "large-at-the-limit", "one cell (first, middle, last) with exactly as much pore volume as all 2..69999 others together, 2^-20 more or 2^-20 less, limits 1/2 and 1, the others all alike or of three sizes", 12 * 3 * 3 * 2, [](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i); static const int NN[12] = { 3, 4, 11, 64, 65, 100, 1000, 4097, 5000, 20000, 65537, 70000 };
        const int n = NN[r.take(12)], at = r.take(3), off = r.take(3); const bool alike = r.take(2);
        const int big = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
        Input x; double sum = 0;
        for (int k = 0; k < n; ++k) { const double v = k == big ? 0 : (alike ? 1 : 1 + k % 3) * (1 + std::ldexp(1.0, -20)); x.pv.push_back(v); sum += v; x.ti.push_back(1.0 + (k * 3) % 5); x.tp.push_back(2.0); }
        x.pv[big] = sum + (off - 1) * std::ldexp(1.0, -20);
        c.note("%d cells, cell %d with half of the volume %+d", n, big, off - 1);
        one(x, 0.5, c); one(x, 1.0, c);
        ++c.states;
    } });
    const int N = o.asan ? 60 : 300;
    S.push_back({ "large", vf::sfmt("6 patterned fields of 1..%d, 1023..1025, 5000, 16385, 70000 and 200000 cells, limits {1,1/2,1/64}", N), uint64_t(N + 7) * 6, [=](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i); int n = r.take(N + 7) + 1, k = r.take(6); static const int BIG[7] = { 5000, 1023, 1024, 1025, 16385, 70000, 200000 }; if (n > N) n = BIG[n - N - 1];
        Input x = patterned(n, k);
        c.note("pattern %d, %d cells", k, n);
        for (double f : { 1.0, 0.5, 1.0 / 64 }) one(x, f, c);
        ++c.states;
    } });
    return S;
}
VF_MAIN
