// C07: every rewriting of a problem from a finite set gives the same fields.
#include "equiv.hpp"
#include <numeric>
using namespace flow;

namespace {
struct Rewritten { Problem q; std::vector<int> map; std::map<std::string, std::vector<std::string>> names; };

Rewritten plainCopy(const Problem& p)
{
    Rewritten r{ p, identity(p.n), {} };
    for (auto& w : p.wells) r.names[w.first] = { w.first };
    return r;
}
void permuteCells(Rewritten& r, const std::vector<int>& pi)
{
    for (auto& c : r.q.conn) { c[0] = pi[c[0]]; c[1] = pi[c[1]]; }
    auto pv = r.q.pv;
    for (int i = 0; i < r.q.n; ++i) r.q.pv[pi[i]] = pv[i];
    Wells w;
    for (auto& e : r.q.wells) { w[e.first]; for (auto& x : e.second) w[e.first][pi[x.first]] = x.second; }
    r.q.wells = w;
    for (auto& m : r.map) m = pi[m];
}
void permuteConns(Rewritten& r, const std::vector<int>& pi)
{
    Problem o = r.q;
    for (size_t k = 0; k < pi.size(); ++k) {
        r.q.conn[k] = o.conn[pi[k]];
        for (int f = 0; f < o.nph; ++f) r.q.flux[k * o.nph + f] = o.flux[pi[k] * o.nph + f];
    }
}
void flip(Rewritten& r, unsigned mask)
{
    for (size_t k = 0; k < r.q.conn.size(); ++k)
        if ((mask >> (k % 31)) & 1) {
            std::swap(r.q.conn[k][0], r.q.conn[k][1]);
            for (int f = 0; f < r.q.nph; ++f) r.q.flux[k * r.q.nph + f] *= -1;
        }
}
// distribute the (single-phase) flux over phases; exact in binary
void phases(Rewritten& r, int kind)
{
    auto f = r.q.flux;
    r.q.flux.clear();
    for (double q : f) {
        double u = 1.0 / 8192; // the other phases are of the magnitude of the flux, so that all sums are exact
        if (q != 0 && (std::fabs(q) < u / 1024 || std::fabs(q) > u * 1024)) u = std::ldexp(1.0, std::ilogb(q));
        switch (kind) {
        case 0: r.q.nph = 2; r.q.flux.insert(r.q.flux.end(), { q / 4, 3 * q / 4 }); break;
        case 1: r.q.nph = 3; r.q.flux.insert(r.q.flux.end(), { q + 5 * u, -7 * u, 2 * u }); break;
        case 2: r.q.nph = 3; r.q.flux.insert(r.q.flux.end(), { 0.0, q, 0.0 }); break;
        case 5: { double s = std::ldexp(u, 35); if (q - s + s != q) s = std::ldexp(u, 24); r.q.nph = 2; r.q.flux.insert(r.q.flux.end(), { q - s, s }); break; }
        case 4: { r.q.nph = 17; for (int j = 0; j < 16; ++j) r.q.flux.push_back((j % 2 ? -1 : 1) * u * (1 + j / 2)); r.q.flux.push_back(q); break; }
        case 6: { const double s = std::ldexp(u, 24); r.q.nph = 3; r.q.flux.insert(r.q.flux.end(), { s, q, -s }); break; }
        case 3: r.q.nph = 5; r.q.flux.insert(r.q.flux.end(), { -2 * q, q, q, q / 2, q / 2 }); break;
        }
    }
}
// distribute over parallel connections; parts keep the sign of the flux
void parallel(Rewritten& r, unsigned mask, int kind)
{
    const size_t m = r.q.conn.size();
    for (size_t k = 0; k < m; ++k)
        if ((mask >> (k % 31)) & 1) {
            double q = r.q.flux[k];
            auto c = r.q.conn[k];
            switch (kind) {
            case 0: r.q.flux[k] = q / 4; r.q.conn.push_back(c); r.q.flux.push_back(3 * q / 4); break;
            case 1: r.q.flux[k] = q / 2; r.q.conn.push_back({ c[1], c[0] }); r.q.flux.push_back(-q / 2); break;
            case 2: r.q.conn.push_back(c); r.q.flux.push_back(0.0); break;
            case 4: r.q.flux[k] = q / 8;
                for (int j = 0; j < 7; ++j) { r.q.conn.push_back(j % 3 == 1 ? std::array<int, 2>{ { c[1], c[0] } } : c); r.q.flux.push_back(j % 3 == 1 ? -q / 8 : q / 8); }
                break;
            case 3: r.q.flux[k] = q / 2;
                for (int j = 0; j < 2; ++j) { r.q.conn.insert(r.q.conn.begin(), c); r.q.flux.insert(r.q.flux.begin(), q / 4); ++k; }
                return;
            }
        }
}
void wells(Rewritten& r, int kind)
{
    Wells w;
    auto names = r.names;
    for (auto& e : r.q.wells) {
        // find the original name(s)
        for (auto& nm : r.names) for (auto& x : nm.second) if (x == e.first) {
            auto& list = names[nm.first];
            list.clear();
            switch (kind) {
            case 0: list = { "zz" + e.first }; w[list[0]] = e.second; break;                  // rename
            case 1: list = { std::string(1, char('Z' - (e.first[0] - 'A'))) + e.first }; w[list[0]] = e.second; break; // reverses the order
            case 2: list = { e.first + "1", "0" + e.first };                                    // rate shares
                for (auto& y : e.second) { w[list[0]][y.first] = y.second / 4; w[list[1]][y.first] = 3 * y.second / 4; }
                break;
            case 3: list = { e.first };                                                         // one id per cell
                { int k = 0; list.clear(); for (auto& y : e.second) { list.push_back(e.first + vf::sfmt("c%d", k++)); w[list.back()][y.first] = y.second; } }
                break;
            case 5: { // unusual names: empty, embedded zero bytes, long common prefixes, high-bit characters
                const int k = int(w.size());
                const std::string pre(k % 2 ? 60 : 0, 'p');
                static const std::string odd[6] = { std::string(), std::string("a\0", 2), std::string("a\0b", 3), "\xc3\xa6", " ", "a " };
                list = { k < 6 ? odd[k] : pre + std::string(size_t(k), '\xff') }; w[list[0]] = e.second; break; }
            case 6: { // names of equal length differing in the last character only
                list = { std::string(40, 'W') + char('z' - int(w.size()) % 26) + std::string(w.size() / 26, '!') }; w[list[0]] = e.second; break; }
            case 7: // only the first well is split, the others must not notice
                if (!w.empty()) { list = { e.first }; w[e.first] = e.second; break; }
                list = { e.first + "#2", e.first + "#1" };
                for (auto& y : e.second) { w[list[0]][y.first] = y.second / 8; w[list[1]][y.first] = 7 * y.second / 8; }
                break;
            case 4: list = { e.first, e.first + "x", e.first + "y" };                           // three shares
                for (auto& y : e.second) { w[list[0]][y.first] = y.second / 2; w[list[1]][y.first] = y.second / 4; w[list[2]][y.first] = y.second / 4; }
                break;
            }
        }
    }
    r.q.wells = w; r.names = names;
}

std::vector<std::vector<int>> allPerms(int n)
{
    std::vector<std::vector<int>> v; auto p = identity(n);
    do v.push_back(p); while (std::next_permutation(p.begin(), p.end()));
    return v;
}
std::vector<std::vector<int>> somePerms(int n) // identity-free generators and far shuffles
{
    std::vector<std::vector<int>> v; auto p = identity(n);
    for (int i = 0; i + 1 < n; ++i) { auto q = p; std::swap(q[i], q[i + 1]); v.push_back(q); }
    auto q = p; std::reverse(q.begin(), q.end()); v.push_back(q);
    for (int k = 1; k < n; k += std::max(1, n / 4)) { q = p; std::rotate(q.begin(), q.begin() + k, q.end()); v.push_back(q); }
    q.clear(); for (int i = 0; i < n; i += 2) q.push_back(i); for (int i = 1; i < n; i += 2) q.push_back(i); v.push_back(q);
    return v;
}

typedef std::function<void(Rewritten&)> Rw;
std::vector<std::pair<std::string, Rw>> rewritings(int n, int m, bool allCells, bool thorough, bool asan)
{
    std::vector<std::pair<std::string, Rw>> R;
    for (auto& pi : (allCells ? allPerms(n) : somePerms(n))) R.push_back({ "renumbered cells", [pi](Rewritten& r) { permuteCells(r, pi); } });
    for (auto& pi : (thorough && m <= 6 ? allPerms(m) : somePerms(m))) R.push_back({ "permuted connections", [pi](Rewritten& r) { permuteConns(r, pi); } });
    const unsigned nm = asan ? 7 : (1u << std::min(m, 6));
    for (unsigned k = 1; k < nm; ++k) R.push_back({ "swapped connection ends", [k](Rewritten& r) { flip(r, k); } });
    for (int k = 0; k < 7; ++k) R.push_back({ "flux split over phases", [k](Rewritten& r) { phases(r, k); } });
    for (int k = 0; k < 5; ++k)
        for (unsigned mask : { 1u, 0x7fffffffu, 0x2au, 0x15555555u }) R.push_back({ "flux split over parallel connections", [k, mask](Rewritten& r) { parallel(r, mask, k); } });
    for (int k = 0; k < 8; ++k) R.push_back({ (k < 2 || k == 5 || k == 6) ? "renamed wells" : "split wells", [k](Rewritten& r) { wells(r, k); } });
    // combinations
    auto sp = somePerms(n);
    for (int k = 0; k < 8; ++k)
        R.push_back({ "combined rewriting", [k, sp](Rewritten& r) {
            permuteCells(r, sp[(k * 3 + 1) % sp.size()]);
            parallel(r, 0x2b + k, k % 5);
            flip(r, 0x35u + 11 * k);
            auto cp = somePerms(int(r.q.conn.size()));
            permuteConns(r, cp[(k * 5 + 2) % cp.size()]);
            phases(r, (k + 1) % 7);
            wells(r, k);
        } });
    return R;
}

void compare(const Problem& p, const Fields* base, const Tol* tol, const Rewritten& r, const char* what, vf::Ctx& c)
{
    for (int d = 0; d < 2; ++d) {
        if (!tol[d].global.reach.size()) continue;
        Fields b = runReal(r.q, d == 0);
        c.transitions += 5; ++c.traces;
        sameGlobal(tol[d], base[d], b, r.map, what);
        size_t expect = 0;
        for (auto& w : base[d].start) {
            auto& parts = r.names.at(w);
            std::vector<std::string> have;
            for (auto& x : parts) if (b.conc.count(x)) have.push_back(x);
            expect += have.size();
            VF_REQUIRE(!have.empty(), "%s: well %s lost", what, w.c_str());
            if (parts.size() == 1) { sameWell(tol[d], base[d], b, r.map, w, parts[0], what); continue; }
            std::map<int, LD> sum;
            for (auto& x : have) for (auto& e : b.conc.at(x)) sum[e.first] += e.second;
            auto& t = tol[d].local.at(w);
            VF_REQUIRE(sum.size() == base[d].conc.at(w).size(), "%s: parts of well %s cover %zu cells, the whole %zu", what, w.c_str(), sum.size(), base[d].conc.at(w).size());
            for (auto& e : base[d].conc.at(w)) {
                VF_REQUIRE(sum.count(r.map[e.first]), "%s: parts of well %s miss cell %d", what, w.c_str(), e.first);
                LD s = sum.at(r.map[e.first]);
                VF_REQUIRE(fabsl(s - e.second) <= (2 + have.size()) * t.ec[e.first], "%s: parts of well %s sum to %.17Lg in cell %d instead of %.17g", what, w.c_str(), s, e.first, e.second);
            }
        }
        VF_REQUIRE(b.start.size() == expect, "%s: %zu start points reported, expected %zu", what, b.start.size(), expect);
    }
}
}

std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    std::vector<Family> fam;
    const double u = UNIT;
    static const double FL[4] = { 0, 1, -1, 2 };
    const unsigned nw = o.thorough ? 16 : o.asan ? 1 : 4;
    const unsigned nf = 3;
    fam.push_back({ "K4", vf::sfmt("4 cells, 6 connections, flux in {0,+-1}*{1,2,3}u, %u well sets", nw), ipow(nf, 6) * nw, [=](uint64_t i) {
        Radix r(i);
        Problem p; p.n = 4; p.conn = complete(4);
        for (int c = 0; c < 6; ++c) p.flux.push_back(FL[r.take(nf)] * u * (1 + (c % 3)));
        unsigned w = r.take(nw) * 5 + 2;
        addWell(p.wells, 0, 1 + w % 7, u); addWell(p.wells, 1, (w * 3) % 8, 2 * u); addWell(p.wells, 2, (w / 2) % 8, u); addWell(p.wells, 3, 2, u);
        p.pv = { 1000.1, 350.3, (w & 4) ? 3.0e7 : 725.7, 125.0 };
        return p;
    } });
    {
        const unsigned gw = o.thorough ? 9 : 1;
        fam.push_back({ "grid3x2", vf::sfmt("3x2 grid, flux in {0,+-1}*{1,3,2}u, %u well sets", gw), ipow(3, 7) * gw / (o.asan ? 9 : 1), [=](uint64_t i) {
            Radix r(i);
            Problem p; p.n = 6; p.conn = grid(3, 2);
            for (int c = 0; c < 7; ++c) p.flux.push_back(FL[r.take(3)] * u * (1 + (c * 2) % 3));
            unsigned w = r.take(gw);
            p.wells["A"][w % 6] = 2 * u; p.wells["A"][4] = u; p.wells["B"][(w + 2) % 6] = u; p.wells["P"][5] += -2 * u; p.wells["Q"][(w + 1) % 5] += -u;
            p.pv = { 1000.1, 350.3, 725.7, 125.0, 40.0, 2000.0 };
            return p;
        } });
    }
    {
        const unsigned ns = o.thorough ? 6 : o.asan ? 2 : 4;
        fam.push_back({ "magnitudes", vf::sfmt("4 cells, 6 connections, flux in {0,+-1} times u*{1,2,3} in %u scalings: all by 2^-100, some by 2^-60, some by 2^-40 and 2^20, all by 2^80%s", ns, o.thorough ? ", all by 2^-300, all by 2^300" : ""), ipow(3, 6) * ns / (o.asan ? 9 : 1), [=](uint64_t i) {
            Radix r(i);
            const unsigned k = r.take(ns);
            Problem p; p.n = 4; p.conn = complete(4);
            const int all[6] = { -100, 0, 0, 80, -300, 300 };
            for (int c = 0; c < 6; ++c) p.flux.push_back(std::ldexp(FL[r.take(3)] * u * (1 + (c % 3)), all[k] + (k == 1 && c % 2 ? -60 : k == 2 ? (c % 3 == 0 ? -40 : c % 3 == 1 ? 20 : 0) : 0)));
            const double w = std::ldexp(u, all[k]);
            p.wells["A"][0] = w; p.wells["B"][1] = std::ldexp(w, k == 1 ? -60 : 0); p.wells["B"][2] = 2 * w; p.wells["P"][3] = -w; p.wells["Q"][1] = -w; p.wells["Q"][0] = std::ldexp(-w, k == 2 ? -40 : 0);
            p.pv = { 1000.1, 350.3, 725.7, 125.0 };
            for (double& v : p.pv) v = std::ldexp(v, all[k]);
            return p;
        } });
    }
    std::vector<vf::Space> S;
    for (auto& f : fam) {
        auto rw = std::make_shared<std::vector<std::pair<std::string, Rw>>>();
        Problem ex = f.make(0);
        *rw = rewritings(ex.n, int(ex.conn.size()), f.name == "K4", o.thorough, o.asan);
        S.push_back({ f.name, f.bound + vf::sfmt("; each in %zu rewritten forms (cell and connection permutations, end swaps, phase, parallel and well splits, combinations), both directions", rw->size()), f.size, [f, rw](uint64_t i, vf::Ctx& c) {
            Problem p = f.make(i);
            c.note("%s", show(p).c_str());
            Fields base[2]; Tol tol[2];
            bool any = false;
            for (int d = 0; d < 2; ++d) {
                Side s = makeSide(p, d == 0);
                if (worstKappa(s) > KAPPA_MAX) { ++c.skipped; continue; }
                base[d] = runReal(p, d == 0); tol[d] = tolerances(s);
                if (s.start.size() > 1 || s.cyclic()) any = true;
                c.outcome(hashFields(base[d]));
            }
            ++c.states; c.nontrivial += any;
            for (auto& w : *rw) {
                Rewritten r = plainCopy(p);
                w.second(r);
                try { compare(p, base, tol, r, w.first.c_str(), c); }
                catch (...) { c.note(" | %s: %s", w.first.c_str(), show(r.q).c_str()); throw; }
            }
        } });
    }
    auto big = bigFamilies(o.thorough, o.asan)[0];
    S.push_back({ "large", big.bound + "; three combined rewritings each", big.size, [big](uint64_t i, vf::Ctx& c) {
        Problem p = big.make(i);
        if (p.n < 3) return;
        c.note("%s", show(p).c_str());
        Fields base[2]; Tol tol[2];
        for (int d = 0; d < 2; ++d) {
            Side s = makeSide(p, d == 0);
            if (worstKappa(s) > KAPPA_MAX) { ++c.skipped; continue; }
            base[d] = runReal(p, d == 0); tol[d] = tolerances(s);
        }
        ++c.states; ++c.nontrivial;
        for (int k = 0; k < 3; ++k) {
            Rewritten r = plainCopy(p);
            auto pi = identity(p.n);
            if (k == 0) std::reverse(pi.begin(), pi.end());
            else { int st = k == 1 ? 2 : 7; while (std::gcd(st, p.n) != 1) ++st; for (int j = 0; j < p.n; ++j) pi[j] = int((1ll * j * st + k) % p.n); }
            permuteCells(r, pi);
            if (k == 1) parallel(r, 0x2b, 1);
            flip(r, 0x35u + 11 * k);
            auto cp = identity(int(r.q.conn.size()));
            std::reverse(cp.begin(), cp.end());
            permuteConns(r, cp);
            phases(r, (k + 1) % 4);
            wells(r, k == 2 ? 3 : k);
            compare(p, base, tol, r, "combined rewriting", c);
        }
    } });
    return S;
}
VF_MAIN
