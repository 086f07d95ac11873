// C17: text output round trip and stream state.
#include "csr.hpp"
#include <algorithm>
#include <limits>
#include <memory>
#include <sstream>
using namespace csr;
namespace {
typedef std::ios_base I;
const I::fmtflags FF[4] = { I::fmtflags(0), I::fixed, I::scientific, I::fixed | I::scientific };
const int PREC[6] = { 6, 0, 1, 17, 3, 40 };
const I::fmtflags EXTRA[4] = { I::showpos, I::uppercase, I::showpoint, I::left };
std::vector<double> values()
{
    typedef std::numeric_limits<double> L;
    std::vector<double> v{ 1.0, 0.1, -1.0 / 3.0, 0.0, 1e-4, 123456789.123456789, L::max(), -L::max(), L::min(), L::denorm_min(), 1e-310, -2.5e-320, 1 + L::epsilon(), 1 - L::epsilon() / 2,
        9007199254740993.0, 4503599627370497.5, 1e22, 1e23, -1e-23, 5e-324 * 3, 0.3, 2.0 / 3, 1e15, 1e16, 1e17, 299792458.0, 6.02214076e23, 1.6e-19 };
    for (int e = -300; e <= 300; e += 50) { v.push_back(std::ldexp(1.1, e)); v.push_back(-std::nextafter(std::pow(10.0, e), 0)); }
    return v;
}
void writeAndRead(const Opm::AssembledConnections& a, const Model& m, I::fmtflags flags, int prec, vf::Ctx& c)
{
    std::ostringstream os;
    os.flags(flags); os.precision(prec);
    const char fill = os.fill(); const auto width = os.width();
    os << a;
    VF_REQUIRE(os.flags() == flags, "format flags %#x before, %#x after", unsigned(flags), unsigned(os.flags()));
    VF_REQUIRE(os.precision() == prec, "precision %d before, %d after", prec, int(os.precision()));
    VF_REQUIRE(os.fill() == fill && os.width() == width && bool(os), "stream state changed");
    c.transitions += m.pending.size() + m.graph.size() + 2; ++c.traces;
    std::istringstream lines(os.str());
    std::string line;
    auto it = m.graph.begin();
    while (std::getline(lines, line)) {
        VF_REQUIRE(it != m.graph.end(), "more lines than connections: %s", line.c_str());
        std::istringstream ls(line);
        std::string s, n, w, rest;
        ls >> s >> n >> w;
        VF_REQUIRE(!ls.fail() && !(ls >> rest), "line '%s' does not have three fields", line.c_str());
        char *e1, *e2, *e3;
        long src = strtol(s.c_str(), &e1, 10), nb = strtol(n.c_str(), &e2, 10); double x = strtod(w.c_str(), &e3);
        VF_REQUIRE(!*e1 && !*e2 && !*e3, "line '%s' cannot be read back", line.c_str());
        VF_REQUIRE(src == it->first.first && nb == it->first.second, "line '%s' written for connection (%d,%d)", line.c_str(), it->first.first, it->first.second);
        VF_REQUIRE(x == it->second && std::signbit(x) == std::signbit(it->second), "line '%s': weight reads back as %.17g, was %.17g", line.c_str(), x, it->second);
        // also through a C++ stream, which does not understand hexadecimal floating point
        if (std::isnormal(it->second) || it->second == 0) { std::istringstream d(w); double y; d >> y; VF_REQUIRE(!d.fail() && d.eof() && y == x, "weight '%s' cannot be read by a stream", w.c_str()); }
        ++it;
    }
    VF_REQUIRE(it == m.graph.end(), "connection (%d,%d) was not written", it->first.first, it->first.second);
    c.outcome(vf::mix(hash(m), 1));
}
}
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    std::vector<vf::Space> S;
    auto V = std::make_shared<std::vector<double>>(values());
    const unsigned NF = 4 * 6 * 16;
    auto fl = [](unsigned k, int& prec) { I::fmtflags f = I::skipws | I::dec | FF[k % 4]; k /= 4; prec = PREC[k % 6]; k /= 6; for (int b = 0; b < 4; ++b) if (k >> b & 1) f |= EXTRA[b]; return f; };
    S.push_back({ "values-and-formats", vf::sfmt("%zu weights (extremes, subnormals, halfway cases, powers) x every combination of 4 floating-point formats, 6 precisions and 4 other flags", V->size()), V->size() * NF, [=](uint64_t i, vf::Ctx& c) {
        int prec; I::fmtflags f = fl(unsigned(i % NF), prec); double v = (*V)[i / NF];
        c.note("weight %.17g flags %#x precision %d", v, unsigned(f), prec);
        Opm::AssembledConnections a; Model m;
        Add x{ 1, 3, true, v }, y{ 0, 2, true, 0.1 }; add(a, x); add(a, y); m.pending = { x, y };
        a.compress(3); m.compress(3);
        writeAndRead(a, m, f, prec, c);
        writeAndRead(a, m, f, prec, c);
        ++c.states; ++c.nontrivial;
    } });
    // all other format flags survive; content is only read where they do not change it
    S.push_back({ "all-flags", "every combination of the 12 remaining format flags (bases, adjustment, boolalpha, showbase, showpoint, showpos, skipws, unitbuf, uppercase) with 4 floating-point formats, precisions 0 and 9; a good stream, a failed stream", 4096 * 4 * 2 * 2, [](uint64_t i, vf::Ctx& c) {
        static const I::fmtflags B[12] = { I::dec, I::hex, I::oct, I::left, I::right, I::internal, I::boolalpha, I::showbase, I::showpoint, I::showpos, I::unitbuf, I::uppercase };
        vf::Radix r(i); const bool bad = r.take(2); const int prec = r.take(2) ? 9 : 0;
        I::fmtflags f = FF[r.take(4)]; const unsigned m = r.take(4096);
        for (int b = 0; b < 12; ++b) if (m >> b & 1) f |= B[b];
        if (m % 3) f |= I::skipws;
        c.note("flags %#x precision %d%s", unsigned(f), prec, bad ? " failed stream" : "");
        Opm::AssembledConnections a;
        a.addConnection(0, 2, 0.1); a.addConnection(1, 0, -3.0); a.addConnection(1, 1, 1e-7); a.compress(3);
        std::ostringstream os; os.flags(f); os.precision(prec); os.fill('*');
        if (bad) os.setstate(I::failbit);
        os << a;
        VF_REQUIRE(os.flags() == f && os.precision() == prec && os.fill() == '*' && os.width() == 0, "stream settings %#x/%d before, %#x/%d after", unsigned(f), prec, unsigned(os.flags()), int(os.precision()));
        VF_REQUIRE(bad == os.fail() && os.width() == 0, "stream state changed");
        const std::string txt = os.str();
        VF_REQUIRE(bad ? txt.empty() : std::count(txt.begin(), txt.end(), '\n') == 3, "wrong number of lines");
        c.transitions += 5; ++c.traces; ++c.states; ++c.nontrivial;
        c.outcome(vf::mix(7, std::hash<std::string>()(os.str())));
    } });
    // the sink fills up after any number of characters
    S.push_back({ "full-sink", "writing to a sink that refuses every character from the k-th on, every k, three formats", 130 * 3, [](uint64_t i, vf::Ctx& c) {
        struct Sink : std::streambuf { int left; std::string got; explicit Sink(int n) : left(n) {} int overflow(int ch) override { if (left-- <= 0) return EOF; got.push_back(char(ch)); return ch; } };
        const int k = int(i / 3); const I::fmtflags f = I::skipws | I::dec | FF[i % 3];
        c.note("sink of %d characters", k);
        Opm::AssembledConnections a;
        a.addConnection(0, 2, 0.1); a.addConnection(1, 0, -3.0); a.addConnection(1, 1, 1e-7); a.addConnection(3, 0, 7.5); a.compress(4);
        std::ostringstream whole; whole << a;
        Sink sk(k); std::ostream os(&sk); os.flags(f); os.precision(5);
        os << a;
        VF_REQUIRE(os.flags() == f && os.precision() == 5, "stream settings changed when the sink is full");
        VF_REQUIRE(bool(os) == (size_t(k) >= whole.str().size()), "stream state does not tell whether everything was written");
        c.transitions += 6; ++c.traces; ++c.states; ++c.nontrivial;
        c.outcome(vf::mix(9, std::hash<std::string>()(sk.got)));
    } });
    const unsigned L = 3, NP = 9;
    S.push_back({ "graphs", "all lists of 0..3 weighted connections between 3 entities (9 pairs), 3..4 rows, three stream formats", (1 + 9 + 81 + 729) * 2 * 3, [=](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i); int extra = r.take(2), fmt = r.take(3);
        uint64_t k = r.x; unsigned len = 0; while (k >= vf::ipow(NP, len)) { k -= vf::ipow(NP, len); ++len; }
        Opm::AssembledConnections a; Model m;
        for (unsigned q = 0; q < len; ++q) { Add x{ int(k % NP / 3), int(k % 3), true, 0.1 * (q + 1) }; k /= NP; add(a, x); m.pending.push_back(x); }
        c.note("%s", show(m.pending).c_str());
        a.compress(3 + extra); m.compress(3 + extra);
        // sums may be rounded in any order: take the stored weights
        for (auto& e : m.graph) for (const auto& n : a.cellNeighbourhood(e.first.first)) if (n.neighbour == e.first.second) e.second = n.weight;
        static const I::fmtflags F3[3] = { I::skipws | I::dec, I::skipws | I::dec | I::fixed, I::skipws | I::dec | I::scientific };
        writeAndRead(a, m, F3[fmt], 6, c);
        ++c.states; c.nontrivial += len > 1;
    } });
    S.push_back({ "two-connections", "all pairs of connections between 6 entities (36 each) with weights from {0.1, 0, -2, 1e-300}, 6 and 9 rows", 144 * 144 * 2, [=](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i); int extra = r.take(2) * 3; static const double WW[4] = { 0.1, 0, -2, 1e-300 };
        Opm::AssembledConnections a; Model m;
        for (unsigned q = 0; q < 2; ++q) { Add x{ int(r.take(6)), int(r.take(6)), true, WW[r.take(4)] }; add(a, x); m.pending.push_back(x); }
        c.note("%s", show(m.pending).c_str());
        a.compress(6 + extra); m.compress(6 + extra);
        writeAndRead(a, m, I::skipws | I::dec, 6, c);
        ++c.states; c.nontrivial += m.graph.size() > 1;
    } });
    S.push_back({ "large", "patterned graphs of 1..300, 2000, 2047..2049, 4097, 10001, 32769 and 70000 entities", 308, [](uint64_t i, vf::Ctx& c) {
        static const int BIG[8] = { 2000, 2047, 2048, 2049, 4097, 10001, 32769, 70000 };
        int n = i >= 300 ? BIG[i - 300] : int(i) + 1;
        Opm::AssembledConnections a; Model m;
        for (int k = 0; k < n; ++k) for (int q = 0; q < 3; ++q) { Add x{ k, (k * 7 + q * q + 1) % n, true, 1.0 / (1 + k + q) }; if (m.pending.size() && q && (k * 7 + 1) % n == x.j) continue; add(a, x); m.pending.push_back(x); }
        a.compress(n); m.compress(n);
        for (auto& e : m.graph) for (const auto& x : a.cellNeighbourhood(e.first.first)) if (x.neighbour == e.first.second) e.second = x.weight;
        c.note("%d entities", n);
        writeAndRead(a, m, I::skipws | I::dec | I::fixed, 2, c);
        ++c.states; ++c.nontrivial;
    } });
    S.push_back({ "long-rows", "one entity with 1..300, 1000, 2049, 5000 and 33000 connections among 3 rows, others empty or short", 304 * 3, [](uint64_t i, vf::Ctx& c) {
        static const int BIG[4] = { 1000, 2049, 5000, 33000 };
        int at = int(i % 3), k = int(i / 3), n = k >= 300 ? BIG[k - 300] : k + 1;
        Opm::AssembledConnections a; Model m;
        for (int q = 0; q < n; ++q) { Add x{ at, int((q * 7919LL) % n), true, 0.1 * (q + 1) }; if (n % 7919 == 0) x.j = q; add(a, x); m.pending.push_back(x); }
        { Add x{ 2 - at, 1, true, 0.3 }; if (at != 1) { add(a, x); m.pending.push_back(x); } }
        int rows = std::max(3, n); a.compress(rows); m.compress(rows);
        c.note("row %d with %d connections", at, n);
        writeAndRead(a, m, I::skipws | I::dec, 6, c);
        ++c.states; ++c.nontrivial;
    } });
    return S;
}
VF_MAIN
