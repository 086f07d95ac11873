// C22: cell sets as sets, ids as strings.
#include "vf.hpp"
#include <opm/flowdiagnostics/CellSet.hpp>
#include <climits>
#include <memory>
#include <set>
using namespace Opm::FlowDiagnostics;
namespace {
const int CELL[] = { 0, 1, 2, 17, -1, INT_MAX, INT_MIN };
void same(const CellSet& s, const std::string& id, const std::set<int>& m, const char* when, vf::Ctx& c)
{
    VF_REQUIRE(s.id().to_string() == id, "%s: id '%s', expected '%s'", when, s.id().to_string().c_str(), id.c_str());
    std::multiset<int> got(s.begin(), s.end());
    VF_REQUIRE(std::vector<int>(got.begin(), got.end()) == std::vector<int>(m.begin(), m.end()), "%s: set has %zu members, expected %zu, or they differ", when, got.size(), m.size());
    c.transitions += 2; ++c.traces;
}
vf::Space initial(unsigned len, unsigned nc)
{
    return { vf::sfmt("initial-%u", len), vf::sfmt("every initial list of %u cells over %u values", len, nc), vf::ipow(nc, len), [=](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i); std::vector<int> v;
        for (unsigned k = 0; k < len; ++k) { v.push_back(CELL[r.take(nc)]); c.note("%d ", v.back()); }
        CellSet a(CellSetID("W"), v);
        std::set<int> m(v.begin(), v.end());
        same(a, "W", m, "initial list", c);
        CellSet b(CellSetID("V"));
        for (int x : v) b.insert(x);
        same(b, "V", m, "inserted one by one", c);
        ++c.states; c.transitions += len; c.nontrivial += m.size() != len; c.outcome(i % 50000);
    } };
}
struct Slot { std::unique_ptr<CellSet> s; std::string id; std::set<int> m; };
vf::Space histories(unsigned len, unsigned nc)
{
    // ops: insert cell into object s; copy construct/assign; move construct/assign; new empty; new with list
    const unsigned per = nc + 2, ops = 2 * per + 8;
    return { vf::sfmt("histories-%u", len), vf::sfmt("every sequence of %u operations on two sets: insertion of %u cells, copy/move construction/assignment, self-assignment, re-creation", len, nc), vf::ipow(ops, len), [=](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i); Slot x[2];
        x[0].id = "A"; x[0].s.reset(new CellSet(CellSetID("A")));
        x[1].id = "B"; x[1].m = { 1, 17 }; x[1].s.reset(new CellSet(CellSetID("B"), { 17, 1, 17 }));
        for (unsigned k = 0; k < len; ++k) {
            unsigned op = r.take(ops); std::string what;
            if (op < 2 * per) {
                unsigned s = op / per, q = op % per; Slot& y = x[s];
                if (q < nc) { what = vf::sfmt("insert %d into set %u", CELL[q], s); if (!y.s) { ++c.skipped; return; } y.s->insert(CELL[q]); y.m.insert(CELL[q]); }
                else if (q == nc) { what = vf::sfmt("set %u := empty", s); y.id = "E"; y.m.clear(); y.s.reset(new CellSet(CellSetID("E"))); }
                else { what = vf::sfmt("set %u := {2,0,2,2}", s); y.id = ""; y.m = { 0, 2 }; y.s.reset(new CellSet(CellSetID(), { 2, 0, 2, 2 })); }
            } else {
                op -= 2 * per;
                unsigned from = op % 2, to = 1 - from, kind = op / 2;
                Slot &f = x[from], &t = x[to];
                what = vf::sfmt("%s set %u from %u", kind == 0 ? "copy construct" : kind == 1 ? "copy assign" : kind == 2 ? "move construct" : "move assign", to, from);
                if (!f.s || (kind % 2 && !t.s)) { ++c.skipped; return; }
                if (kind == 0) t.s.reset(new CellSet(*f.s));
                else if (kind == 1) *t.s = *f.s;
                else if (kind == 2) { t.s.reset(new CellSet(std::move(*f.s))); }
                else *t.s = std::move(*f.s);
                t.id = f.id; t.m = f.m;
                if (kind >= 2) f.s.reset();
            }
            c.note("%s; ", what.c_str()); ++c.transitions;
            for (auto& y : x) if (y.s) same(*y.s, y.id, y.m, what.c_str(), c);
            ++c.states;
        }
        ++c.nontrivial; c.outcome(i % 100000);
    } };
}
std::string word(uint64_t k) // all words of length 0..3 over the alphabet, then some long ones
{
    static const unsigned char AL[] = { 0, 'A', 'a', 'B', 0xff, '1', ' ', '-', '\t' };
    unsigned len = 0;
    while (len <= 3 && k >= vf::ipow(9, len)) { k -= vf::ipow(9, len); ++len; }
    if (len > 3) {
        std::string s(size_t(k % 3 == 0 ? 15 : k % 3 == 1 ? 16 : 300), 'x');
        if (k >= 3) s.back() = 'y';
        return s;
    }
    std::string s;
    for (unsigned j = 0; j < len; ++j) { s += char(AL[k % 9]); k /= 9; }
    return s;
}
const uint64_t NW = 1 + 9 + 81 + 729 + 6;
}
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    std::vector<vf::Space> S;
    for (unsigned l = 0; l <= (o.asan ? 4u : 6u); ++l) S.push_back(initial(l, 7));
    if (o.thorough && !o.asan) S.push_back(initial(8, 7));
    S.push_back(histories(o.asan ? 3 : o.thorough ? 5 : 4, 3));
    S.push_back({ "id-pairs", "all pairs of 826 ids: words of length 0..3 over {NUL,A,a,B,0xff,1,space,-,tab} and long names differing at the end", NW * NW, [](uint64_t i, vf::Ctx& c) {
        std::string a = word(i % NW), b = word(i / NW);
        c.note("'%s' '%s'", a.c_str(), b.c_str());
        CellSetID x(a), y(b);
        VF_REQUIRE(x.to_string() == a && y.to_string() == b, "id string changed");
        VF_REQUIRE((x < y) == (a < b) && (y < x) == (b < a), "ids of %zu and %zu characters do not compare as their strings", a.size(), b.size());
        CellSetID z(x); VF_REQUIRE(z.to_string() == a && !(z < x) && !(x < z), "copy of an id differs");
        z = y; VF_REQUIRE(z.to_string() == b && x.to_string() == a && (x < z) == (a < b), "assigned id differs");
        CellSet s(x), t(x, { 1 });
        VF_REQUIRE(s.id().to_string() == a && t.id().to_string() == a, "cell set id differs");
        ++c.states; ++c.traces; c.transitions += 9; c.nontrivial += a != b; c.outcome(i);
    } });
    S.push_back({ "id-bytes", "every id of two bytes, alone, against its first byte, its bytes exchanged, and with the second byte between, before and after letters", 65536, [](uint64_t i, vf::Ctx& c) {
        const char p = char(i & 255), q = char(i >> 8);
        const std::string two{ p, q }, w[] = { two, { p }, { q, p }, { 'W', q, 'I' }, { q, 'W', 'I' }, { 'W', 'I', q }, "WI", "", { 'W', 'E', 'L', 'L', '-', q, p } };
        c.note("bytes %d %d", int((unsigned char)p), int((unsigned char)q));
        for (auto& a : w) for (auto& b : w) {
            CellSetID x(a), y(b);
            VF_REQUIRE(x.to_string() == a, "id of %zu bytes came back with %zu", a.size(), x.to_string().size());
            VF_REQUIRE((x < y) == (a < b), "ids do not compare as their strings");
            c.transitions += 2;
        }
        ++c.states; ++c.traces; c.nontrivial += p != q; c.outcome(i);
    } });
    S.push_back({ "id-lengths", "ids of 0..1100 characters differing at the last, first or middle character or in length by one", 1101 * 4, [](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i); unsigned how = r.take(4); size_t n = r.take(1101);
        std::string a(n, 'q'), b = a;
        if (how == 3 || n == 0) b += 'q'; else b[how == 0 ? n - 1 : how == 1 ? 0 : n / 2] = 'p';
        c.note("%zu characters, variant %u", n, how);
        CellSetID x(a), y(b);
        VF_REQUIRE(x.to_string() == a && y.to_string() == b && (x < y) == (a < b) && (y < x) == (b < a), "long ids do not behave as their strings");
        CellSetID m(std::move(x)); VF_REQUIRE(m.to_string() == a, "moved id differs");
        x = y; VF_REQUIRE(x.to_string() == b, "id assigned after a move differs");
        ++c.states; ++c.traces; c.transitions += 6; ++c.nontrivial; c.outcome(i);
    } });
    S.push_back({ "cell-values", "all pairs of cells out of 0, powers of two, their neighbours and negatives", 190 * 190, [](uint64_t i, vf::Ctx& c) {
        auto val = [](uint64_t k) { long long x = (1LL << (k % 95 / 3)) - 1 + (long long)(k % 95 % 3); if (k >= 95) x = -x; return int(std::max<long long>(INT_MIN, std::min<long long>(INT_MAX, x))); };
        int a = val(i % 190), b = val(i / 190); std::set<int> m{ a, b };
        c.note("%d %d", a, b);
        CellSet s(CellSetID("V"), { a, b }); same(s, "V", m, "initial", c);
        CellSet t(CellSetID("T")); t.insert(b); t.insert(a); t.insert(b); same(t, "T", m, "inserted", c);
        ++c.states; c.nontrivial += a != b; c.outcome(i);
    } });
    S.push_back({ "id-default", "the default id is the empty name", 1, [](uint64_t, vf::Ctx& c) {
        CellSetID d; VF_REQUIRE(d.to_string().empty() && !(d < CellSetID("")) && !(CellSetID("") < d), "default id is not the empty name");
        ++c.states; ++c.traces; ++c.transitions;
    } });
    S.push_back({ "large", "0..2000 and 11 larger numbers up to 70000 of distinct cells inserted twice in three orders", 2012 * 3, [](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i); int n = r.take(2012), ord = r.take(3); static const int BIG[11] = { 4095, 4096, 4097, 8191, 8192, 20000, 32769, 65535, 65536, 65537, 70000 }; if (n > 2000) n = BIG[n - 2001];
        CellSet s(CellSetID("L")); std::set<int> m;
        for (int p = 0; p < 2; ++p)
            for (int k = 0; k < n; ++k) { int x = ord == 0 ? k : ord == 1 ? n - k : int((k * 7919LL) % 100003); s.insert(x); m.insert(x); }
        c.note("%d cells, order %d", n, ord); c.transitions += 2 * n;
        same(s, "L", m, "large", c);
        CellSet t(CellSetID("L"), std::vector<int>(m.rbegin(), m.rend()));
        same(t, "L", m, "large initial", c);
        ++c.states; ++c.nontrivial; c.outcome(i);
    } });
    return S;
}
VF_MAIN
