// C16: all histories of additions, compressions (accepted and rejected), copies and moves.
#include "csr.hpp"
#include <memory>
using namespace csr;
namespace {
const int NOP = 13;
const char* NAME[NOP] = { "compress(0)", "compress(1)", "compress(2)", "compress(3)", "compress(5)", "add(0,1,1)", "add(2,0,2)", "add(1,1,-1)", "add(0,2)", "add(2,1)", "add(1,4,0.5)", "copy", "move" };
const Add ADD[6] = { { 0, 1, true, 1 }, { 2, 0, true, 2 }, { 1, 1, true, -1 }, { 0, 2, false, 0 }, { 2, 1, false, 0 }, { 1, 4, true, 0.5 } };
const size_t ROWS[5] = { 0, 1, 2, 3, 5 };

void history(const std::vector<int>& seq, vf::Ctx& c)
{
    auto a = std::make_unique<Opm::AssembledConnections>();
    Model m;
    int compressions = 0;
    for (int op : seq) {
        ++c.transitions;
        if (op < 5) {
            const size_t n = ROWS[op];
            Model::Verdict v = m.verdict(n), got = Model::Ok;
            bool invalid = false;
            try { a->compress(n); }
            catch (const std::invalid_argument&) { got = Model::TooFew; invalid = true; }
            catch (const std::logic_error&) { got = Model::Mixed; }
            if (v == Model::Ok) VF_REQUIRE(got == Model::Ok, "compress(%zu) rejected %zu pending connections that fit: %s", n, m.pending.size(), show(m.pending).c_str());
            if (v == Model::TooFew) VF_REQUIRE(invalid, "compress(%zu) did not raise invalid_argument for %s", n, show(m.pending).c_str());
            if (v == Model::Mixed) VF_REQUIRE(got != Model::Ok, "compress(%zu) accepted a mixture of weighted and unweighted connections", n);
            m.compress(n);
            ++compressions; ++c.traces;
            if (m.have) {
                check(*a, m);
                c.outcome(vf::mix(hash(m), v));
                if (v == Model::Ok) {
                    // exactly as on a new object
                    Opm::AssembledConnections f;
                    for (auto& e : m.graph) { if (m.weighted) f.addConnection(e.first.first, e.first.second, e.second); else f.addConnection(e.first.first, e.first.second); }
                    f.compress(n);
                    VF_REQUIRE(f.startPointers() == a->startPointers() && f.neighbourhood() == a->neighbourhood() && f.connectionWeight() == a->connectionWeight() && f.numRows() == a->numRows(), "graph differs from one built on a new object");
                }
            }
        } else if (op < 11) { add(*a, ADD[op - 5]); m.pending.push_back(ADD[op - 5]); }
        else if (op == 11) { // continue on a copy; the original is then modified and destroyed
            auto b = std::make_unique<Opm::AssembledConnections>(*a);
            a->addConnection(7, 7, 9.0); try { a->compress(9); } catch (const std::logic_error&) {}
            a = std::move(b);
        } else { // move-assign onto an object that holds something else
            auto b = std::make_unique<Opm::AssembledConnections>();
            b->addConnection(6, 6, 3.0); b->compress(8); b->addConnection(4, 4);
            *b = std::move(*a);
            a = std::move(b);
        }
        if (m.have) check(*a, m); // readable at every point of the history
    }
    ++c.states;
    if (compressions > 1) ++c.nontrivial;
}
}
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    const unsigned depth = o.thorough ? 7 : o.asan ? 4 : 6;
    auto sp = [](const char* n, unsigned depth, std::vector<int> pre) -> vf::Space {
        std::string b = vf::sfmt("all histories of %u operations out of %d (6 additions over 3 sources and 5 sinks with and without weights, compression to 0,1,2,3,5 rows, copying, moving)", depth, NOP);
        if (!pre.empty()) b += std::string(", after another graph reaching entity 2 was compressed");
        return { n, b + "; the readable graph is compared with the model after every operation", vf::ipow(NOP, depth), [=](uint64_t i, vf::Ctx& c) {
            vf::Radix r(i); auto seq = pre;
            for (unsigned k = 0; k < depth; ++k) seq.push_back(r.take(NOP));
            for (int k : seq) c.note("%s ", NAME[k]);
            history(seq, c);
        } };
    };
    std::vector<vf::Space> S{ sp("fresh", depth, {}), sp("after-weighted-graph", depth - 1, { 6, 5, 10, 4 }), sp("after-unweighted-graph", depth - 2, { 9, 8, 3 }) };
    // large then small and back
    S.push_back({ "sizes", "pairs of graphs with 0..40 sources each on one object, weighted and unweighted", 41 * 41 * 4, [](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i); int a = r.take(41), b = r.take(41), kind = r.take(4);
        c.note("%d then %d sources, kind %d", a, b, kind);
        Opm::AssembledConnections x; Model m;
        for (int rep = 0; rep < 3; ++rep) {
            int n = rep % 2 ? b : a; bool w = (kind >> (rep % 2)) & 1;
            for (int k = n - 1; k >= 0; --k) for (int q = 0; q < 2; ++q) { Add e{ k, (k * 3 + q) % (n + 2), w, w ? 0.5 * k + q : 0.0 }; add(x, e); m.pending.push_back(e); }
            x.compress(n); m.compress(n); check(x, m);
            c.transitions += 2 * n + 1; ++c.traces;
        }
        ++c.states; ++c.nontrivial; c.outcome(hash(m));
    } });
    return S;
}
VF_MAIN
