// Explorer runtime shared by all property harnesses.
//
// A harness provides a list of finite spaces. A space is a number of cases
// [0, size) and a function that executes the case with the given index on the
// real code and throws Fail if the property does not hold on it. The runtime
// enumerates every index of every space (sharded over processes), publishes
// its position in shared memory so that crashes and hangs can be attributed to
// a case, and writes measured counts as JSON.
#pragma once
#include <cmath>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

namespace vf {

struct Fail { std::string msg; }; // deliberately not a std::exception

__attribute__((format(printf, 1, 2)))
inline std::string sfmt(const char* f, ...)
{
    char buf[4096];
    va_list ap; va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

#define VF_FAIL(...) throw vf::Fail{ vf::sfmt(__VA_ARGS__) }
#define VF_REQUIRE(cond, ...) do { if (!(cond)) VF_FAIL(__VA_ARGS__); } while (0)

struct Opt { bool thorough = false; bool asan = false; };

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 32;
    return h;
}
inline uint64_t mixd(uint64_t h, double d)
{
    // coarse quantisation: outcome classes, not bit patterns
    return mix(h, (d == 0) ? 0 : (uint64_t)(int64_t)std::llround(std::log(std::fabs(d) + 1e-300) * 1e4) * 2 + (d < 0));
}

struct Ctx {
    uint64_t states = 0;      // model states / configurations visited
    uint64_t transitions = 0; // operations executed on the real code
    uint64_t traces = 0;      // executions compared with the reference
    uint64_t nontrivial = 0;  // cases that are non-trivial by the harness's rule
    uint64_t skipped = 0;     // cases of the space excluded by a stated precondition
    bool verbose = false;
    std::string desc;
    std::vector<uint8_t> bitmap = std::vector<uint8_t>(1u << 17, 0);
    void outcome(uint64_t h) { h = mix(h, 0x1234567); uint32_t b = h & 0xfffff; bitmap[b >> 3] |= uint8_t(1u << (b & 7)); }
    __attribute__((format(printf, 2, 3)))
    void note(const char* f, ...)
    {
        if (!verbose) return;
        char buf[2048];
        va_list ap; va_start(ap, f);
        vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        if (desc.size() < 20000) desc += buf;
    }
};

struct Space {
    std::string name;
    std::string bound; // human-readable statement of what is enumerated
    uint64_t size;
    std::function<void(uint64_t, Ctx&)> run;
};

// Mixed-radix decoding of a case index.
struct Radix {
    uint64_t x;
    explicit Radix(uint64_t i) : x(i) {}
    unsigned take(uint64_t k) { unsigned r = unsigned(x % k); x /= k; return r; }
};
inline uint64_t ipow(uint64_t b, unsigned e) { uint64_t r = 1; while (e--) r *= b; return r; }

std::vector<Space> make_spaces(const Opt& opt); // provided by the harness

inline std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c >= 0x7f) r += sfmt("\\u%04x", c);
        else r += char(c);
    }
    return r;
}

struct Shm { volatile uint64_t seq, space, idx, done; };

inline bool run_case(const Space& s, uint64_t idx, Ctx& c, std::string& msg)
{
    try { s.run(idx, c); return true; }
    catch (const Fail& f) { msg = f.msg; }
    catch (const std::exception& e) { msg = std::string("unexpected exception from the code under test: ") + e.what(); }
    catch (...) { msg = "unexpected non-standard exception from the code under test"; }
    return false;
}

inline int main_impl(int argc, char** argv)
{
    Opt opt;
    uint64_t shard = 0, nshard = 1, upto_space = ~0ull, upto_idx = ~0ull;
    double deadline = 1e18;
    const char* shmf = nullptr; const char* out = nullptr;
    bool list = false, single = false;
    std::string cspace; uint64_t cidx = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return std::string(argv[++i]); };
        if (a == "--thorough") opt.thorough = true;
        else if (a == "--asan") opt.asan = true;
        else if (a == "--shard") { shard = std::stoull(next()); nshard = std::stoull(next()); }
        else if (a == "--shm") shmf = argv[++i];
        else if (a == "--out") out = argv[++i];
        else if (a == "--deadline") deadline = std::stod(next());
        else if (a == "--case") { single = true; cspace = next(); cidx = std::stoull(next()); }
        else if (a == "--upto") { upto_space = std::stoull(next()); upto_idx = std::stoull(next()); }
        else if (a == "--list") list = true;
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    auto spaces = make_spaces(opt);
    if (list) {
        for (auto& s : spaces) printf("%s\t%llu\t%s\n", s.name.c_str(), (unsigned long long)s.size, s.bound.c_str());
        return 0;
    }
    if (single) {
        for (auto& s : spaces) if (s.name == cspace) {
            Ctx c; c.verbose = true; std::string msg;
            bool ok = run_case(s, cidx, c, msg);
            printf("%s[%llu]\n%s\n%s\n", s.name.c_str(), (unsigned long long)cidx, c.desc.c_str(), ok ? "HELD" : ("FAILED: " + msg).c_str());
            return ok ? 0 : 3;
        }
        fprintf(stderr, "no such space\n");
        return 2;
    }
    Shm dummy{}; Shm* sh = &dummy;
    if (shmf) {
        int fd = open(shmf, O_RDWR);
        if (fd < 0) { perror("shm"); return 2; }
        sh = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    std::string js = "{\"spaces\":[", samples, failure = "null";
    Ctx tot;
    bool failed = false, capped = false;
    for (size_t si = 0; si < spaces.size() && !failed; ++si) {
        auto& s = spaces[si];
        Ctx c; c.bitmap.swap(tot.bitmap);
        uint64_t done = 0; double ts = elapsed();
        for (uint64_t idx = shard; idx < s.size; idx += nshard) {
            if (si > upto_space || (si == upto_space && idx > upto_idx)) break;
            sh->space = si; sh->idx = idx; sh->seq = sh->seq + 1;
            // two samples per space, taken from the start and the middle of the enumeration
            uint64_t mid = s.size / 2; mid -= mid % nshard; mid += shard;
            bool want = (shard == 0 && (idx == mid || (idx == 0 && s.size < 3)));
            c.verbose = want; c.desc.clear();
            std::string msg;
            bool ok = run_case(s, idx, c, msg);
            ++done;
            if (want && ok) {
                if (!samples.empty()) samples += ",";
                samples += "\"" + jesc(s.name + "[" + std::to_string(idx) + "]: " + c.desc.substr(0, 900)) + "\"";
            }
            if (!ok) {
                failed = true;
                Ctx d; d.verbose = true; std::string m2;
                run_case(s, idx, d, m2);
                failure = "{\"space\":\"" + s.name + "\",\"space_index\":" + std::to_string(si) + ",\"idx\":" + std::to_string(idx)
                        + ",\"msg\":\"" + jesc(msg) + "\",\"desc\":\"" + jesc(d.desc) + "\"}";
                break;
            }
            if ((done & 0xff) == 0 && elapsed() > deadline) { capped = true; break; }
        }
        tot.bitmap.swap(c.bitmap);
        tot.states += c.states; tot.transitions += c.transitions; tot.traces += c.traces; tot.nontrivial += c.nontrivial; tot.skipped += c.skipped;
        if (si) js += ",";
        js += "{\"name\":\"" + s.name + "\",\"bound\":\"" + jesc(s.bound) + "\",\"size\":" + std::to_string(s.size) + ",\"cases\":" + std::to_string(done)
            + ",\"seconds\":" + sfmt("%.3f", elapsed() - ts)
            + ",\"skipped\":" + std::to_string(c.skipped) + "}";
        if (capped) break;
    }
    sh->done = 1; sh->seq = sh->seq + 1;
    js += "],\"samples\":[" + samples + "],\"failure\":" + failure + ",\"capped\":" + (capped ? "true" : "false")
        + ",\"states\":" + std::to_string(tot.states) + ",\"transitions\":" + std::to_string(tot.transitions)
        + ",\"traces\":" + std::to_string(tot.traces) + ",\"nontrivial\":" + std::to_string(tot.nontrivial)
        + ",\"skipped\":" + std::to_string(tot.skipped) + "}";
    if (out) {
        FILE* f = fopen(out, "w");
        if (!f) { perror(out); return 2; }
        fwrite(js.data(), 1, js.size(), f); fclose(f);
        f = fopen((std::string(out) + ".bm").c_str(), "wb");
        if (!f) { perror(out); return 2; }
        fwrite(tot.bitmap.data(), 1, tot.bitmap.size(), f); fclose(f);
    } else puts(js.c_str());
    return failed ? 3 : 0;
}

} // namespace vf

#define VF_MAIN int main(int argc, char** argv) { return vf::main_impl(argc, argv); }
