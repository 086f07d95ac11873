// Controlled scheduler: two real threads, one running at a time, switched at chosen instrumentation points.
#pragma once
#include "vf.hpp"
#include <atomic>
#include <functional>
#include <new>
#include <semaphore.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <thread>
#include <time.h>
#include <unordered_map>

namespace sched {

struct Segment { int thread; uint64_t steps; }; // run `thread` for so many of its steps (or to its end)

struct Access { uint64_t addr; uint32_t step; uint8_t size; bool write; };

struct Worker {
    sem_t go;
    std::thread th;
    std::function<void()> job;
    std::atomic<uint64_t> steps{ 0 };
    uint64_t stopAt = ~0ull;      // pass the turn when steps reaches this
    std::atomic<bool> done{ false }, hasJob{ false };
    std::vector<Access>* log = nullptr;
    std::atomic<long> tid{ 0 };
    char* stackLo = nullptr; char* stackHi = nullptr;
};

struct Machine {
    Worker w[2];
    sem_t finished;
    std::vector<Segment> plan; size_t at = 0;
    std::atomic<bool> freeRun{ false };
    std::atomic<int> left{ 0 };
    bool started = false, quit = false;
    uint64_t switches = 0;
};
inline Machine& machine() { static Machine* m = new Machine; return *m; } // never destroyed: its threads are parked for ever
inline thread_local Worker* self = nullptr;

// Choose who runs next after the current segment ended; called by the thread holding the turn.
inline Worker* nextTurn(Machine& m)
{
    while (m.at < m.plan.size()) {
        Segment s = m.plan[m.at++];
        Worker& x = m.w[s.thread];
        if (x.done.load()) continue;
        uint64_t base = x.steps.load();
        x.stopAt = s.steps == ~0ull ? ~0ull : base + s.steps;
        return &x;
    }
    for (auto& x : m.w) if (!x.done.load()) { x.stopAt = ~0ull; return &x; }
    return nullptr;
}
inline void passTurn(Worker* me)
{
    Machine& m = machine();
    Worker* n = nextTurn(m);
    if (n == me || !n) return;
    ++m.switches;
    sem_post(&n->go);
    while (sem_wait(&me->go) != 0) {}
}
inline void point(uint64_t addr, uint64_t size, bool write)
{
    Worker* me = self;
    if (!me) return;
    self = nullptr; // nothing in here is a point of its own
    uint64_t s = me->steps.load(std::memory_order_relaxed) + 1;
    me->steps.store(s, std::memory_order_relaxed);
    if (me->log && size && !((char*)addr >= me->stackLo && (char*)addr < me->stackHi))
        for (uint64_t k = 0; k < size; k += 128) me->log->push_back({ addr + k, uint32_t(s), uint8_t(size - k < 128 ? size - k : 128), write });
    if (s >= me->stopAt && !machine().freeRun.load(std::memory_order_relaxed)) { me->stopAt = ~0ull; passTurn(me); }
    self = me;
}
inline void loop(Worker* me)
{
    Machine& m = machine();
    pthread_attr_t a; pthread_getattr_np(pthread_self(), &a);
    void* lo; size_t sz; pthread_attr_getstack(&a, &lo, &sz); pthread_attr_destroy(&a);
    me->tid = (long)syscall(SYS_gettid);
    me->stackLo = (char*)lo; me->stackHi = me->stackLo + sz;
    for (;;) {
        while (sem_wait(&me->go) != 0) {}
        if (!me->hasJob.exchange(false)) continue; // surplus wake-up after a free run
        self = me;
        me->job();
        self = nullptr;
        me->done.store(true);
        bool last = m.left.fetch_sub(1) == 1;
        if (last) sem_post(&m.finished);
        else if (!m.freeRun.load()) { Worker* n = nextTurn(m); if (n) { ++m.switches; sem_post(&n->go); } }
    }
}
// is this thread asleep in the kernel?
inline bool asleep(const Worker& w)
{
    char f[64], b[256]; snprintf(f, sizeof f, "/proc/self/task/%ld/stat", w.tid.load());
    int fd = open(f, O_RDONLY); if (fd < 0) return false;
    ssize_t n = read(fd, b, sizeof b - 1); close(fd);
    if (n <= 0) return false;
    b[n] = 0; const char* q = strrchr(b, ')');
    return q && q[1] && q[2] == 'S';
}
struct Outcome { uint64_t steps[2]; uint64_t switches; bool blocked; };

// Run both jobs under the plan. A thread that blocks while the other is paused (a lock, a static initialiser)
// makes the plan infeasible: both are then released and run freely to the end.
inline Outcome run(std::function<void()> a, std::function<void()> b, std::vector<Segment> plan, std::vector<Access>* la = nullptr, std::vector<Access>* lb = nullptr)
{
    Machine& m = machine();
    if (!m.started) {
        m.started = true;
        sem_init(&m.finished, 0, 0);
        for (auto& x : m.w) { sem_init(&x.go, 0, 0); x.th = std::thread(loop, &x); x.th.detach(); }
    }
    m.plan = std::move(plan); m.at = 0; m.freeRun = false; m.left = 2; m.switches = 0;
    m.w[0].job = std::move(a); m.w[1].job = std::move(b); m.w[0].log = la; m.w[1].log = lb;
    for (auto& x : m.w) { x.steps = 0; x.stopAt = ~0ull; x.done = false; x.hasJob = true; }
    bool blocked = false;
    Worker* n = nextTurn(m);
    sem_post(&n->go);
    uint64_t seen = ~0ull; int idle = 0;
    for (;;) {
        struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
        t.tv_nsec += 1000000; if (t.tv_nsec >= 1000000000) { t.tv_nsec -= 1000000000; ++t.tv_sec; }
        if (sem_timedwait(&m.finished, &t) == 0) break;
        uint64_t now = m.w[0].steps.load() * 1000003 + m.w[1].steps.load();
        idle = now == seen && m.w[0].tid && m.w[1].tid && asleep(m.w[0]) && asleep(m.w[1]) ? idle + 1 : 0; seen = now;
        if (idle >= 5 && !blocked) { blocked = true; m.freeRun = true; for (auto& x : m.w) sem_post(&x.go); }
    }
    // a free run leaves surplus posts behind
    for (auto& x : m.w) while (sem_trywait(&x.go) == 0) {}
    return { { m.w[0].steps.load(), m.w[1].steps.load() }, m.switches, blocked };
}

// While accesses are logged, memory is never reused, so that equal addresses mean shared data.
struct Arena { char* mem = nullptr; size_t cap = size_t(4) << 30; std::atomic<size_t> used{ 0 }; std::atomic<long> live{ 0 }; };
inline Arena& arena() { static Arena* a = [] { static Arena x; x.mem = (char*)mmap(nullptr, x.cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return &x; }(); return *a; }
inline bool inArena(void* p) { Arena& a = arena(); return (char*)p >= a.mem && (char*)p < a.mem + a.cap; }
inline void* arenaGet(size_t n)
{
    if (!self || !self->log) return nullptr;
    Arena& a = arena(); size_t k = (n + 63) & ~size_t(63); if (!k) k = 64;
    size_t o = a.used.fetch_add(k);
    if (o + k > a.cap) return nullptr;
    ++a.live;
    return a.mem + o;
}
inline bool arenaFree(void* p) { if (!inArena(p)) return false; --arena().live; return true; }
inline void arenaReset() { Arena& a = arena(); if (a.live.load() == 0) a.used = 0; } // what the library keeps stays untouched
} // namespace sched

extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
void* __wrap_malloc(size_t n) { if (void* p = sched::arenaGet(n)) return p; return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (void* p = sched::arenaGet(a * b)) { memset(p, 0, a * b); return p; } return __real_calloc(a, b); }
void* __wrap_realloc(void* q, size_t n) { if (sched::inArena(q)) { void* p = __wrap_malloc(n); memcpy(p, q, n); sched::arenaFree(q); return p; } return __real_realloc(q, n); }
void __wrap_free(void* p) { if (!sched::arenaFree(p)) __real_free(p); }
// block operations, also those the compiler makes of loops and copies
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { sched::point((uint64_t)s, n, false); sched::point((uint64_t)d, n, true); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { sched::point((uint64_t)s, n, false); sched::point((uint64_t)d, n, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { sched::point((uint64_t)d, n, true); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { sched::point((uint64_t)a, n, false); sched::point((uint64_t)b, n, false); return __real_memcmp(a, b, n); }
// tree surgery in the C++ runtime: the nodes it certainly writes
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, void*, void*, void*);
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, void* x, void* p, void* h) { sched::point((uint64_t)p, 32, true); sched::point((uint64_t)h, 32, true); __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h); }
void* __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void*, void*);
void* __wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void* x, void* h) { sched::point((uint64_t)x, 32, true); sched::point((uint64_t)h, 32, true); return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(x, h); }
void __sanitizer_cov_trace_pc(void) { sched::point(0, 0, false); }
#define VF_LS(n, T) void __sanitizer_cov_load##n(T* p) { sched::point((uint64_t)p, n, false); } void __sanitizer_cov_store##n(T* p) { sched::point((uint64_t)p, n, true); }
VF_LS(1, uint8_t) VF_LS(2, uint16_t) VF_LS(4, uint32_t) VF_LS(8, uint64_t) VF_LS(16, __uint128_t)
}
void* operator new(size_t n) { void* p = sched::arenaGet(n); if (!p) p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (!sched::arenaFree(p)) __real_free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
