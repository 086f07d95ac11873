// Deterministic allocation-failure injection: operator new and (by link-time wrapping) malloc family.
#pragma once
#ifndef VF_ALLOC
#error "build with the alloc configuration"
#endif
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>

namespace af {
struct State {
    bool armed = false;      // counting and failing only while armed
    long count = 0;          // allocations seen while armed
    long failAt = -1;        // 0-based index of the failing allocation
    bool persistent = false; // fail all from failAt on
    long failures = 0;
    long live = 0;           // blocks obtained minus released (always tracked)
};
inline State& st() { static State s; return s; }
inline bool fail()
{
    State& s = st();
    if (!s.armed) return false;
    long k = s.count++;
    if (s.failAt >= 0 && (k == s.failAt || (s.persistent && k > s.failAt))) { ++s.failures; return true; }
    return false;
}
struct Arm {
    explicit Arm(long at, bool pers) { State& s = st(); s.count = 0; s.failures = 0; s.failAt = at; s.persistent = pers; s.armed = true; }
    ~Arm() { st().armed = false; }
};
struct Off { bool was; Off() : was(st().armed) { st().armed = false; } ~Off() { st().armed = was; } };
}

extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
void* __wrap_malloc(size_t n) { if (af::fail()) return nullptr; void* p = __real_malloc(n); if (p) ++af::st().live; return p; }
void* __wrap_calloc(size_t a, size_t b) { if (af::fail()) return nullptr; void* p = __real_calloc(a, b); if (p) ++af::st().live; return p; }
void* __wrap_realloc(void* q, size_t n) { if (af::fail()) return nullptr; void* p = __real_realloc(q, n); if (p && !q) ++af::st().live; return p; }
void __wrap_free(void* p) { if (p) --af::st().live; __real_free(p); }
}
static void* vf_new(size_t n) { if (af::fail()) return nullptr; void* p = __real_malloc(n ? n : 1); if (p) ++af::st().live; return p; }
void* operator new(size_t n) { void* p = vf_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = vf_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vf_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vf_new(n); }
void operator delete(void* p) noexcept { if (p) --af::st().live; __real_free(p); }
void operator delete[](void* p) noexcept { if (p) --af::st().live; __real_free(p); }
void operator delete(void* p, size_t) noexcept { if (p) --af::st().live; __real_free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) --af::st().live; __real_free(p); }
