// The library under test, plus an allocator that counts, bounds and can fail.
#pragma once
#include "pbt.hpp"
#include <malloc.h>
extern "C" {
#include "tg.h"
}
extern "C" inline __attribute__((used, weak)) const char *__asan_default_options() {
    return "exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:"
           "malloc_context_size=6:quarantine_size_mb=32";
}
extern "C" inline __attribute__((used, weak)) const char *__ubsan_default_options() {
    return "exitcode=77:print_stacktrace=0";
}
namespace tgx {
struct Alloc {
    long live = 0;          // allocations not yet freed
    uint64_t calls = 0;     // allocation requests (malloc + realloc)
    size_t max_request = 0; // largest single request
    size_t total = 0;       // bytes requested
    size_t bytes = 0;       // bytes in live allocations (exact under AddressSanitizer)
    size_t peak = 0;        // largest value of bytes
    size_t zeros = 0;       // requests for no bytes at all (they get one)
    int64_t fail_at = -1;   // fail the request with this number (0-based), -1: never
    bool fail_sticky = false;
    uint64_t failed = 0;    // requests refused by fail_at
    size_t cap = (size_t)1 << 30; // refuse requests larger than this
    uint64_t refused = 0;   // requests refused by cap
};
inline Alloc &A() {
    static Alloc a;
    return a;
}
inline bool deny(size_t n) {
    Alloc &a = A();
    uint64_t k = a.calls++;
    if (n > a.max_request) a.max_request = n;
    a.total += n;
    if (!n) a.zeros++;
    if (a.fail_at >= 0 && ((int64_t)k == a.fail_at || (a.fail_sticky && (int64_t)k >= a.fail_at))) {
        a.failed++;
        return true;
    }
    if (n > a.cap) {
        a.refused++;
        return true;
    }
    return false;
}
inline void *t_malloc(size_t n) {
    if (deny(n)) return nullptr;
    void *p = malloc(n ? n : 1);
    if (p) {
        A().live++;
        A().bytes += malloc_usable_size(p);
        A().peak = std::max(A().peak, A().bytes);
    }
    return p;
}
inline void *t_realloc(void *o, size_t n) {
    if (deny(n)) return nullptr;
    size_t was = o ? malloc_usable_size(o) : 0;
    void *p = realloc(o, n ? n : 1); // AddressSanitizer always moves the block
    if (!p) return p;
    if (!o) A().live++;
    A().bytes += malloc_usable_size(p) - was;
    A().peak = std::max(A().peak, A().bytes);
    return p;
}
inline void t_free(void *p) {
    if (p) {
        A().live--;
        A().bytes -= malloc_usable_size(p);
    }
    free(p);
}
inline void install() {
    static bool done = false;
    if (!done) {
        tg_env_set_allocator(t_malloc, t_realloc, t_free);
        done = true;
    }
}
inline void reset_env() {
    tg_env_set_index(TG_NATURAL);
    tg_env_set_index_spread(16);
    tg_env_set_print_fixed_floats(false);
}
// RAII
struct G {
    struct tg_geom *g = nullptr;
    G() {}
    explicit G(struct tg_geom *x) : g(x) {}
    G(const G &) = delete;
    G &operator=(const G &) = delete;
    G(G &&o) : g(o.g) { o.g = nullptr; }
    G &operator=(G &&o) {
        if (this != &o) {
            tg_geom_free(g);
            g = o.g;
            o.g = nullptr;
        }
        return *this;
    }
    ~G() { tg_geom_free(g); }
    operator struct tg_geom *() const { return g; }
};
inline std::string wkt(const struct tg_geom *g) {
    size_t n = tg_geom_wkt(g, nullptr, 0);
    std::string s(n + 1, '\0');
    tg_geom_wkt(g, &s[0], n + 1);
    s.resize(n);
    return s;
}
inline std::string geojson(const struct tg_geom *g) {
    size_t n = tg_geom_geojson(g, nullptr, 0);
    std::string s(n + 1, '\0');
    tg_geom_geojson(g, &s[0], n + 1);
    s.resize(n);
    return s;
}
inline std::string wkb(const struct tg_geom *g) {
    size_t n = tg_geom_wkb(g, nullptr, 0);
    std::string s(n, '\0');
    tg_geom_wkb(g, (uint8_t *)&s[0], n);
    return s;
}
inline std::string hex(const struct tg_geom *g) {
    size_t n = tg_geom_hex(g, nullptr, 0);
    std::string s(n + 1, '\0');
    tg_geom_hex(g, &s[0], n + 1);
    s.resize(n);
    return s;
}
inline std::string geobin(const struct tg_geom *g) {
    size_t n = tg_geom_geobin(g, nullptr, 0);
    std::string s(n, '\0');
    tg_geom_geobin(g, (uint8_t *)&s[0], n);
    return s;
}
} // namespace tgx

#ifndef TGX_CUSTOM_SETUP
namespace pbt {
void case_setup() {
    tgx::install();
    tgx::reset_env();
    tgx::A() = tgx::Alloc();
}
void case_teardown() {
    if (tgx::A().live != 0) fail("leak", "%ld allocation(s) not freed", tgx::A().live);
}
}
#endif
