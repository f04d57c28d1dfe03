// C28: geometries can be shared between threads.
#define TGX_CUSTOM_SETUP
#include "feat.hpp"
#include "use.hpp"
#include <thread>
#include <pthread.h>
using namespace feat;
PBT_MAIN("C28", "two threads used one geometry at the same time")
extern "C" __attribute__((used)) const char *__tsan_default_options() { return "halt_on_error=1:exitcode=77:report_signal_unsafe=0:history_size=4"; }

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
// ThreadSanitizer does not understand fences. These wrappers (see ldflags in
// checks.py) give them their meaning: an acquire fence synchronises with the
// releases of the atomics this thread has read, a release fence makes the
// atomic writes that follow it releases.
#include <sanitizer/tsan_interface_atomic.h>
extern "C" {
void __tsan_acquire(void *);
void __tsan_release(void *);
static thread_local void *seen[8];
static thread_local unsigned nseen;
static thread_local bool releasing;
static inline void saw(const volatile void *a) { seen[nseen++ % 8] = (void *)a; }
static inline void will_write(const volatile void *a) {
    if (releasing) __tsan_release((void *)a);
}
#define RMW(T, op)                                                                          \
    T __real___tsan_##op(volatile T *a, T v, __tsan_memory_order mo);                       \
    T __wrap___tsan_##op(volatile T *a, T v, __tsan_memory_order mo) {                      \
        will_write(a);                                                                      \
        T r = __real___tsan_##op(a, v, mo);                                                 \
        saw(a);                                                                             \
        return r;                                                                           \
    }
#define A32(name) RMW(__tsan_atomic32, atomic32_##name)
#define A64(name) RMW(__tsan_atomic64, atomic64_##name)
A32(fetch_add) A32(fetch_sub) A32(exchange) A64(fetch_add) A64(fetch_sub) A64(exchange)
#define CAS(T, op)                                                                                                   \
    int __real___tsan_##op(volatile T *a, T *c, T v, __tsan_memory_order mo, __tsan_memory_order fmo);               \
    int __wrap___tsan_##op(volatile T *a, T *c, T v, __tsan_memory_order mo, __tsan_memory_order fmo) {              \
        will_write(a);                                                                                               \
        int r = __real___tsan_##op(a, c, v, mo, fmo);                                                                \
        saw(a);                                                                                                      \
        return r;                                                                                                    \
    }
CAS(__tsan_atomic32, atomic32_compare_exchange_strong) CAS(__tsan_atomic32, atomic32_compare_exchange_weak)
CAS(__tsan_atomic64, atomic64_compare_exchange_strong) CAS(__tsan_atomic64, atomic64_compare_exchange_weak)
#define CASV(T, op)                                                                                                  \
    T __real___tsan_##op(volatile T *a, T c, T v, __tsan_memory_order mo, __tsan_memory_order fmo);                  \
    T __wrap___tsan_##op(volatile T *a, T c, T v, __tsan_memory_order mo, __tsan_memory_order fmo) {                 \
        will_write(a);                                                                                               \
        T r = __real___tsan_##op(a, c, v, mo, fmo);                                                                  \
        saw(a);                                                                                                      \
        return r;                                                                                                    \
    }
CASV(__tsan_atomic32, atomic32_compare_exchange_val) CASV(__tsan_atomic64, atomic64_compare_exchange_val)
#define LOAD(T, op)                                                     \
    T __real___tsan_##op(const volatile T *a, __tsan_memory_order mo);  \
    T __wrap___tsan_##op(const volatile T *a, __tsan_memory_order mo) { \
        T r = __real___tsan_##op(a, mo);                                \
        saw(a);                                                         \
        return r;                                                       \
    }
LOAD(__tsan_atomic32, atomic32_load) LOAD(__tsan_atomic64, atomic64_load)
void __real___tsan_atomic_thread_fence(__tsan_memory_order mo);
void __wrap___tsan_atomic_thread_fence(__tsan_memory_order mo) {
    if (mo == __tsan_memory_order_acquire || mo == __tsan_memory_order_consume || mo >= __tsan_memory_order_acq_rel)
        for (auto a : seen)
            if (a) __tsan_acquire(a);
    if (mo >= __tsan_memory_order_release) releasing = true;
    __real___tsan_atomic_thread_fence(mo);
}
}
#endif
#endif
static std::atomic<long> live;
static void *a_malloc(size_t n) {
    void *p = malloc(n ? n : 1);
    if (p) live.fetch_add(1, std::memory_order_relaxed); // relaxed: it must order nothing
    return p;
}
static void *a_realloc(void *o, size_t n) {
    void *p = realloc(o, n ? n : 1);
    if (p && !o) live.fetch_add(1, std::memory_order_relaxed);
    return p;
}
static void a_free(void *p) {
    if (p) live.fetch_sub(1, std::memory_order_relaxed);
    free(p);
}
namespace pbt {
void case_setup() {
    static bool done = false;
    if (!done) tg_env_set_allocator(a_malloc, a_realloc, a_free);
    done = true;
    tgx::reset_env();
    live = 0;
}
void case_teardown() {
    if (live) fail("leak", "%ld block(s) not freed", (long)live);
}
}
static bool sched = pbt::schedule_dependent() = true;
enum What { READ, PAIR, CLONE, FREE, PART, COPY, PARSE, LIGHT, WHATS };
static const char *WN[] = {"read", "pair", "clone", "free", "part", "copy", "parse", "light"};
struct Step {
    What w;
    unsigned a, b;
};
struct Script {
    std::vector<Step> steps;
    std::string doc;
    int fmt = 0;
    enum tg_index ix = TG_DEFAULT;
    bool keep = false; // clone what is used from the main thread's handles, then work with that
};
// One thread's work; everything it does depends on its script alone.
static uint64_t work(const Script &sc, const std::vector<struct tg_geom *> &given) {
    use::Sink k;
    std::vector<struct tg_geom *> own(given); // handed over: ours to free
    for (auto &st : sc.steps) {
        if (own.empty()) break;
        unsigned i = st.a % own.size(), j = st.b % own.size();
        struct tg_geom *g = own[i];
        switch (st.w) {
        case READ: use::geom(k, g); break;
        case PAIR: use::pair(k, g, own[j]); break;
        case CLONE:
            if (own.size() < 20) own.push_back(tg_geom_clone(g));
            break;
        case FREE:
            if (own.size() < 2) break;
            own.erase(own.begin() + i);
            tg_geom_free(g);
            break;
        case PART: {
            int n = tg_geom_num_geometries(g);
            if (n) own.push_back(tg_geom_clone(tg_geom_geometry_at(g, (int)(st.b % n))));
            else if (tg_geom_num_lines(g)) own.push_back(tg_geom_new_linestring(tg_geom_line_at(g, (int)(st.b % tg_geom_num_lines(g)))));
            else if (tg_geom_num_polys(g)) own.push_back(tg_geom_new_polygon(tg_geom_poly_at(g, (int)(st.b % tg_geom_num_polys(g)))));
            else if (tg_geom_poly(g)) {
                struct tg_ring *r = tg_ring_clone(tg_poly_exterior(tg_geom_poly(g)));
                use::ring(k, r);
                struct tg_poly *p = tg_poly_new(r, nullptr, 0);
                own.push_back(tg_geom_new_polygon(p));
                tg_ring_free(r);
                tg_poly_free(p);
            } else if (tg_geom_line(g)) {
                struct tg_line *l = tg_line_clone(tg_geom_line(g));
                use::line(k, l);
                tg_line_free(l);
            }
            if (st.b % 3 == 0) {
                const struct tg_geom *v[2] = {g, own[j]};
                own.push_back(tg_geom_new_geometrycollection(v, 2));
            }
            break;
        }
        case COPY: {
            struct tg_geom *c = tg_geom_copy(g);
            k.b(tgx::wkb(c));
            tg_geom_free(c);
            break;
        }
        case PARSE: {
            struct tg_geom *c = sc.fmt == 0 ? tg_parse_geojsonn_ix(sc.doc.data(), sc.doc.size(), sc.ix) : sc.fmt == 1 ? tg_parse_wktn_ix(sc.doc.data(), sc.doc.size(), sc.ix)
                              : tg_parse_ix(sc.doc.data(), sc.doc.size(), sc.ix);
            k.s(tg_geom_error(c));
            k.b(tgx::geojson(c));
            use::pair(k, c, g);
            tg_geom_free(c);
            break;
        }
        default:
            k.r(tg_geom_rect(g));
            k.u(tg_geom_memsize(g));
            k.b(tgx::wkt(g));
            k.u(tg_geom_intersects_xy(g, st.b % 10, st.b % 7));
        }
    }
    for (auto g : own) {
        k.r(tg_geom_rect(g));
        tg_geom_free(g);
    }
    return k.h;
}
static enum tg_index any_ix(Src &s) {
    static const enum tg_index k[] = {TG_DEFAULT, TG_NONE, TG_NATURAL, TG_YSTRIPES};
    return k[s.below(4)];
}
static GenOpt small(Src &s) {
    GenOpt o;
    o.vals = SMALL;
    o.maxpts = s.chance(1, 5) ? 70 : 6;
    o.maxparts = s.chance(1, 12) ? 70 : 4;
    if (o.maxparts > 4) o.maxpts = 4;
    o.depth = o.maxpts > 6 || o.maxparts > 4 ? 0 : (int)s.below(3);
    return o;
}
static std::string doc_of(Src &s, int f) {
    DocOpt o;
    o.g = small(s);
    o.members = 2;
    o.g.nodim_m = true;
    JsonStyle js;
    if (f == 0) return text(gen_doc(s, o), js);
    M g = gen(s, o.g, o.g.depth);
    return f == 1 ? wkt(g, TxtStyle()) : f == 2 ? wkb(g) : tohex(wkb(g));
}
FACET(shared, 1, "threads that read, relate, write, clone, take apart, copy and free handles to the same geometries, and parse") {
    std::vector<struct tg_geom *> base;
    int nb = 1 + (int)s.below(3);
    std::string note;
    for (int i = 0; i < nb; i++) {
        int f = (int)s.below(4);
        struct tg_geom *g;
        std::string d;
        tg_env_set_index_spread(2 + (int)s.below(16));
        if (s.chance(1, 4)) { // a constructor's
            M m = gen(s, small(s), 1);
            g = build(m, any_ix(s));
            d = show(m);
        } else {
            d = doc_of(s, f);
            g = tg_parse_ix(d.data(), d.size(), any_ix(s));
            if (f == 2) d = tohex(d);
        }
        if (s.chance(1, 4)) {
            struct tg_geom *c = tg_geom_copy(g);
            tg_geom_free(g);
            g = c;
        }
        base.push_back(g);
        note += (i ? " | " : "") + d;
    }
    int nt = 2 + (int)s.below(3);
    std::vector<Script> sc(nt);
    bool same = s.flip(); // all threads do the same thing at the same time
    for (int t = 0; t < nt; t++) {
        if (t && same) {
            sc[t] = sc[0];
            continue;
        }
        int n = s.size(1, 10);
        note += " / ";
        for (int i = 0; i < n; i++) {
            Step st;
            st.w = (What)s.below(WHATS);
            st.a = (unsigned)s.below(20);
            st.b = (unsigned)s.below(20);
            if (st.w == PARSE && sc[t].doc.empty()) {
                sc[t].fmt = (int)s.below(4);
                sc[t].doc = doc_of(s, sc[t].fmt);
                if (s.chance(1, 4)) sc[t].doc.resize(s.below(sc[t].doc.size()) + 1);
                sc[t].ix = any_ix(s);
            }
            sc[t].steps.push_back(st);
            note += std::string(i ? "," : "") + WN[st.w];
        }
    }
    bool early = s.flip(); // the main thread gives up its handles while the others work
    bool take = s.flip();  // threads make their own first handles
    c.note(note);
    auto handles = [&] {
        std::vector<struct tg_geom *> v;
        for (auto g : base) v.push_back(tg_geom_clone(g));
        return v;
    };
    std::vector<uint64_t> want(nt), got(nt);
    for (int t = 0; t < nt; t++) want[t] = work(sc[t], handles());
    std::vector<std::vector<struct tg_geom *>> given(nt);
    if (!take)
        for (int t = 0; t < nt; t++) given[t] = handles();
    if (take) early = false;
    std::vector<std::thread> th;
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, nullptr, nt + 1);
    for (int t = 0; t < nt; t++)
        th.emplace_back([&, t] {
            pthread_barrier_wait(&bar);
            got[t] = work(sc[t], take ? handles() : given[t]);
        });
    pthread_barrier_wait(&bar);
    if (early)
        for (auto g : base) tg_geom_free(g);
    for (auto &x : th) x.join();
    pthread_barrier_destroy(&bar);
    if (!early)
        for (auto g : base) tg_geom_free(g);
    for (int t = 0; t < nt; t++)
        if (got[t] != want[t]) fail("answers", "thread %d got other answers than alone", t);
    c.interesting();
    c.label(early ? "early free" : take ? "own clones" : "given clones");
}
