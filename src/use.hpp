// Exercises everything the public interface offers on a geometry.
#pragma once
#include "tgx.hpp"
namespace use {
struct Sink {
    uint64_t h = 1469598103934665603ull;
    std::string *log = nullptr; // what was added, in words
    void say(const char *f, ...) {
        if (!log || log->size() > 200000) return;
        char t[160];
        va_list ap;
        va_start(ap, f);
        vsnprintf(t, sizeof t, f, ap);
        va_end(ap);
        *log += t;
        *log += '\n';
    }
    void add(uint64_t v) { h = (h ^ v) * 1099511628211ull; }
    void u(uint64_t v) {
        add(v);
        if (log) say("%llu", (unsigned long long)v);
    }
    void d(double v) {
        uint64_t x;
        if (v != v) v = NAN;
        memcpy(&x, &v, 8);
        if (v != v) x = 0x7FF8000000000000ull;
        add(x);
        if (log) say("%.17g", v);
    }
    void p(struct tg_point v) {
        d(v.x);
        d(v.y);
    }
    void r(struct tg_rect v) {
        p(v.min);
        p(v.max);
    }
    void s(const char *t) {
        add(t ? pbt::hash_str(t) : 7);
        if (log) say("%s", t ? t : "(null)");
    }
    void b(const std::string &t) {
        add(pbt::hash_bytes(t.data(), t.size()));
        if (!log) return;
        bool ok = true;
        for (unsigned char c : t) ok = ok && c >= 32;
        if (ok) return say("%s", t.c_str());
        std::string x = "hex ";
        char y[4];
        for (unsigned char c : t) {
            snprintf(y, sizeof y, "%02x", c);
            x += y;
        }
        say("%s", x.c_str());
    }
    int n = 0;
    bool internals = true; // indexes and sizes too
};
static inline double rect_dist(struct tg_rect r, int *more, void *) {
    (void)more;
    double dx = std::max(0.0, std::max(r.min.x - 1, 1 - r.max.x)), dy = std::max(0.0, std::max(r.min.y - 2, 2 - r.max.y));
    return dx * dx + dy * dy;
}
static inline double seg_dist(struct tg_segment g, int *more, void *) {
    (void)more;
    double dx = g.a.x - 1, dy = g.a.y - 2;
    return dx * dx + dy * dy;
}
static inline bool near_it(struct tg_segment g, double dist, int, void *u) {
    Sink *k = (Sink *)u;
    (void)g;
    (void)dist;
    return ++k->n % 8 != 0;
}
static inline bool pair_it(struct tg_segment a, int i, struct tg_segment b, int j, void *u) {
    Sink *k = (Sink *)u;
    (void)a;
    (void)b;
    k->u((uint64_t)(uint32_t)i * 3 + (uint32_t)j);
    return ++k->n % 64 != 0;
}
static inline bool search_it(const struct tg_geom *g, int i, void *u) {
    Sink *k = (Sink *)u;
    k->u((uint64_t)i);
    k->u(tg_geom_typeof(g));
    return ++k->n % 100 != 0;
}
inline void line(Sink &k, const struct tg_line *l) {
    int n = tg_line_num_points(l);
    k.u(n);
    const struct tg_point *p = tg_line_points(l);
    for (int i = 0; i < n; i++) {
        k.p(tg_line_point_at(l, i));
        k.p(p[i]);
    }
    int m = tg_line_num_segments(l);
    for (int i = 0; i < m; i++) k.p(tg_line_segment_at(l, i).b);
    k.r(tg_line_rect(l));
    k.u(tg_line_clockwise(l));
    k.d(tg_line_length(l));
    if (k.internals) k.u(tg_line_index_spread(l));
    int lv = k.internals ? tg_line_index_num_levels(l) : 0;
    for (int i = 0; i < lv; i++) {
        int c = tg_line_index_level_num_rects(l, i);
        for (int j = 0; j < c; j++) k.r(tg_line_index_level_rect(l, i, j));
    }
    if (k.internals) tg_line_nearest_segment(l, rect_dist, seg_dist, near_it, &k);
    tg_line_line_search(l, l, pair_it, &k);
    struct tg_line *c = tg_line_clone(l), *d = tg_line_copy(l);
    tg_line_free(c);
    if (d && k.internals) k.u(tg_line_memsize(d));
    tg_line_free(d);
}
inline void ring(Sink &k, const struct tg_ring *l) {
    int n = tg_ring_num_points(l);
    k.u(n);
    const struct tg_point *p = tg_ring_points(l);
    for (int i = 0; i < n; i++) {
        k.p(tg_ring_point_at(l, i));
        k.p(p[i]);
    }
    int m = tg_ring_num_segments(l);
    for (int i = 0; i < m; i++) k.p(tg_ring_segment_at(l, i).b);
    k.r(tg_ring_rect(l));
    k.u(tg_ring_clockwise(l));
    k.u(tg_ring_convex(l));
    k.d(tg_ring_area(l));
    k.d(tg_ring_perimeter(l));
    if (k.internals) k.u(tg_ring_index_spread(l));
    int lv = k.internals ? tg_ring_index_num_levels(l) : 0;
    for (int i = 0; i < lv; i++) {
        int c = tg_ring_index_level_num_rects(l, i);
        for (int j = 0; j < c; j++) k.r(tg_ring_index_level_rect(l, i, j));
    }
    if (k.internals) tg_ring_nearest_segment(l, rect_dist, seg_dist, near_it, &k);
    tg_ring_ring_search(l, l, pair_it, &k);
    struct tg_ring *c = tg_ring_clone(l), *d = tg_ring_copy(l);
    tg_ring_free(c);
    if (d && k.internals) k.u(tg_ring_memsize(d));
    tg_ring_free(d);
}
inline void poly(Sink &k, const struct tg_poly *p) {
    ring(k, tg_poly_exterior(p));
    int n = tg_poly_num_holes(p);
    k.u(n);
    for (int i = 0; i < n; i++) ring(k, tg_poly_hole_at(p, i));
    k.r(tg_poly_rect(p));
    k.u(tg_poly_clockwise(p));
    struct tg_poly *c = tg_poly_clone(p), *d = tg_poly_copy(p);
    tg_poly_free(c);
    if (d && k.internals) k.u(tg_poly_memsize(d));
    tg_poly_free(d);
}
inline void geom(Sink &k, const struct tg_geom *g, int depth = 0) {
    if (!g) {
        k.u(99);
        return;
    }
    k.s(tg_geom_error(g));
    k.u(tg_geom_typeof(g));
    k.s(tg_geom_type_string(tg_geom_typeof(g)));
    k.r(tg_geom_rect(g));
    k.u(tg_geom_is_feature(g) * 2 + tg_geom_is_featurecollection(g));
    k.p(tg_geom_point(g));
    k.u(tg_geom_is_empty(g));
    k.u(tg_geom_dims(g));
    k.u(tg_geom_has_z(g) * 2 + tg_geom_has_m(g));
    k.d(tg_geom_z(g));
    k.d(tg_geom_m(g));
    k.s(tg_geom_extra_json(g));
    if (k.internals) k.u(tg_geom_memsize(g));
    int n = tg_geom_num_extra_coords(g);
    const double *x = tg_geom_extra_coords(g);
    k.u(n);
    for (int i = 0; i < n; i++) k.d(x[i]);
    double mn[4] = {0}, mx[4] = {0};
    n = tg_geom_fullrect(g, mn, mx);
    k.u(n);
    for (int i = 0; i < n && i < 4; i++) {
        k.d(mn[i]);
        k.d(mx[i]);
    }
    if (tg_geom_line(g)) line(k, tg_geom_line(g));
    if (tg_geom_poly(g)) poly(k, tg_geom_poly(g));
    n = tg_geom_num_points(g);
    k.u(n);
    for (int i = 0; i < n; i++) k.p(tg_geom_point_at(g, i));
    n = tg_geom_num_lines(g);
    k.u(n);
    for (int i = 0; i < n; i++) line(k, tg_geom_line_at(g, i));
    n = tg_geom_num_polys(g);
    k.u(n);
    for (int i = 0; i < n; i++) poly(k, tg_geom_poly_at(g, i));
    struct tg_rect all = {{-1e9, -1e9}, {1e9, 1e9}}, some = {{0, 0}, {5, 5}};
    tg_geom_search(g, all, search_it, &k);
    tg_geom_search(g, some, search_it, &k);
    k.u(tg_geom_intersects_rect(g, some));
    k.u(tg_geom_intersects_rect(g, all));
    k.u(tg_geom_intersects_xy(g, 3, 4));
    if (depth == 0) { // what the writers say includes the members
        k.b(tgx::wkt(g));
        k.b(tgx::wkb(g));
        k.b(tgx::hex(g));
        k.b(tgx::geojson(g));
        k.b(tgx::geobin(g));
        char b[64];
        for (size_t z : {(size_t)0, (size_t)1, (size_t)7, (size_t)64}) {
            std::vector<char> v(z);
            k.u(tg_geom_wkt(g, v.data(), z));
            k.u(tg_geom_wkb(g, (uint8_t *)v.data(), z));
            k.u(tg_geom_hex(g, v.data(), z));
            k.u(tg_geom_geojson(g, v.data(), z));
            k.u(tg_geom_geobin(g, (uint8_t *)v.data(), z));
        }
        (void)b;
        struct tg_geom *c = tg_geom_clone(g), *d = tg_geom_copy(g);
        tg_geom_free(c);
        if (d) {
            k.b(tgx::wkb(d));
            k.b(tgx::geojson(d));
            if (k.internals) k.u(tg_geom_memsize(d));
        }
        tg_geom_free(d);
    }
    n = tg_geom_num_geometries(g);
    k.u(n);
    for (int i = 0; i < n; i++)
        if (depth < 40) geom(k, tg_geom_geometry_at(g, i), depth + 1);
}
// how many leaf shapes a geometry has
inline double leaves(const struct tg_geom *g) {
    switch (tg_geom_typeof(g)) {
    case TG_MULTIPOINT: return tg_geom_num_points(g);
    case TG_MULTILINESTRING: return tg_geom_num_lines(g);
    case TG_MULTIPOLYGON: return tg_geom_num_polys(g);
    case TG_GEOMETRYCOLLECTION: {
        double n = 0;
        for (int i = 0; i < tg_geom_num_geometries(g); i++) n += leaves(tg_geom_geometry_at(g, i));
        return n;
    }
    default: return 1;
    }
}
inline void pair(Sink &k, const struct tg_geom *a, const struct tg_geom *b) {
    // Every predicate asks each member of one about each member of the other
    // several times over: thousands on both sides take many seconds, which
    // says nothing about the answers. So do their positions, in pairs.
    if (leaves(a) * leaves(b) > 1e6) return;
    if ((double)tg_geom_wkb(a, nullptr, 0) * (double)tg_geom_wkb(b, nullptr, 0) > 256 * 1e6) return;
    k.u(tg_geom_equals(a, b));
    k.u(tg_geom_intersects(a, b));
    k.u(tg_geom_disjoint(a, b));
    k.u(tg_geom_contains(a, b));
    k.u(tg_geom_within(a, b));
    k.u(tg_geom_covers(a, b));
    k.u(tg_geom_coveredby(a, b));
    k.u(tg_geom_touches(a, b));
    if (tg_geom_line(a) && tg_geom_line(b)) tg_line_line_search(tg_geom_line(a), tg_geom_line(b), pair_it, &k);
    if (tg_geom_poly(a) && tg_geom_line(b)) tg_ring_line_search(tg_poly_exterior(tg_geom_poly(a)), tg_geom_line(b), pair_it, &k);
    if (tg_geom_poly(a) && tg_geom_poly(b)) tg_ring_ring_search(tg_poly_exterior(tg_geom_poly(a)), tg_poly_exterior(tg_geom_poly(b)), pair_it, &k);
}
} // namespace use
