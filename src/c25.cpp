// C25: accessors return what constructors were given.
#include "feat.hpp"
#include <climits>
using namespace mdl;
PBT_MAIN("C25", "the geometry is not empty")

static GenOpt opts(Src &s) {
    GenOpt o;
    o.vals = ANY;
    o.depth = (int)s.below(4);
    if (s.chance(1, 40)) {
        o.maxpts = 400;
    } else if (s.chance(1, 40)) {
        o.maxparts = 200;
        o.maxpts = 4;
        o.depth = 1;
    }
    return o;
}
static enum tg_index any_ix(Src &s) {
    static const enum tg_index k[] = {TG_DEFAULT, TG_NONE, TG_NATURAL, TG_YSTRIPES};
    return k[s.below(4)];
}
static int bad_index(Src &s, int n) {
    switch (s.below(6)) {
    case 0: return n;
    case 1: return -1;
    case 2: return n + 1 + (int)s.below(70);
    case 3: return INT_MAX;
    case 4: return INT_MIN;
    default: return -1 - (int)s.below(1000);
    }
}
static bool zero(struct tg_point p) { return bits(p.x) == 0 && bits(p.y) == 0; }
static bool zero(struct tg_rect r) { return zero(r.min) && zero(r.max); }
static void bad_line(Src &s, const struct tg_line *l) {
    int n = tg_line_num_points(l), k = bad_index(s, n), j = bad_index(s, tg_line_num_segments(l));
    if (!zero(tg_line_point_at(l, k))) fail("range", "tg_line_point_at(%d) of %d points", k, n);
    struct tg_segment g = tg_line_segment_at(l, j);
    if (!zero(g.a) || !zero(g.b)) fail("range", "tg_line_segment_at(%d) of %d points", j, n);
    int lv = bad_index(s, tg_line_index_num_levels(l));
    if (tg_line_index_level_num_rects(l, lv) != 0) fail("range", "tg_line_index_level_num_rects(%d)", lv);
    if (!zero(tg_line_index_level_rect(l, lv, 0))) fail("range", "tg_line_index_level_rect(%d, 0)", lv);
    if (tg_line_index_num_levels(l) > 0) {
        int nr = tg_line_index_level_num_rects(l, 0), r = bad_index(s, nr);
        if (!zero(tg_line_index_level_rect(l, 0, r))) fail("range", "tg_line_index_level_rect(0, %d) of %d", r, nr);
    }
}
static void bad_ring(Src &s, const struct tg_ring *l) {
    int n = tg_ring_num_points(l), k = bad_index(s, n), j = bad_index(s, tg_ring_num_segments(l));
    if (!zero(tg_ring_point_at(l, k))) fail("range", "tg_ring_point_at(%d) of %d points", k, n);
    struct tg_segment g = tg_ring_segment_at(l, j);
    if (!zero(g.a) || !zero(g.b)) fail("range", "tg_ring_segment_at(%d) of %d points", j, n);
    int lv = bad_index(s, tg_ring_index_num_levels(l));
    if (tg_ring_index_level_num_rects(l, lv) != 0) fail("range", "tg_ring_index_level_num_rects(%d)", lv);
    if (!zero(tg_ring_index_level_rect(l, lv, 0))) fail("range", "tg_ring_index_level_rect(%d, 0)", lv);
    if (tg_ring_index_num_levels(l) > 0) {
        int nr = tg_ring_index_level_num_rects(l, 0), r = bad_index(s, nr);
        if (!zero(tg_ring_index_level_rect(l, 0, r))) fail("range", "tg_ring_index_level_rect(0, %d) of %d", r, nr);
    }
}
static void bad_poly(Src &s, const struct tg_poly *p) {
    int n = tg_poly_num_holes(p), k = bad_index(s, n);
    if (tg_poly_hole_at(p, k)) fail("range", "tg_poly_hole_at(%d) of %d holes", k, n);
    bad_ring(s, tg_poly_exterior(p));
    if (n) bad_ring(s, tg_poly_hole_at(p, (int)s.below(n)));
}
static void check_line(const Seq &q, const struct tg_line *l) {
    cmp_line(q, l, CmpOpt());
    const struct tg_point *v = tg_line_points(l);
    if (tg_line_num_segments(l) != (int)q.size() - 1) fail("accessor", "%d segments of %zu points", tg_line_num_segments(l), q.size());
    for (size_t i = 0; i < q.size(); i++) {
        cmp_pt(q[i], v[i], CmpOpt(), "tg_line_points", (int)i);
        if (i) {
            struct tg_segment g = tg_line_segment_at(l, (int)i - 1);
            cmp_pt(q[i - 1], g.a, CmpOpt(), "segment a", (int)i - 1);
            cmp_pt(q[i], g.b, CmpOpt(), "segment b", (int)i - 1);
        }
    }
}
static void check_ring(const Seq &q, const struct tg_ring *l) {
    cmp_ring(q, l, CmpOpt());
    const struct tg_point *v = tg_ring_points(l);
    if (tg_ring_num_segments(l) != (int)q.size() - 1) fail("accessor", "%d segments of %zu points", tg_ring_num_segments(l), q.size());
    for (size_t i = 0; i < q.size(); i++) {
        cmp_pt(q[i], v[i], CmpOpt(), "tg_ring_points", (int)i);
        if (i) {
            struct tg_segment g = tg_ring_segment_at(l, (int)i - 1);
            cmp_pt(q[i - 1], g.a, CmpOpt(), "segment a", (int)i - 1);
            cmp_pt(q[i], g.b, CmpOpt(), "segment b", (int)i - 1);
        }
    }
}
static void check_poly(const Rings &r, const struct tg_poly *p) {
    cmp_poly(r, p, CmpOpt());
    check_ring(r[0], tg_poly_exterior(p));
    for (size_t i = 1; i < r.size(); i++) check_ring(r[i], tg_poly_hole_at(p, (int)i - 1));
}
// Accessors that do not apply to the type of g, and indexes that do not exist.
static void neutral(Src &s, const M &m, const struct tg_geom *g) {
    int t = m.type;
    bool e = m.empty;
    int np = e ? 0 : nparts(m);
    if (t != TG_LINESTRING && tg_geom_line(g)) fail("type", "tg_geom_line of a %s", json_name(t));
    if (t != TG_POLYGON && tg_geom_poly(g)) fail("type", "tg_geom_poly of a %s", json_name(t));
    if (e && (tg_geom_line(g) || tg_geom_poly(g))) fail("type", "empty %s has a line or polygon", json_name(t));
    int good = np ? (int)s.below(np) : 0, bad = bad_index(s, np);
    if (t != TG_MULTIPOINT && !zero(tg_geom_point_at(g, good))) fail("type", "tg_geom_point_at of a %s", json_name(t));
    if (t != TG_MULTILINESTRING && tg_geom_line_at(g, good)) fail("type", "tg_geom_line_at of a %s", json_name(t));
    if (t != TG_MULTIPOLYGON && tg_geom_poly_at(g, good)) fail("type", "tg_geom_poly_at of a %s", json_name(t));
    if (t != TG_GEOMETRYCOLLECTION && tg_geom_geometry_at(g, good)) fail("type", "tg_geom_geometry_at of a %s", json_name(t));
    if (!zero(tg_geom_point_at(g, bad))) fail("range", "tg_geom_point_at(%d) of %d", bad, np);
    if (tg_geom_line_at(g, bad)) fail("range", "tg_geom_line_at(%d) of %d", bad, np);
    if (tg_geom_poly_at(g, bad)) fail("range", "tg_geom_poly_at(%d) of %d", bad, np);
    if (tg_geom_geometry_at(g, bad)) fail("range", "tg_geom_geometry_at(%d) of %d", bad, np);
    bool pt = t == TG_POINT && !e;
    if (!(pt && m.z) && bits(tg_geom_z(g))) fail("type", "tg_geom_z is %g", tg_geom_z(g));
    if (!(pt && m.m) && bits(tg_geom_m(g))) fail("type", "tg_geom_m is %g", tg_geom_m(g));
    if (t == TG_POINT || t == TG_GEOMETRYCOLLECTION || e || (!m.z && !m.m)) {
        if (tg_geom_num_extra_coords(g) != 0 || tg_geom_extra_coords(g)) fail("type", "extra coordinates of a %s", json_name(t));
    }
    if (tg_geom_is_feature(g) || tg_geom_is_featurecollection(g) || tg_geom_extra_json(g)) fail("type", "a plain %s is a feature or has extra JSON", json_name(t));
    if (tg_geom_error(g)) fail("type", "a %s has an error", json_name(t));
    if (strcmp(tg_geom_type_string(tg_geom_typeof(g)), json_name(t))) fail("type", "type string %s", tg_geom_type_string(tg_geom_typeof(g)));
    if (!pt) {
        struct tg_rect r = tg_geom_rect(g);
        struct tg_point p = tg_geom_point(g);
        double x = (r.min.x + r.max.x) / 2, y = (r.min.y + r.max.y) / 2;
        if (!(p.x == x || (p.x != p.x && x != x)) || !(p.y == y || (p.y != p.y && y != y)))
            fail("type", "tg_geom_point is %g %g, the centre is %g %g", p.x, p.y, x, y);
    }
    if (e) return;
    switch (t) {
    case TG_LINESTRING:
        check_line(m.parts[0][0], tg_geom_line(g));
        bad_line(s, tg_geom_line(g));
        break;
    case TG_POLYGON:
        check_poly(m.parts[0], tg_geom_poly(g));
        bad_poly(s, tg_geom_poly(g));
        break;
    case TG_MULTILINESTRING:
        for (int i = 0; i < np; i++) check_line(m.parts[i][0], tg_geom_line_at(g, i));
        if (np) bad_line(s, tg_geom_line_at(g, good));
        break;
    case TG_MULTIPOLYGON:
        for (int i = 0; i < np; i++) check_poly(m.parts[i], tg_geom_poly_at(g, i));
        if (np) bad_poly(s, tg_geom_poly_at(g, good));
        break;
    case TG_GEOMETRYCOLLECTION:
        for (int i = 0; i < np; i++) neutral(s, m.kids[i], tg_geom_geometry_at(g, i));
        break;
    default: break;
    }
}
FACET(built, 6, "a geometry made by constructors, with every accessor, in and out of range, of the right and the wrong type") {
    GenOpt o = opts(s);
    M g = gen_top(s, o);
    c.note(show(g));
    if (nontriv(g)) c.interesting();
    if (s.chance(1, 4)) tg_env_set_index_spread(2 + (int)s.below(20));
    tgx::G t(build(g, any_ix(s)));
    compare(g, t);
    neutral(s, g, t);
}
static void memory_of(struct tg_geom *t) {
    size_t was = tgx::A().bytes - tgx::A().zeros;
    tgx::G u(tg_geom_copy(t));
    size_t use = tgx::A().bytes - tgx::A().zeros - was;
    if (tg_geom_memsize(t) != tg_geom_memsize(u)) fail("memsize", "%zu, and %zu of the copy", tg_geom_memsize(t), tg_geom_memsize(u));
    if (tg_geom_memsize(u) != use) fail("memsize", "reported %zu bytes, allocated %zu", tg_geom_memsize(u), use);
}
FACET(memory, 2, "a geometry and a copy of it; the reported memory size against the bytes allocated") {
    GenOpt o = opts(s);
    M g = gen_top(s, o);
    c.note(show(g));
    if (nontriv(g)) c.interesting();
    if (s.chance(1, 4)) tg_env_set_index_spread(2 + (int)s.below(20));
    tgx::G t(build(g, any_ix(s)));
    memory_of(t);
}
FACET(memory_doc, 1, "a GeoJSON document with features and members of its own, and a copy of it; the reported memory size against the bytes allocated") {
    feat::DocOpt o;
    o.g.vals = FINITE;
    o.g.maxpts = 5;
    o.g.maxparts = s.chance(1, 40) ? 90 : 4;
    o.g.depth = (int)s.below(3);
    feat::Doc d = feat::gen_doc(s, o);
    JsonStyle st;
    st.s = &s;
    std::string x = feat::text(d, st);
    c.note(x.substr(0, 1000));
    c.interesting();
    tgx::G t(tg_parse_geojsonn_ix(x.data(), x.size(), any_ix(s)));
    if (tg_geom_error(t)) fail("parse", "%s", tg_geom_error(t));
    memory_of(t);
}
FACET(coords, 2, "constructors with more or fewer extra coordinates than positions, no coordinates at all, or a negative count") {
    GenOpt o;
    o.vals = FINITE;
    o.only2d = true;
    o.empties = false;
    M g = gen(s, o, 0);
    while (g.type == TG_POINT) g.type = TG_MULTIPOINT;
    int n = s.size(0, 30);
    std::vector<double> x;
    for (int i = 0; i < n; i++) x.push_back(gen_num(s, ANY));
    bool null = s.chance(1, 8);
    int give = null ? 0 : s.chance(1, 8) ? -(int)s.below(5) : n;
    const double *p = null ? nullptr : x.data();
    int dim = (int)s.below(3);
    c.note(show(g) + " with " + std::to_string(give) + " extra coordinates");
    if (give > 0) c.interesting();
    struct tg_geom *t = nullptr;
#define PICK3(f, ...) (dim == 0 ? f##_z(__VA_ARGS__) : dim == 1 ? f##_m(__VA_ARGS__) : f##_zm(__VA_ARGS__))
    switch (g.type) {
    case TG_LINESTRING: {
        struct tg_line *l = mk_line(g.parts[0][0], any_ix(s));
        t = PICK3(tg_geom_new_linestring, l, p, give);
        tg_line_free(l);
        break;
    }
    case TG_POLYGON: {
        struct tg_poly *l = mk_poly(g.parts[0], any_ix(s));
        t = PICK3(tg_geom_new_polygon, l, p, give);
        tg_poly_free(l);
        break;
    }
    case TG_MULTIPOINT: {
        std::vector<struct tg_point> v;
        for (auto &q : g.parts) v.push_back({q[0][0].x, q[0][0].y});
        t = PICK3(tg_geom_new_multipoint, v.data(), (int)v.size(), p, give);
        break;
    }
    case TG_MULTILINESTRING: {
        std::vector<struct tg_line *> v;
        for (auto &q : g.parts) v.push_back(mk_line(q[0], any_ix(s)));
        t = PICK3(tg_geom_new_multilinestring, v.data(), (int)v.size(), p, give);
        for (auto l : v) tg_line_free(l);
        break;
    }
    default: {
        std::vector<struct tg_poly *> v;
        for (auto &q : g.parts) v.push_back(mk_poly(q, any_ix(s)));
        t = PICK3(tg_geom_new_multipolygon, v.data(), (int)v.size(), p, give);
        for (auto l : v) tg_poly_free(l);
    }
    }
    tgx::G own(t);
    if (!t) fail("coords", "no geometry");
    size_t want = give > 0 ? (size_t)give : 0;
    if (tg_geom_num_extra_coords(t) != (int)want) fail("coords", "%d extra coordinates", tg_geom_num_extra_coords(t));
    std::vector<double> keep = x;
    for (auto &d : x) d = -1; // the library has its own copy
    for (size_t i = 0; i < want; i++)
        if (bits(tg_geom_extra_coords(t)[i]) != bits(keep[i])) fail("coords", "extra coordinate %zu", i);
    // writers and rectangles do not read beyond what there is
    tgx::wkt(t);
    tgx::geojson(t);
    tgx::wkb(t);
    tgx::geobin(t);
    double mn[4], mx[4];
    tg_geom_fullrect(t, mn, mx);
    tgx::G u(tg_geom_copy(t));
    if (tg_geom_num_extra_coords(u) != (int)want) fail("coords", "%d extra coordinates in the copy", tg_geom_num_extra_coords(u));
}
FACET(none, 1, "accessors of NULL and of error geometries") {
    struct tg_geom *g = nullptr;
    bool err = s.flip();
    int k = bad_index(s, 0);
    std::string msg = js::gen_string(s);
    if (err) g = tg_geom_new_error(msg.c_str());
    tgx::G own(g);
    c.note(err ? "error " + msg : "NULL");
    c.interesting();
    const char *e = tg_geom_error(g);
    if (err ? !e || msg != e : !e || !*e) fail("none", "error is %s", e ? e : "(null)");
    if (tg_geom_line(g) || tg_geom_poly(g) || tg_geom_line_at(g, k) || tg_geom_poly_at(g, k) || tg_geom_geometry_at(g, k) || tg_geom_extra_coords(g) ||
        tg_geom_extra_json(g))
        fail("none", "a part of nothing");
    if (tg_geom_num_points(g) || tg_geom_num_lines(g) || tg_geom_num_polys(g) || tg_geom_num_geometries(g) || tg_geom_num_extra_coords(g))
        fail("none", "a number of parts of nothing");
    if (!zero(tg_geom_point_at(g, k)) || !zero(tg_geom_point(g)) || !zero(tg_geom_rect(g))) fail("none", "a point of nothing");
    if (tg_geom_is_feature(g) || tg_geom_is_featurecollection(g) || tg_geom_has_z(g) || tg_geom_has_m(g) || tg_geom_z(g) || tg_geom_m(g)) fail("none", "flags of nothing");
    if (!err && (tg_geom_dims(g) || tg_geom_memsize(g) || tg_geom_typeof(g))) fail("none", "dims, size or type of NULL");
    if (!tg_geom_is_empty(g)) fail("none", "not empty");
    double mn[4], mx[4];
    tg_geom_fullrect(g, mn, mx);
    const struct tg_line *l = nullptr;
    const struct tg_ring *r = nullptr;
    const struct tg_poly *p = nullptr;
    if (tg_line_num_points(l) || tg_line_num_segments(l) || tg_ring_num_points(r) || tg_ring_num_segments(r) || tg_poly_num_holes(p) || tg_line_points(l) ||
        tg_ring_points(r) || tg_poly_exterior(p) || tg_poly_hole_at(p, k) || !zero(tg_line_rect(l)) || !zero(tg_ring_rect(r)) || !zero(tg_poly_rect(p)) ||
        !zero(tg_line_point_at(l, k)) || !zero(tg_ring_point_at(r, k)) || tg_line_memsize(l) || tg_ring_memsize(r) || tg_poly_memsize(p) || tg_line_length(l) ||
        tg_ring_area(r) || tg_ring_perimeter(r))
        fail("none", "something of a NULL line, ring or polygon");
    bad_line(s, l);
    bad_ring(s, r);
    if (tg_geom_clone(nullptr) || tg_geom_copy(nullptr) || tg_line_clone(l) || tg_line_copy(l) || tg_ring_clone(r) || tg_ring_copy(r) || tg_poly_clone(p) || tg_poly_copy(p))
        fail("none", "a duplicate of NULL");
    tg_geom_free(nullptr);
    tg_line_free(nullptr);
    tg_ring_free(nullptr);
    tg_poly_free(nullptr);
    if (tg_poly_new(nullptr, nullptr, 0)) fail("none", "a polygon without exterior");
    tgx::G x(tg_geom_new_point({1, 2}));
    for (int i = 0; i < 2; i++) {
        struct tg_geom *a = i ? g : x.g, *b = i ? x.g : g;
        if (tg_geom_intersects(a, b) || tg_geom_covers(a, b) || tg_geom_contains(a, b) || tg_geom_touches(a, b) || tg_geom_equals(a, b) || tg_geom_within(a, b) ||
            tg_geom_coveredby(a, b))
            fail("none", "a predicate holds for nothing");
    }
    if (tg_geom_intersects_xy(g, 0, 0) || tg_geom_intersects_rect(g, {{-1, -1}, {1, 1}})) fail("none", "nothing intersects");
    for (int t = -1; t < 10; t++) {
        const char *n = tg_geom_type_string((enum tg_geom_type)t);
        if (strcmp(n, t >= 1 && t <= 7 ? json_name(t) : "Unknown")) fail("none", "type string of %d is %s", t, n);
    }
    if (tg_geom_new_error(nullptr)) fail("none", "an error from NULL");
}
