// C13: segment and rectangle primitives.
#include "shapes.hpp"
using namespace shp;
using pbt::fail;
PBT_MAIN("C13", "the bounding rectangles of the two operands meet, or the case is about a single operand")

static P pt(Src &s, int64_t n) { return {(int64_t)s.below(n + 1), (int64_t)s.below(n + 1)}; }
static Seg gen_seg(Src &s, int64_t n) {
    Seg t{pt(s, n), pt(s, n)};
    switch (s.below(6)) {
    case 1: t.b.x = t.a.x; break;
    case 2: t.b.y = t.a.y; break;
    case 3: if (s.flip()) t.b = t.a; break;
    }
    return t;
}
// A second segment in a delicate position relative to the first.
static Seg gen_rel(Src &s, const Seg &a, int64_t n) {
    int64_t dx = a.b.x - a.a.x, dy = a.b.y - a.a.y;
    int64_t g = (int64_t)igcd(dx, dy);
    auto on_line = [&]() -> P { // a lattice point of the carrying line, maybe beyond the ends
        if (!g) return a.a;
        int64_t k = (int64_t)s.below(3 * g + 1) - g;
        return {a.a.x + dx / g * k, a.a.y + dy / g * k};
    };
    Seg b;
    switch (s.below(8)) {
    case 0: b = gen_seg(s, n); break;
    case 1: b = {on_line(), on_line()}; break;           // collinear
    case 2: b = {on_line(), pt(s, n)}; break;            // end on the line
    case 3: b = {s.flip() ? a.a : a.b, pt(s, n)}; break; // shared end
    case 4: {                                            // parallel, close
        int64_t ox = (int64_t)s.below(3) - 1, oy = (int64_t)s.below(3) - 1;
        b = {{a.a.x + ox, a.a.y + oy}, {a.b.x + ox, a.b.y + oy}};
        break;
    }
    case 5: { // ends as close to the other as can be
        P e = beside(s, a);
        b = {e, s.flip() ? pt(s, n) : beside(s, a)};
        break;
    }
    case 6: { // passes an end of the other as close as can be: the end lies beside it
        b = gen_seg(s, n);
        P e = beside(s, b), q = s.flip() ? a.a : a.b;
        P d{q.x - e.x, q.y - e.y};
        b = {{b.a.x + d.x, b.a.y + d.y}, {b.b.x + d.x, b.b.y + d.y}};
        break;
    }
    default: { // passing next to an end
        P e = s.flip() ? a.a : a.b;
        e.x += (int64_t)s.below(3) - 1;
        e.y += (int64_t)s.below(3) - 1;
        P q = pt(s, n);
        b = {q, {2 * e.x - q.x, 2 * e.y - q.y}};
        break;
    }
    }
    if (s.flip()) std::swap(b.a, b.b);
    return b;
}
static std::string str(const Seg &s) { return geo::str(Path{s.a, s.b}); }
struct Map {
    double mul = 1, ox = 0, oy = 0;
    struct tg_point operator()(P p) const { return {p.x * mul + ox, p.y * mul + oy}; }
};
static Map gen_map(Src &s, int64_t n) {
    Map m;
    if (s.flip()) return m;
    m.mul = ldexp(1, (int)s.below(200) - 100);
    if (s.flip() && n <= (1 << 20)) {
        static const int far[] = {13, 13, 24, 30, 42, 52};
        uint64_t span = 1ull << far[s.below(6)];
        m.ox = m.mul * ((double)s.below(span) - (double)(span / 2));
        m.oy = m.mul * ((double)s.below(span) - (double)(span / 2));
    }
    return m;
}
static int64_t gen_n(Src &s) {
    static const int64_t n[] = {3, 5, 8, 12, 40, 1000, 4096, 1 << 20, 12345678, 1 << 25};
    return n[s.below(10)];
}
FACET(segseg, 5, "two segments, in both argument orders and all directions") {
    int64_t n = gen_n(s);
    Seg a = gen_seg(s, n), b = gen_rel(s, a, n);
    Map m = gen_map(s, n);
    char buf[100];
    snprintf(buf, sizeof buf, "*%.17g +(%.17g %.17g)", m.mul, m.ox, m.oy);
    c.note(str(a) + " " + str(b) + " " + buf);
    if (std::max(a.a.x, a.b.x) >= std::min(b.a.x, b.b.x) && std::max(b.a.x, b.b.x) >= std::min(a.a.x, a.b.x) &&
        std::max(a.a.y, a.b.y) >= std::min(b.a.y, b.b.y) && std::max(b.a.y, b.b.y) >= std::min(a.a.y, a.b.y))
        c.interesting();
    bool want = segs_meet(a, b);
    c.label(want ? "meet" : "apart");
    for (int k = 0; k < 8; k++) {
        Seg u = a, v = b;
        if (k & 1) std::swap(u.a, u.b);
        if (k & 2) std::swap(v.a, v.b);
        if (k & 4) std::swap(u, v);
        struct tg_segment tu = {m(u.a), m(u.b)}, tv = {m(v.a), m(v.b)};
        if (tg_segment_intersects_segment(tu, tv) != want)
            fail("segments", "%s and %s: reported %d", str(u).c_str(), str(v).c_str(), !want);
        // the same question to lines
        if (k == 0 || k == 7) {
            struct tg_point p[2] = {tu.a, tu.b}, q[2] = {tv.a, tv.b};
            struct tg_line *l1 = tg_line_new(p, 2), *l2 = tg_line_new(q, 2);
            bool got = tg_geom_intersects((struct tg_geom *)l1, (struct tg_geom *)l2);
            tg_line_free(l1);
            tg_line_free(l2);
            if (got != want) fail("lines", "as lines %s and %s: reported %d", str(u).c_str(), str(v).c_str(), got);
        }
    }
}
static bool eq(struct tg_rect a, double x0, double y0, double x1, double y1) {
    return a.min.x == x0 && a.min.y == y0 && a.max.x == x1 && a.max.y == y1;
}
FACET(rects, 3, "rectangles and points") {
    int64_t n = gen_n(s);
    Map m = gen_map(s, n);
    P a = pt(s, n), b = pt(s, n), p = pt(s, n), q = pt(s, n);
    auto align = [&](P &v) {
        if (s.chance(1, 3)) v.x = s.flip() ? a.x : b.x;
        if (s.chance(1, 3)) v.y = s.flip() ? a.y : b.y;
    };
    align(p);
    align(q);
    int64_t ax = std::min(a.x, b.x), ay = std::min(a.y, b.y), bx = std::max(a.x, b.x), by = std::max(a.y, b.y);
    int64_t cx = std::min(p.x, q.x), cy = std::min(p.y, q.y), dx = std::max(p.x, q.x), dy = std::max(p.y, q.y);
    struct tg_rect A = {m({ax, ay}), m({bx, by})}, B = {m({cx, cy}), m({dx, dy})};
    c.note(geo::str(Path{{ax, ay}, {bx, by}}) + " " + geo::str(Path{{cx, cy}, {dx, dy}}));
    bool want = ax <= dx && cx <= bx && ay <= dy && cy <= by;
    if (want) c.interesting();
    if (tg_rect_intersects_rect(A, B) != want || tg_rect_intersects_rect(B, A) != want) fail("rect-rect", "reported %d", !want);
    bool pin = p.x >= ax && p.x <= bx && p.y >= ay && p.y <= by;
    if (tg_rect_intersects_point(A, m(p)) != pin || tg_point_intersects_rect(m(p), A) != pin) fail("rect-point", "reported %d", !pin);
    struct tg_rect U = tg_rect_expand(A, B), V = tg_rect_expand(B, A);
    struct tg_point lo = m({std::min(ax, cx), std::min(ay, cy)}), hi = m({std::max(bx, dx), std::max(by, dy)});
    if (!eq(U, lo.x, lo.y, hi.x, hi.y) || !eq(V, lo.x, lo.y, hi.x, hi.y)) fail("expand", "union differs");
    struct tg_rect W = tg_rect_expand_point(A, m(p));
    lo = m({std::min(ax, p.x), std::min(ay, p.y)});
    hi = m({std::max(bx, p.x), std::max(by, p.y)});
    if (!eq(W, lo.x, lo.y, hi.x, hi.y)) fail("expand", "with a point differs");
    struct tg_point ce = tg_rect_center(A);
    struct tg_point l = m({ax, ay}), h = m({bx, by});
    if (ce.x != (l.x + h.x) / 2 || ce.y != (l.y + h.y) / 2) fail("center", "differs");
    struct tg_rect sr = tg_segment_rect(tg_segment{m(a), m(b)});
    if (!eq(sr, l.x, l.y, h.x, h.y)) fail("segment_rect", "differs");
    struct tg_rect pr = tg_point_rect(m(p));
    if (!eq(pr, m(p).x, m(p).y, m(p).x, m(p).y)) fail("point_rect", "differs");
}
FACET(doubles, 2, "segments and rectangles on random doubles: rectangle facts, symmetry, and clear cases") {
    auto num = [&] {
        double d = ((double)(s.u64() >> 11) / (double)(1ull << 53)) * 2 - 1;
        return d * (s.flip() ? 1 : 180);
    };
    struct tg_point p[4];
    for (auto &q : p) q = {num(), num()};
    char buf[400];
    snprintf(buf, sizeof buf, "(%.17g %.17g,%.17g %.17g) (%.17g %.17g,%.17g %.17g)", p[0].x, p[0].y, p[1].x, p[1].y, p[2].x, p[2].y, p[3].x, p[3].y);
    c.note(buf);
    struct tg_segment a = {p[0], p[1]}, b = {p[2], p[3]};
    auto orient = [](struct tg_point u, struct tg_point v, struct tg_point w) {
        __float128 d = ((__float128)v.x - u.x) * ((__float128)w.y - u.y) - ((__float128)v.y - u.y) * ((__float128)w.x - u.x);
        return fabs((double)d) < 1e-9 ? 0 : d > 0 ? 1 : -1;
    };
    int o1 = orient(p[0], p[1], p[2]), o2 = orient(p[0], p[1], p[3]), o3 = orient(p[2], p[3], p[0]), o4 = orient(p[2], p[3], p[1]);
    bool g = tg_segment_intersects_segment(a, b);
    if (g != tg_segment_intersects_segment(b, a)) fail("symmetry", "reported %d one way only", g);
    struct tg_rect ra = tg_segment_rect(a), rb = tg_segment_rect(b);
    if (g && !tg_rect_intersects_rect(ra, rb)) fail("rect", "segments meet but their rectangles do not");
    if (o1 && o2 && o3 && o4) {
        c.interesting();
        bool want = o1 != o2 && o3 != o4;
        if (g != want) fail("segments", "reported %d", g);
    }
    if (!eq(ra, std::min(p[0].x, p[1].x), std::min(p[0].y, p[1].y), std::max(p[0].x, p[1].x), std::max(p[0].y, p[1].y))) fail("segment_rect", "differs");
    struct tg_point ce = tg_rect_center(ra);
    auto mid = [](double lo, double hi, double got) { return fabsl(((long double)lo + hi) / 2 - got) <= ldexpl(std::max(fabs(lo), fabs(hi)), -51); };
    if (!mid(ra.min.x, ra.max.x, ce.x) || !mid(ra.min.y, ra.max.y, ce.y)) fail("center", "%.17g %.17g", ce.x, ce.y);
    struct tg_rect u = tg_rect_expand(ra, rb), w = tg_rect_expand_point(ra, p[2]);
    if (!eq(u, std::min(ra.min.x, rb.min.x), std::min(ra.min.y, rb.min.y), std::max(ra.max.x, rb.max.x), std::max(ra.max.y, rb.max.y))) fail("expand", "union differs");
    if (!eq(w, std::min(ra.min.x, p[2].x), std::min(ra.min.y, p[2].y), std::max(ra.max.x, p[2].x), std::max(ra.max.y, p[2].y))) fail("expand", "with a point differs");
}
