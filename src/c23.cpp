// C23: ring and line measurements, orientation, convexity, accessors.
#include "shapes.hpp"
using namespace shp;
using pbt::fail;
PBT_MAIN("C23", "the ring or line has at least three segments")

static bool close_to(double a, long double b) {
    return fabsl((long double)a - b) <= 1e-9L * (1 + fabsl(b));
}
static void common(const std::vector<struct tg_point> &in, int npoints, const std::function<struct tg_point(int)> &pa,
                   const struct tg_point *arr, int nsegs, const std::function<struct tg_segment(int)> &sa, int want_segs, struct tg_rect r) {
    if (npoints != (int)in.size()) fail("points", "%d points, expected %zu", npoints, in.size());
    double x0 = INFINITY, y0 = INFINITY, x1 = -INFINITY, y1 = -INFINITY;
    for (int i = 0; i < npoints; i++) {
        struct tg_point p = pa(i);
        if (memcmp(&p, &in[i], sizeof p) || memcmp(&arr[i], &in[i], sizeof p)) fail("points", "point %d differs from the input", i);
        x0 = std::min(x0, p.x);
        y0 = std::min(y0, p.y);
        x1 = std::max(x1, p.x);
        y1 = std::max(y1, p.y);
    }
    if (nsegs != want_segs) fail("segments", "%d segments, expected %d", nsegs, want_segs);
    for (int i = 0; i < nsegs; i++) {
        struct tg_segment s = sa(i);
        struct tg_point b = in[(i + 1) % in.size()];
        if (memcmp(&s.a, &in[i], sizeof s.a) || memcmp(&s.b, &b, sizeof b)) fail("segments", "segment %d differs from the input", i);
    }
    for (int i : {-1, npoints, npoints + 1, 1 << 30, -(1 << 30)}) {
        struct tg_point p = pa(i);
        if (p.x != 0 || p.y != 0) fail("range", "point %d of %d is not zero", i, npoints);
    }
    for (int i : {-1, nsegs, nsegs + 1, 1 << 30, -(1 << 30)}) {
        struct tg_segment g = sa(i);
        if (g.a.x != 0 || g.a.y != 0 || g.b.x != 0 || g.b.y != 0) fail("range", "segment %d of %d is not zero", i, nsegs);
    }
    if (r.min.x != x0 || r.min.y != y0 || r.max.x != x1 || r.max.y != y1) fail("rect", "(%g %g,%g %g), expected (%g %g,%g %g)", r.min.x, r.min.y, r.max.x, r.max.y, x0, y0, x1, y1);
}
static void away(Src &s, Path &p) { // moved where every sum of products is still exact
    static const int64_t k[] = {0, 1, -1, 17, 1000, -100000, 1 << 20, -(1 << 20)};
    int64_t dx = k[s.below(8)], dy = k[s.below(8)];
    for (auto &q : p) {
        q.x += dx;
        q.y += dy;
    }
}
static void ring_case(Src &s, pbt::Ctx &c, Path p, bool simple) {
    double mul = 1;
    if (s.chance(1, 3)) away(s, p);
    if (s.chance(1, 3)) mul = ldexp(1, (int)s.below(120) - 60);
    bool open = s.chance(1, 3);
    std::vector<struct tg_point> v;
    for (auto &q : p) v.push_back({q.x * mul, q.y * mul});
    if (open) v.pop_back();
    std::string t = "ring" + str(p) + (open ? " left open" : "");
    c.note(t.size() > 1500 ? t.substr(0, 1500) + "..." : t);
    if (p.size() > 3) c.interesting();
    enum tg_index ix = pick_ix(s);
    struct tg_ring *r = tg_ring_new_ix(v.data(), (int)v.size(), ix);
    if (!r) fail("null", "tg_ring_new returned NULL");
    struct Free {
        struct tg_ring *r;
        ~Free() { tg_ring_free(r); }
    } fr{r};
    // (an open ring reports only the given points)
    common(v, tg_ring_num_points(r), [&](int i) { return tg_ring_point_at(r, i); }, tg_ring_points(r), tg_ring_num_segments(r),
           [&](int i) { return tg_ring_segment_at(r, i); }, (int)p.size() - 1, tg_ring_rect(r));
    int64_t a2 = area2(p);
    double area = (double)llabs(a2) / 2 * mul * mul;
    if (!close_to(tg_ring_area(r) / mul / mul, (long double)llabs(a2) / 2)) fail("area", "%.17g, expected %.17g", tg_ring_area(r), area);
    long double per = 0;
    for (size_t i = 0; i + 1 < p.size(); i++) per += hypotl(p[i + 1].x - p[i].x, p[i + 1].y - p[i].y);
    if (!close_to(tg_ring_perimeter(r) / mul, per)) fail("perimeter", "%.17g, expected %.17Lg", tg_ring_perimeter(r), per * mul);
    if (a2 != 0 && tg_ring_clockwise(r) != (a2 < 0)) fail("clockwise", "reported %d", tg_ring_clockwise(r));
    if (simple && tg_ring_convex(r) != ring_convex(p)) fail("convex", "reported %d", tg_ring_convex(r));
    // polygon
    struct tg_poly *po = tg_poly_new(r, nullptr, 0);
    bool cw = tg_poly_clockwise(po);
    struct tg_rect pr = tg_poly_rect(po), rr = tg_ring_rect(r);
    tg_poly_free(po);
    if (a2 != 0 && cw != (a2 < 0)) fail("clockwise", "polygon reported %d", cw);
    if (memcmp(&pr, &rr, sizeof pr)) fail("rect", "polygon rect differs from ring rect");
    // a copy says the same
    struct tg_ring *k = s.flip() ? tg_ring_copy(r) : tg_ring_clone(r);
    bool same = tg_ring_area(k) == tg_ring_area(r) && tg_ring_convex(k) == tg_ring_convex(r) && tg_ring_clockwise(k) == tg_ring_clockwise(r) &&
                tg_ring_perimeter(k) == tg_ring_perimeter(r) && tg_ring_num_points(k) == tg_ring_num_points(r);
    tg_ring_free(k);
    if (!same) fail("copy", "a copy measures differently");
}
FACET(small_ring, 4, "a small simple ring") {
    Path p = gen_ring(s, 3 + (int)s.below(12), s.chance(1, 3));
    ring_case(s, c, p, true);
}
FACET(big_ring, 3, "a simple ring with tens to thousands of vertices") {
    Path p = shp::big_ring(s, s.chance(1, 2000) ? 20000 + (int)s.below(60000) : s.chance(1, 20) ? 300 + (int)s.below(2000) : s.size(4, 200));
    ring_case(s, c, p, true);
}
FACET(convexish, 3, "a convex ring, maybe with extra collinear vertices or dented at one vertex") {
    std::vector<P> q;
    int n = 3 + (int)s.below(20), w = 4 + (int)s.below(30);
    for (int i = 0; i < n; i++) q.push_back(gen_pt(s, w));
    Path p = hull(q);
    if (p.empty()) p = {{0, 0}, {w, 0}, {w, w}, {0, 0}};
    static const int64_t ks[] = {4, 4, 100, 4096, 1 << 18};
    const int64_t kk = ks[s.below(5)];
    for (auto &x : p) x.x *= kk, x.y *= kk;
    if (s.flip()) { // collinear midpoints
        Path o;
        for (size_t i = 0; i + 1 < p.size(); i++) {
            o.push_back(p[i]);
            if (s.flip()) o.push_back({(p[i].x + p[i + 1].x) / 2, (p[i].y + p[i + 1].y) / 2});
        }
        o.push_back(o[0]);
        p = o;
    }
    if (s.flip()) { // pull one vertex inwards by a unit
        size_t i = s.below(p.size() - 1);
        Path t = p;
        t[i].x += (int64_t)s.below(3) - 1;
        t[i].y += (int64_t)s.below(3) - 1;
        if (i == 0) t.back() = t[0];
        if (ring_simple(t)) p = t;
    }
    turn(s, p);
    ring_case(s, c, p, true);
}
FACET(any_ring, 2, "any closed chain of points, self-crossing or with repeats: all but convexity") {
    Path p;
    int n = s.size(3, 60), w = 3 + (int)s.below(40);
    for (int i = 0; i < n; i++) p.push_back(p.empty() || !s.chance(1, 8) ? gen_pt(s, w) : p.back());
    while (p.size() > 1 && p.back() == p[0]) p.pop_back();
    if (p.size() < 3) p = {{0, 0}, {1, 0}, {0, 1}};
    p.push_back(p[0]);
    ring_case(s, c, p, false);
}
FACET(line, 3, "a line") {
    Path p;
    int n = s.chance(1, 2000) ? 20000 + (int)s.below(60000) : s.chance(1, 20) ? 300 + (int)s.below(1000) : s.size(2, 80);
    p = big_line(s, n, s.flip()).line;
    if (s.chance(1, 5)) p.push_back(p[0]);
    if (s.chance(1, 3)) away(s, p);
    double mul = s.chance(1, 3) ? ldexp(1, (int)s.below(120) - 60) : 1;
    std::vector<struct tg_point> v;
    for (auto &q : p) v.push_back({q.x * mul, q.y * mul});
    std::string t = "line" + str(p);
    c.note(t.size() > 1500 ? t.substr(0, 1500) + "..." : t);
    if (p.size() > 3) c.interesting();
    struct tg_line *l = tg_line_new_ix(v.data(), (int)v.size(), pick_ix(s));
    struct Free {
        struct tg_line *l;
        ~Free() { tg_line_free(l); }
    } fr{l};
    common(v, tg_line_num_points(l), [&](int i) { return tg_line_point_at(l, i); }, tg_line_points(l), tg_line_num_segments(l),
           [&](int i) { return tg_line_segment_at(l, i); }, (int)p.size() - 1, tg_line_rect(l));
    long double len = 0;
    for (size_t i = 0; i + 1 < p.size(); i++) len += hypotl(p[i + 1].x - p[i].x, p[i + 1].y - p[i].y);
    if (!close_to(tg_line_length(l) / mul, len)) fail("length", "%.17g, expected %.17Lg", tg_line_length(l), len * mul);
    Path q = p; // orientation of a line is that of its closure
    if (q.front() != q.back()) q.push_back(q[0]);
    int64_t a2 = area2(q);
    if (a2 != 0 && tg_line_clockwise(l) != (a2 < 0)) fail("clockwise", "reported %d", tg_line_clockwise(l));
}
