// C11: indexing never changes an answer, and indexes are consistent.
#include "pairs.hpp"
#include "model.hpp"
using namespace pairs;
using pbt::fail;
PBT_MAIN("C11", "at least one of the two sides has an index under one of the configurations")

struct Conf {
    enum tg_index ix, env;
    int spread;
    bool parsed;
};
static Conf gen_conf(Src &s) {
    Conf k;
    k.ix = gen_ix(s);
    static const enum tg_index e[] = {TG_NATURAL, TG_NONE, TG_YSTRIPES};
    k.env = e[s.below(3)];
    static const int sp[] = {2, 3, 4, 5, 7, 8, 16, 31, 64, 300};
    k.spread = s.chance(1, 8) ? 2 + (int)s.below(100) : sp[s.below(10)];
    k.parsed = s.chance(1, 4);
    return k;
}
static std::string str(const Conf &k) {
    char b[80];
    snprintf(b, sizeof b, "ix=%d env=%d spread=%d%s", k.ix, k.env, k.spread, k.parsed ? " parsed" : "");
    return b;
}
static void use(const Conf &k) {
    tg_env_set_index(k.env);
    tg_env_set_index_spread(k.spread);
}
static const Conf PLAIN = {TG_NONE, TG_NONE, 16, false};
// A shape on doubles.
struct Shape {
    Kind kind = POINT;
    std::vector<std::vector<struct tg_point>> seq;
};
static Shape to_shape(const Part &g, double mx, double my, double ox, double oy) {
    Shape r;
    r.kind = g.kind;
    auto add = [&](const Path &p) {
        std::vector<struct tg_point> v;
        for (auto &q : p) v.push_back({q.x * mx + ox, q.y * my + oy});
        r.seq.push_back(v);
    };
    if (g.kind == POINT) add({g.pt});
    if (g.kind == LINE) add(g.line);
    for (auto &q : g.rings) add(q);
    return r;
}
static struct tg_geom *make(const Shape &g, const Conf &k) {
    use(k);
    struct tg_geom *t;
    if (g.kind == POINT) {
        t = tg_geom_new_point(g.seq[0][0]);
    } else if (g.kind == LINE) {
        struct tg_line *l = tg_line_new_ix(g.seq[0].data(), (int)g.seq[0].size(), k.ix);
        t = tg_geom_new_linestring(l);
        tg_line_free(l);
    } else {
        std::vector<struct tg_ring *> rs;
        for (auto &q : g.seq) rs.push_back(tg_ring_new_ix(q.data(), (int)q.size(), k.ix));
        struct tg_poly *p = tg_poly_new(rs[0], rs.data() + 1, (int)rs.size() - 1);
        for (auto r : rs) tg_ring_free(r);
        t = tg_geom_new_polygon(p);
        tg_poly_free(p);
    }
    bool open = g.kind == POLY && memcmp(&g.seq[0].front(), &g.seq[0].back(), sizeof(struct tg_point));
    if (k.parsed && !open) {
        std::string w = tgx::wkb(t);
        tg_geom_free(t);
        t = tg_parse_wkb_ix((const uint8_t *)w.data(), w.size(), k.ix);
    }
    return t;
}
static bool indexed(struct tg_geom *g) {
    if (tg_geom_typeof(g) == TG_LINESTRING) return tg_line_index_num_levels(tg_geom_line(g)) > 0;
    if (tg_geom_typeof(g) == TG_POLYGON) return tg_ring_index_num_levels(tg_poly_exterior(tg_geom_poly(g))) > 0;
    return false;
}
static unsigned answers(struct tg_geom *a, struct tg_geom *b) {
    unsigned v = 0;
    bool (*f[])(const struct tg_geom *, const struct tg_geom *) = {tg_geom_equals, tg_geom_intersects, tg_geom_disjoint, tg_geom_contains,
                                                                     tg_geom_within, tg_geom_covers, tg_geom_coveredby, tg_geom_touches};
    for (int i = 0; i < 8; i++) v |= (unsigned)f[i](a, b) << 2 * i | (unsigned)f[i](b, a) << (2 * i + 1);
    return v;
}
static const char *pname[] = {"equals", "intersects", "disjoint", "contains", "within", "covers", "coveredby", "touches"};
static void explain(unsigned x, unsigned y, const Conf &p, const Conf &q) {
    for (int i = 0; i < 16; i++)
        if ((x ^ y) >> i & 1)
            fail("predicate", "%s%s is %d without index, %d with %s / %s", pname[i / 2], i % 2 ? " (exchanged)" : "", (int)(x >> i & 1), (int)(y >> i & 1),
                 str(p).c_str(), str(q).c_str());
}
static void agree(Src &s, pbt::Ctx &c, const Shape &a, const Shape &b) {
    tgx::G a0(make(a, PLAIN)), b0(make(b, PLAIN));
    if (indexed(a0) || indexed(b0)) fail("none", "TG_NONE built an index");
    unsigned want = answers(a0, b0);
    struct tg_rect r = tg_geom_rect(b0);
    bool wr = tg_geom_intersects_rect(a0, r);
    struct tg_point q = b.seq[0][s.below(b.seq[0].size())];
    bool wx = tg_geom_intersects_xy(a0, q.x, q.y);
    bool any = false;
    for (int i = 0; i < 3; i++) {
        Conf ka = gen_conf(s), kb = gen_conf(s);
        tgx::G x(make(a, ka)), y(make(b, kb));
        any = any || indexed(x) || indexed(y);
        unsigned got = answers(x, y);
        if (got != want) explain(want, got, ka, kb);
        if (tg_geom_intersects_rect(x, r) != wr) fail("rect", "intersects_rect is %d without index, %d with %s", wr, !wr, str(ka).c_str());
        if (tg_geom_intersects_xy(x, q.x, q.y) != wx) fail("xy", "intersects_xy is %d without index, %d with %s", wx, !wx, str(ka).c_str());
    }
    if (any) c.interesting();
    c.label(want >> 2 & 3 ? "meet" : "apart");
}
FACET(exact, 3, "a pair of shapes on the lattice, unindexed against three random index configurations") {
    Pair p = s.chance(2, 3) ? gen_small(s) : gen_big(s, s.size(8, 200));
    c.note(note(p));
    agree(s, c, to_shape(p.a, 1, 1, 0, 0), to_shape(p.b, 1, 1, 0, 0));
}
FACET(floats, 2, "a pair of shapes on rounded floating-point coordinates") {
    Pair p = s.flip() ? gen_small(s) : gen_big(s, s.size(8, 200));
    // skewed by factors that round
    static const double f[] = {0.1, 1.0 / 3, 1e-7, 1e9 / 7, 0.7, 1.1e-40, 1e-44, 1e37, 1e41};
    double mx = f[s.below(9)], my = s.flip() ? mx : f[s.below(9)], ox = s.flip() ? 0 : 123.456 * mx, oy = s.flip() ? 0 : -77.7 * my;
    c.note(note(p));
    agree(s, c, to_shape(p.a, mx, my, ox, oy), to_shape(p.b, mx, my, ox, oy));
}
FACET(wild, 1, "a ring that may cross itself or be left open, against a point, line or ring") {
    auto wild = [&](int n) {
        Shape g;
        g.kind = s.chance(1, 3) ? LINE : POLY;
        int w = 2 + (int)s.below(30);
        std::vector<struct tg_point> v;
        for (int i = 0; i < n; i++) {
            P q = gen_pt(s, w);
            v.push_back({(double)q.x, (double)q.y});
        }
        if (s.flip()) v.push_back(v[0]);
        g.seq.push_back(v);
        return g;
    };
    Shape a = wild(s.size(4, 80));
    Shape b;
    P q = gen_pt(s, 20);
    b.seq = {{{(double)q.x, (double)q.y}}};
    c.note(a.kind == LINE ? "line" : "ring");
    std::string t;
    for (auto &p : a.seq[0]) {
        char k[64];
        snprintf(k, sizeof k, "%g %g,", p.x, p.y);
        t += k;
    }
    c.note(t);
    for (int i = 0; i < 4; i++) {
        P e = gen_pt(s, 30);
        b.seq[0][0] = {(double)e.x, (double)e.y};
        agree(s, c, a, b);
    }
}
// ------------------------------------------------------------------ levels
struct Ix {
    bool ring;
    struct tg_ring *r = nullptr;
    struct tg_line *l = nullptr;
    ~Ix() {
        tg_ring_free(r);
        tg_line_free(l);
    }
    int spread() const { return ring ? tg_ring_index_spread(r) : tg_line_index_spread(l); }
    int levels() const { return ring ? tg_ring_index_num_levels(r) : tg_line_index_num_levels(l); }
    int nrects(int v) const { return ring ? tg_ring_index_level_num_rects(r, v) : tg_line_index_level_num_rects(l, v); }
    struct tg_rect rect(int v, int i) const { return ring ? tg_ring_index_level_rect(r, v, i) : tg_line_index_level_rect(l, v, i); }
    int nsegs() const { return ring ? tg_ring_num_segments(r) : tg_line_num_segments(l); }
    struct tg_segment at(int i) const { return ring ? tg_ring_segment_at(r, i) : tg_line_segment_at(l, i); }
};
FACET(levels, 2, "the index of a ring or line of any size, rectangle by rectangle") {
    Conf k = gen_conf(s);
    use(k);
    mdl::GenOpt o;
    o.vals = s.flip() ? mdl::SMALL : mdl::FINITE;
    int n = s.size(2, s.chance(1, 10) ? 3000 : 200);
    std::vector<struct tg_point> v;
    if (s.chance(1, 300)) { // three levels or more under a wide spread, or a great many segments: a chain that goes somewhere
        k.spread = s.flip() ? 2 + (int)s.below(30) : 16 + (int)s.below(8);
        use(k);
        n = s.chance(1, 8) ? 65000 + (int)s.below(5000) : k.spread * k.spread * (2 + (int)s.below(k.spread)) + (int)s.below(k.spread * k.spread);
        double sx = s.flip() ? 1 : 0.37, sy = s.flip() ? 0.001 : -1;
        int turn_ = 3 + (int)s.below(5000);
        for (int i = 0; i < n; i++) v.push_back({i % (2 * turn_) < turn_ ? i * sx : i * sx * 0.5, i * sy});
    } else
        for (int i = 0; i < n; i++) v.push_back({mdl::gen_num(s, o.vals), mdl::gen_num(s, o.vals)});
    Ix x;
    x.ring = s.flip();
    if (x.ring && v.size() < 3) v.push_back({1, 1});
    if (s.flip()) v.push_back(v[0]);
    if (x.ring) x.r = tg_ring_new_ix(v.data(), (int)v.size(), k.ix);
    else x.l = tg_line_new_ix(v.data(), (int)v.size(), k.ix);
    c.note(str(k) + (x.ring ? " ring of " : " line of ") + std::to_string(v.size()) + " points");
    int nl = x.levels(), sp = x.spread(), ns = x.nsegs();
    int npts = (int)v.size();
    enum tg_index eff = k.ix == TG_DEFAULT ? k.env : k.ix;
    bool want = eff != TG_NONE && npts >= 2 * k.spread;
    if (want != (nl > 0)) fail("indexed", "%d points, %s: %d levels", npts, str(k).c_str(), nl);
    c.label(nl == 0 ? "no index" : nl == 1 ? "one level" : "more levels");
    if (nl == 0) {
        if (x.nrects(0) != 0) fail("neutral", "no index, but level 0 has %d rectangles", x.nrects(0));
        if (sp != 0) fail("neutral", "no index, but a spread of %d", sp);
        return;
    }
    c.interesting();
    if (sp != k.spread) fail("spread", "spread %d, expected %d", sp, k.spread);
    if (x.nrects(-1) != 0 || x.nrects(nl) != 0) fail("neutral", "a level out of range has rectangles");
    int64_t span = 1;
    for (int lv = nl - 1; lv >= 0; lv--) {
        span *= sp;
        int nr = x.nrects(lv);
        if (nr != (int)((ns + span - 1) / span)) fail("level", "level %d of %d: %d rectangles for %d segments", lv, nl, nr, ns);
        for (int i = 0; i < nr; i++) {
            struct tg_rect r = x.rect(lv, i);
            for (int64_t j = i * span; j < std::min<int64_t>(ns, (i + 1) * span); j++) {
                struct tg_segment g = x.at((int)j);
                for (struct tg_point p : {g.a, g.b})
                    if (!(r.min.x <= p.x && p.x <= r.max.x && r.min.y <= p.y && p.y <= r.max.y))
                        fail("encloses", "level %d rectangle %d does not enclose segment %d", lv, i, (int)j);
            }
            // and is no larger than everything
            struct tg_rect all = x.ring ? tg_ring_rect(x.r) : tg_line_rect(x.l);
            // (rectangles are rounded outwards to single precision)
            auto out = [](double v, double dir) { return fabs(v) > 3e38 ? dir * INFINITY : v + dir * (fabs(v) * 5e-7 + 1e-44); };
            if (r.min.x < out(all.min.x, -1) || r.min.y < out(all.min.y, -1) || r.max.x > out(all.max.x, 1) || r.max.y > out(all.max.y, 1))
                fail("encloses", "level %d rectangle %d exceeds the bounding rectangle", lv, i);
        }
        struct tg_rect z = x.rect(lv, nr), y = x.rect(lv, -1);
        static const struct tg_rect none = {{0, 0}, {0, 0}};
        if (memcmp(&z, &none, sizeof z) || memcmp(&y, &none, sizeof y)) fail("neutral", "a rectangle out of range is not zero");
    }
    if (x.nrects(0) <= 1 && nl > 1) fail("level", "the top level has %d rectangles", x.nrects(0));
}
// ----------------------------------------------- measurements and iteration
struct Hits {
    std::vector<std::pair<int, int>> v;
};
static bool on_pair(struct tg_segment, int ai, struct tg_segment, int bi, void *u) {
    ((Hits *)u)->v.push_back({ai, bi});
    return true;
}
struct Near {
    struct tg_point q;
    std::vector<double> d;
    std::vector<int> ix;
};
static double near_rect(struct tg_rect r, int *, void *u) {
    struct tg_point q = ((Near *)u)->q;
    double dx = std::max(std::max(r.min.x - q.x, q.x - r.max.x), 0.0), dy = std::max(std::max(r.min.y - q.y, q.y - r.max.y), 0.0);
    return dx * dx + dy * dy;
}
static double near_seg(struct tg_segment g, int *m, void *u) {
    return near_rect({{std::min(g.a.x, g.b.x), std::min(g.a.y, g.b.y)}, {std::max(g.a.x, g.b.x), std::max(g.a.y, g.b.y)}}, m, u);
}
static bool near_it(struct tg_segment, double d, int i, void *u) {
    ((Near *)u)->d.push_back(d);
    ((Near *)u)->ix.push_back(i);
    return true;
}
FACET(measures, 2, "measurements, pair searches and nearest distances of rings and lines on rounded coordinates") {
    std::vector<struct tg_point> p[2];
    bool ring[2];
    double f = s.flip() ? 1 : 0.1;
    for (int i = 0; i < 2; i++) {
        Path q = s.flip() ? big_ring(s, s.size(4, 150)) : big_line(s, s.size(2, 150), s.flip()).line;
        ring[i] = q.size() >= 3 && s.flip();
        for (auto &e : q) p[i].push_back({e.x * f, e.y * f});
    }
    c.note(std::to_string(p[0].size()) + " and " + std::to_string(p[1].size()) + " points");
    struct Res {
        double m[2][3];
        bool b[2][2];
        struct tg_rect r[2];
        std::vector<std::pair<int, int>> hits;
        std::vector<double> d;
    } base, got;
    struct tg_point q = {(double)s.range(0, 40) * f, (double)s.range(0, 40) * f};
    auto eval = [&](const Conf &ka, const Conf &kb, Res &o, bool &ix) {
        struct tg_ring *r[2] = {nullptr, nullptr};
        struct tg_line *l[2] = {nullptr, nullptr};
        memset(o.m, 0, sizeof o.m);
        for (int i = 0; i < 2; i++) {
            const Conf &k = i ? kb : ka;
            use(k);
            if (ring[i]) {
                r[i] = tg_ring_new_ix(p[i].data(), (int)p[i].size(), k.ix);
                o.m[i][0] = tg_ring_area(r[i]);
                o.m[i][1] = tg_ring_perimeter(r[i]);
                o.b[i][0] = tg_ring_clockwise(r[i]);
                o.b[i][1] = tg_ring_convex(r[i]);
                o.r[i] = tg_ring_rect(r[i]);
                ix = ix || tg_ring_index_num_levels(r[i]);
            } else {
                l[i] = tg_line_new_ix(p[i].data(), (int)p[i].size(), k.ix);
                o.m[i][0] = tg_line_length(l[i]);
                o.b[i][0] = tg_line_clockwise(l[i]);
                o.b[i][1] = false;
                o.r[i] = tg_line_rect(l[i]);
                ix = ix || tg_line_index_num_levels(l[i]);
            }
        }
        Hits h;
        if (ring[0] && ring[1]) tg_ring_ring_search(r[0], r[1], on_pair, &h);
        else if (ring[0]) tg_ring_line_search(r[0], l[1], on_pair, &h);
        else if (ring[1]) tg_ring_line_search(r[1], l[0], on_pair, &h);
        else tg_line_line_search(l[0], l[1], on_pair, &h);
        std::sort(h.v.begin(), h.v.end());
        o.hits = h.v;
        Near n;
        n.q = q;
        bool ok = ring[0] ? tg_ring_nearest_segment(r[0], near_rect, near_seg, near_it, &n) : tg_line_nearest_segment(l[0], near_rect, near_seg, near_it, &n);
        if (!ok) fail("nearest", "reported failure");
        o.d = n.d;
        for (int i = 0; i < 2; i++) {
            tg_ring_free(r[i]);
            tg_line_free(l[i]);
        }
    };
    bool ix = false;
    eval(PLAIN, PLAIN, base, ix);
    for (int t = 0; t < 3; t++) {
        Conf ka = gen_conf(s), kb = gen_conf(s);
        eval(ka, kb, got, ix);
        for (int i = 0; i < 2; i++) {
            if (memcmp(base.m[i], got.m[i], sizeof base.m[i]) || memcmp(base.b[i], got.b[i], sizeof base.b[i]) || memcmp(&base.r[i], &got.r[i], sizeof base.r[i]))
                fail("measure", "area, length, orientation, convexity or rectangle changed with %s", str(i ? kb : ka).c_str());
        }
        if (base.hits != got.hits) fail("search", "%zu pairs without index, %zu with %s / %s", base.hits.size(), got.hits.size(), str(ka).c_str(), str(kb).c_str());
        if (base.d != got.d) fail("nearest", "the distances delivered changed with %s", str(ka).c_str());
    }
    if (ix) c.interesting();
}
// ------------------------------------------------------ settings themselves
FACET(settings, 1, "which index a ring or line gets from argument and environment") {
    Conf k = gen_conf(s);
    int raw = (int)s.range(0, s.flip() ? 40 : 5000) - 10; // spreads out of range are ignored
    tg_env_set_index(k.env);
    tg_env_set_index_spread(k.spread);
    tg_env_set_index_spread(raw);
    int sp = raw < 2 || raw > 4096 ? k.spread : raw;
    int n = std::max(4, sp * 2 + (int)s.below(3) - 1);
    std::vector<struct tg_point> v;
    for (int i = 0; i < n; i++) v.push_back({(double)i, (double)((i * 7) % 13)});
    v[n - 1] = v[0];
    struct tg_ring *r = tg_ring_new_ix(v.data(), n, k.ix);
    struct tg_line *l = tg_line_new_ix(v.data(), n, k.ix);
    enum tg_index eff = k.ix == TG_DEFAULT ? k.env : k.ix;
    bool want = eff != TG_NONE && n >= 2 * sp;
    int a = tg_ring_index_spread(r), b = tg_line_index_spread(l);
    tg_ring_free(r);
    tg_line_free(l);
    c.note(str(k) + " set spread " + std::to_string(raw));
    if (want) c.interesting();
    if (a != (want ? sp : 0) || b != (want ? sp : 0)) fail("settings", "spread %d set: ring has %d, line has %d, %d points", raw, a, b, n);
}
