// C12: point in polygon is exact.
#include "shapes.hpp"
using namespace shp;
using pbt::fail;
PBT_MAIN("C12", "the point lies in the polygon's bounding rectangle")

static const char *ixname(enum tg_index i) {
    switch ((int)i) {
    case TG_NONE: return "none";
    case TG_NATURAL: return "natural";
    case TG_YSTRIPES: return "ystripes";
    default: return "default";
    }
}
// Ask everything there is to ask about one point.
static void ask(const struct tg_geom *g, const struct tg_geom *pg, double x, double y, Loc l, const char *what) {
    bool on = l == BND, in = l == INT, any = on || in;
    struct {
        const char *q;
        bool got, want;
    } t[] = {
        {"intersects_xy", tg_geom_intersects_xy(g, x, y), any},
        {"intersects", tg_geom_intersects(g, pg), any},
        {"intersects reversed", tg_geom_intersects(pg, g), any},
        {"intersects_rect", tg_geom_intersects_rect(g, tg_rect{{x, y}, {x, y}}), any},
        {"disjoint", tg_geom_disjoint(g, pg), !any},
        {"covers", tg_geom_covers(g, pg), any},
        {"coveredby", tg_geom_coveredby(pg, g), any},
        {"contains", tg_geom_contains(g, pg), in},
        {"within", tg_geom_within(pg, g), in},
        {"touches", tg_geom_touches(g, pg), on},
        {"touches reversed", tg_geom_touches(pg, g), on},
        {"covers by point", tg_geom_covers(pg, g), false},
        {"equals", tg_geom_equals(pg, g), false},
    };
    for (auto &k : t)
        if (k.got != k.want)
            fail("pip", "%s: %s is %d for point (%.17g %.17g) which is %s", what, k.q, k.got, x, y,
                 in ? "inside" : on ? "on the boundary" : "outside");
}
static void run(Src &s, pbt::Ctx &c, const Part &g, double mul, double ox, double oy, int npts, const std::function<P()> &gp) {
    enum tg_index ix = pick_ix(s);
    std::string note = std::string(ixname(ix)) + " " + str(g);
    c.note(note.size() > 1500 ? note.substr(0, 1500) + "..." : note);
    Part h = g;
    std::vector<struct tg_ring *> rs;
    for (auto &r : h.rings) {
        std::vector<struct tg_point> v;
        for (auto &p : r) v.push_back({p.x * mul + ox, p.y * mul + oy});
        rs.push_back(tg_ring_new_ix(v.data(), (int)v.size(), ix));
    }
    struct tg_poly *poly = tg_poly_new(rs[0], rs.data() + 1, (int)rs.size() - 1);
    for (auto r : rs) tg_ring_free(r);
    tgx::G t(tg_geom_new_polygon(poly));
    struct Free {
        struct tg_poly *p;
        ~Free() { tg_poly_free(p); }
    } fr{poly};
    P lo, hi;
    bbox(g.rings[0], lo, hi);
    for (int i = 0; i < npts; i++) {
        P p = gp();
        Loc l = loc(g, toR(p));
        double x = p.x * mul + ox, y = p.y * mul + oy;
        tgx::G pg(tg_geom_new_point({x, y}));
        c.label(l == INT ? "inside" : l == BND ? "boundary" : "outside");
        if (p.x >= lo.x && p.x <= hi.x && p.y >= lo.y && p.y <= hi.y) c.interesting();
        ask(t, pg, x, y, l, ixname(ix));
        // the polygon itself used as a geometry, and wrapped
        bool any = l != EXT;
        if (tg_geom_intersects((struct tg_geom *)poly, pg) != any) fail("pip", "polygon as geometry: intersects is %d for (%.17g %.17g)", !any, x, y);
        if (poly && tg_poly_num_holes(poly) == 0 && tg_geom_intersects((struct tg_geom *)tg_poly_exterior(poly), pg) != any)
            fail("pip", "ring as geometry: intersects is %d for (%.17g %.17g)", !any, x, y);
    }
}
FACET(grid, 4, "a small polygon with holes and points all over its grid") {
    int n = 3 + (int)s.below(10);
    Part g = gen_poly(s, n, 3);
    run(s, c, g, 1, 0, 0, 12, [&] {
        const Path &r = g.rings[s.below(g.rings.size())];
        return near_pt(s, r);
    });
}
FACET(fine, 2, "a small polygon scaled up so that points fall between its grid lines") {
    int n = 3 + (int)s.below(8);
    Part g = gen_poly(s, n, 2);
    scale(g, 2 + (int64_t)s.below(6));
    run(s, c, g, 1, 0, 0, 12, [&] { return near_pt(s, g.rings[s.below(g.rings.size())]); });
}
FACET(beside, 2, "a polygon on a very fine lattice and points on its edges or as close beside them as lattice points get") {
    int n = 3 + (int)s.below(8);
    Part g = gen_poly(s, n, 2);
    static const int64_t ks[] = {16, 1000, 1 << 14, 99991, 1 << 18};
    scale(g, ks[s.below(5)]);
    if (g.rings.size() == 1 && s.flip()) {
        Path was = g.rings[0];
        for (auto &p : g.rings[0])
            if (s.chance(1, 3)) p.x += (int64_t)s.below(15) - 7, p.y += (int64_t)s.below(15) - 7;
        g.rings[0].back() = g.rings[0].front();
        if (!ring_simple(g.rings[0])) g.rings[0] = was;
    }
    run(s, c, g, 1, 0, 0, 12, [&]() -> P {
        const Path &r = g.rings[s.below(g.rings.size())];
        size_t i = s.below(r.size() - 1);
        Seg e{r[i], r[i + 1]};
        if (s.chance(3, 4)) return beside(s, e);
        int64_t dx = e.b.x - e.a.x, dy = e.b.y - e.a.y, gg = std::max<int64_t>(1, (int64_t)igcd(dx, dy)), k = (int64_t)s.below(gg + 1);
        return {e.a.x + dx / gg * k, e.a.y + dy / gg * k};
    });
}
FACET(large, 3, "a polygon with tens to thousands of vertices, maybe with holes") {
    int n = s.chance(1, 1500) ? 17000 + (int)s.below(60000) : s.chance(1, 20) ? 500 + (int)s.below(3000) : s.size(8, 200);
    Part g = big_poly(s, n, n < 300 || (n < 4000 && s.chance(1, 4)) ? 3 : 0);
    run(s, c, g, 1, 0, 0, 20, [&] { return near_pt(s, g.rings[s.below(g.rings.size())]); });
}
FACET(spiral, 1, "a spiral corridor") {
    Part g;
    g.kind = POLY;
    Path r = spiral_ring(s, 8 + (int)s.below(120));
    if (!ring_simple(r)) throw pbt::Discard();
    turn(s, r);
    g.rings.push_back(r);
    run(s, c, g, 1, 0, 0, 20, [&] { return near_pt(s, g.rings[0]); });
}
FACET(scaled, 2, "coordinates scaled by a power of two and moved to a large or small offset, still exact") {
    int n = 3 + (int)s.below(10);
    Part g = s.flip() ? gen_poly(s, n, 2) : big_poly(s, s.size(8, 80), 2);
    double mul = ldexp(1, (int)s.below(60) - 30);
    double ox = 0, oy = 0;
    if (s.flip()) {
        // far enough away that floats do not tell the points apart any more
        static const int far[] = {20, 20, 30, 42, 52};
        uint64_t span = 1ull << far[s.below(5)];
        ox = mul * ((double)s.below(span) - (double)(span / 2));
        oy = mul * ((double)s.below(span) - (double)(span / 2));
    }
    run(s, c, g, mul, ox, oy, 12, [&] { return near_pt(s, g.rings[s.below(g.rings.size())]); });
}
