// C24: bounding rectangles are minimal in every dimension.
#include "model.hpp"
using namespace mdl;
PBT_MAIN("C24", "the geometry has at least one coordinate")

static bool feq(double a, double b) { return a == b; }
static void judge(const M &g, const struct tg_geom *t, const char *how) {
    Ext e;
    collect(g, e);
    struct tg_rect r = tg_geom_rect(t);
    if (!feq(r.min.x, e.lo[0]) || !feq(r.min.y, e.lo[1]) || !feq(r.max.x, e.hi[0]) || !feq(r.max.y, e.hi[1]))
        fail("rect", "%s: (%.17g %.17g,%.17g %.17g), expected (%.17g %.17g,%.17g %.17g)", how, r.min.x, r.min.y, r.max.x, r.max.y, e.lo[0], e.lo[1], e.hi[0], e.hi[1]);
    double mn[4] = {9, 9, 9, 9}, mx[4] = {9, 9, 9, 9};
    int d = tg_geom_fullrect(t, mn, mx);
    double emn[4], emx[4];
    int want = full_of(g, e, emn, emx);
    bool vague = want < 0; // some members have Z, others a lone M
    if (vague) {
        if (d != 3 && d != 4) fail("dims", "%s: full rectangle has %d dimensions", how, d);
        want = 2;
    } else if (d != want) {
        fail("dims", "%s: full rectangle has %d dimensions, expected %d", how, d, want);
    }
    for (int i = 0; i < want; i++)
        if (!feq(mn[i], emn[i]) || !feq(mx[i], emx[i]))
            fail("fullrect", "%s: dimension %d is %.17g..%.17g, expected %.17g..%.17g", how, i, mn[i], mx[i], emn[i], emx[i]);
}
FACET(rects, 3, "a geometry of any kind, constructed, copied and parsed from every format") {
    GenOpt o;
    o.vals = s.flip() ? FINITE : SMALL;
    o.depth = (int)s.below(4);
    if (s.chance(1, 30)) o.maxpts = 300;
    if (s.chance(1, 30)) o.maxparts = 150, o.maxpts = 3, o.depth = 1;
    M g = gen_top(s, o);
    holes_inside(g);
    c.note(show(g));
    if (nontriv(g)) c.interesting();
    static const enum tg_index ixs[] = {TG_DEFAULT, TG_NONE, TG_NATURAL, TG_YSTRIPES};
    enum tg_index ix = ixs[s.below(4)];
    tgx::G t(build(g, ix));
    judge(g, t, "constructed");
    judge(g, tgx::G(tg_geom_copy(t)), "copied");
    std::string w = wkb(g);
    judge(g, tgx::G(tg_parse_wkb_ix((const uint8_t *)w.data(), w.size(), ix)), "from wkb");
    TxtStyle ts;
    ts.s = &s;
    judge(g, tgx::G(tg_parse_wkt_ix(wkt(g, ts).c_str(), ix)), "from wkt");
    JsonStyle js_;
    js_.s = &s;
    judge(m_as_z(g), tgx::G(tg_parse_geojson_ix(json_geom(m_as_z(g), js_).c_str(), ix)), "from geojson");
    std::string gb = tgx::geobin(t);
    judge(g, tgx::G(tg_parse_geobin_ix((const uint8_t *)gb.data(), gb.size(), ix)), "from geobin");
}
FACET(nothing, 1, "collections with members that have no positions but do have a Z or M dimension") {
    GenOpt o;
    o.vals = s.flip() ? FINITE : SMALL;
    o.depth = 1 + (int)s.below(3);
    o.maxparts = 5;
    M g;
    g.type = TG_GEOMETRYCOLLECTION;
    int n = s.size(1, 5);
    for (int i = 0; i < n; i++) {
        M k;
        if (s.chance(2, 5)) k.type = TG_MULTIPOINT + (int)s.below(3);
        else k = gen(s, o, o.depth);
        g.kids.push_back(k);
    }
    holes_inside(g);
    dims_of_nothing(s, g);
    c.note(show(g));
    if (nontriv(g)) c.interesting();
    tgx::G t(build(g, TG_DEFAULT));
    judge(g, t, "constructed");
    judge(g, tgx::G(tg_geom_copy(t)), "copied");
    std::string w = wkb(g);
    judge(g, tgx::G(tg_parse_wkb((const uint8_t *)w.data(), w.size())), "from wkb");
    std::string gb = tgx::geobin(t);
    judge(g, tgx::G(tg_parse_geobin((const uint8_t *)gb.data(), gb.size())), "from geobin");
}
