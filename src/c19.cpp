// C19: predicates do not depend on how or where a shape is drawn.
#include "coll.hpp"
using namespace coll;
using pbt::fail;
PBT_MAIN("C19", "the bounding rectangles of the two geometries meet")

static bool rects_meet(struct tg_geom *a, struct tg_geom *b) { return tg_rect_intersects_rect(tg_geom_rect(a), tg_geom_rect(b)); }
static void gen2(Src &s, Col &x, Col &y) {
    if (s.chance(2, 3)) {
        Pair p = s.chance(1, 3) ? gen_big(s, s.size(8, 300)) : gen_small(s);
        x = single(p.a);
        y = single(p.b);
        if (s.chance(1, 8)) x.type += 3;
        if (s.chance(1, 8)) y.type += 3;
    } else {
        int n = 3 + (int)s.below(12);
        x = gen_col(s, n, 2, 6, true);
        y = gen_col(s, n, 2, 6, true);
        auto v = flat(x);
        if (!v.empty() && s.chance(1, 3)) y = single(derived(s, *v[s.below(v.size())], n));
    }
}
static bool plugged(const Col &x, const Col &y) {
    for (auto p : flat(x))
        for (auto q : flat(y))
            if (plugs_hole(*p, *q) || plugs_hole(*q, *p)) return true;
    return false;
}
struct Move {
    int sym;
    double mul, dx, dy;
};
static Move gen_move(Src &s) {
    Move m;
    m.sym = (int)s.below(8);
    static const double k[] = {1, 2, 0.5, 1024, 1.0 / 1024, 1048576.0, 1.0 / 1048576, 3, 7, 0x1p-32, 0x1p40, 0x1p-60};
    m.mul = k[s.below(12)];
    static const double r[] = {0, 1, 10, 180, 1000, 1048576, 1e6, 16777216, 0x1p36, 0x1p49};
    double u = r[s.below(10)], v = r[s.below(10)];
    m.dx = (s.flip() ? u : -u) * m.mul;
    m.dy = (s.flip() ? v : -v) * m.mul;
    return m;
}
static Xf xf(const Move &m) {
    return [m](P p) -> struct tg_point {
        P q = map_pt(m.sym, p);
        return {q.x * m.mul + m.dx, q.y * m.mul + m.dy};
    };
}
FACET(moved, 3, "two geometries, then both mirrored, transposed, scaled and shifted alike") {
    Col x, y;
    Varied v0(s);
    gen2(s, x, y);
    c.note(cut(str(x) + " " + str(y)));
    tgx::G a(build(x, pick_ix(s))), b(build(y, pick_ix(s)));
    if (rects_meet(a, b)) c.interesting();
    unsigned want = answers(a, b);
    for (int i = 0; i < 2; i++) {
        Move m = gen_move(s);
        tgx::G u(build(x, pick_ix(s), xf(m))), v(build(y, pick_ix(s), xf(m)));
        char t[120];
        snprintf(t, sizeof t, "after symmetry %d, scale %g, shift %g %g", m.sym, m.mul, m.dx, m.dy);
        same_answers(want, answers(u, v), "moved", t);
        struct tg_rect r = tg_geom_rect(b), q = tg_geom_rect(v);
        if (!tg_geom_is_empty(b) && tg_geom_intersects_rect(a, r) != tg_geom_intersects_rect(u, q)) fail("moved", "intersects_rect changed %s", t);
    }
}
FACET(redrawn, 4, "two geometries, then other drawings of both: start vertex, direction, collinear and repeated vertices, order") {
    Col x, y;
    Varied v0(s);
    gen2(s, x, y);
    each_part(x, [](Part &p) { scale(p, 2); });
    each_part(y, [](Part &p) { scale(p, 2); });
    if (plugged(x, y)) { // the known finding of C15 depends on drawing
        c.label("plug");
        return;
    }
    tgx::G a(build(x, pick_ix(s))), b(build(y, pick_ix(s)));
    if (rects_meet(a, b)) c.interesting();
    unsigned want = answers(a, b);
    for (int i = 0; i < 2; i++) {
        Redraw o;
        o.dup = s.flip();
        o.collinear = s.flip();
        o.reverse = s.flip();
        Col p = redraw(s, x, o), q = s.flip() ? redraw(s, y, o) : y;
        if (i == 0) c.note(cut(str(x) + " " + str(y) + " => " + str(p) + " " + str(q)));
        tgx::G u(build(p, pick_ix(s))), v(build(q, pick_ix(s)));
        same_answers(want, answers(u, v), "redrawn", ("for " + cut(str(p) + " " + str(q))).c_str());
    }
}
FACET(repacked, 2, "two geometries, then both copied, re-read from another format, or handed over as bare line, ring or polygon") {
    Col x, y;
    gen2(s, x, y);
    c.note(cut(str(x) + " " + str(y)));
    enum tg_index ix = pick_ix(s);
    tgx::G a(build(x, ix)), b(build(y, ix));
    if (rects_meet(a, b)) c.interesting();
    unsigned want = answers(a, b);
    auto repack = [&](const Col &g, struct tg_geom *t) -> struct tg_geom * {
        switch (s.below(8)) {
        case 0: return tg_geom_copy(t);
        case 1: return tg_parse_wkt_ix(tgx::wkt(t).c_str(), ix);
        case 2: return tg_parse_geojson_ix(tgx::geojson(t).c_str(), ix);
        case 3: { auto w = tgx::geobin(t); return tg_parse_geobin_ix((const uint8_t *)w.data(), w.size(), ix); }
        case 4: return tg_parse_hex_ix(tgx::hex(t).c_str(), ix);
        default: break;
        }
        const struct tg_geom *o = t;
        if (!g.empty && g.type == TG_LINESTRING) o = (const struct tg_geom *)tg_geom_line(t);
        if (!g.empty && g.type == TG_POLYGON) {
            const struct tg_poly *p = tg_geom_poly(t);
            o = tg_poly_num_holes(p) == 0 && s.flip() ? (const struct tg_geom *)tg_poly_exterior(p) : (const struct tg_geom *)p;
        }
        return s.flip() ? tg_geom_clone(o) : tg_geom_copy(o);
    };
    tgx::G u(repack(x, a)), v(repack(y, b));
    same_answers(want, answers(u, v), "repacked", "");
}
FACET(huge, 1, "a ring of up to thousands of vertices and another geometry, moved and redrawn, without a reference") {
    Part p = s.chance(1, 4) ? big_line(s, s.size(100, 3000), true) : big_poly(s, s.size(100, 3000), 0);
    scale(p, 2);
    Col x = single(p), y = gen_col(s, 20, 1, 4, false);
    each_part(y, [](Part &q) { scale(q, 2); });
    const Path &o = outline(p);
    P at = o[s.below(o.size())];
    if (s.flip()) {
        Path o2(o.begin() + s.below(o.size() / 2), o.end());
        if (o2.size() > 40) o2.resize(2 + s.below(40));
        Part l;
        l.kind = LINE;
        l.line = o2;
        if (o2.size() >= 2 && line_simple(o2)) y = single(l);
    } else {
        each_part(y, [&](Part &q) { shift(q, at); });
    }
    c.note(cut(str(x) + " " + str(y)));
    tgx::G a(build(x, pick_ix(s))), b(build(y, pick_ix(s)));
    if (rects_meet(a, b)) c.interesting();
    unsigned want = answers(a, b);
    Move m = gen_move(s);
    Col p2 = redraw(s, x), q2 = redraw(s, y);
    tgx::G u(build(p2, pick_ix(s), xf(m))), v(build(q2, pick_ix(s), xf(m)));
    same_answers(want, answers(u, v), "huge", "");
}
