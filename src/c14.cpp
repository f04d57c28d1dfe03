// C14: intersects and disjoint.
#include "pairs.hpp"
using namespace pairs;
using pbt::fail;
PBT_MAIN("C14", "the bounding rectangles of the two shapes meet")

static bool rects_meet(const Part &a, const Part &b) {
    P x, y, u, v;
    bbox(outline(a), x, y);
    bbox(outline(b), u, v);
    return x.x <= v.x && u.x <= y.x && x.y <= v.y && u.y <= y.y;
}
// Exact, and cheaper than the full relation.
static bool meet(const Part &a, const Part &b) {
    auto any_vertex = [](const Part &p) { return p.kind == POINT ? p.pt : p.kind == LINE ? p.line[0] : p.rings[0][0]; };
    if (loc(a, toR(any_vertex(b))) != EXT || loc(b, toR(any_vertex(a))) != EXT) return true;
    auto sa = a.segs(), sb = b.segs();
    if (a.kind == POINT) return loc(b, toR(a.pt)) != EXT;
    if (b.kind == POINT) return loc(a, toR(b.pt)) != EXT;
    for (auto &x : sa)
        for (auto &y : sb)
            if (segs_meet(x, y)) return true;
    return false;
}
static void ask(struct tg_geom *a, struct tg_geom *b, bool want) {
    if (tg_geom_intersects(a, b) != want) fail("intersects", "reported %d", !want);
    if (tg_geom_intersects(b, a) != want) fail("intersects", "reversed: reported %d", !want);
    if (tg_geom_disjoint(a, b) == want) fail("disjoint", "reported %d", want);
    if (tg_geom_disjoint(b, a) == want) fail("disjoint", "reversed: reported %d", want);
}
FACET(small, 5, "two small shapes in delicate position") {
    Pair p = gen_small(s);
    c.note(note(p));
    bool want = relate(p.a, p.b).intersects();
    if (want != meet(p.a, p.b)) fail("oracle", "the two references disagree");
    c.label(want ? "meet" : "apart");
    if (rects_meet(p.a, p.b)) c.interesting();
    enum tg_index ia = pick_ix(s);
    tgx::G a(wrap(s, p.a, ia));
    enum tg_index ib = pick_ix(s);
    tgx::G b(wrap(s, p.b, ib));
    ask(a, b, want);
}
FACET(big, 4, "two shapes with tens to hundreds of vertices") {
    int n = s.chance(1, 30) ? 400 + (int)s.below(800) : s.size(6, 120);
    Pair p = gen_big(s, n);
    c.note(note(p));
    bool want = meet(p.a, p.b);
    c.label(want ? "meet" : "apart");
    if (rects_meet(p.a, p.b)) c.interesting();
    enum tg_index ia = pick_ix(s);
    tgx::G a(wrap(s, p.a, ia));
    enum tg_index ib = pick_ix(s);
    tgx::G b(wrap(s, p.b, ib));
    ask(a, b, want);
}
FACET(nested, 2, "a shape put inside, around or beside another, without any contact of their edges") {
    // B fits in a hole or in the interior; scaling leaves room
    Part a = s.flip() ? big_poly(s, s.size(6, 60), 3) : gen_poly(s, 6 + (int)s.below(10), 2);
    int64_t k = 4 + (int64_t)s.below(8);
    scale(a, k);
    Part b = gen_part(s, 2 + (int)s.below(3), true, 1);
    place(s, a, b);
    shift(b, {(int64_t)s.below(2 * k) - k, (int64_t)s.below(2 * k) - k});
    Pair p{a, b};
    c.note(note(p));
    bool want = meet(a, b);
    c.label(want ? "meet" : "apart");
    if (rects_meet(a, b)) c.interesting();
    tgx::G ga(wrap(s, a, pick_ix(s))), gb(wrap(s, b, pick_ix(s)));
    ask(ga, gb, want);
}
FACET(fine, 2, "two shapes whose contacts miss or overlap by the smallest step of a fine lattice") {
    Pair p = gen_fine(s, true);
    c.note(note(p));
    bool want = meet(p.a, p.b);
    c.label(want ? "meet" : "apart");
    if (rects_meet(p.a, p.b)) c.interesting();
    enum tg_index ia = pick_ix(s);
    tgx::G a(wrap(s, p.a, ia));
    enum tg_index ib = pick_ix(s);
    tgx::G b(wrap(s, p.b, ib));
    ask(a, b, want);
}
FACET(family, 3, "two polygons with several holes each, all rings taken from one family nested in each other") {
    Pair p = gen_nested(s);
    c.note(note(p));
    bool want = meet(p.a, p.b);
    c.label(want ? "meet" : "apart");
    if (rects_meet(p.a, p.b)) c.interesting();
    tgx::G ga(wrap(s, p.a, pick_ix(s))), gb(wrap(s, p.b, pick_ix(s)));
    ask(ga, gb, want);
}
FACET(poke, 1, "a long zigzag of which one or two vertices reach or pass a frame of few edges or its hole") {
    Pair p = gen_poke(s);
    c.note(note(p));
    bool want = meet(p.a, p.b);
    c.label(want ? "meet" : "apart");
    if (rects_meet(p.a, p.b)) c.interesting();
    tgx::G ga(wrap(s, p.a, pick_ix(s))), gb(wrap(s, p.b, pick_ix(s)));
    ask(ga, gb, want);
}
FACET(rectangle, 3, "a shape against a rectangle, a point and a pair of coordinates") {
    int n = 4 + (int)s.below(12);
    Part a = s.chance(1, 3) ? big_part(s, s.size(6, 60)) : gen_part(s, n, true, 2);
    P u = gen_pt(s, n), v = gen_pt(s, n);
    if (s.flip()) {
        const Path &o = outline(a);
        u = o[s.below(o.size())];
        v = {u.x + (int64_t)s.below(7) - 3, u.y + (int64_t)s.below(7) - 3};
    }
    P lo{std::min(u.x, v.x), std::min(u.y, v.y)}, hi{std::max(u.x, v.x), std::max(u.y, v.y)};
    Part b;
    if (lo == hi) b.pt = lo;
    else if (lo.x == hi.x || lo.y == hi.y) {
        b.kind = LINE;
        b.line = {lo, hi};
    } else b = as_rect(lo, hi);
    Pair p{a, b};
    c.note(note(p));
    bool want = meet(a, b);
    c.label(want ? "meet" : "apart");
    if (rects_meet(a, b)) c.interesting();
    tgx::G t(wrap(s, a, pick_ix(s)));
    if (tg_geom_intersects_rect(t, tg_rect{tp(lo), tp(hi)}) != want) fail("rect", "reported %d", !want);
    tgx::G tb(mk(b, pick_ix(s)));
    ask(t, tb, want);
    bool wp = loc(a, toR(u)) != EXT;
    if (tg_geom_intersects_xy(t, (double)u.x, (double)u.y) != wp) fail("xy", "(%lld %lld): reported %d", (long long)u.x, (long long)u.y, !wp);
}
