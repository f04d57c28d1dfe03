// C16: touches.
#include "pairs.hpp"
using namespace pairs;
using pbt::fail;
PBT_MAIN("C16", "the two shapes share a point")

static void both(Src &s, pbt::Ctx &c, const Pair &p) {
    c.note(note(p));
    Rel r = relate(p.a, p.b);
    labels(c, p, r);
    if (r.intersects()) c.interesting();
    enum tg_index ia = pick_ix(s);
    tgx::G a(wrap(s, p.a, ia));
    enum tg_index ib = pick_ix(s);
    tgx::G b(wrap(s, p.b, ib));
    bool want = r.touches();
    if (tg_geom_touches(a, b) != want) fail("touches", "reported %d", !want);
    if (tg_geom_touches(b, a) != want) fail("touches", "reversed: reported %d", !want);
}
FACET(small, 5, "two small shapes in delicate position") { both(s, c, gen_small(s)); }
FACET(big, 2, "two shapes with tens of vertices, some with hundreds") { both(s, c, gen_big(s, s.chance(1, 15) ? 60 + (int)s.below(140) : s.size(6, 36))); }
FACET(contact, 4, "a shape moved until it is in contact with another") {
    Pair p;
    int n = 3 + (int)s.below(8);
    p.a = gen_part(s, n, true, 2);
    p.b = gen_part(s, n, true, 2);
    // slide b one step at a time until it meets a
    P d = s.flip() ? P{s.flip() ? 1 : -1, 0} : P{0, s.flip() ? 1 : -1};
    int64_t far = 4 * n;
    shift(p.b, {-d.x * far, -d.y * far});
    for (int i = 0; i < 8 * n; i++) {
        shift(p.b, d);
        bool m = false;
        auto sa = p.a.segs(), sb = p.b.segs();
        if (p.a.kind == POINT) sa.push_back({p.a.pt, p.a.pt});
        if (p.b.kind == POINT) sb.push_back({p.b.pt, p.b.pt});
        for (auto &x : sa)
            for (auto &y : sb)
                if (segs_meet(x, y)) m = true;
        if (m) break;
    }
    if (s.chance(1, 6)) shift(p.b, d); // one too far
    both(s, c, p);
}
FACET(fine, 2, "two shapes whose contacts miss or overlap by the smallest step of a fine lattice") { both(s, c, gen_fine(s)); }
FACET(family, 2, "two polygons with several holes each, all rings taken from one family nested in each other") { both(s, c, gen_nested(s)); }
FACET(poke, 1, "a long zigzag of which one or two vertices reach or pass a frame of few edges or its hole") { both(s, c, gen_poke(s)); }
FACET(holes, 2, "contact across a hole: a shape inside the hole of another") {
    Pair p;
    int n = 8 + (int)s.below(6);
    p.a = as_rect({0, 0}, {n, n});
    Path h = gen_ring(s, n - 2);
    for (auto &v : h) v.x++, v.y++;
    p.a.rings.push_back(h);
    p.b = s.flip() ? derived(s, p.a, n) : gen_part(s, n, true, 1);
    both(s, c, p);
}
