// C15: covers, contains, within, covered-by.
#include "pairs.hpp"
using namespace pairs;
using pbt::fail;
PBT_MAIN("C15", "the two shapes share a point")

static void ask(struct tg_geom *a, struct tg_geom *b, const Rel &r) {
    bool cov = r.covers(), con = r.contains_ogc();
    if (tg_geom_covers(a, b) != cov) fail("covers", "reported %d", !cov);
    if (tg_geom_coveredby(b, a) != cov) fail("coveredby", "reported %d", !cov);
    if (tg_geom_contains(a, b) != con) fail("contains", "reported %d", !con);
    if (tg_geom_within(b, a) != con) fail("within", "reported %d", !con);
}
static void both(Src &s, pbt::Ctx &c, const Pair &p) {
    c.note(note(p));
    Rel ab = relate(p.a, p.b), ba = relate(p.b, p.a);
    labels(c, p, ab);
    if (ab.covers() && !plugs_hole(p.a, p.b)) c.label("covered");
    if (ab.intersects()) c.interesting();
    enum tg_index ia = pick_ix(s);
    tgx::G a(wrap(s, p.a, ia));
    enum tg_index ib = pick_ix(s);
    tgx::G b(wrap(s, p.b, ib));
    if (!plugs_hole(p.a, p.b)) ask(a, b, ab);
    if (!plugs_hole(p.b, p.a)) ask(b, a, ba);
}
FACET(small, 5, "two small shapes in delicate position") { both(s, c, gen_small(s)); }
FACET(big, 2, "two shapes with tens of vertices, some with hundreds") { both(s, c, gen_big(s, s.chance(1, 15) ? 60 + (int)s.below(140) : s.size(6, 36))); }
FACET(inside, 3, "a shape and another drawn inside it, along it or just across it") {
    Pair p;
    int64_t k = 2 + (int64_t)s.below(4);
    p.a = s.flip() ? big_poly(s, s.size(6, 24), 2) : gen_poly(s, 4 + (int)s.below(8), 2);
    scale(p.a, k);
    P lo, hi;
    bbox(p.a.rings[0], lo, hi);
    if (s.flip()) {
        p.b = gen_part(s, 2 + (int)s.below(5), true, 1);
        place(s, p.a, p.b);
    } else {
        p.b = derived(s, p.a, (int)std::max<int64_t>(2, std::min<int64_t>(hi.x, 40)));
    }
    both(s, c, p);
}
FACET(fine, 2, "two shapes whose contacts miss or overlap by the smallest step of a fine lattice") { both(s, c, gen_fine(s)); }
FACET(family, 2, "two polygons with several holes each, all rings taken from one family nested in each other") { both(s, c, gen_nested(s)); }
FACET(poke, 1, "a long zigzag of which one or two vertices reach or pass a frame of few edges or its hole") { both(s, c, gen_poke(s)); }
FACET(holes, 2, "a polygon with holes and one that goes around, into or between the holes") {
    Pair p;
    int n = 8 + (int)s.below(6);
    p.a = as_rect({0, 0}, {n, n});
    p.b = as_rect({(int64_t)s.below(2), (int64_t)s.below(2)}, {n - (int64_t)s.below(2), n - (int64_t)s.below(2)});
    for (Part *q : {&p.a, &p.b}) {
        int k = (int)s.below(4);
        for (int i = 0; i < k; i++) {
            Path h;
            if (q == &p.b && p.a.rings.size() > 1 && s.flip()) {
                h = p.a.rings[1 + s.below(p.a.rings.size() - 1)]; // the same hole
                if (s.flip()) {
                    // grown or moved
                    P d{(int64_t)s.below(3) - 1, (int64_t)s.below(3) - 1};
                    for (auto &v : h) {
                        v.x += d.x;
                        v.y += d.y;
                    }
                }
                turn(s, h);
            } else {
                h = gen_ring(s, 2 + (int)s.below(3));
                P o{1 + (int64_t)s.below(n - 4), 1 + (int64_t)s.below(n - 4)};
                for (auto &v : h) {
                    v.x += o.x;
                    v.y += o.y;
                }
            }
            auto clear = [&](const Path &u) {
                for (size_t x = 0; x + 1 < u.size(); x++)
                    for (size_t y = 0; y + 1 < h.size(); y++)
                        if (segs_meet({u[x], u[x + 1]}, {h[y], h[y + 1]})) return false;
                return true;
            };
            bool ok = clear(q->rings[0]) && loc_ring(q->rings[0], toR(h[0])) == INT;
            for (size_t j = 1; ok && j < q->rings.size(); j++)
                ok = clear(q->rings[j]) && loc_ring(q->rings[j], toR(h[0])) == EXT && loc_ring(h, toR(q->rings[j][0])) == EXT;
            if (ok) q->rings.push_back(h);
        }
    }
    if (s.chance(1, 3)) p.b = derived(s, p.a, n);
    both(s, c, p);
}
// A polygon that exactly fills a hole of another is reported as covered by it
// (and the existing tests expect that).
KNOWN(plug_in_hole) {
    tgx::G a(tg_parse_wkt("POLYGON((0 0,10 0,10 10,0 10,0 0),(2 2,8 2,8 8,2 8,2 2))"));
    tgx::G b(tg_parse_wkt("POLYGON((2 2,8 2,8 8,2 8,2 2))"));
    return !tg_geom_covers(a, b);
}
