// C17: equality, and the algebra of predicates.
#include "coll.hpp"
using namespace coll;
using pbt::fail;
PBT_MAIN("C17", "the two geometries intersect")

static bool eq_sets(const Rel &r) { return !r.cell[INT][EXT] && !r.cell[BND][EXT] && !r.cell[EXT][INT] && !r.cell[EXT][BND]; }
static void must(struct tg_geom *a, struct tg_geom *b, bool want) {
    if (tg_geom_equals(a, b) != want) fail("equals", "reported %d", !want);
    if (tg_geom_equals(b, a) != want) fail("equals", "exchanged: reported %d", !want);
}
static Col wrapped(Src &s, const Part &p) {
    Col c = single(p);
    if (s.chance(1, 3)) c.type += 3; // a multi of one
    int k = s.chance(1, 3) ? 1 + (int)s.below(2) : 0;
    for (int i = 0; i < k; i++) {
        Col g;
        g.type = TG_GEOMETRYCOLLECTION;
        g.kids.push_back(c);
        c = g;
    }
    return c;
}
FACET(pairs, 4, "two shapes in delicate position, equal or not by the exact relation") {
    Pair p = gen_small(s);
    c.note(note(p));
    Rel r = relate(p.a, p.b);
    if (r.intersects()) c.interesting();
    c.label(eq_sets(r) ? "equal" : "different");
    tgx::G a(wrap(s, p.a, pick_ix(s))), b(wrap(s, p.b, pick_ix(s)));
    must(a, b, eq_sets(r));
}
FACET(redrawn, 4, "a shape and another drawing of it, possibly with one vertex moved by one step") {
    Varied v0(s);
    Part g = s.chance(1, 5) ? big_part(s, s.size(4, 80)) : gen_part(s, 3 + (int)s.below(10), true, 2);
    scale(g, 2 * (1 + (int64_t)s.below(2)));
    Redraw o;
    Part h = redraw(s, g, o);
    bool moved = false;
    if (s.flip()) { // spoil it
        std::vector<P *> v;
        each_pt(h, [&](P &q) { v.push_back(&q); });
        size_t i = s.below(v.size());
        P old = *v[i], nw = {old.x + (int64_t)s.below(3) - 1, old.y + (int64_t)s.below(3) - 1};
        Part k = h;
        // all copies of that position move together
        each_pt(k, [&](P &q) {
            if (q == old) q = nw;
        });
        bool ok = nw != old;
        if (k.kind == LINE) { // stay simple, apart from repeated points
            Path u = k.line;
            u.erase(std::unique(u.begin(), u.end()), u.end());
            ok = ok && u.size() >= 2 && line_simple(u);
        }
        for (auto &q : k.rings) {
            Path u = q;
            u.erase(std::unique(u.begin(), u.end()), u.end());
            ok = ok && u.size() >= 4 && ring_simple(u);
        }
        if (k.kind == POLY && k.rings.size() > 1) ok = false;
        if (ok) {
            h = k;
            moved = true;
        }
    }
    c.note(cut(str(g) + " " + str(h)));
    bool want = true;
    if (moved) want = eq_sets(relate(g, h));
    c.interesting();
    c.label(want ? "equal" : "different");
    Col cg = wrapped(s, g), ch = wrapped(s, h);
    enum tg_index ia = pick_ix(s);
    tgx::G a(build(cg, ia));
    enum tg_index ib = pick_ix(s);
    tgx::G b(build(ch, ib));
    must(a, b, want);
}
FACET(members, 1, "a collection and the same members in another order and drawing, or without one of them") {
    Varied v0(s);
    Col g = gen_col(s, 3 + (int)s.below(12), 2, 6, false);
    each_part(g, [](Part &p) { scale(p, 2); });
    Col h = redraw(s, g);
    int wr = (int)s.below(3);
    for (int i = 0; i < wr; i++) { // one more level, perhaps with nothing beside it
        Col k;
        k.type = TG_GEOMETRYCOLLECTION;
        k.kids.push_back(h);
        if (s.flip()) k.kids.insert(k.kids.begin() + s.below(2), empty_col(s));
        h = k;
    }
    c.note(cut(str(g) + " " + str(h)));
    c.interesting();
    enum tg_index ia = pick_ix(s);
    tgx::G a(build(g, ia)), b(build(h, pick_ix(s)));
    must(a, b, true);
    // one more point far away makes it another set
    Col k;
    k.type = TG_GEOMETRYCOLLECTION;
    k.kids = {h, single(Part())};
    k.kids[1].parts[0].pt = {1000, 1000};
    if (s.flip()) std::swap(k.kids[0], k.kids[1]);
    tgx::G d(build(k, ia));
    must(a, d, false);
}
// ------------------------------------------------------------------- algebra
static void laws(struct tg_geom *a, struct tg_geom *b) {
    bool f[8], r[8];
    for (int i = 0; i < 8; i++) {
        f[i] = ask(i, a, b);
        r[i] = ask(i, b, a);
    }
    for (int i : {EQ, IS, DI, TO})
        if (f[i] != r[i]) fail("symmetric", "%s is %d one way, %d the other", PN[i], f[i], r[i]);
    if (f[WI] != r[CO] || r[WI] != f[CO]) fail("mirror", "within is not the mirror of contains");
    if (f[CB] != r[CV] || r[CB] != f[CV]) fail("mirror", "coveredby is not the mirror of covers");
    for (auto *v : {f, r}) {
        if (v[CO] && !v[CV]) fail("implies", "contains without covers");
        if (v[CV] && !v[IS]) fail("implies", "covers without intersects");
        if (v[TO] && !v[IS]) fail("implies", "touches without intersects");
        if (v[TO] && v[CO]) fail("implies", "touches and contains");
        if (v[DI] == v[IS]) fail("negation", "disjoint %d, intersects %d", v[DI], v[IS]);
        if (v[EQ] && (!v[CO] || !v[WI])) fail("implies", "equals without contains and within");
    }
    if (f[CO] && f[WI] && !f[EQ]) fail("implies", "contains and within without equals");
}
static void self_laws(struct tg_geom *a) {
    if (tg_geom_is_empty(a)) return;
    for (int i : {EQ, IS, CV, CO, CB, WI})
        if (!ask(i, a, a)) fail("self", "%s does not hold for a shape and itself", PN[i]);
    for (int i : {DI, TO})
        if (ask(i, a, a)) fail("self", "%s holds for a shape and itself", PN[i]);
    tgx::G b(tg_geom_copy(a));
    laws(a, b);
    if (!tg_geom_equals(a, b)) fail("self", "a copy is not equal");
}
FACET(laws_exact, 3, "two geometries of any kind, collections and empty ones included, on the lattice") {
    Varied v0(s);
    int n = 3 + (int)s.below(12);
    Col x = gen_col(s, n, 2, 5, true), y = gen_col(s, n, 2, 5, true);
    if (s.chance(1, 4)) {
        auto v = flat(x);
        if (!v.empty()) y = single(derived(s, *v[s.below(v.size())], n));
    }
    c.note(cut(str(x) + " " + str(y)));
    for (auto p : flat(x))
        for (auto q : flat(y))
            if (plugs_hole(*p, *q) || plugs_hole(*q, *p)) { // the known finding of C15
                c.label("plug");
                return;
            }
    tgx::G a(build(x, pick_ix(s))), b(build(y, pick_ix(s)));
    laws(a, b);
    if (tg_geom_intersects(a, b)) c.interesting();
    if (tg_geom_is_empty(a))
        for (int i : {EQ, IS, CO, WI, CV, CB, TO})
            if (ask(i, a, b) || ask(i, b, a)) fail("empty", "%s holds for an empty geometry", PN[i]);
    self_laws(a);
}
FACET(laws_floats, 2, "two geometries of any kind at random floating-point positions") {
    Varied v0(s);
    int n = 3 + (int)s.below(12);
    bool big = s.chance(1, 4);
    Col x = big ? single(big_part(s, s.size(4, 100))) : gen_col(s, n, 2, 5, false), y = gen_col(s, big ? 20 : n, 2, 5, false);
    auto xf = [&]() -> Xf {
        double th = (double)(s.below(1u << 30)) * 1e-9 * 6, sc = exp((double)(s.below(1u << 20)) * 1e-6 * 4 - 2), ox = (double)(s.below(1u << 30)) * 1e-8, oy = (double)(s.below(1u << 30)) * 1e-8;
        double cs = cos(th) * sc, sn = sin(th) * sc;
        return [=](P p) -> struct tg_point { return {p.x * cs - p.y * sn + ox, p.x * sn + p.y * cs + oy}; };
    };
    Xf fa = xf(), fb = xf(); // in general position to each other
    c.note(cut(str(x) + " " + str(y)));
    tgx::G a(build(x, pick_ix(s), fa)), b(build(y, pick_ix(s), fb));
    laws(a, b);
    if (tg_geom_intersects(a, b)) c.interesting();
    self_laws(a);
}
