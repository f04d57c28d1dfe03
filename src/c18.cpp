// C18: collections answer as the combination of their members.
#include "coll.hpp"
using namespace coll;
using pbt::fail;
PBT_MAIN("C18", "the collection has at least two members and its rectangle meets the other shape's")

static bool rects_meet(struct tg_geom *a, struct tg_geom *b) {
    return tg_rect_intersects_rect(tg_geom_rect(a), tg_geom_rect(b));
}
struct Want {
    bool is = false, covers_all = true, covered_by_one = false, any_touch = false, any_overlap = false;
    bool contains_all = true, contained_by_one = false;
    bool plug = false;
};
// Combine the exact relations of the members to one part.
static Want combine(const std::vector<const Part *> &m, const Part &x) {
    Want w;
    P l1, h1, l2, h2;
    bbox(outline(x), l2, h2);
    for (auto p : m) {
        bbox(outline(*p), l1, h1);
        if (l1.x > h2.x || l2.x > h1.x || l1.y > h2.y || l2.y > h1.y) {
            w.covers_all = w.contains_all = false;
            continue;
        }
        Rel r = relate(*p, x);
        bool i = r.intersects();
        w.is = w.is || i;
        if (i && r.touches()) w.any_touch = true;
        if (i && !r.touches()) w.any_overlap = true;
        w.contained_by_one = w.contained_by_one || r.contains_ogc();
        w.covered_by_one = w.covered_by_one || r.covers();
        bool cov = !r.cell[INT][EXT] && !r.cell[BND][EXT]; // x covers *p
        w.covers_all = w.covers_all && cov && i;
        w.contains_all = w.contains_all && cov && r.cell[INT][INT];
        w.plug = w.plug || plugs_hole(*p, x) || plugs_hole(x, *p);
    }
    return w;
}
static void judge(struct tg_geom *g, struct tg_geom *x, const Want &w, bool none) {
    auto both = [&](int i, bool want, const char *how) {
        if (ask(i, g, x) != want) fail(PN[i], "collection %s shape is %d %s", PN[i], !want, how);
    };
    both(IS, w.is, "");
    both(DI, !w.is, "");
    if (tg_geom_intersects(x, g) != w.is) fail("intersects", "shape intersects collection is %d", !w.is);
    if (tg_geom_disjoint(x, g) == w.is) fail("disjoint", "shape disjoint collection is %d", w.is);
    bool call = !none && w.covers_all, inall = !none && w.contains_all;
    if (tg_geom_covers(x, g) != call) fail("covers", "shape covers collection is %d", !call);
    if (tg_geom_coveredby(g, x) != call) fail("coveredby", "collection covered by shape is %d", !call);
    if (!w.plug) {
        if (tg_geom_contains(x, g) != inall) fail("contains", "shape contains collection is %d", !inall);
        if (tg_geom_within(g, x) != inall) fail("within", "collection within shape is %d", !inall);
        both(CO, w.contained_by_one, "");
        if (tg_geom_within(x, g) != w.contained_by_one) fail("within", "shape within collection is %d", !w.contained_by_one);
    }
    if (!w.plug) {
        both(CV, w.covered_by_one, "");
        if (tg_geom_coveredby(x, g) != w.covered_by_one) fail("coveredby", "shape covered by collection is %d", !w.covered_by_one);
        bool t = w.any_touch && !w.any_overlap;
        both(TO, t, "");
        if (tg_geom_touches(x, g) != t) fail("touches", "shape touches collection is %d", !t);
    }
}
FACET(members, 4, "a collection of any kind and nesting against a single shape, decided member by member") {
    Varied v0(s);
    int n = 3 + (int)s.below(10);
    Col g = gen_col(s, n, 3, 6, true);
    Part x = gen_part(s, n, true, 2);
    auto m = flat(g);
    if (!m.empty() && s.chance(1, 3)) x = derived(s, *m[s.below(m.size())], n);
    c.note(cut(str(g) + " with " + geo::str(x)));
    enum tg_index ia = pick_ix(s);
    tgx::G a(build(g, ia));
    enum tg_index ib = pick_ix(s);
    Col cx = single(x);
    if (s.chance(1, 4)) cx.type += 3;
    tgx::G b(build(cx, ib));
    Want w = combine(m, x);
    if (m.size() >= 2 && rects_meet(a, b)) c.interesting();
    c.label(w.is ? "meet" : "apart");
    judge(a, b, w, m.empty());
    if (x.kind == POINT) {
        if (tg_geom_intersects_xy(a, (double)x.pt.x, (double)x.pt.y) != w.is) fail("xy", "intersects_xy is %d", !w.is);
    }
    P lo = gen_pt(s, n), hi = gen_pt(s, n);
    if (lo.x > hi.x) std::swap(lo.x, hi.x);
    if (lo.y > hi.y) std::swap(lo.y, hi.y);
    if (lo.x < hi.x && lo.y < hi.y) {
        Want wr = combine(m, as_rect(lo, hi));
        if (tg_geom_intersects_rect(a, {plain(lo), plain(hi)}) != wr.is) fail("rect", "intersects_rect (%d %d,%d %d) is %d", (int)lo.x, (int)lo.y, (int)hi.x, (int)hi.y, !wr.is);
    }
}
FACET(many, 3, "a collection of up to hundreds of small members spread over a wide area") {
    bool huge = s.chance(1, 50);
    int m = huge ? 400 + (int)s.below(4000) : s.size(30, 400);
    static const int ws[] = {10, 30, 100, 1000};
    int w = huge ? 2000 : ws[s.below(4)];
    Col g = many(s, m, w);
    if (s.chance(1, 4)) { // one level down
        Col o;
        o.type = TG_GEOMETRYCOLLECTION;
        o.kids.push_back(g);
        if (s.flip()) o.kids.push_back(single(gen_part(s, 10, true, 1)));
        g = o;
    }
    if (g.type == TG_GEOMETRYCOLLECTION && s.chance(1, 3)) g.kids.insert(g.kids.begin() + s.below(g.kids.size() + 1), empty_col(s));
    auto f = flat(g);
    Part x = s.flip() ? part_of_kind(s, 4 + (int)s.below(20), (int)s.below(3)) : part_of_kind(s, w, (int)s.below(3));
    if (huge || s.flip()) place(s, *f[s.below(f.size())], x);
    c.note(std::to_string(f.size()) + " members over " + std::to_string(w) + " with " + cut(geo::str(x)));
    tgx::G a(build(g, pick_ix(s))), b(build(single(x), pick_ix(s)));
    if (s.chance(1, 4)) a = tgx::G(tg_geom_copy(a));
    Want w_ = combine(f, x);
    if (rects_meet(a, b)) c.interesting();
    c.label(w_.is ? "meet" : "apart");
    judge(a, b, w_, false);
}
// A shape, and a collection of many pieces of it, of which one may stick out.
static Part piece(Src &s, const Part &x, const Path &z, int64_t floor_) {
    Part p;
    size_t i = s.below(z.size()), k = std::min<size_t>(z.size() - 1 - i, s.below(4));
    if (x.kind == LINE) { // a stretch of it
        if (!k) p.pt = z[i];
        else {
            p.kind = LINE;
            p.line.assign(z.begin() + i, z.begin() + i + k + 1);
        }
        return p;
    }
    // below the roof
    P q = z[i];
    int64_t y = floor_ + (int64_t)s.below((uint64_t)(q.y - floor_ + 1));
    switch (s.below(3)) {
    case 0: p.pt = {q.x, y}; break;
    case 1:
        p.kind = LINE;
        p.line = {{q.x, floor_}, q};
        if (y != floor_ && y != q.y) p.line[1].y = y;
        break;
    default:
        if (i + 1 < z.size()) {
            p.kind = POLY;
            P r = z[i + 1];
            p.rings.push_back({{q.x, floor_}, {r.x, floor_}, r, q, {q.x, floor_}});
        } else p.pt = {q.x, y};
    }
    return p;
}
FACET(pieces, 2, "a shape and a collection of up to hundreds of pieces of it, one of which may stick out") {
    int n = s.size(3, 16);
    Path z; // a roof line
    for (int i = 0; i < n; i++) z.push_back({4 * i, 4 * (1 + (int64_t)s.below(4))});
    Part x;
    if (s.flip()) {
        x.kind = LINE;
        x.line = z;
    } else {
        x.kind = POLY;
        Path r = z;
        r.push_back({z.back().x, 0});
        r.push_back({0, 0});
        r.push_back(z[0]);
        x.rings.push_back(r);
        turn(s, x.rings[0]);
    }
    Col g;
    int m = s.chance(1, 10) ? s.size(30, 150) : s.size(2, 40);
    int kind = (int)s.below(4); // of one kind, or mixed
    bool under = s.chance(1, 3); // pieces that touch from outside
    for (int i = 0; i < m; i++) {
        Part p = piece(s, x, z, 0);
        for (int t = 0; t < 20 && kind < 3 && (int)p.kind != kind; t++) p = piece(s, x, z, 0);
        if (kind < 3 && (int)p.kind != kind) throw pbt::Discard();
        if (under && x.kind == POLY) each_pt(p, [](P &q) { q.y = -q.y; }); // below its foot
        g.parts.push_back(p);
    }
    if (s.flip()) { // one is moved a little
        Part &p = g.parts[s.flip() ? g.parts.size() - 1 : s.below(g.parts.size())];
        shift(p, {(int64_t)s.below(3) - 1, (int64_t)s.below(3) - 1});
    }
    g.type = TG_MULTIPOINT + kind;
    if (kind == 3 || s.chance(1, 4)) {
        Col o;
        o.type = TG_GEOMETRYCOLLECTION;
        for (auto &p : g.parts) o.kids.push_back(single(p));
        g = o;
        if (s.chance(1, 6)) g.kids.insert(g.kids.begin() + s.below(g.kids.size() + 1), empty_col(s));
    }
    auto f = flat(g);
    c.note(std::to_string(f.size()) + " pieces " + cut(str(g)) + " with " + cut(geo::str(x)));
    tgx::G a(build(g, pick_ix(s))), b(build(single(x), pick_ix(s)));
    Want w = combine(f, x);
    if (rects_meet(a, b)) c.interesting();
    c.label(w.covers_all ? "all" : w.is ? "some" : "none");
    judge(a, b, w, false);
}
FACET(both, 2, "two collections: some member of one meets some member of the other") {
    int n = 3 + (int)s.below(20);
    bool big = s.chance(1, 6);
    Col x = big ? many(s, s.size(60, 200), 200) : gen_col(s, n, 2, 5, true), y = big && s.flip() ? many(s, s.size(1, 100), 200) : gen_col(s, n, 2, 5, true);
    auto fx = flat(x), fy = flat(y);
    if (big && s.flip() && !fy.empty()) {
        const Path &o = outline(*fx[s.below(fx.size())]), &q = outline(*fy[s.below(fy.size())]);
        P d{o[0].x - q[0].x, o[0].y - q[0].y};
        each_part(y, [&](Part &p) { shift(p, d); });
        fy = flat(y);
    }
    c.note(cut(str(x) + " with " + str(y)));
    tgx::G a(build(x, pick_ix(s))), b(build(y, pick_ix(s)));
    bool want = false;
    for (auto p : fx)
        for (auto q : fy)
            if (!want) {
                P l1, h1, l2, h2;
                bbox(outline(*p), l1, h1);
                bbox(outline(*q), l2, h2);
                if (l1.x > h2.x || l2.x > h1.x || l1.y > h2.y || l2.y > h1.y) continue;
                want = relate(*p, *q).intersects();
            }
    if (fx.size() + fy.size() > 2 && rects_meet(a, b)) c.interesting();
    c.label(want ? "meet" : "apart");
    if (tg_geom_intersects(a, b) != want || tg_geom_intersects(b, a) != want) fail("intersects", "reported %d", !want);
    if (tg_geom_disjoint(a, b) == want || tg_geom_disjoint(b, a) == want) fail("disjoint", "reported %d", want);
    // every part of y in a single part of x is enough to be covered
    if (!fy.empty()) {
        bool all = true, plug = false;
        for (auto q : fy) {
            bool one = false;
            for (auto p : fx) {
                plug = plug || plugs_hole(*p, *q);
                P l1, h1, l2, h2;
                bbox(outline(*p), l1, h1);
                bbox(outline(*q), l2, h2);
                if (l1.x > l2.x || h2.x > h1.x || l1.y > l2.y || h2.y > h1.y) continue;
                if (!one) one = relate(*p, *q).covers();
            }
            all = all && one;
        }
        if (!plug && tg_geom_covers(a, b) != all) fail("covers", "reported %d", !all);
        if (!plug && tg_geom_coveredby(b, a) != all) fail("coveredby", "reported %d", !all);
    }
}
// ------------------------------------------------------------------- wrapping
static std::string jgeom(struct tg_geom *g) { return tgx::geojson(g); }
static struct tg_geom *dress(Src &s, const Part &p, enum tg_index ix, std::string &how) {
    tgx::G g(build(p, ix, plain));
    struct tg_geom *r = nullptr;
    std::vector<double> x(2 * 20000, 7.5);
    switch (s.below(10)) {
    case 0: how = "collection of one"; { const struct tg_geom *k[] = {g}; r = tg_geom_new_geometrycollection(k, 1); } break;
    case 1: {
        how = "multi of one";
        Col c = single(p);
        c.type += 3;
        r = build(c, ix);
        break;
    }
    case 2: how = "feature"; r = tg_parse_geojson_ix(("{\"type\":\"Feature\",\"properties\":{\"a\":1},\"geometry\":" + jgeom(g) + "}").c_str(), ix); break;
    case 3: how = "feature collection"; r = tg_parse_geojson_ix(("{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"geometry\":" + jgeom(g) + "}]}").c_str(), ix); break;
    case 4: { // nested
        how = "nested collections";
        r = tg_geom_clone(g);
        int d = 2 + (int)s.below(s.chance(1, 12) ? 200 : 4);
        for (int i = 0; i < d; i++) {
            const struct tg_geom *k[] = {r};
            struct tg_geom *o = tg_geom_new_geometrycollection(k, 1);
            tg_geom_free(r);
            r = o;
        }
        break;
    }
    case 5: { // extra dimensions
        how = "zm";
        int n = 0;
        each_pt(*const_cast<Part *>(&p), [&](P &) { n++; });
        bool z = s.flip(), m = !z || s.flip();
        int nc = n * (z + m);
        if (p.kind == POINT) {
            struct tg_point q = plain(p.pt);
            r = z && m ? tg_geom_new_point_zm(q, 1, 2) : z ? tg_geom_new_point_z(q, 1) : tg_geom_new_point_m(q, 2);
        } else if (p.kind == LINE) {
            struct tg_line *l = coll::mk_line(p, ix, plain);
            r = z && m ? tg_geom_new_linestring_zm(l, x.data(), nc) : z ? tg_geom_new_linestring_z(l, x.data(), nc) : tg_geom_new_linestring_m(l, x.data(), nc);
            tg_line_free(l);
        } else {
            struct tg_poly *l = coll::mk_poly(p, ix, plain);
            r = z && m ? tg_geom_new_polygon_zm(l, x.data(), nc) : z ? tg_geom_new_polygon_z(l, x.data(), nc) : tg_geom_new_polygon_m(l, x.data(), nc);
            tg_poly_free(l);
        }
        break;
    }
    case 6: { // with empties beside it, through WKT
        how = "with empty members";
        std::string t = tgx::wkt(g);
        std::vector<std::string> v{t};
        int k = 1 + (int)s.below(3);
        for (int i = 0; i < k; i++) v.insert(v.begin() + s.below(v.size() + 1), str(empty_col(s)));
        std::string o;
        for (auto &e : v) o += (o.empty() ? "" : ",") + e;
        r = tg_parse_wkt_ix(("GEOMETRYCOLLECTION(" + o + ")").c_str(), ix);
        break;
    }
    case 7: how = "geobin"; { std::string b = tgx::geobin(g); r = tg_parse_geobin_ix((const uint8_t *)b.data(), b.size(), ix); } break;
    case 8: how = "collection of a multi of one"; {
        Col k = single(p);
        k.type += 3;
        tgx::G in(build(k, ix));
        const struct tg_geom *e[] = {in};
        r = tg_geom_new_geometrycollection(e, 1);
        break;
    }
    default: // a line, ring or polygon handed over as a geometry itself
        how = "upcast";
        if (p.kind == LINE) r = (struct tg_geom *)coll::mk_line(p, ix, plain);
        else if (p.kind == POLY && p.rings.size() == 1 && s.flip()) {
            auto v = xpts(p.rings[0], plain);
            r = (struct tg_geom *)tg_ring_new_ix(v.data(), (int)v.size(), ix);
        } else if (p.kind == POLY) r = (struct tg_geom *)coll::mk_poly(p, ix, plain);
        else r = tg_geom_clone(g);
    }
    if (!r || tg_geom_error(r)) fail("wrap", "%s: %s", how.c_str(), r ? tg_geom_error(r) : "null");
    return r;
}
FACET(wrapped, 3, "a pair of shapes, one of them wrapped, given Z or M, or accompanied by empty members") {
    Pair p = s.chance(1, 6) ? gen_big(s, s.size(8, 120)) : gen_small(s);
    c.note(note(p));
    enum tg_index ix = pick_ix(s);
    tgx::G a(build(p.a, ix, plain)), b(build(p.b, ix, plain));
    unsigned want = answers(a, b);
    std::string h1 = "plain", h2 = "plain";
    tgx::G x(dress(s, p.a, ix, h1));
    tgx::G y(s.flip() ? dress(s, p.b, ix, h2) : build(p.b, ix, plain));
    c.note(h1 + " / " + h2);
    c.label(h1.c_str());
    if (rects_meet(a, b)) c.interesting();
    unsigned got = answers(x, y);
    same_answers(want, got, "wrap", (h1 + " / " + h2).c_str());
    if (s.flip()) {
        struct tg_rect r = tg_geom_rect(b);
        if (tg_geom_intersects_rect(a, r) != tg_geom_intersects_rect(x, r)) fail("wrap", "intersects_rect differs for %s", h1.c_str());
        struct tg_point q = p.b.kind == POINT ? plain(p.b.pt) : plain(outline(p.b)[0]);
        if (tg_geom_intersects_xy(a, q.x, q.y) != tg_geom_intersects_xy(x, q.x, q.y)) fail("wrap", "intersects_xy differs for %s", h1.c_str());
    }
}
FACET(empties, 1, "an empty geometry, however nested, against anything") {
    Varied v0(s);
    Col e = empty_col(s);
    int d = (int)s.below(3);
    for (int i = 0; i < d; i++) {
        Col g;
        g.type = TG_GEOMETRYCOLLECTION;
        g.kids.push_back(e);
        if (s.flip()) g.kids.push_back(empty_col(s));
        e = g;
    }
    Part x = gen_part(s, 8, true, 1);
    if (s.flip()) x.pt = {0, 0};
    Col cx = s.chance(1, 4) ? empty_col(s) : single(x);
    c.note(str(e) + " with " + str(cx));
    c.interesting();
    tgx::G a(build(e, pick_ix(s))), b(build(cx, pick_ix(s)));
    if (!tg_geom_is_empty(a)) fail("empty", "not reported empty");
    for (int i : {EQ, IS, CO, WI, CV, CB, TO})
        if (ask(i, a, b) || ask(i, b, a)) fail("empty", "%s holds", PN[i]);
    if (!ask(DI, a, b) || !ask(DI, b, a)) fail("empty", "not disjoint");
    if (tg_geom_intersects_xy(a, 0, 0) || tg_geom_intersects_rect(a, {{-1, -1}, {1, 1}})) fail("empty", "intersects the origin");
}
