// C27: running out of memory is reported, never fatal.
#include "alter.hpp"
#include "feat.hpp"
#include "use.hpp"
using namespace feat;
PBT_MAIN("C27", "at least one allocation of the operation was refused")

// The outcome of an operation under refusals.
enum Out { REFUSED, DONE };
typedef std::function<Out(use::Sink &)> Op;
static void calm() {
    tgx::A().fail_at = -1;
    tgx::A().fail_sticky = false;
}
static Out made(use::Sink &k, struct tg_geom *g) {
    calm();
    Out o = !g || tg_geom_error(g) ? REFUSED : DONE;
    if (g && o == REFUSED && !*tg_geom_error(g)) fail("message", "an error without a message");
    if (o == DONE) use::geom(k, g);
    tg_geom_free(g);
    return o;
}
static Out made(use::Sink &k, struct tg_line *l) {
    calm();
    if (l) use::line(k, l);
    tg_line_free(l);
    return l ? DONE : REFUSED;
}
static Out made(use::Sink &k, struct tg_ring *l) {
    calm();
    if (l) use::ring(k, l);
    tg_ring_free(l);
    return l ? DONE : REFUSED;
}
static Out made(use::Sink &k, struct tg_poly *l) {
    calm();
    if (l) use::poly(k, l);
    tg_poly_free(l);
    return l ? DONE : REFUSED;
}
static uint64_t value(const struct tg_geom *g) {
    use::Sink k;
    use::geom(k, g);
    return k.h;
}
// Runs op once in peace, then with its allocations refused.
static void battery(Src &s, pbt::Ctx &c, const Op &op, const std::vector<const struct tg_geom *> &inputs = {}, bool may_fail = false) {
    std::vector<uint64_t> before;
    for (auto g : inputs) before.push_back(value(g));
    auto &A = tgx::A();
    long live = A.live;
    uint64_t calls = A.calls;
    // The operation runs until the first call that reads its result; those are
    // told apart by counting again with everything refused from some point on.
    use::Sink k0;
    Out o0 = op(k0);
    if (o0 != DONE && !may_fail) fail("peace", "the operation failed with all the memory it asked for");
    if (A.live != live) fail("leak", "%ld blocks left by the operation itself", A.live - live);
    (void)calls;
    int tried = 0;
    for (int sticky = 0; sticky < 2; sticky++) {
        int step = 1;
        for (int64_t at = 0; at < 4000; at += step) {
            if (at > 24) step = 1 + (int)s.below(40); // all of the first, some of the rest
            A.failed = 0;
            A.fail_at = (int64_t)A.calls + at;
            A.fail_sticky = sticky;
            use::Sink k;
            Out o = op(k);
            calm();
            bool hit = A.failed > 0;
            if (A.live != live) fail("leak", "%ld blocks left after allocation %d%s was refused", A.live - live, (int)at, sticky ? " and all later ones" : "");
            if (o == DONE && o0 == DONE && k.h != k0.h) fail("wrong", "a different result with allocation %d%s refused", (int)at, sticky ? " and all later ones" : "");
            if (o == DONE && o0 != DONE) fail("wrong", "a result with allocation %d%s refused, an error with all of them granted", (int)at, sticky ? " and all later ones" : "");
            if (o == REFUSED && o0 == DONE && !hit) fail("wrong", "a failure though nothing was refused");
            if (!hit) break; // the operation does not get that far
            tried++;
        }
    }
    for (size_t i = 0; i < inputs.size(); i++)
        if (value(inputs[i]) != before[i]) fail("damaged", "an existing geometry changed");
    use::Sink k1;
    if (op(k1) != o0 || (o0 == DONE && k1.h != k0.h)) fail("after", "the operation gives something else afterwards");
    if (A.live != live) fail("leak", "%ld blocks left", A.live - live);
    if (tried) c.interesting();
}
static enum tg_index any_ix(Src &s) {
    static const enum tg_index k[] = {TG_DEFAULT, TG_NONE, TG_NATURAL, TG_YSTRIPES};
    return k[s.below(4)];
}
static GenOpt small(Src &s) {
    GenOpt o;
    o.vals = s.flip() ? SMALL : FINITE;
    o.maxpts = s.chance(1, 4) ? 80 : 6;
    o.maxparts = s.chance(1, 6) ? 80 : 4;
    o.depth = (int)s.below(3);
    if (o.maxparts > 4) {
        o.maxpts = 4;
        o.depth = std::min(o.depth, 1);
    } else if (o.maxpts > 6) o.depth = 0;
    tg_env_set_index_spread(2 + (int)s.below(30));
    return o;
}
FACET(parse, 4, "the readers, on good and damaged documents") {
    DocOpt o;
    o.g = small(s);
    int f = (int)s.below(6);
    std::string t;
    if (f == 0 || f == 4 || f == 5) {
        JsonStyle js;
        js.s = &s;
        js.esc = s.chance(1, 4);
        o.members = 3;
        o.g.nodim_m = true;
        t = text(gen_doc(s, o), js);
        if (f == 4) {
            tgx::G g(tg_parse_geojsonn(t.data(), t.size()));
            t = tgx::geobin(g);
        }
    } else {
        M g = gen(s, o.g, o.g.depth);
        t = f == 1 ? wkt(g, TxtStyle()) : f == 2 ? wkb(g) : tohex(wkb(g));
    }
    bool bad = s.chance(1, 5);
    if (bad) {
        if (s.flip()) alter::damage(s, t, f == 0 || f == 5, f == 2 || f == 4);
        else t = s.flip() ? t.substr(0, s.below(t.size()) + 1) : t + "x";
    }
    enum tg_index ix = any_ix(s);
    bool autod = s.chance(1, 4);
    c.note(f == 2 || f == 4 ? "hex " + tohex(t) : t);
    static const char *NM[] = {"GeoJSON", "WKT", "WKB", "hex", "GeoBIN", "GeoJSON"};
    c.label(NM[f]);
    battery(s, c, [&](use::Sink &k) {
        struct tg_geom *g = autod ? tg_parse_ix(t.data(), t.size(), ix)
                            : f == 1 ? tg_parse_wktn_ix(t.data(), t.size(), ix)
                            : f == 2 ? tg_parse_wkb_ix((const uint8_t *)t.data(), t.size(), ix)
                            : f == 3 ? tg_parse_hexn_ix(t.data(), t.size(), ix)
                            : f == 4 ? tg_parse_geobin_ix((const uint8_t *)t.data(), t.size(), ix)
                                     : tg_parse_geojsonn_ix(t.data(), t.size(), ix);
        return made(k, g);
    }, {}, bad);
}
FACET(make, 3, "the constructors of every type") {
    GenOpt o = small(s);
    M m = gen(s, o, s.chance(1, 4) ? 1 : 0);
    enum tg_index ix = any_ix(s);
    c.note(show(m));
    switch (s.below(4)) {
    case 0: {
        Seq q = gen_seq(s, o, 2);
        battery(s, c, [&](use::Sink &k) { return made(k, mk_line(q, ix)); });
        break;
    }
    case 1: {
        Seq q = mdl::gen_ring(s, o);
        battery(s, c, [&](use::Sink &k) { return made(k, mk_ring(q, ix)); });
        break;
    }
    case 2: {
        Rings r = gen_rings(s, o);
        std::vector<struct tg_ring *> v;
        for (auto &q : r) v.push_back(mk_ring(q, ix));
        std::vector<const struct tg_ring *> h(v.begin() + 1, v.end());
        battery(s, c, [&](use::Sink &k) { return made(k, tg_poly_new(v[0], h.data(), (int)h.size())); });
        for (auto x : v) tg_ring_free(x);
        break;
    }
    default: { // the parts are made in peace, the geometry is not
        std::vector<struct tg_line *> ls;
        std::vector<struct tg_poly *> ps;
        std::vector<struct tg_geom *> gs;
        std::vector<struct tg_point> pp;
        std::vector<double> ex;
        int n = s.chance(1, 4) ? 64 + (int)s.below(20) : 1 + (int)s.below(4);
        int t = (int)s.below(6);
        o.maxpts = 5;
        o.maxparts = 3;
        for (int i = 0; i < n; i++) {
            if (t == 0 || t == 1) ls.push_back(mk_line(gen_seq(s, o, 2), ix));
            else if (t == 2 || t == 3) ps.push_back(mk_poly(gen_rings(s, o), ix));
            else if (t == 4) gs.push_back(build(gen(s, o, 0), ix));
            else pp.push_back({(double)s.below(9), (double)s.below(9)});
        }
        int dims = (int)s.below(4), nx = s.chance(1, 8) ? 0 : (int)s.below(60);
        for (int i = 0; i < nx; i++) ex.push_back(i);
        auto L = [&] { return (const struct tg_line *const *)ls.data(); };
        auto P = [&] { return (const struct tg_poly *const *)ps.data(); };
        static const char *NM[] = {"line geometry", "multiline", "polygon geometry", "multipolygon", "collection", "multipoint"};
        c.label(NM[t]);
        battery(s, c, [&](use::Sink &k) {
            const double *x = ex.data();
            struct tg_geom *g = nullptr;
            switch (t) {
            case 0: g = dims == 0 ? tg_geom_new_linestring(ls[0]) : dims == 1 ? tg_geom_new_linestring_z(ls[0], x, nx) : dims == 2 ? tg_geom_new_linestring_m(ls[0], x, nx) : tg_geom_new_linestring_zm(ls[0], x, nx); break;
            case 1: g = dims == 0 ? tg_geom_new_multilinestring(L(), n) : dims == 1 ? tg_geom_new_multilinestring_z(L(), n, x, nx) : dims == 2 ? tg_geom_new_multilinestring_m(L(), n, x, nx) : tg_geom_new_multilinestring_zm(L(), n, x, nx); break;
            case 2: g = dims == 0 ? tg_geom_new_polygon(ps[0]) : dims == 1 ? tg_geom_new_polygon_z(ps[0], x, nx) : dims == 2 ? tg_geom_new_polygon_m(ps[0], x, nx) : tg_geom_new_polygon_zm(ps[0], x, nx); break;
            case 3: g = dims == 0 ? tg_geom_new_multipolygon(P(), n) : dims == 1 ? tg_geom_new_multipolygon_z(P(), n, x, nx) : dims == 2 ? tg_geom_new_multipolygon_m(P(), n, x, nx) : tg_geom_new_multipolygon_zm(P(), n, x, nx); break;
            case 4: g = tg_geom_new_geometrycollection((const struct tg_geom *const *)gs.data(), n); break;
            default: g = dims == 0 ? tg_geom_new_multipoint(pp.data(), n) : dims == 1 ? tg_geom_new_multipoint_z(pp.data(), n, x, nx) : dims == 2 ? tg_geom_new_multipoint_m(pp.data(), n, x, nx) : tg_geom_new_multipoint_zm(pp.data(), n, x, nx);
            }
            return made(k, g);
        }, std::vector<const struct tg_geom *>(gs.begin(), gs.end()));
        for (auto x : ls) tg_line_free(x);
        for (auto x : ps) tg_poly_free(x);
        for (auto x : gs) tg_geom_free(x);
        break;
    }
    }
}
FACET(points, 1, "points and empty geometries") {
    int t = (int)s.below(11);
    struct tg_point p = {1, 2};
    c.note("kind " + std::to_string(t));
    battery(s, c, [&](use::Sink &k) {
        switch (t) {
        case 0: return made(k, tg_geom_new_point(p));
        case 1: return made(k, tg_geom_new_point_z(p, 3));
        case 2: return made(k, tg_geom_new_point_m(p, 3));
        case 3: return made(k, tg_geom_new_point_zm(p, 3, 4));
        case 4: return made(k, tg_geom_new_point_empty());
        case 5: return made(k, tg_geom_new_linestring_empty());
        case 6: return made(k, tg_geom_new_polygon_empty());
        case 7: return made(k, tg_geom_new_multipoint_empty());
        case 8: return made(k, tg_geom_new_multilinestring_empty());
        case 9: return made(k, tg_geom_new_multipolygon_empty());
        default: return made(k, tg_geom_new_geometrycollection_empty());
        }
    });
}
static struct tg_geom *any_geom(Src &s) {
    DocOpt o;
    o.g = small(s);
    o.g.nodim_m = true;
    if (s.chance(1, 3)) {
        JsonStyle js;
        std::string t = text(gen_doc(s, o), js);
        return tg_parse_geojsonn_ix(t.data(), t.size(), any_ix(s));
    }
    return build(gen(s, o.g, o.g.depth), any_ix(s));
}
FACET(copy, 2, "deep copies of every type") {
    tgx::G g(any_geom(s));
    c.note(tgx::geojson(g));
    std::vector<const struct tg_geom *> in = {g};
    battery(s, c, [&](use::Sink &k) { return made(k, tg_geom_copy(g)); }, in);
    if (tg_geom_line(g)) battery(s, c, [&](use::Sink &k) { return made(k, tg_line_copy(tg_geom_line(g))); }, in);
    if (tg_geom_poly(g)) {
        battery(s, c, [&](use::Sink &k) { return made(k, tg_poly_copy(tg_geom_poly(g))); }, in);
        battery(s, c, [&](use::Sink &k) { return made(k, tg_ring_copy(tg_poly_exterior(tg_geom_poly(g)))); }, in);
    }
}
struct Near {
    use::Sink *k;
    int n = 0, stop = 0;
    double last = -1;
};
static bool near_cb(struct tg_segment seg, double dist, int index, void *u) {
    Near *x = (Near *)u;
    x->k->p(seg.a);
    x->k->p(seg.b);
    x->k->d(dist);
    x->k->u((uint64_t)index);
    return ++x->n != x->stop;
}
FACET(nearest, 2, "searches for the nearest segment") {
    GenOpt o = small(s);
    o.maxpts = s.flip() ? 300 : 12;
    o.vals = SMALL;
    Seq q = mdl::gen_ring(s, o);
    enum tg_index ix = any_ix(s);
    struct tg_ring *r = mk_ring(q, ix);
    struct tg_line *l = mk_line(q, ix);
    int stop = s.flip() ? 0 : 1 + (int)s.below(q.size());
    bool ring = s.flip();
    char b[80];
    snprintf(b, sizeof b, "%zu points, %s, stop after %d", q.size(), ring ? "ring" : "line", stop);
    c.note(b);
    battery(s, c, [&](use::Sink &k) {
        Near n;
        n.k = &k;
        n.stop = stop;
        bool ok = ring ? tg_ring_nearest_segment(r, use::rect_dist, use::seg_dist, near_cb, &n) : tg_line_nearest_segment(l, use::rect_dist, use::seg_dist, near_cb, &n);
        calm();
        return ok ? DONE : REFUSED;
    });
    tg_ring_free(r);
    tg_line_free(l);
}
FACET(read, 3, "what needs no memory: clones, predicates, measures, searches and writers, with none to be had") {
    tgx::G a(any_geom(s)), b(any_geom(s));
    c.note(tgx::geojson(a));
    auto work = [&](use::Sink &k) {
        use::pair(k, a, b);
        use::pair(k, b, a);
        struct tg_geom *x = tg_geom_clone(a);
        k.u(x != nullptr);
        tg_geom_free(x);
        struct tg_rect all = {{-1e9, -1e9}, {1e9, 1e9}}, some = {{0, 0}, {5, 5}};
        tg_geom_search(a, all, use::search_it, &k);
        tg_geom_search(a, some, use::search_it, &k);
        k.u(tg_geom_intersects_rect(a, some));
        k.u(tg_geom_intersects_xy(a, 3, 4));
        k.b(tgx::wkt(a));
        k.b(tgx::wkb(a));
        k.b(tgx::hex(a));
        k.b(tgx::geojson(a));
        k.b(tgx::geobin(a));
        double mn[4], mx[4];
        k.u(tg_geom_fullrect(a, mn, mx));
        if (tg_geom_line(a)) k.d(tg_line_length(tg_geom_line(a)));
        if (tg_geom_poly(a)) k.d(tg_ring_area(tg_poly_exterior(tg_geom_poly(a))));
        return DONE;
    };
    use::Sink k0, k1;
    work(k0);
    auto &A = tgx::A();
    A.fail_at = (int64_t)A.calls;
    A.fail_sticky = true;
    A.failed = 0;
    work(k1);
    calm();
    if (k0.h != k1.h) fail("wrong", "different answers when no memory is to be had");
    if (A.failed) c.label("asked for memory");
    c.interesting();
}
