// C09: a geometry is the same whatever format it arrives in.
#include "coll.hpp"
#include "feat.hpp"
using namespace feat;
using coll::Col;
PBT_MAIN("C09", "the document is a non-empty geometry")

static std::string cut(const std::string &t) { return t.size() > 1200 ? t.substr(0, 1200) + "..." : t; }
enum Fmt { GJ, WT, WB, HX, GB, HGB, NFMT };
static const char *FN[] = {"GeoJSON", "WKT", "WKB", "hex", "GeoBIN", "hex of GeoBIN"};
static enum tg_index any_ix(Src &s) {
    static const enum tg_index k[] = {TG_DEFAULT, TG_NONE, TG_NATURAL, TG_YSTRIPES};
    return k[s.below(4)];
}
// The bytes handed over are exactly as long as said.
static struct tg_geom *read(Fmt f, const std::string &d, enum tg_index ix, int how) {
    std::vector<char> v(d.begin(), d.end());
    const char *p = v.data();
    const uint8_t *b = (const uint8_t *)p;
    size_t n = v.size();
    switch (f) {
    case GJ: return how == 0 ? tg_parse_geojsonn_ix(p, n, ix) : how == 1 ? tg_parse_geojsonn(p, n) : how == 2 ? tg_parse_geojson(d.c_str()) : tg_parse_geojson_ix(d.c_str(), ix);
    case WT: return how == 0 ? tg_parse_wktn_ix(p, n, ix) : how == 1 ? tg_parse_wktn(p, n) : how == 2 ? tg_parse_wkt(d.c_str()) : tg_parse_wkt_ix(d.c_str(), ix);
    case WB: return how & 1 ? tg_parse_wkb(b, n) : tg_parse_wkb_ix(b, n, ix);
    case GB: return how & 1 ? tg_parse_geobin(b, n) : tg_parse_geobin_ix(b, n, ix);
    default: return how == 0 ? tg_parse_hexn_ix(p, n, ix) : how == 1 ? tg_parse_hexn(p, n) : how == 2 ? tg_parse_hex(d.c_str()) : tg_parse_hex_ix(d.c_str(), ix);
    }
}
static struct tg_geom *detect(const std::string &d, enum tg_index ix, int how) {
    std::vector<char> v(d.begin(), d.end());
    return how & 1 ? tg_parse(v.data(), v.size()) : tg_parse_ix(v.data(), v.size(), ix);
}
static void same_geom(const struct tg_geom *a, const struct tg_geom *b, const char *what) {
    const char *ea = tg_geom_error(a), *eb = tg_geom_error(b);
    if (!!ea != !!eb) fail("result", "%s: %s, but %s", what, ea ? ea : "no error", eb ? eb : "no error");
    if (ea) {
        if (strcmp(ea, eb)) fail("result", "%s: '%s' and '%s'", what, ea, eb);
        return;
    }
    if (tg_geom_typeof(a) != tg_geom_typeof(b) || tg_geom_is_feature(a) != tg_geom_is_feature(b) || tg_geom_is_featurecollection(a) != tg_geom_is_featurecollection(b))
        fail("result", "%s: different types", what);
    if (tgx::wkb(a) != tgx::wkb(b)) fail("result", "%s: different WKB", what);
    if (tgx::geojson(a) != tgx::geojson(b)) fail("result", "%s: %s and %s", what, tgx::geojson(a).c_str(), tgx::geojson(b).c_str());
    if (tgx::geobin(a) != tgx::geobin(b)) fail("result", "%s: different GeoBIN", what);
    const char *xa = tg_geom_extra_json(a), *xb = tg_geom_extra_json(b);
    if (!xa != !xb || (xa && strcmp(xa, xb))) fail("result", "%s: extra JSON %s and %s", what, xa ? xa : "none", xb ? xb : "none");
    if (tg_geom_memsize(a) != tg_geom_memsize(b)) fail("result", "%s: sizes %zu and %zu", what, tg_geom_memsize(a), tg_geom_memsize(b));
}
FACET(detect, 3, "auto-detection, and every spelling of a reader, against the reader of the format") {
    Fmt f = (Fmt)s.below(NFMT);
    GenOpt go;
    go.vals = FINITE;
    go.maxpts = 5;
    go.maxparts = s.chance(1, 60) ? 80 : 4;
    go.depth = (int)s.below(3);
    std::string d;
    bool full = true;
    if (f == GJ || f == GB || f == HGB) {
        DocOpt o;
        o.g = go;
        o.g.nodim_m = f == GJ;
        o.w = s.flip();
        Doc doc = gen_doc(s, o);
        full = !is_empty(doc.g);
        JsonStyle t;
        t.s = &s;
        t.wsp = o.w;
        t.esc = s.flip();
        d = text(doc, t);
        if (f != GJ) {
            tgx::G g(tg_parse_geojsonn(d.data(), d.size()));
            d = tgx::geobin(g);
            if (f == HGB && !d.empty() && d[0] == 1) f = HX;
        }
        if (f == HGB || f == HX) d = tohex(d, &s);
    } else {
        go.vals = f == WT ? FINITE : ANY;
        M g = gen(s, go, go.depth);
        full = !is_empty(g);
        TxtStyle t;
        t.s = &s;
        t.wsp = s.flip();
        t.mixcase = s.flip();
        d = f == WT ? wkt(g, t) : wkb(g, s.flip() ? &s : nullptr, s.flip());
        if (f == HX) d = tohex(d, &s);
    }
    if (f <= WT && s.chance(1, 3)) d = js::ws(s, true) + d + js::ws(s, true);
    // Damage beyond the head, where the format can no longer be in doubt.
    size_t head = f == WB || f == GB ? 1 : 17;
    if (s.chance(1, 4) && d.size() > head + 1) {
        size_t at = head + s.below(d.size() - head);
        switch (s.below(3)) {
        case 0: d.resize(at); break;
        case 1: d[at] = (char)(1 + s.below(255)); break;
        default: d.insert(at, 1, (char)(1 + s.below(255)));
        }
        c.label("damaged");
    } else if (full) c.interesting();
    if (f <= WT && s.chance(1, 20)) d.insert(0, s.size(1, 2000), " \n\t\r"[s.below(4)]);
    c.note(std::string(FN[f]) + " " + (f == WB || f == GB ? tohex(cut(d)) : cut(d)));
    c.label(FN[f]);
    enum tg_index ix = any_ix(s);
    tgx::G want(read(f, d, ix, 0));
    tgx::G got(detect(d, ix, 0));
    same_geom(want, got, "auto-detected");
    tgx::G dflt(read(f, d, TG_DEFAULT, 0)), dd(detect(d, TG_DEFAULT, 1));
    same_geom(dflt, dd, "auto-detected without an indexing option");
    for (int how = 1; how < 4; how++) {
        if (how >= 2 && f != WB && f != GB && d.find('\0') != std::string::npos) continue;
        tgx::G g(read(f, d, ix, how));
        same_geom(how == 3 ? want : dflt, g, how == 1 ? "reader without indexing option" : how == 2 ? "reader of terminated text" : "reader of terminated text with indexing option");
        if (f == WB || f == GB) break;
    }
}
// ------------------------------------------------------------------ agreement
struct Form {
    tgx::G g;
    const char *how;
};
// One geometry as every format can deliver it, the constructors first.
static std::vector<Form> forms(Src &s, const M &g, bool spell) {
    std::vector<Form> v;
    auto put = [&](struct tg_geom *t, const char *how) {
        v.push_back({tgx::G(t), how});
        if (tg_geom_error(v.back().g)) fail("rejected", "%s: %s", how, tg_geom_error(v.back().g));
    };
    put(build(g, any_ix(s)), "constructors");
    Src *sp = spell ? &s : nullptr;
    JsonStyle j;
    TxtStyle t;
    j.s = t.s = sp;
    j.wsp = t.wsp = j.esc = t.mixcase = spell && s.flip();
    std::string d = wkb(g, sp, spell && s.flip());
    put(read(WB, d, any_ix(s), 0), "WKB");
    put(read(HX, tohex(d, sp), any_ix(s), 0), "hex");
    put(read(WT, wkt(g, t), any_ix(s), 0), "WKT");
    d = json_geom(g, j);
    put(read(GJ, d, any_ix(s), 0), "GeoJSON");
    put(read(GJ, "{\"type\":\"Feature\",\"geometry\":" + d + ",\"properties\":{\"a\":[1,2]}}", any_ix(s), 0), "GeoJSON feature");
    d = tgx::geobin(v[0].g);
    put(read(GB, d, any_ix(s), 0), "GeoBIN");
    put(read(HGB, tohex(d, sp), any_ix(s), 0), "hex of GeoBIN");
    put(detect(tgx::wkt(v[0].g), any_ix(s), 0), "written WKT");
    put(detect(tgx::geojson(v[1].g), any_ix(s), 0), "written GeoJSON");
    put(detect(tgx::hex(v[4].g), any_ix(s), 0), "written hex");
    put(detect(tgx::wkb(v[3].g), any_ix(s), 0), "written WKB");
    put(detect(tgx::geobin(v[5].g), any_ix(s), 0), "GeoBIN of a feature");
    put(tg_geom_copy(v[s.below(v.size())].g), "copy");
    return v;
}
static bool some_lone_m(const M &g) {
    if (g.m && !g.z) return true;
    for (auto &k : g.kids)
        if (some_lone_m(k)) return true;
    return false;
}
static void all_empty_flat(M &g) { // text formats keep no dimension of nothing
    if (g.type == TG_GEOMETRYCOLLECTION) {
        for (auto &k : g.kids) all_empty_flat(k);
        return;
    }
    if (!g.empty && nparts(g) == 0) g.z = g.m = false;
}
FACET(agree, 3, "one geometry through every format and the constructors: structure, coordinates, rectangle, WKB, text") {
    GenOpt o;
    o.vals = s.flip() ? SMALL : FINITE;
    o.maxpts = s.chance(1, 30) ? 100 : 6;
    o.maxparts = s.chance(1, 30) ? 90 : 4;
    o.depth = (int)s.below(3);
    o.nodim_m = true;
    M g = gen_top(s, o);
    all_empty_flat(g);
    holes_inside(g);
    c.note(show(g));
    if (!is_empty(g)) c.interesting();
    auto v = forms(s, g, true);
    CmpOpt co;
    co.zero_sign = false;
    std::string w0 = tgx::wkb(v[0].g), t0 = tgx::wkt(v[0].g), j0;
    struct tg_rect r0 = tg_geom_rect(v[0].g);
    double mn[4] = {0}, mx[4] = {0};
    int d0 = tg_geom_fullrect(v[0].g, mn, mx);
    for (auto &f : v) {
        co.path = f.how;
        compare(g, f.g, co);
        // -0 is written as 0 in text, so bytes may only differ there
        std::string w = tgx::wkb(f.g);
        bool text = strstr(f.how, "written") || strstr(f.how, "copy");
        if (w.size() != w0.size() || (!text && w != w0)) fail("wkb", "%s: WKB %s, expected %s", f.how, tohex(w).c_str(), tohex(w0).c_str());
        if (tgx::wkt(f.g) != t0) fail("wkt", "%s: %s, expected %s", f.how, tgx::wkt(f.g).c_str(), t0.c_str());
        if (!strstr(f.how, "feature") && !strstr(f.how, "copy")) {
            std::string j = tgx::geojson(f.g);
            if (j0.empty()) j0 = j;
            if (j != j0) fail("geojson", "%s: %s, expected %s", f.how, j.c_str(), j0.c_str());
        }
        struct tg_rect r = tg_geom_rect(f.g);
        if (!is_empty(g) && (r.min.x != r0.min.x || r.min.y != r0.min.y || r.max.x != r0.max.x || r.max.y != r0.max.y)) fail("rect", "%s: rectangle", f.how);
        double a[4] = {0}, b[4] = {0};
        int d = tg_geom_fullrect(f.g, a, b);
        if (d != d0) fail("rect", "%s: full rectangle has %d dimensions, expected %d", f.how, d, d0);
        for (int i = 0; i < d && !is_empty(g); i++)
            if (a[i] != mn[i] || b[i] != mx[i]) fail("rect", "%s: dimension %d of the full rectangle", f.how, i);
    }
}
FACET(lone_m, 1, "geometries with M but no Z through the formats that can say so") {
    GenOpt o;
    o.vals = s.flip() ? SMALL : FINITE;
    o.maxpts = 6;
    o.depth = (int)s.below(3);
    M g = gen_top(s, o);
    all_empty_flat(g);
    c.note(show(g));
    if (!is_empty(g) && some_lone_m(g)) c.interesting();
    TxtStyle t;
    t.s = &s;
    t.wsp = s.flip();
    tgx::G a(build(g, any_ix(s)));
    std::string w = wkb(g), want = tgx::wkb(a), b = tgx::geobin(a);
    tgx::G v[] = {tgx::G(read(WB, w, any_ix(s), 0)), tgx::G(read(HX, tohex(w, &s), any_ix(s), 0)), tgx::G(read(WT, wkt(g, t), any_ix(s), 0)),
                  tgx::G(read(GB, b, any_ix(s), 0)), tgx::G(detect(tohex(b, &s), any_ix(s), 0)), tgx::G(detect(tgx::wkt(a), any_ix(s), 0))};
    CmpOpt co;
    co.zero_sign = false;
    int i = 0;
    for (auto &f : v) {
        co.path = "form " + std::to_string(i++);
        compare(g, f, co);
        if (i <= 5 && tgx::wkb(f) != want) fail("wkb", "%s", co.path.c_str());
    }
}
// ------------------------------------------------------------------ predicates
static V4 v4(geo::P p) {
    V4 v;
    v.x = (double)p.x;
    v.y = (double)p.y;
    return v;
}
static M to_m(const Col &c) {
    M g;
    g.type = c.type;
    g.empty = c.empty;
    if (c.empty) return g;
    for (auto &p : c.parts) {
        Rings r;
        if (p.kind == geo::POINT) r = Rings{Seq{v4(p.pt)}};
        else if (p.kind == geo::LINE) {
            r.resize(1);
            for (auto &q : p.line) r[0].push_back(v4(q));
        } else
            for (auto &ring : p.rings) {
                r.emplace_back();
                for (auto &q : ring) r.back().push_back(v4(q));
            }
        g.parts.push_back(r);
    }
    for (auto &k : c.kids) g.kids.push_back(to_m(k));
    return g;
}
FACET(predicates, 2, "two geometries, each through every format: all predicates, measures and searches alike") {
    int n = 3 + (int)s.below(10);
    Col a, b;
    if (s.flip()) {
        pairs::Pair p = s.chance(1, 3) ? pairs::gen_big(s, 20 + (int)s.below(60)) : pairs::gen_small(s);
        a = coll::single(p.a);
        b = coll::single(p.b);
        n = 30;
    } else {
        a = coll::gen_col(s, n, 2, 5, true);
        b = coll::gen_col(s, n, 2, 5, true);
    }
    M ma = to_m(a), mb = to_m(b);
    c.note(cut(show(ma) + " with " + show(mb)));
    if (!is_empty(ma) && !is_empty(mb)) c.interesting();
    auto fa = forms(s, ma, false), fb = forms(s, mb, false);
    unsigned want = coll::answers(fa[0].g, fb[0].g), rev = coll::answers(fb[0].g, fa[0].g);
    for (size_t i = 0; i < fa.size(); i++) {
        const Form &x = fa[i], &y = fb[s.below(fb.size())], &z = fb[i];
        for (const Form *q : {&y, &z}) {
            std::string how = std::string(x.how) + " with " + q->how;
            coll::same_answers(want, coll::answers(x.g, q->g), "predicate", how.c_str());
            coll::same_answers(rev, coll::answers(q->g, x.g), "predicate", (how + ", other way round").c_str());
        }
        double px = (double)s.range(0, n), py = (double)s.range(0, n);
        if (tg_geom_intersects_xy(x.g, px, py) != tg_geom_intersects_xy(fa[0].g, px, py)) fail("predicate", "%s: intersects_xy %g %g", x.how, px, py);
        struct tg_rect r = {{px, py}, {px + (double)s.below(5), py + (double)s.below(5)}};
        if (tg_geom_intersects_rect(x.g, r) != tg_geom_intersects_rect(fa[0].g, r)) fail("predicate", "%s: intersects_rect %g %g", x.how, px, py);
    }
}
