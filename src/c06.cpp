// C06: GeoBIN is encoded and decoded losslessly.
#include "feat.hpp"
using namespace feat;
PBT_MAIN("C06", "the document has a coordinate")

static enum tg_index any_ix(Src &s) {
    static const enum tg_index k[] = {TG_DEFAULT, TG_NONE, TG_NATURAL, TG_YSTRIPES};
    return k[s.below(4)];
}
static std::string cut(const std::string &t) { return t.size() > 1200 ? t.substr(0, 1200) + "..." : t; }
static DocOpt opts(Src &s) {
    DocOpt o;
    o.g.vals = s.flip() ? SMALL : FINITE;
    o.g.maxpts = 5;
    o.g.maxparts = 4;
    o.g.depth = (int)s.below(3);
    if (s.chance(1, 60)) o.g.maxparts = 90;
    if (s.chance(1, 60)) o.g.maxpts = 90;
    o.w = s.flip();
    o.kid_mem = false;
    return o;
}
static void inside(Doc &d) {
    holes_inside(d.g);
    for (auto &k : d.kids) inside(k);
}
// A reader of the documented layout, written from docs/GEOBIN.md.
struct Reader {
    const std::string &b;
    size_t i = 0;
    explicit Reader(const std::string &x) : b(x) {}
    void need(size_t n) {
        if (b.size() - i < n) fail("layout", "ends early: %zu bytes, %zu more needed at %zu", b.size(), n, i);
    }
    int u8() {
        need(1);
        return (uint8_t)b[i++];
    }
    double f64() {
        need(8);
        double d;
        memcpy(&d, b.data() + i, 8);
        i += 8;
        return d;
    }
    void wkb_of(const M &g) {
        std::string w = wkb(g);
        need(w.size());
        if (b.compare(i, w.size(), w)) {
            if (g.type == TG_POINT && g.empty) { // any NaN will do
                std::string got = b.substr(i, w.size());
                double x, y;
                memcpy(&x, got.data() + 5, 8);
                memcpy(&y, got.data() + 13, 8);
                if (!got.compare(0, 5, w, 0, 5) && std::isnan(x) && std::isnan(y)) {
                    i += w.size();
                    return;
                }
            }
            fail("layout", "WKB at %zu is %s, expected %s", i, tohex(b.substr(i, w.size())).c_str(), tohex(w).c_str());
        }
        i += w.size();
    }
    void doc(const Doc &d, const struct tg_geom *t) {
        if (d.k == Doc::GEOM && d.g.type == TG_POINT && d.mem.empty()) {
            wkb_of(d.g);
            return;
        }
        int head = u8(), want = d.k == Doc::FC ? 4 : d.k == Doc::FEAT ? 3 : 2;
        if (head != want) fail("layout", "head byte %d, expected %d", head, want);
        int dims = u8();
        Ext e;
        collect(d.g, e);
        double mn[4], mx[4];
        int wd = full_of(d.g, e, mn, mx);
        if (wd < 0 ? dims != 3 && dims != 4 : dims != wd) fail("layout", "%d dimensions, expected %d", dims, wd);
        for (int k = 0; k < 2 * dims; k++) {
            double v = f64(), w = k < dims ? mn[k] : mx[k - dims];
            if (k % dims >= 2 && wd < 0) continue;
            if (v != w) fail("layout", "%s of dimension %d is %.17g, expected %.17g", k < dims ? "minimum" : "maximum", k % dims, v, w);
        }
        size_t z = b.find('\0', i);
        if (z == std::string::npos) fail("layout", "extra JSON has no end");
        std::string x = b.substr(i, z - i);
        i = z + 1;
        expect_extra_text(d, x.empty() ? nullptr : x.c_str());
        if (x != (tg_geom_extra_json(t) ? tg_geom_extra_json(t) : "")) fail("layout", "extra JSON %s differs from the accessor's", x.c_str());
        if (d.k != Doc::FC) {
            wkb_of(d.g);
            return;
        }
        need(4);
        uint32_t n;
        memcpy(&n, b.data() + i, 4);
        i += 4;
        if (n != d.kids.size()) fail("layout", "%u features, expected %zu", n, d.kids.size());
        for (size_t k = 0; k < n; k++) doc(d.kids[k], tg_geom_geometry_at(t, (int)k));
    }
};
static bool same_or_nan(double a, double b) { return a == b || (a != a && b != b); }
// The helpers that look at the bytes only.
static void helpers(const std::string &b, const M &g, const struct tg_geom *t) {
    const uint8_t *p = (const uint8_t *)b.data();
    double mn[4] = {1, 2, 3, 4}, mx[4] = {5, 6, 7, 8}, a[4], z[4];
    int d = tg_geobin_fullrect(p, b.size(), mn, mx), want = tg_geom_fullrect(t, a, z);
    if (is_empty(g) && g.type == TG_POINT && b[0] == 1) return; // the rectangle of nothing
    if (d != want) fail("helpers", "tg_geobin_fullrect has %d dimensions, tg_geom_fullrect %d", d, want);
    for (int i = 0; i < d; i++)
        if (!same_or_nan(mn[i], a[i]) || !same_or_nan(mx[i], z[i])) fail("helpers", "dimension %d is %g..%g in bytes, %g..%g in the geometry", i, mn[i], mx[i], a[i], z[i]);
    struct tg_rect r = tg_geobin_rect(p, b.size()), q = tg_geom_rect(t);
    if (!same_or_nan(r.min.x, q.min.x) || !same_or_nan(r.min.y, q.min.y) || !same_or_nan(r.max.x, q.max.x) || !same_or_nan(r.max.y, q.max.y))
        fail("helpers", "tg_geobin_rect is %g %g,%g %g, tg_geom_rect %g %g,%g %g", r.min.x, r.min.y, r.max.x, r.max.y, q.min.x, q.min.y, q.max.x, q.max.y);
    bool huge = false; // where the sum of both ends overflows
    for (double v : {q.min.x, q.min.y, q.max.x, q.max.y}) huge = huge || !(fabs(v) < 8e307);
    struct tg_point u = tg_geobin_point(p, b.size()), v = tg_geom_point(t);
    // halving a sum of subnormals may round
    if (!huge && (!(fabs(u.x - v.x) <= 5e-324) || !(fabs(u.y - v.y) <= 5e-324))) fail("helpers", "tg_geobin_point is %g %g, tg_geom_point %g %g", u.x, u.y, v.x, v.y);
}
static tgx::G read_back(Src &s, const std::string &b) {
    std::vector<uint8_t> v(b.begin(), b.end());
    switch (s.below(4)) {
    case 0: return tgx::G(tg_parse_geobin(v.data(), v.size()));
    case 1: return tgx::G(tg_parse_ix(v.data(), v.size(), any_ix(s)));
    case 2: return tgx::G(tg_parse_hex_ix(tohex(b, &s).c_str(), any_ix(s)));
    default: return tgx::G(tg_parse_geobin_ix(v.data(), v.size(), any_ix(s)));
    }
}
FACET(documents, 5, "a GeoJSON document with features and extra members, as GeoBIN and back") {
    DocOpt o = opts(s);
    o.g.nodim_m = true;
    Doc d = gen_doc(s, o);
    inside(d);
    JsonStyle st;
    st.s = &s;
    st.wsp = s.chance(1, 4);
    std::string txt = text(d, st);
    c.note(cut(txt));
    if (nontriv(d.g)) c.interesting();
    tgx::G t(tg_parse_geojson_ix(txt.c_str(), any_ix(s)));
    std::string b = tgx::geobin(t);
    Reader r(b);
    r.doc(d, t);
    if (r.i != b.size()) fail("layout", "%zu bytes after the end", b.size() - r.i);
    helpers(b, d.g, t);
    tgx::G u = read_back(s, b);
    CmpOpt co;
    compare(d.g, u, co);
    Doc k = d; // a null geometry comes back as an empty point, null properties as none
    std::function<void(Doc &)> fix = [&](Doc &x) {
        if (x.props == 1) x.props = 2;
        if (x.null_geom) {
            x.null_geom = false;
            Doc p;
            p.g = x.g;
            x.kids = {p};
        }
        for (auto &y : x.kids) fix(y);
    };
    fix(k);
    expect_extra(k, u);
    js::V v;
    std::string j = tgx::geojson(u);
    if (!js::parse(j, v)) fail("malformed", "not JSON: %s", cut(j).c_str());
    if (!tg_geom_is_empty(t)) expect(k, v);
    if (tgx::geobin(u) != b) fail("unstable", "%s rewritten as %s", tohex(b).c_str(), tohex(tgx::geobin(u)).c_str());
    if (tgx::wkb(u) != tgx::wkb(t)) fail("differs", "WKB differs");
}
// GeoBIN made by another program, from docs/GEOBIN.md: any rectangle, extra JSON
// in any style, WKB of any flavour the reader knows, though little endian.
static void encode(Src &s, const Doc &d, std::string &o) {
    auto plain = [&](const M &g) {
        WkbStyle st;
        st.s = s.chance(1, 4) ? &s : nullptr;
        std::string w;
        wkb_to(w, g, st);
        if (w[0] != 1) w = wkb(g); // little endian
        return w;
    };
    if (d.k == Doc::GEOM && d.g.type == TG_POINT && d.mem.empty()) {
        o += plain(d.g);
        return;
    }
    o += (char)(d.k == Doc::FC ? 4 : d.k == Doc::FEAT ? 3 : 2);
    static const int ks[] = {2, 2, 3, 4, 0};
    int dims = ks[s.below(5)];
    o += (char)dims;
    for (int i = 0; i < 2 * dims; i++) putd(o, gen_num(s, FINITE), false);
    std::vector<Mem> a = d.mem;
    if (d.k == Doc::FEAT && d.props == 3) a.push_back({"properties", d.propval});
    if (d.k == Doc::FEAT && !d.id.empty()) a.push_back({"id", d.id});
    if (!a.empty()) {
        JsonStyle st;
        st.s = &s;
        st.wsp = s.flip();
        std::vector<std::pair<std::string, std::string>> m;
        for (size_t i = a.size(); i > 1; i--) std::swap(a[i - 1], a[s.below(i)]);
        for (auto &x : a) m.push_back({jlit(st, x.key.c_str()), x.val});
        o += json_obj(m, st);
    }
    o += '\0';
    if (d.k == Doc::FC) {
        put32(o, (uint32_t)d.kids.size(), false);
        for (auto &k : d.kids) encode(s, k, o);
    } else
        o += plain(d.g);
}
FACET(foreign, 2, "a document in GeoBIN as another program might write it, read, inspected and written") {
    DocOpt o = opts(s);
    o.g.nodim_m = true;
    Doc d = gen_doc(s, o);
    std::function<void(Doc &)> bare = [&](Doc &x) { // no members on the geometries of features
        if (x.k == Doc::FEAT && !x.kids.empty()) x.kids[0].mem.clear();
        for (auto &y : x.kids) bare(y);
    };
    bare(d);
    std::string b;
    encode(s, d, b);
    c.note(tohex(b.size() > 400 ? b.substr(0, 400) : b));
    if (nontriv(d.g)) c.interesting();
    tgx::G u = read_back(s, b);
    if (tg_geom_error(u)) fail("rejected", "%s", tg_geom_error(u));
    CmpOpt co;
    compare(d.g, u, co);
    std::function<void(Doc &)> fix = [&](Doc &x) {
        if (x.props == 1) x.props = 2;
        if (x.null_geom) {
            x.null_geom = false;
            Doc p;
            p.g = x.g;
            x.kids = {p};
        }
        for (auto &y : x.kids) fix(y);
    };
    fix(d);
    expect_extra(d, u);
    std::string again = tgx::geobin(u);
    tgx::G v = read_back(s, again);
    compare(d.g, v, co);
    expect_extra(d, v);
    if (tgx::geobin(v) != again) fail("unstable", "%s rewritten as %s", tohex(again).c_str(), tohex(tgx::geobin(v)).c_str());
}
FACET(constructed, 3, "a constructed geometry of any type, dimension and coordinate values, as GeoBIN and back") {
    GenOpt o = opts(s).g;
    bool any = s.flip();
    if (any) o.vals = ANY;
    Doc d;
    d.g = gen_top(s, o);
    if (!any) inside(d);
    c.note(show(d.g));
    if (nontriv(d.g)) c.interesting();
    tgx::G t(build(d.g, any_ix(s)));
    std::string b = tgx::geobin(t);
    if (!any) {
        Reader r(b);
        r.doc(d, t);
        if (r.i != b.size()) fail("layout", "%zu bytes after the end", b.size() - r.i);
        helpers(b, d.g, t);
    }
    tgx::G u = read_back(s, b);
    compare(d.g, u);
    if (!any && tgx::geobin(u) != b) fail("unstable", "%s rewritten as %s", tohex(b).c_str(), tohex(tgx::geobin(u)).c_str());
}
