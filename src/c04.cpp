// C04: GeoJSON geometries, read and written faithfully.
#include "feat.hpp"
using namespace feat;
PBT_MAIN("C04", "the geometry has at least one coordinate")

static GenOpt opts(Src &s) {
    GenOpt o;
    o.vals = FINITE;
    o.depth = (int)s.below(4);
    if (s.chance(1, 60)) {
        o.maxpts = 300;
    } else if (s.chance(1, 40)) {
        o.maxparts = 120;
        o.maxpts = 4;
        o.depth = 1;
    }
    return o;
}
static enum tg_index any_ix(Src &s) {
    static const enum tg_index k[] = {TG_DEFAULT, TG_NONE, TG_NATURAL, TG_YSTRIPES};
    return k[s.below(4)];
}
static std::string cut(const std::string &t) { return t.size() > 900 ? t.substr(0, 900) + "..." : t; }
static void check_read(Src &s, const M &g, const std::string &t, const CmpOpt &o) {
    enum tg_index ix = any_ix(s);
    switch (s.below(4)) {
    case 0: compare(g, tgx::G(tg_parse_geojson(t.c_str())), o); break;
    case 1: compare(g, tgx::G(tg_parse_geojson_ix(t.c_str(), ix)), o); break;
    default: {
        std::vector<char> v(t.begin(), t.end());
        compare(g, tgx::G(s.flip() ? tg_parse_geojsonn(v.data(), v.size()) : tg_parse_geojsonn_ix(v.data(), v.size(), ix)), o);
    }
    }
}
FACET(read, 5, "a GeoJSON spelling of a model geometry") {
    GenOpt o = opts(s);
    o.nodim_m = true;
    M g = gen_top(s, o);
    JsonStyle t;
    t.s = &s;
    t.wsp = s.flip();
    t.esc = s.chance(1, 3);
    t.over = s.chance(1, 8);
    std::string txt = jw(t) + json_geom(g, t) + jw(t);
    c.note(cut(txt));
    if (nontriv(g)) c.interesting();
    check_read(s, g, txt, CmpOpt());
}
FACET(foreign, 2, "a GeoJSON geometry with other members of any value around the coordinates") {
    GenOpt o = opts(s);
    o.nodim_m = true;
    o.maxpts = std::min(o.maxpts, 8);
    M g = gen_top(s, o);
    JsonStyle t;
    t.s = &s;
    t.wsp = s.flip();
    t.esc = s.chance(1, 3);
    std::vector<std::pair<std::string, std::string>> more;
    int n = (int)s.below(4);
    for (int i = 0; i < n; i++) {
        static const char *names[] = {"bbox", "name", "foo", "crs", "Type", "typ", "coordinate", "coordinatess", "geometrie", "x\u00e9"};
        more.push_back({jlit(t, names[s.below(10)]), js::gen_value(s, 2, t.wsp)});
    }
    std::string txt = json_geom(g, t, more);
    c.note(cut(txt));
    if (nontriv(g) && n) c.interesting();
    check_read(s, g, txt, CmpOpt());
}
FACET(write, 5, "a geometry made by constructors, written, judged by a strict JSON reader and read back") {
    GenOpt o = opts(s);
    M g = gen_top(s, o);
    c.note(show(g));
    if (nontriv(g)) c.interesting();
    if (s.chance(1, 4)) tg_env_set_print_fixed_floats(true);
    tgx::G t(build(g, any_ix(s)));
    std::string txt = tgx::geojson(t);
    js::V v;
    if (!js::parse(txt, v)) fail("malformed", "not JSON: %s", cut(txt).c_str());
    M own, want = m_as_z(g);
    if (!j_geom(v, own, false)) fail("malformed", "not GeoJSON: %s", cut(txt).c_str());
    if (!same(own, want)) fail("differs", "wrote %s", cut(txt).c_str());
    CmpOpt co;
    co.zero_sign = false;
    check_read(s, want, txt, co);
    tgx::G t2(tg_parse_geojson(txt.c_str()));
    if (tgx::geojson(t2) != txt) fail("unstable", "%s rewritten as %s", cut(txt).c_str(), cut(tgx::geojson(t2)).c_str());
}
