// C05: features and extra members survive.
#include "feat.hpp"
using namespace feat;
PBT_MAIN("C05", "the document has a feature, or members that are not part of the geometry")

static enum tg_index any_ix(Src &s) {
    static const enum tg_index k[] = {TG_DEFAULT, TG_NONE, TG_NATURAL, TG_YSTRIPES};
    return k[s.below(4)];
}
static std::string cut(const std::string &t) { return t.size() > 1200 ? t.substr(0, 1200) + "..." : t; }
static DocOpt opts(Src &s) {
    DocOpt o;
    o.g.vals = s.flip() ? SMALL : FINITE;
    o.g.nodim_m = true;
    o.g.maxpts = 5;
    o.g.maxparts = 4;
    o.g.depth = (int)s.below(3);
    if (s.chance(1, 60)) o.g.maxparts = 90;
    o.w = s.flip();
    return o;
}
static JsonStyle style(Src &s) {
    JsonStyle t;
    t.s = &s;
    t.wsp = s.flip();
    t.esc = s.chance(1, 3);
    return t;
}
static bool nontrivial(const Doc &d) {
    if (d.k != Doc::GEOM || !d.mem.empty()) return true;
    for (auto &k : d.kids)
        if (nontrivial(k)) return true;
    return false;
}
static void check_text(const Doc &d, const std::string &out) {
    js::V v;
    if (!js::parse(out, v)) fail("malformed", "not JSON: %s", cut(out).c_str());
    try {
        expect(d, v);
    } catch (pbt::Fail &f) {
        f.msg += "; written: " + cut(out);
        throw f;
    }
}
static Doc gen_any(Src &s, pbt::Ctx &c, std::string &txt) {
    DocOpt o = opts(s);
    Doc d = gen_doc(s, o);
    txt = text(d, style(s));
    c.note(cut(txt));
    if (nontrivial(d)) c.interesting();
    c.label(d.k == Doc::GEOM ? "geometry" : d.k == Doc::FEAT ? "feature" : "featurecollection");
    return d;
}
FACET(survive, 6, "a GeoJSON document with features, ids, properties and foreign members, read, inspected, written and judged, then read and written again") {
    std::string txt;
    Doc d = gen_any(s, c, txt);
    std::vector<char> exact(txt.begin(), txt.end());
    tgx::G t(s.flip() ? tg_parse_geojson_ix(txt.c_str(), any_ix(s)) : tg_parse_geojsonn_ix(exact.data(), exact.size(), any_ix(s)));
    exact.clear();
    exact.shrink_to_fit();
    txt.assign(txt.size(), 'X'); // the geometry does not refer to the text
    txt.clear();
    compare(d.g, t);
    expect_extra(d, t);
    if (s.chance(1, 4)) tg_env_set_print_fixed_floats(true);
    std::string out = tgx::geojson(t);
    check_text(d, out);
    tgx::G t2(tg_parse_geojson_ix(out.c_str(), any_ix(s)));
    CmpOpt co;
    co.zero_sign = false;
    compare(d.g, t2, co);
    expect_extra(d, t2);
    std::string out2 = tgx::geojson(t2);
    if (out2 != out) fail("unstable", "%s rewritten as %s", cut(out).c_str(), cut(out2).c_str());
}
FACET(duplicates, 3, "clones and copies of a parsed document, after the original is freed") {
    std::string txt;
    Doc d = gen_any(s, c, txt);
    tgx::G t(tg_parse_geojson_ix(txt.c_str(), any_ix(s)));
    std::string want = tgx::geojson(t);
    tgx::G cl(tg_geom_clone(t)), cp(tg_geom_copy(t));
    if (s.flip()) t = tgx::G();
    compare(d.g, cl);
    expect_extra(d, cl);
    compare(d.g, cp);
    expect_extra(d, cp);
    if (tgx::geojson(cl) != want) fail("clone", "a clone writes %s", cut(tgx::geojson(cl)).c_str());
    if (tgx::geojson(cp) != want) fail("copy", "a copy writes %s", cut(tgx::geojson(cp)).c_str());
    // members are documents of their own
    if (d.k == Doc::FC && !d.kids.empty()) {
        size_t i = s.below(d.kids.size());
        tgx::G m(s.flip() ? tg_geom_clone(tg_geom_geometry_at(cl, (int)i)) : tg_geom_copy(tg_geom_geometry_at(cp, (int)i)));
        cl = tgx::G();
        cp = tgx::G();
        expect_extra(d.kids[i], m);
        check_text(d.kids[i], tgx::geojson(m));
    }
}
FACET(composed, 2, "parsed documents put into a geometry collection by the constructor") {
    int n = s.size(0, 5);
    std::vector<Doc> ds;
    std::vector<tgx::G> gs;
    Doc all;
    all.k = Doc::GEOM;
    all.g.type = TG_GEOMETRYCOLLECTION;
    std::string txt;
    for (int i = 0; i < n; i++) {
        ds.push_back(gen_any(s, c, txt));
        gs.push_back(tgx::G(tg_parse_geojson_ix(txt.c_str(), any_ix(s))));
        all.g.kids.push_back(ds.back().g);
    }
    std::vector<struct tg_geom *> v;
    for (auto &g : gs) v.push_back(g);
    tgx::G t(tg_geom_new_geometrycollection(v.data(), n));
    gs.clear();
    compare(all.g, t);
    all.kids = ds;
    if (!all.g.kids.empty()) {
        expect_extra(all, t);
        check_text(all, tgx::geojson(t));
    }
}
FACET(again, 1, "a feature in which id, properties or a foreign member is given more than once") {
    // Such a text may be refused; what is read must have one id and one set of
    // properties, each of them one of those that were given.
    DocOpt o = opts(s);
    Doc d = gen_feature(s, o);
    JsonStyle t = style(s);
    std::vector<std::pair<std::string, std::string>> mem;
    mem.push_back({jlit(t, "type"), jlit(t, "Feature")});
    mem.push_back({jlit(t, "geometry"), d.null_geom ? "null" : text(d.kids[0], t)});
    std::vector<std::string> ids, props;
    int n = (int)s.below(4), m = (int)s.below(4);
    for (int i = 0; i < n; i++) {
        ids.push_back(s.flip() ? js::gen_string(s) : js::gen_number(s));
        mem.push_back({jlit(t, "id"), ids.back()});
    }
    for (int i = 0; i < m; i++) {
        props.push_back(s.chance(1, 4) ? "null" : s.chance(1, 4) ? "{}" : "{\"p\":" + js::gen_value(s, 1, false) + "}");
        mem.push_back({jlit(t, "properties"), props.back()});
    }
    if (n > 1 || m > 1) c.interesting();
    std::string txt = json_obj(mem, t);
    c.note(cut(txt));
    tgx::G g(tg_parse_geojson_ix(txt.c_str(), any_ix(s)));
    if (tg_geom_error(g)) {
        if (n < 2 && m < 2) fail("rejected", "%s", tg_geom_error(g));
        return;
    }
    compare(d.g, g);
    const char *x = tg_geom_extra_json(g);
    js::V xv;
    if (x && (!js::parse(x, xv) || (xv.t != js::V::OBJ && xv.t != js::V::ARR))) fail("extra", "extra JSON is not JSON: %s", x);
    if (x) {
        const js::V &own = xv.t == js::V::ARR ? xv.arr.at(0) : xv;
        for (size_t i = 0; i < own.obj.size(); i++)
            for (size_t j = 0; j < i; j++)
                if (own.obj[i].first.str == own.obj[j].first.str) fail("extra", "%s appears twice: %s", own.obj[i].first.str.c_str(), x);
    }
    std::string out = tgx::geojson(g);
    js::V v;
    if (!js::parse(out, v)) fail("malformed", "not JSON: %s", cut(out).c_str());
    int ni = 0, np = 0, nt = 0, ng = 0;
    for (auto &kv : v.obj) {
        const std::string &k = kv.first.str;
        if (k == "id") {
            ni++;
            if (std::find(ids.begin(), ids.end(), kv.second.raw) == ids.end()) fail("again", "an id that was not given: %s", cut(out).c_str());
        } else if (k == "properties") {
            np++;
            bool ok = m == 0 ? kv.second.raw == "{}" : std::find(props.begin(), props.end(), kv.second.raw) != props.end();
            if (!ok) fail("again", "properties that were not given: %s", cut(out).c_str());
        } else if (k == "type") nt++;
        else if (k == "geometry") ng++;
        else fail("again", "unexpected member: %s", cut(out).c_str());
    }
    if (ni != (n > 0) || np != 1 || nt != 1 || ng != 1) fail("again", "%d ids and %d properties, of %d and %d, are written as %s", ni, np, n, m, cut(out).c_str());
    tgx::G t2(tg_parse_geojson_ix(out.c_str(), any_ix(s)));
    if (tgx::geojson(t2) != out) fail("unstable", "%s rewritten as %s", cut(out).c_str(), cut(tgx::geojson(t2)).c_str());
}
