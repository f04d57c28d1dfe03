// GeoJSON documents: geometries, features and feature collections with foreign
// members, as a model, as text, and judged from text.
#pragma once
#include "model.hpp"
namespace feat {
using namespace mdl;
struct Mem {
    std::string key; // the name
    std::string val; // the exact text of the value
};
struct Doc {
    enum K { GEOM, FEAT, FC } k = GEOM;
    M g;                   // GEOM: the geometry; FEAT, FC: what the library makes of it
    std::vector<Doc> kids; // members of a collection; the geometry of a feature
    bool null_geom = false;
    int props = 0;         // 0 absent, 1 null, 2 empty object, 3 object with members
    std::string propval, id;
    std::vector<Mem> mem;  // foreign members
};
struct DocOpt {
    GenOpt g;
    bool w = false;        // white space inside values
    int members = 3;
    bool kid_mem = true;   // foreign members on members of geometry collections
};
inline void gen_mem(Src &s, const DocOpt &o, std::vector<Mem> &mem, const std::vector<std::string> &taken) {
    if (s.flip()) return;
    static const std::vector<std::string> names = {"bbox", "name", "foo", "crs", "Type", "ID", "Properties", "coordinate", "x\u00e9", "a b", "",
                                                   "coordinates", "geometries", "geometry", "features", "properties", "id", "q\"q", "b\\s", "t/y"};
    int n = 1 + (int)s.below(o.members);
    for (int i = 0; i < n; i++) {
        Mem m;
        m.key = s.pick(names);
        bool dup = std::find(taken.begin(), taken.end(), m.key) != taken.end();
        for (auto &x : mem) dup = dup || x.key == m.key;
        if (dup) continue;
        m.val = s.chance(1, 300) ? "\"" + std::string(s.size(60, 12000), 'v') + "\"" : js::gen_value(s, 2, o.w);
        mem.push_back(m);
    }
}
inline Doc gen_geom(Src &s, const DocOpt &o, int depth, bool kid = false) {
    Doc d;
    d.k = Doc::GEOM;
    GenOpt go = o.g;
    go.depth = 0;
    d.g = gen_top(s, go, 6000);
    if (d.g.type == TG_GEOMETRYCOLLECTION) d.g = gen(s, go, 0); // those are made below
    if (depth > 0 && s.chance(1, 6)) {
        d.g = M();
        d.g.type = TG_GEOMETRYCOLLECTION;
        int n = s.size(0, o.g.maxparts);
        for (int i = 0; i < n; i++) {
            d.kids.push_back(gen_geom(s, o, depth - 1, true));
            d.g.kids.push_back(d.kids.back().g);
        }
    }
    if (!kid || o.kid_mem) gen_mem(s, o, d.mem, {"type", d.g.type == TG_GEOMETRYCOLLECTION ? "geometries" : "coordinates"});
    return d;
}
inline Doc gen_feature(Src &s, const DocOpt &o) {
    Doc d;
    d.k = Doc::FEAT;
    d.null_geom = s.chance(1, 8);
    if (d.null_geom) {
        d.g.type = TG_POINT;
        d.g.empty = true;
    } else {
        d.kids.push_back(gen_geom(s, o, o.g.depth));
        d.g = d.kids[0].g;
    }
    d.props = (int)s.below(4);
    switch (d.props) {
    case 1: d.propval = "null"; break;
    case 2: d.propval = s.flip() && o.w ? "{ }" : "{}"; break;
    case 3: {
        d.propval = "{" + js::ws(s, o.w);
        int n = 1 + (int)s.below(3);
        for (int i = 0; i < n; i++) {
            if (i) d.propval += "," + js::ws(s, o.w);
            d.propval += js::gen_string(s) + js::ws(s, o.w) + ":" + js::ws(s, o.w) + js::gen_value(s, 2, o.w) + js::ws(s, o.w);
        }
        d.propval += "}";
    }
    }
    if (s.flip()) d.id = s.flip() ? js::gen_string(s) : js::gen_number(s);
    gen_mem(s, o, d.mem, {"type", "geometry", "properties", "id"});
    return d;
}
inline Doc gen_fc(Src &s, const DocOpt &o) {
    Doc d;
    d.k = Doc::FC;
    d.g.type = TG_GEOMETRYCOLLECTION;
    int n = s.size(0, o.g.maxparts);
    for (int i = 0; i < n; i++) {
        d.kids.push_back(gen_feature(s, o));
        d.g.kids.push_back(d.kids.back().g);
    }
    gen_mem(s, o, d.mem, {"type", "features"});
    return d;
}
inline Doc gen_doc(Src &s, const DocOpt &o) {
    switch (s.below(4)) {
    case 0: return gen_geom(s, o, o.g.depth);
    case 1: return gen_fc(s, o);
    default: return gen_feature(s, o);
    }
}
inline std::string text(const Doc &d, const JsonStyle &t) {
    std::vector<std::pair<std::string, std::string>> mem;
    auto list = [&]() {
        std::string o = "[" + jw(t);
        for (size_t i = 0; i < d.kids.size(); i++) {
            if (i) o += "," + jw(t);
            o += text(d.kids[i], t) + jw(t);
        }
        return o + "]";
    };
    switch (d.k) {
    case Doc::GEOM:
        mem.push_back({jlit(t, "type"), jlit(t, json_name(d.g.type))});
        if (d.g.type == TG_GEOMETRYCOLLECTION) mem.push_back({jlit(t, "geometries"), list()});
        else mem.push_back({jlit(t, "coordinates"), json_coords(d.g, t)});
        break;
    case Doc::FEAT:
        mem.push_back({jlit(t, "type"), jlit(t, "Feature")});
        mem.push_back({jlit(t, "geometry"), d.null_geom ? "null" : text(d.kids[0], t)});
        if (d.props) mem.push_back({jlit(t, "properties"), d.propval});
        if (!d.id.empty()) mem.push_back({jlit(t, "id"), d.id});
        break;
    case Doc::FC:
        mem.push_back({jlit(t, "type"), jlit(t, "FeatureCollection")});
        mem.push_back({jlit(t, "features"), list()});
    }
    for (auto &m : d.mem) mem.push_back({jlit(t, m.key.c_str()), m.val});
    return json_obj(mem, t);
}
// ---------------------------------------------------- judging written GeoJSON
inline bool j_pos(const js::V &v, V4 &p, int &dims) {
    if (v.t != js::V::ARR) return false;
    int n = (int)v.arr.size();
    if (n < 2 || n > 4 || (dims && n != dims)) return false;
    dims = n;
    double d[4] = {0};
    for (int i = 0; i < n; i++) {
        if (v.arr[i].t != js::V::NUM) return false;
        d[i] = v.arr[i].num;
    }
    p.x = d[0];
    p.y = d[1];
    p.z = d[2];
    p.m = d[3];
    return true;
}
inline bool j_seq(const js::V &v, Seq &q, int &dims) {
    if (v.t != js::V::ARR) return false;
    for (auto &e : v.arr) {
        V4 p;
        if (!j_pos(e, p, dims)) return false;
        q.push_back(p);
    }
    return true;
}
inline bool j_rings(const js::V &v, Rings &r, int &dims) {
    if (v.t != js::V::ARR) return false;
    for (auto &e : v.arr) {
        Seq q;
        if (!j_seq(e, q, dims)) return false;
        r.push_back(q);
    }
    return true;
}
// The geometry a GeoJSON geometry object describes; foreign members only if `more`.
inline bool j_geom(const js::V &v, M &g, bool more) {
    if (v.t != js::V::OBJ || (!more && v.obj.size() != 2)) return false;
    const js::V *t = v.get("type");
    if (!t || t->t != js::V::STR) return false;
    g.type = 0;
    for (int k = 1; k <= 7; k++)
        if (t->str == json_name(k)) g.type = k;
    if (!g.type) return false;
    const js::V *co = v.get(g.type == TG_GEOMETRYCOLLECTION ? "geometries" : "coordinates");
    if (!co || co->t != js::V::ARR) return false;
    if (co->arr.empty()) {
        g.empty = true;
        return true;
    }
    int dims = 0;
    switch (g.type) {
    case TG_POINT: {
        V4 p;
        if (!j_pos(*co, p, dims)) return false;
        g.parts = {Rings{Seq{p}}};
        break;
    }
    case TG_LINESTRING: {
        Seq q;
        if (!j_seq(*co, q, dims)) return false;
        g.parts = {Rings{q}};
        break;
    }
    case TG_POLYGON: {
        Rings r;
        if (!j_rings(*co, r, dims)) return false;
        g.parts = {r};
        break;
    }
    default:
        for (auto &e : co->arr) {
            if (g.type == TG_GEOMETRYCOLLECTION) {
                M k;
                if (!j_geom(e, k, more)) return false;
                g.kids.push_back(k);
                continue;
            }
            Rings r;
            V4 p;
            Seq q;
            bool ok = g.type == TG_MULTIPOINT ? j_pos(e, p, dims) : g.type == TG_MULTILINESTRING ? j_seq(e, q, dims) : j_rings(e, r, dims);
            if (!ok) return false;
            if (g.type == TG_MULTIPOINT) r = Rings{Seq{p}};
            if (g.type == TG_MULTILINESTRING) r = Rings{q};
            g.parts.push_back(r);
        }
    }
    g.z = dims >= 3;
    g.m = dims == 4;
    return true;
}
// Equal but for the sign of zero, and for how emptiness came about.
inline bool same(const M &a, const M &b) {
    if (a.type != b.type) return false;
    bool ea = a.empty || nparts(a) == 0, eb = b.empty || nparts(b) == 0;
    if (ea || eb) return ea == eb;
    if (a.kids.size() != b.kids.size()) return false;
    for (size_t i = 0; i < a.kids.size(); i++)
        if (!same(a.kids[i], b.kids[i])) return false;
    if (a.type == TG_GEOMETRYCOLLECTION) return true;
    if (a.z != b.z || a.m != b.m || a.parts.size() != b.parts.size()) return false;
    for (size_t i = 0; i < a.parts.size(); i++) {
        if (a.parts[i].size() != b.parts[i].size()) return false;
        for (size_t j = 0; j < a.parts[i].size(); j++) {
            if (a.parts[i][j].size() != b.parts[i][j].size()) return false;
            for (size_t k = 0; k < a.parts[i][j].size(); k++) {
                const V4 &p = a.parts[i][j][k], &q = b.parts[i][j][k];
                if (p.x != q.x || p.y != q.y || (a.z && p.z != q.z) || (a.m && p.m != q.m)) return false;
            }
        }
    }
    return true;
}
// Exactly these members, each once, with exactly these texts.
inline void exact_members(const std::vector<Mem> &want, const js::V &v, const char *where) {
    if (v.t != js::V::OBJ) fail("members", "%s: not an object: %s", where, v.raw.c_str());
    for (size_t i = 0; i < v.obj.size(); i++) {
        const std::string &k = v.obj[i].first.str;
        for (size_t j = 0; j < i; j++)
            if (v.obj[j].first.str == k) fail("members", "%s: member %s appears twice", where, k.c_str());
        bool ok = false;
        for (auto &m : want)
            if (m.key == k) {
                ok = true;
                if (!m.val.empty() && m.val != v.obj[i].second.raw)
                    fail("members", "%s: member %s is %s, expected %s", where, k.c_str(), v.obj[i].second.raw.c_str(), m.val.c_str());
            }
        if (!ok) fail("members", "%s: unexpected member %s", where, k.c_str());
    }
    for (auto &m : want)
        if (!v.get(m.key.c_str())) fail("members", "%s: member %s is missing", where, m.key.c_str());
}
inline void expect(const Doc &d, const js::V &v) {
    std::vector<Mem> want = d.mem;
    want.push_back({"type", d.k == Doc::FEAT ? "\"Feature\"" : d.k == Doc::FC ? "\"FeatureCollection\"" : std::string("\"") + json_name(d.g.type) + "\""});
    if (d.k == Doc::FEAT) {
        want.push_back({"geometry", d.null_geom ? "null" : ""});
        want.push_back({"properties", d.props == 3 ? d.propval : d.props == 1 ? "null" : "{}"});
        if (!d.id.empty()) want.push_back({"id", d.id});
        exact_members(want, v, "Feature");
        if (!d.null_geom) expect(d.kids[0], *v.get("geometry"));
        return;
    }
    const char *list = d.k == Doc::FC ? "features" : d.g.type == TG_GEOMETRYCOLLECTION ? "geometries" : "coordinates";
    want.push_back({list, ""});
    exact_members(want, v, d.k == Doc::FC ? "FeatureCollection" : json_name(d.g.type));
    const js::V *l = v.get(list);
    if (d.k == Doc::FC || d.g.type == TG_GEOMETRYCOLLECTION) {
        if (l->t != js::V::ARR || l->arr.size() != d.kids.size()) fail("members", "%s has %zu members, expected %zu", list, l->arr.size(), d.kids.size());
        for (size_t i = 0; i < d.kids.size(); i++) expect(d.kids[i], l->arr[i]);
        return;
    }
    M own;
    if (!j_geom(v, own, true)) fail("malformed", "not a geometry: %s", v.raw.c_str());
    if (!same(own, m_as_z(d.g))) fail("differs", "%s was written as %s", show(d.g).c_str(), v.raw.c_str());
}
// What tg_geom_extra_json must say about the geometry made from d.
inline void expect_extra_text(const Doc &d, const char *x) {
    std::vector<Mem> a = d.mem, b;
    if (d.k == Doc::FEAT) {
        if (d.props == 3) a.push_back({"properties", d.propval});
        if (!d.id.empty()) a.push_back({"id", d.id});
        if (!d.null_geom) b = d.kids[0].mem;
    }
    if (a.empty() && b.empty()) {
        if (x) fail("extra", "extra JSON %s where there is none", x);
    } else {
        if (!x) fail("extra", "no extra JSON");
        js::V v;
        if (!js::parse(x, v)) fail("extra", "extra JSON is not JSON: %s", x);
        if (b.empty()) {
            exact_members(a, v, "extra JSON");
        } else {
            if (v.t != js::V::ARR || v.arr.size() != 2) fail("extra", "extra JSON of a feature and its geometry: %s", x);
            exact_members(a, v.arr[0], "extra JSON of the feature");
            exact_members(b, v.arr[1], "extra JSON of the geometry");
        }
    }
}
inline void expect_extra(const Doc &d, const struct tg_geom *t) {
    if (tg_geom_is_feature(t) != (d.k == Doc::FEAT) || tg_geom_is_featurecollection(t) != (d.k == Doc::FC))
        fail("kind", "is_feature %d, is_featurecollection %d", tg_geom_is_feature(t), tg_geom_is_featurecollection(t));
    expect_extra_text(d, tg_geom_extra_json(t));
    const Doc *col = &d;
    if (d.k == Doc::FEAT && !d.null_geom) col = &d.kids[0];
    if (col->g.type == TG_GEOMETRYCOLLECTION && !col->g.empty)
        for (size_t i = 0; i < col->kids.size(); i++) expect_extra(col->kids[i], tg_geom_geometry_at(t, (int)i));
}
} // namespace feat
