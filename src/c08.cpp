// C08: malformed documents are rejected, well-formed ones accepted.
#include "alter.hpp"
#include "feat.hpp"
#include "wktp.hpp"
using namespace feat;
using namespace alter;
PBT_MAIN("C08", "the document was altered")

static std::string cut(const std::string &t) { return t.size() > 1500 ? t.substr(0, 1500) + "..." : t; }
static enum tg_index any_ix(Src &s) {
    static const enum tg_index k[] = {TG_DEFAULT, TG_NONE, TG_NATURAL, TG_YSTRIPES};
    return k[s.below(4)];
}
enum Verdict { BAD, GOOD, EITHER };
static GenOpt small_opts(Src &s) {
    GenOpt o;
    o.vals = s.flip() ? SMALL : FINITE;
    o.maxpts = 5;
    o.maxparts = 3;
    o.depth = (int)s.below(3);
    return o;
}
static void judge(pbt::Ctx &c, Verdict v, const M *want, struct tg_geom *g, const char *why, CmpOpt co) {
    if (!g) fail("nothing", "neither a geometry nor an error");
    const char *e = tg_geom_error(g);
    if (e && !*e) fail("nothing", "an error without a message");
    c.label(v == BAD ? "malformed" : v == GOOD ? "well-formed" : "either");
    if (v == GOOD && e) fail("rejected", "well-formed, but: %s", e);
    if (v == BAD && !e) fail("accepted", "malformed (%s), but accepted as %s", why, cut(tgx::wkt(g)).c_str());
    if (v == GOOD && want) compare(*want, g, co);
}
// -------------------------------------------------------------------- GeoJSON
struct GJ { // structural rules of GeoJSON objects
    std::string why;
    bool either = false; // outside what the claim speaks about
    bool no(const char *w) {
        if (why.empty()) why = w;
        return false;
    }
    bool pos(const js::V &v, V4 &p, int &dims) {
        if (v.t != js::V::ARR) return no("position is not an array");
        size_t n = v.arr.size();
        for (auto &e : v.arr)
            if (e.t != js::V::NUM) return no("ordinate is not a number");
        if (n < 2) return no("short position");
        if (n > 4) {
            either = true;
            n = 4;
        }
        if (dims && (int)n != dims) return no("mixed dimensions");
        dims = (int)n;
        double d[4] = {0};
        for (size_t i = 0; i < n; i++) d[i] = v.arr[i].num;
        p.x = d[0], p.y = d[1], p.z = d[2], p.m = d[3];
        return true;
    }
    bool seq(const js::V &v, Seq &q, int &dims, int least, bool closed) {
        if (v.t != js::V::ARR) return no("positions are not an array");
        for (auto &e : v.arr) {
            V4 p;
            if (!pos(e, p, dims)) return false;
            q.push_back(p);
        }
        if ((int)q.size() < least) return no("too few positions");
        if (closed && (q[0].x != q.back().x || q[0].y != q.back().y)) return no("open ring");
        return true;
    }
    bool rings(const js::V &v, Rings &r, int &dims) {
        if (v.t != js::V::ARR) return no("rings are not an array");
        for (auto &e : v.arr) {
            Seq q;
            if (!seq(e, q, dims, 3, true)) return false;
            r.push_back(q);
        }
        if (r.empty()) return no("polygon without rings");
        return true;
    }
    bool top(const js::V &v, M &g, int &kind, bool geom_only, bool feat_only) { // kind 0 geometry, 1 feature, 2 collection of features
        if (v.t != js::V::OBJ) return no("not an object");
        for (size_t i = 0; i < v.obj.size(); i++)
            for (size_t j = 0; j < i; j++)
                if (v.obj[i].first.str == v.obj[j].first.str) either = true;
        const js::V *t = v.get("type");
        if (!t) return no("no type");
        if (t->t != js::V::STR) return no("type is not a string");
        int k = 0;
        for (int i = 1; i <= 7; i++)
            if (t->str == json_name(i)) k = i;
        if (t->str == "Feature") k = 8;
        if (t->str == "FeatureCollection") k = 9;
        if (!k) return no("unknown type");
        if (geom_only && k > 7) return no("feature where a geometry belongs");
        if (feat_only && k != 8) return no("only features belong here");
        kind = k < 8 ? 0 : k - 7;
        if (k == 8) {
            const js::V *ge = v.get("geometry"), *pr = v.get("properties"), *id = v.get("id");
            if (!ge) return no("no geometry");
            if (pr && pr->t != js::V::OBJ && pr->t != js::V::NUL) return no("properties");
            if (id && id->t != js::V::STR && id->t != js::V::NUM) return no("id");
            if (ge->t == js::V::NUL) {
                g = M();
                g.empty = true;
                return true;
            }
            int kk;
            return top(*ge, g, kk, true, false);
        }
        g.type = k == 9 ? 7 : k;
        const js::V *co = v.get(k == 9 ? "features" : k == 7 ? "geometries" : "coordinates");
        if (!co) return no("member missing");
        if (co->t != js::V::ARR) return no("member is not an array");
        if (co->arr.empty()) {
            g.empty = true;
            return true;
        }
        int dims = 0;
        V4 p;
        Seq q;
        Rings r;
        switch (k) {
        case 1:
            if (!pos(*co, p, dims)) return false;
            g.parts = {Rings{Seq{p}}};
            break;
        case 2:
            if (!seq(*co, q, dims, 2, false)) return false;
            g.parts = {Rings{q}};
            break;
        case 3:
            if (!rings(*co, r, dims)) return false;
            g.parts = {r};
            break;
        case 4:
            if (!seq(*co, q, dims, 0, false)) return false;
            for (auto &x : q) g.parts.push_back(Rings{Seq{x}});
            break;
        case 5:
            for (auto &e : co->arr) {
                Seq l;
                if (!seq(e, l, dims, 2, false)) return false;
                g.parts.push_back(Rings{l});
            }
            break;
        case 6:
            for (auto &e : co->arr) {
                Rings l;
                if (!rings(e, l, dims)) return false;
                g.parts.push_back(l);
            }
            break;
        default:
            for (auto &e : co->arr) {
                M m;
                int kk;
                if (!top(e, m, kk, k == 7, k == 9)) return false;
                g.kids.push_back(m);
            }
        }
        g.z = dims >= 3;
        g.m = dims == 4;
        return true;
    }
};
static Verdict gj_verdict(const std::string &t, M &g, int &kind, std::string &why) {
    js::V v;
    int depth = 0;
    if (!js::parse(t, v, &depth)) {
        why = "not JSON";
        return BAD;
    }
    GJ r;
    bool ok = r.top(v, g, kind, false, false);
    why = r.why;
    if (depth > 1000) return EITHER;
    if (!ok) return r.either ? EITHER : BAD;
    return r.either ? EITHER : GOOD;
}
static void check_gj(Src &s, pbt::Ctx &c, const std::string &t) {
    c.note(cut(t));
    M g;
    int kind = 0;
    std::string why;
    Verdict v = gj_verdict(t, g, kind, why);
    std::vector<char> b(t.begin(), t.end());
    tgx::G got(tg_parse_geojsonn_ix(b.data(), b.size(), any_ix(s)));
    CmpOpt co;
    judge(c, v, &g, got, why.c_str(), co);
    if (v == GOOD && (tg_geom_is_feature(got) != (kind == 1) || tg_geom_is_featurecollection(got) != (kind == 2))) fail("kind", "feature kind is wrong");
}
static Doc any_doc(Src &s, bool w) {
    DocOpt o;
    o.g = small_opts(s);
    o.g.nodim_m = true;
    o.w = w;
    o.members = 2;
    return gen_doc(s, o);
}
FACET(geojson_tree, 4, "a GeoJSON document with values removed, added, exchanged, nested or retyped, judged by an independent reader") {
    JsonStyle t;
    std::string d = text(any_doc(s, false), t);
    js::V v;
    if (!js::parse(d, v)) fail("harness", "%s", d.c_str());
    int n = (int)s.below(4);
    for (int i = 0; i < n; i++) alter_tree(s, v);
    if (n) c.interesting();
    check_gj(s, c, put(v));
}
// A document of geometries, features and collections of both kinds, put in each
// other's places: mostly where they belong.
static std::string kinds(Src &s, int depth, int want) { // want: 0 anything, 1 a geometry, 2 a feature
    static const char *leaf[] = {"{\"type\":\"Point\",\"coordinates\":[1,2]}", "{\"coordinates\":[[1,2],[3,4]],\"type\":\"LineString\"}",
                                 "{\"type\":\"MultiPoint\",\"coordinates\":[]}", "{\"type\":\"Point\",\"coordinates\":[1,2,3],\"a\":{}}",
                                 "{\"type\":\"Polygon\",\"coordinates\":[[[0,0],[1,0],[1,1],[0,0]]]}", "null", "[]", "{}", "{\"type\":\"Point\"}"};
    if (s.chance(1, 6)) want = 0;
    int k = want == 2 ? 2 : want == 1 ? (int)s.below(2) : (int)s.below(4);
    if (depth <= 0 || k == 0) return leaf[s.chance(1, 8) ? s.below(9) : s.below(5)];
    auto list = [&](int w) {
        std::string t = "[";
        int n = s.size(0, 3);
        for (int i = 0; i < n; i++) t += (i ? "," : "") + kinds(s, depth - 1, w);
        return t + "]";
    };
    std::vector<std::string> m;
    switch (k) {
    case 1: m = {"\"type\":\"GeometryCollection\"", "\"geometries\":" + list(1)}; break;
    case 2:
        m = {"\"type\":\"Feature\"", "\"geometry\":" + (s.chance(1, 6) ? "null" : kinds(s, depth - 1, 1))};
        if (s.flip()) m.push_back(std::string("\"properties\":") + (s.flip() ? "null" : s.flip() ? "{}" : "{\"a\":1}"));
        if (s.chance(1, 4)) m.push_back(std::string("\"id\":") + (s.flip() ? "1" : "\"x\""));
        break;
    default: m = {"\"type\":\"FeatureCollection\"", "\"features\":" + list(2)};
    }
    if (s.chance(1, 5)) m.push_back("\"foo\":{\"type\":\"Feature\"}");
    if (s.chance(1, 4)) std::rotate(m.begin(), m.begin() + s.below(m.size()), m.end());
    std::string t = "{";
    for (size_t i = 0; i < m.size(); i++) t += (i ? "," : "") + m[i];
    return t + "}";
}
FACET(geojson_kinds, 2, "geometries, features and collections in each other's places, judged by an independent reader") {
    std::string d = kinds(s, 1 + (int)s.below(4), 0);
    if (d.size() > 60) c.interesting();
    check_gj(s, c, d);
}
FACET(geojson_text, 4, "a GeoJSON text with characters changed, judged by an independent reader") {
    JsonStyle t;
    t.s = &s;
    t.wsp = s.flip();
    t.esc = s.chance(1, 3);
    std::string d = text(any_doc(s, t.wsp), t);
    int n = (int)s.below(3);
    for (int i = 0; i < n; i++) alter_text(s, d, "{}[]\",:0123456789.-+eE \t\n\\/utfnabr\x01\x1f\x7f\x80\xc3\xed\xf0");
    if (n) c.interesting();
    check_gj(s, c, d);
}
// ------------------------------------------------------------------------ WKT
FACET(wkt_text, 6, "a WKT text with characters or tokens changed, judged by an independent reader") {
    GenOpt o = small_opts(s);
    M g = gen(s, o, o.depth);
    TxtStyle t;
    t.s = s.flip() ? &s : nullptr;
    t.wsp = s.flip();
    t.mixcase = s.flip();
    std::string d = wkt(g, t);
    int n = (int)s.below(4);
    for (int i = 0; i < n; i++) {
        if (s.flip()) {
            alter_text(s, d, "(),.-+eE 0123456789ZMPTYzm\t\n");
            continue;
        }
        // a whole token in, out or exchanged
        static const std::vector<std::string> tok = {"(", ")", ",", " ", "Z", "M", "ZM", "EMPTY", "POINT", "LINESTRING", "MULTIPOINT", "GEOMETRYCOLLECTION",
                                                     "1 2", "1 2 3", "1", "()", "((", "))", "POINT EMPTY", "POINT(1 2)", "(1 2)", "1 2,", ",3 4", " EMPTY", "-", "1e5", std::string("\0x", 2)};
        std::vector<size_t> cutp;
        for (size_t k = 0; k <= d.size(); k++)
            if (k == 0 || k == d.size() || strchr("(), ", d[k]) || strchr("(), ", d[k - 1])) cutp.push_back(k);
        size_t a = s.below(cutp.size());
        size_t from = cutp[a], to = s.flip() || a + 1 >= cutp.size() ? from : cutp[a + 1];
        d.replace(from, to - from, s.chance(1, 3) ? "" : s.pick(tok));
    }
    if (n) c.interesting();
    c.note(cut(d));
    M strict, loose;
    std::string why, w2;
    bool a = wktp::parse(d, strict, &why), b = wktp::parse(d, loose, &w2, true);
    Verdict v = a ? GOOD : b ? EITHER : BAD;
    std::vector<char> buf(d.begin(), d.end());
    tgx::G got(tg_parse_wktn_ix(buf.data(), buf.size(), any_ix(s)));
    judge(c, v, &strict, got, w2.c_str(), CmpOpt());
}
// ------------------------------------------------------------------------ WKB
struct WB {
    const std::string &b;
    size_t i = 0;
    std::string why;
    bool either = false;
    explicit WB(const std::string &x) : b(x) {}
    bool no(const char *w) {
        if (why.empty()) why = std::string(w) + " at " + std::to_string(i);
        return false;
    }
    bool u32(uint32_t &v, bool be) {
        if (b.size() - i < 4) return no("cut short");
        v = 0;
        for (int k = 0; k < 4; k++) v |= (uint32_t)(uint8_t)b[i + k] << 8 * (be ? 3 - k : k);
        i += 4;
        return true;
    }
    bool pos(V4 &p, bool z, bool m, bool be) {
        int n = 2 + z + m;
        if (b.size() - i < (size_t)n * 8) return no("cut short");
        double d[4] = {0};
        for (int k = 0; k < n; k++) {
            uint64_t v = 0;
            for (int j = 0; j < 8; j++) v |= (uint64_t)(uint8_t)b[i + j] << 8 * (be ? 7 - j : j);
            d[k] = frombits(v);
            i += 8;
        }
        p.x = d[0], p.y = d[1];
        if (z) p.z = d[2];
        if (m) p.m = d[2 + z];
        return true;
    }
    bool seq(Seq &q, bool z, bool m, bool be, size_t least, bool closed, bool none) {
        uint32_t n;
        if (!u32(n, be)) return false;
        if (n > (b.size() - i) / 16) return no("cut short");
        for (uint32_t k = 0; k < n; k++) {
            V4 p;
            if (!pos(p, z, m, be)) return false;
            q.push_back(p);
        }
        if (n == 0 && none) return true;
        if (n < least) return no("too few positions");
        if (closed && !(q[0].x == q.back().x && q[0].y == q.back().y)) return no("open ring");
        return true;
    }
    bool rings(Rings &r, bool z, bool m, bool be) {
        uint32_t n;
        if (!u32(n, be)) return false;
        for (uint32_t k = 0; k < n; k++) {
            Seq q;
            if (!seq(q, z, m, be, 3, true, false)) return false;
            r.push_back(q);
        }
        return true;
    }
    bool geom(M &g, int depth) {
        if (depth > 1000) return no("too deep");
        if (i >= b.size()) return no("cut short");
        uint8_t o = (uint8_t)b[i];
        if (o > 1) return no("byte order");
        i++;
        bool be = o == 0;
        uint32_t t;
        if (!u32(t, be)) return false;
        bool ez = t & 0x80000000u, em = t & 0x40000000u, srid = t & 0x20000000u;
        t &= 0x1FFFFFFFu;
        uint32_t base = t % 1000, dim = t / 1000;
        if (base < 1 || base > 7 || dim > 3) return no("type code");
        if ((ez || em) && dim) { // both ways at once
            either = true;
            return no("type code");
        }
        g.type = (int)base;
        g.z = dim == 1 || dim == 3 || ez;
        g.m = dim >= 2 || em;
        uint32_t id;
        if (srid && !u32(id, be)) return false;
        switch (g.type) {
        case TG_POINT: {
            V4 p;
            if (!pos(p, g.z, g.m, be)) return false;
            if (std::isnan(p.x) && std::isnan(p.y) && (!g.z || std::isnan(p.z)) && (!g.m || std::isnan(p.m))) g.empty = true;
            else g.parts = {Rings{Seq{p}}};
            return true;
        }
        case TG_LINESTRING: {
            Seq q;
            if (!seq(q, g.z, g.m, be, 2, false, true)) return false;
            if (q.empty()) g.empty = true;
            else g.parts = {Rings{q}};
            return true;
        }
        case TG_POLYGON: {
            Rings r;
            if (!rings(r, g.z, g.m, be)) return false;
            if (r.empty()) g.empty = true;
            else g.parts = {r};
            return true;
        }
        default: {
            uint32_t n;
            if (!u32(n, be)) return false;
            if (n > b.size() - i) return no("cut short");
            for (uint32_t k = 0; k < n; k++) {
                M m;
                if (!geom(m, depth + 1)) return false;
                if (g.type == TG_GEOMETRYCOLLECTION) {
                    g.kids.push_back(m);
                    continue;
                }
                if (m.type != g.type - 3) return no("member type");
                if (m.empty) { // empty members are not representable
                    either = true;
                    return no("empty member");
                }
                if (m.z != g.z || m.m != g.m) return no("member dimensions");
                g.parts.push_back(m.parts[0]);
            }
            return true;
        }
        }
    }
};
static void fix_dims(M &g) { // collections themselves have no dimension; nothing has none
    if (g.type == TG_GEOMETRYCOLLECTION) g.z = g.m = false;
    if (g.empty) g.z = g.m = false;
    for (auto &k : g.kids) fix_dims(k);
}
static Verdict wb_verdict(const std::string &d, size_t at, M &g, std::string &why, size_t *end = nullptr) {
    WB r(d);
    r.i = at;
    bool ok = r.geom(g, 0);
    if (end) *end = r.i;
    why = r.why;
    fix_dims(g);
    return r.either ? EITHER : ok ? GOOD : BAD;
}
FACET(wkb_bytes, 5, "WKB with bytes, counts and codes changed, judged by an independent reader") {
    GenOpt o = small_opts(s);
    M g = gen(s, o, o.depth);
    bool odd = s.chance(1, 4);
    std::string d = wkb(g, odd || s.flip() ? &s : nullptr, s.flip(), odd);
    int n = odd ? (int)s.below(2) : (int)s.below(4);
    if (odd) c.interesting();
    for (int i = 0; i < n; i++) alter_bytes(s, d);
    if (n) c.interesting();
    bool hex = s.chance(1, 3);
    M want;
    std::string why;
    Verdict v = wb_verdict(d, 0, want, why);
    std::string in = hex ? tohex(d, &s) : d;
    if (hex && !d.empty() && d[0] >= 2 && d[0] <= 4) v = EITHER; // read as GeoBIN
    if (hex && s.chance(1, 4)) {
        size_t z = in.size();
        alter_text(s, in, "0123456789abcdefABCDEFgGxX @`/:");
        bool bad = in.size() % 2 || in.empty();
        for (char ch : in) bad = bad || !isxdigit((unsigned char)ch);
        (void)z;
        v = bad ? BAD : EITHER;
        why = "not hex";
        c.interesting();
    }
    c.note(hex ? "hex " + in : tohex(d));
    std::vector<uint8_t> buf(in.begin(), in.end());
    tgx::G got(hex ? tg_parse_hexn_ix((const char *)buf.data(), buf.size(), any_ix(s)) : tg_parse_wkb_ix(buf.data(), buf.size(), any_ix(s)));
    CmpOpt co;
    co.nan_any = true;
    judge(c, v, &want, got, why.c_str(), co);
}
// --------------------------------------------------------------------- GeoBIN
struct GB {
    const std::string &b;
    size_t i = 0;
    std::string why;
    bool either = false;
    explicit GB(const std::string &x) : b(x) {}
    bool no(const char *w) {
        if (why.empty()) why = std::string(w) + " at " + std::to_string(i);
        return false;
    }
    bool doc(M &g, int &kind, int depth) {
        if (i >= b.size()) return no("cut short");
        int head = (uint8_t)b[i];
        if (head < 1 || head > 4) return no("head byte");
        kind = head < 3 ? 0 : head - 2;
        if (head > 1) {
            i++;
            if (i >= b.size()) return no("cut short");
            int dims = (uint8_t)b[i++];
            if (dims == 1 || dims > 4) return no("dimensions");
            if (b.size() - i < (size_t)dims * 16) return no("cut short");
            i += (size_t)dims * 16;
            size_t z = b.find('\0', i);
            if (z == std::string::npos) return no("extra JSON without end");
            std::string x = b.substr(i, z - i);
            i = z + 1;
            js::V v;
            if (!x.empty() && !js::parse(x, v)) return no("extra JSON is not JSON");
            if (!x.empty() && v.t != js::V::OBJ) either = true;
        }
        if (head == 4) {
            g.type = TG_GEOMETRYCOLLECTION;
            uint32_t n = 0;
            if (b.size() - i < 4) return no("cut short");
            for (int k = 0; k < 4; k++) n |= (uint32_t)(uint8_t)b[i + k] << 8 * k;
            i += 4;
            if (n > b.size() - i) return no("cut short");
            for (uint32_t k = 0; k < n; k++) {
                if (i < b.size() && b[i] != 3) either = true; // not a feature
                M m;
                int kk;
                if (depth > 20) return no("deep");
                if (!doc(m, kk, depth + 1)) return false;
                g.kids.push_back(m);
            }
            return true;
        }
        WB w(b);
        w.i = i;
        bool ok = w.geom(g, 0);
        i = w.i;
        either = either || w.either;
        if (!ok && why.empty()) why = w.why;
        fix_dims(g);
        return ok;
    }
};
FACET(geobin_bytes, 4, "GeoBIN with bytes, counts, codes and extra JSON changed, judged by an independent reader") {
    JsonStyle t;
    std::string d = text(any_doc(s, false), t);
    {
        tgx::G g(tg_parse_geojsonn(d.data(), d.size()));
        if (tg_geom_error(g)) fail("rejected", "%s: %s", tg_geom_error(g), d.c_str());
        d = tgx::geobin(g);
    }
    int n = (int)s.below(4);
    for (int i = 0; i < n; i++) {
        size_t z = d.find('{');
        if (z != std::string::npos && s.chance(1, 4)) {
            std::string x = d.substr(z);
            alter_text(s, x, "{}[]\",:0\0");
            d = d.substr(0, z) + x;
        } else if (s.chance(1, 4) && d.size() > 2) d[s.below(2)] = (char)s.below(7);
        else alter_bytes(s, d);
    }
    if (n) c.interesting();
    c.note(tohex(d));
    GB r(d);
    M want;
    int kind = 0;
    bool ok = r.doc(want, kind, 0);
    Verdict v = ok ? r.either ? EITHER : GOOD : r.either ? EITHER : BAD;
    bool hex = s.chance(1, 3) && !d.empty() && (uint8_t)d[0] >= 2 && (uint8_t)d[0] <= 4;
    std::string in = hex ? tohex(d, &s) : d;
    std::vector<uint8_t> buf(in.begin(), in.end());
    tgx::G got(hex ? tg_parse_hexn_ix((const char *)buf.data(), buf.size(), any_ix(s)) : tg_parse_geobin_ix(buf.data(), buf.size(), any_ix(s)));
    CmpOpt co;
    co.nan_any = true;
    judge(c, v, &want, got, r.why.c_str(), co);
    if (v == GOOD && (tg_geom_is_feature(got) != (kind == 1) || tg_geom_is_featurecollection(got) != (kind == 2))) fail("kind", "feature kind is wrong");
}
// ----------------------------------------------------------------- truncation
FACET(truncated, 3, "every prefix of a document, in every format, is an error; the whole is not") {
    int f = (int)s.below(5);
    std::string d;
    if (f == 0 || f == 4) {
        JsonStyle t;
        t.s = &s;
        t.wsp = s.flip();
        d = text(any_doc(s, t.wsp), t);
        if (f == 4) {
            tgx::G g(tg_parse_geojsonn(d.data(), d.size()));
            d = tgx::geobin(g);
        }
    } else {
        GenOpt o = small_opts(s);
        M g = gen(s, o, o.depth);
        TxtStyle t;
        t.s = &s;
        t.wsp = s.flip();
        d = f == 1 ? wkt(g, t) : wkb(g, &s, s.flip());
        if (f == 3) d = tohex(d, &s);
    }
    if (d.size() > 3000) d.clear();
    static const char *fn[] = {"GeoJSON", "WKT", "WKB", "hex", "GeoBIN"};
    c.note(std::string(fn[f]) + " " + (f == 2 || f == 4 ? tohex(d) : d));
    if (d.empty()) return;
    c.label(fn[f]);
    c.interesting();
    bool det = s.chance(1, 3);
    for (size_t n = d.size() + 1; n-- > 0;) {
        if (d.size() > 400 && n < d.size() - 100 && s.chance(3, 4)) continue;
        if (n == 0 && det) continue;
        std::vector<char> b(d.begin(), d.begin() + n);
        const uint8_t *u = (const uint8_t *)b.data();
        tgx::G g(det ? tg_parse(b.data(), n) : f == 0 ? tg_parse_geojsonn(b.data(), n) : f == 1 ? tg_parse_wktn(b.data(), n) : f == 2 ? tg_parse_wkb(u, n) : f == 3 ? tg_parse_hexn(b.data(), n) : tg_parse_geobin(u, n));
        bool e = tg_geom_error(g) != nullptr;
        if (e != (n < d.size())) fail(e ? "rejected" : "accepted", "%zu of %zu bytes: %s", n, d.size(), e ? tg_geom_error(g) : "accepted");
    }
}
// -------------------------------------------------------------------- nesting
FACET(nesting, 1, "collections nested up to and beyond the limit, in every format") {
    int f = (int)s.below(4);
    static const int ks[] = {1, 2, 10, 100, 500, 509, 1000, 1020, 1040, 1100, 3000, 20000};
    int k = ks[s.below(12)];
    std::string d;
    int level = 0; // nesting as the format counts it
    const char *unit = "";
    switch (f) {
    case 0:
        for (int i = 0; i < k; i++) d += "{\"type\":\"GeometryCollection\",\"geometries\":[";
        d += "{\"type\":\"Point\",\"coordinates\":[1,2]}";
        for (int i = 0; i < k; i++) d += "]}";
        level = 2 * k + 2;
        unit = "GeoJSON";
        break;
    case 1:
        for (int i = 0; i < k; i++) d += "GEOMETRYCOLLECTION(";
        d += "POINT(1 2)";
        d += std::string(k, ')');
        level = k + 1;
        unit = "WKT";
        break;
    default: {
        M p;
        p.parts = {Rings{Seq{V4()}}};
        for (int i = 0; i < k; i++) {
            d += '\1';
            put32(d, 7, false);
            put32(d, 1, false);
        }
        d += wkb(p);
        level = k + 1;
        unit = "WKB";
        if (f == 3) d = std::string("\x02\0\0", 3) + d;
    }
    }
    c.note(std::string(unit) + " " + std::to_string(k) + " collections deep");
    c.interesting();
    std::vector<char> b(d.begin(), d.end());
    tgx::G g(s.flip() ? tg_parse(b.data(), b.size()) : f == 0 ? tg_parse_geojsonn(b.data(), b.size()) : f == 1 ? tg_parse_wktn(b.data(), b.size()) : f == 2 ? tg_parse_wkb((uint8_t *)b.data(), b.size()) : tg_parse_geobin((uint8_t *)b.data(), b.size()));
    bool e = tg_geom_error(g) != nullptr;
    if (level <= 1022 && e) fail("rejected", "%d levels: %s", level, tg_geom_error(g));
    if (level > 1028 && !e) fail("accepted", "%d levels", level);
    if (!e) {
        const struct tg_geom *t = g;
        for (int i = 0; i < k; i++) {
            if (tg_geom_typeof(t) != TG_GEOMETRYCOLLECTION || tg_geom_num_geometries(t) != 1) fail("mismatch", "level %d", i);
            t = tg_geom_geometry_at(t, 0);
        }
        if (tg_geom_typeof(t) != TG_POINT) fail("mismatch", "innermost");
    }
}
