// C01: parsing any bytes is safe, and everything parsed is safe to use.
#include "alter.hpp"
#include "feat.hpp"
#include "use.hpp"
using namespace feat;
using namespace alter;
PBT_MAIN("C01", "some reader accepted the bytes")

static enum tg_index any_ix(Src &s) {
    static const enum tg_index k[] = {TG_DEFAULT, TG_NONE, TG_NATURAL, TG_YSTRIPES};
    return k[s.below(4)];
}
static const char *RN[] = {"auto", "GeoJSON", "WKT", "WKB", "hex", "GeoBIN"};
static struct tg_geom *read(int r, const char *p, size_t n, enum tg_index ix) {
    const uint8_t *b = (const uint8_t *)p;
    switch (r) {
    case 0: return tg_parse_ix(p, n, ix);
    case 1: return tg_parse_geojsonn_ix(p, n, ix);
    case 2: return tg_parse_wktn_ix(p, n, ix);
    case 3: return tg_parse_wkb_ix(b, n, ix);
    case 4: return tg_parse_hexn_ix(p, n, ix);
    default: return tg_parse_geobin_ix(b, n, ix);
    }
}
static std::string printable(const std::string &d) {
    bool ok = true;
    for (unsigned char ch : d) ok = ok && ch >= 32 && ch < 127;
    std::string o = ok ? d : "hex " + tohex(d);
    return o.size() > 1500 ? o.substr(0, 1500) + "..." : o;
}
static const char *const PARTNER[] = {"POLYGON((0 0,10 0,10 10,0 10,0 0),(2 2,4 2,4 4,2 4,2 2))", "LINESTRING(0 0,5 5,10 0,3 4)", "POINT(3 4)",
                                      "GEOMETRYCOLLECTION(MULTIPOINT(1 1,3 4),POLYGON((0 0,1 0,1 1,0 0)))", "POINT EMPTY"};
// All readers, then everything on what they accept.
static bool battery(Src &s, pbt::Ctx &c, const std::string &d, int one_reader = -1) {
    enum tg_index ix = any_ix(s);
    std::vector<tgx::G> got;
    for (int r = 0; r < 6; r++) {
        if (one_reader >= 0 && r != one_reader && r != 0) continue;
        if (r == 0 && d.empty()) {
            tgx::G none(tg_parse_ix("", 0, ix)); // nothing in, nothing out
            if (none) fail("nothing", "a geometry from no bytes");
            continue;
        }
        std::unique_ptr<char[]> v(new char[d.size()]);
        memcpy(v.get(), d.data(), d.size());
        tgx::A().peak = tgx::A().bytes;
        size_t before = tgx::A().bytes;
        uint64_t was = tgx::A().refused;
        tgx::G g(read(r, v.get(), d.size(), ix));
        size_t used = tgx::A().peak - before;
        if (tgx::A().refused > was) fail("memory", "%s reader asked for %zu bytes at once for %zu bytes of input", RN[r], tgx::A().max_request, d.size());
        if (used > 64 * d.size() + 16384) fail("memory", "%s reader used %zu bytes for %zu bytes of input", RN[r], used, d.size());
        if (!g) fail("nothing", "%s reader gave neither a geometry nor an error", RN[r]);
        const char *e = tg_geom_error(g);
        if (e && !*e) fail("nothing", "%s reader gave an error without a message", RN[r]);
        if (memcmp(v.get(), d.data(), d.size())) fail("input", "%s reader changed its input", RN[r]);
        if (e) {
            use::Sink k; // errors are harmless too
            use::geom(k, g);
            continue;
        }
        c.label(RN[r]);
        got.push_back(std::move(g));
    }
    if (got.empty()) return false;
    use::Sink k;
    for (auto &g : got) use::geom(k, g);
    for (auto &a : got)
        for (auto &b : got) use::pair(k, a, b);
    for (auto &a : got)
        for (auto t : PARTNER) {
            tgx::G b(tg_parse_wkt(t));
            use::pair(k, a, b);
            use::pair(k, b, a);
        }
    return true;
}
FACET(raw, 2, "bytes of every kind, through every reader") {
    static const std::vector<std::string> heads = {"", "{\"type\":\"", "{\"type\":\"Point\",\"coordinates\":[", "{\"type\":\"Feature\",\"geometry\":{", "{\"coordinates\":[[",
        "POINT(", "POLYGON((", "MULTIPOINT", "GEOMETRYCOLLECTION(", "LINESTRING Z(", "01010000", "0103000000", "02", "0302", std::string("\1\1\0\0\0", 5), std::string("\0\0\0\0\2", 5),
        std::string("\1\3\0\0\0\1\0\0\0", 9), std::string("\1\7\0\0\0", 5), std::string("\2\0\0", 3), std::string("\3\2", 2), std::string("\4\0\0\1\0\0\0", 7), "\1\7\4", " ", "\t{", "[", "\""};
    std::string d = s.pick(heads);
    int n = s.size(0, 60);
    int style = (int)s.below(3);
    static const std::string sigma = "{}[]\",:()0123456789.-+eE \n\\/truefalsnPOINTZMypcd\0\1\2\3\4\xff";
    for (int i = 0; i < n; i++) d += style == 0 ? (char)s.below(256) : style == 1 ? sigma[s.below(sigma.size())] : (char)s.below(8);
    c.note(printable(d));
    if (battery(s, c, d)) c.interesting();
}
static std::string any_doc(Src &s, int f, const GenOpt &go) {
    if (f == 0 || f == 4) {
        DocOpt o;
        o.g = go;
        o.w = s.flip();
        o.members = 2;
        o.g.nodim_m = true;
        o.g.vals = go.vals == ANY ? FINITE : go.vals;
        JsonStyle t;
        t.s = &s;
        t.wsp = o.w;
        t.esc = s.chance(1, 4);
        std::string d = text(gen_doc(s, o), t);
        if (f == 0) return d;
        tgx::G g(tg_parse_geojsonn(d.data(), d.size()));
        return tgx::geobin(g);
    }
    GenOpt g2 = go;
    if (f == 1 && go.vals == ANY) g2.vals = FINITE;
    M g = gen(s, g2, go.depth);
    TxtStyle t;
    t.s = &s;
    t.wsp = s.flip();
    std::string d = f == 1 ? wkt(g, t) : wkb(g, s.flip() ? &s : nullptr, s.flip());
    return f == 3 ? tohex(d, &s) : d;
}
static void damage(Src &s, std::string &d, int f) {
    int n = (int)s.below(4);
    for (int i = 0; i < n; i++) {
        if (f == 0 && s.flip()) {
            js::V v;
            if (js::parse(d, v)) {
                alter_tree(s, v);
                d = put(v);
            }
        } else if (f == 0) alter_text(s, d, "{}[]\",:0123456789.-+eE \t\n\\/utfnabr");
        else if (f == 1) alter_text(s, d, "(),.-+eE 0123456789ZMPTYzm\t\n");
        else if (f == 3) alter_text(s, d, "0123456789abcdefABCDEF");
        else alter_bytes(s, d);
    }
}
FACET(damaged, 6, "documents of every format with parts changed, through every reader") {
    GenOpt o;
    o.vals = s.flip() ? SMALL : ANY;
    o.maxpts = s.chance(1, 12) ? 80 : 6;
    o.maxparts = s.chance(1, 20) ? 90 : 4;
    o.depth = (int)s.below(3);
    if (o.maxpts > 6 && o.maxparts > 4) o.maxpts = 6;
    int f = (int)s.below(5);
    std::string d = any_doc(s, f, o);
    damage(s, d, f);
    c.note(printable(d));
    if (battery(s, c, d)) c.interesting();
}
FACET(spliced, 2, "pieces of documents, perhaps of different formats, joined") {
    GenOpt o;
    o.vals = ANY;
    o.maxpts = 4;
    o.maxparts = 3;
    o.depth = (int)s.below(2);
    std::string d;
    int n = 2 + (int)s.below(3), f = (int)s.below(5);
    for (int i = 0; i < n; i++) {
        std::string x = any_doc(s, s.chance(1, 4) ? (int)s.below(5) : f, o);
        size_t a = x.empty() ? 0 : s.below(x.size()), z = s.below(x.size() - a + 1);
        d += i == 0 ? x.substr(0, a + z) : s.flip() ? x.substr(a) : x.substr(a, z);
    }
    c.note(printable(d));
    if (battery(s, c, d)) c.interesting();
}
FACET(hostile, 2, "documents that announce much and hold little, nest deeply, or hold extreme numbers") {
    std::string d;
    auto rep = [&](const char *t, int n) {
        std::string o;
        for (int i = 0; i < n; i++) o += t;
        return o;
    };
    static const int ks[] = {1, 5, 100, 509, 511, 512, 513, 1022, 1023, 1024, 1025, 1026, 3000, 30000};
    int k = ks[s.chance(1, 8) ? s.below(14) : s.below(3)];
    static const uint32_t cs[] = {0xFFFFFFFFu, 0x80000000u, 0x7FFFFFFFu, 0x10000000u, 0x0FFFFFFFu, 0x20000001u, 0x1FFFFFFFu, 1000000, 65536, 2, 3};
    uint32_t cnt = cs[s.below(11)];
    bool be = s.flip();
    auto head = [&](uint32_t t) {
        d += be ? '\0' : '\1';
        put32(d, t, be);
    };
    int what = (int)s.below(14);
    switch (what) {
    case 0: // counts
    case 1: {
        uint32_t t = 2 + (uint32_t)s.below(6) + 1000 * (uint32_t)s.below(4);
        if (s.chance(1, 3)) {
            d += s.flip() ? '\2' : '\3';
            d += '\0';
            d += '\0';
        }
        head(t);
        put32(d, cnt, be);
        if (s.flip()) {
            if (t % 1000 == 3) put32(d, cs[s.below(11)], be);
            else if (t % 1000 > 3) {
                head(t - (t % 1000 == 7 ? (uint32_t)s.below(6) : 3));
                put32(d, cs[s.below(11)], be);
            }
        }
        d += std::string(s.below(100), s.flip() ? '\0' : '\1');
        break;
    }
    case 2:
        d = std::string("\4\0\0", 3);
        put32(d, cnt, false);
        d += std::string(s.below(100), (char)s.below(5));
        break;
    case 3: // deep
        d = rep("GEOMETRYCOLLECTION(", k) + (s.flip() ? "POINT(1 2)" : "") + rep(")", s.flip() ? k : (int)s.below(k + 1));
        break;
    case 4: d = "POLYGON" + rep("(", k) + "0 0" + rep(")", s.flip() ? k : k - 1); break;
    case 5: d = rep("{\"type\":\"GeometryCollection\",\"geometries\":[", k) + rep("]}", s.flip() ? k : k - 1); break;
    case 6: d = "{\"type\":\"Polygon\",\"coordinates\":" + rep("[", k) + rep("]", s.flip() ? k : k - 1) + "}"; break;
    case 7: d = "{\"type\":\"Point\",\"coordinates\":[1,2],\"a\":" + rep(s.flip() ? "[" : "{\"\":", k) + rep("]", k) + "}"; break;
    case 8:
        for (int i = 0; i < k; i++) {
            head(7);
            put32(d, 1, be);
        }
        if (s.flip()) d += std::string(s.below(30), (char)s.below(2));
        break;
    case 9: // collections of features of collections
        for (int i = 0; i < k; i++) d += std::string("\4\0\0\1\0\0\0", 7);
        break;
    case 10:
        for (int i = 0; i < k; i++) d += std::string(s.flip() ? "\2\0\0" : "\3\0\0", 3);
        head(1);
        d += std::string(16, '\0');
        break;
    case 11: { // numbers
        std::string n = s.flip() ? std::string(k, (char)('0' + s.below(10))) : "1e" + std::string(s.below(6), '9');
        if (s.flip()) n = "-" + n + (n.find('e') == std::string::npos ? "." + std::string(1 + s.below(600), '7') : "");
        if (n[0] == '0') n = "1" + n;
        d = s.flip() ? "POINT(" + n + " " + n + ")" : "{\"type\":\"LineString\",\"coordinates\":[[" + n + ",0],[0," + n + "]]}";
        break;
    }
    case 12: { // many tiny members
        int m = std::min(k, 300);
        d = "";
        head(s.flip() ? 7 : 4);
        put32(d, (uint32_t)m, be);
        for (int i = 0; i < m; i++) {
            head(1);
            for (int j = 0; j < 2; j++) putd(d, gen_num(s, i % 16 ? SMALL : ANY), be);
        }
        break;
    }
    default: // text that runs out
        d = s.pick(std::vector<std::string>{"{\"type\":\"Point\",\"coordinates\":[1,", "POINT(1 2", "POINT(1 2e", "POINT(1 -", "{\"type\":\"Point\",\"coordinates\":[1,2", "MULTIPOINT((1 2),(3",
            "POINT", "POINT Z", "POINT EMPT", "LINESTRING(1 2,", "{\"type\":\"Po\\u00", "{\"type", "{", "\"", "-", "POLYGON((0 0,1 1,0 0),", "GEOMETRYCOLLECTION(POINT(1 2),", "GEOMETRYCOLLECTION(", "01", "0", "{\"a\":\"\\", "{\"a\":\"\xf0\x9f", "{\"a\":tru", "{\"a\":-"});
    }
    c.note(printable(d));
    c.label(what < 3 ? "counts" : what < 11 ? "deep" : what == 11 ? "numbers" : what == 12 ? "members" : "cut");
    if (battery(s, c, d)) c.interesting();
}
FACET(extreme, 3, "accepted geometries with infinite, undefined, huge and tiny coordinates, large enough to be indexed") {
    GenOpt o;
    o.vals = ANY;
    o.maxpts = s.flip() ? 100 : 20;
    o.maxparts = 2;
    o.depth = (int)s.below(2);
    if (s.chance(1, 6)) {
        o.maxpts = 4;
        o.maxparts = 150;
    }
    tg_env_set_index_spread((int)s.below(40));
    M g = gen(s, o, o.depth);
    if (s.flip()) { // all of one kind of trouble
        double bad[] = {INFINITY, -INFINITY, NAN, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, 0};
        double b1 = bad[s.below(7)], b2 = bad[s.below(7)];
        for (auto &p : g.parts)
            for (auto &r : p)
                for (size_t i = 0; i < r.size(); i++) {
                    bool end = i == 0 || i + 1 == r.size();
                    if (s.chance(1, 4)) r[i].x = end ? r[i].x : b1;
                    else if (!std::isfinite(r[i].x) && !end) r[i].x = (double)s.below(10);
                    if (s.chance(1, 4)) r[i].y = end ? r[i].y : b2;
                    else if (!std::isfinite(r[i].y) && !end) r[i].y = (double)s.below(10);
                }
    }
    std::string d = wkb(g);
    c.note(printable(d));
    if (battery(s, c, d, 3)) c.interesting();
}
FACET(geobin_helpers, 3, "the GeoBIN rectangle and point helpers on any bytes") {
    std::string d;
    GenOpt o;
    o.vals = ANY;
    o.maxpts = 5;
    o.depth = (int)s.below(3);
    int f = (int)s.below(4);
    if (f == 0) {
        int n = s.size(0, 80);
        for (int i = 0; i < n; i++) d += i < 2 ? (char)s.below(6) : (char)s.below(256);
    } else {
        d = any_doc(s, f == 1 ? 4 : 2, o);
        damage(s, d, 4);
    }
    if (s.flip() && d.size() > 2) d.resize(s.below(d.size() + 1));
    c.note(printable(d));
    std::unique_ptr<uint8_t[]> v(new uint8_t[d.size()]);
    memcpy(v.get(), d.data(), d.size());
    double mn[4], mx[4];
    // Two backgrounds tell what was filled in from what was not.
    int n1, n2;
    double a[2][8];
    for (int k = 0; k < 2; k++) {
        for (int i = 0; i < 4; i++) mn[i] = mx[i] = k ? 77.5 : -33.25;
        int n = tg_geobin_fullrect(v.get(), d.size(), mn, mx);
        (k ? n2 : n1) = n;
        for (int i = 0; i < 4; i++) {
            a[k][i] = mn[i];
            a[k][4 + i] = mx[i];
        }
    }
    if (n1 != n2 || n1 < 0 || n1 > 4 || n1 == 1) fail("helper", "%d dimensions, then %d", n1, n2);
    for (int i = 0; i < n1; i++)
        if (bits(a[0][i]) != bits(a[1][i]) || bits(a[0][4 + i]) != bits(a[1][4 + i])) fail("helper", "dimension %d of %d is not filled in", i, n1);
    struct tg_rect r1 = tg_geobin_rect(v.get(), d.size()), r2 = tg_geobin_rect(v.get(), d.size());
    struct tg_point p1 = tg_geobin_point(v.get(), d.size()), p2 = tg_geobin_point(v.get(), d.size());
    if (memcmp(&r1, &r2, sizeof r1) || memcmp(&p1, &p2, sizeof p1)) fail("helper", "two calls differ");
    if (n1 >= 2 && (bits(r1.min.x) != bits(a[0][0]) || bits(r1.min.y) != bits(a[0][1]) || bits(r1.max.x) != bits(a[0][4]) || bits(r1.max.y) != bits(a[0][5])))
        fail("helper", "rectangle and full rectangle differ");
    if (n1) c.interesting();
    if (memcmp(v.get(), d.data(), d.size())) fail("input", "helper changed its input");
}
