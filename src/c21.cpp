// C21: searching a collection finds exactly the members in the rectangle.
#include "model.hpp"
#include "shapes.hpp"
using namespace shp;
using pbt::fail;
PBT_MAIN("C21", "some members are inside the rectangle and some are not")

struct Got {
    std::vector<std::pair<const struct tg_geom *, int>> v;
    long stop = -1;
};
static bool cb(const struct tg_geom *g, int i, void *u) {
    Got *k = (Got *)u;
    k->v.push_back({g, i});
    return k->stop < 0 || (long)k->v.size() < k->stop;
}
struct Box {
    double x0, y0, x1, y1;
    bool empty = false;
};
static void expand(Box &b, double x, double y, bool first) {
    if (first) b = {x, y, x, y, b.empty};
    b.x0 = std::min(b.x0, x);
    b.y0 = std::min(b.y0, y);
    b.x1 = std::max(b.x1, x);
    b.y1 = std::max(b.y1, y);
}
static double num(Src &s, int how) {
    switch (how) {
    case 0: return (double)s.below(20);
    case 1: return (double)s.below(2000) - 1000;
    case 2: return ((double)(s.u64() >> 11) / (double)(1ull << 53)) * 360 - 180;
    default: return ldexp((double)s.below(1000) - 500, (int)s.below(60) - 30);
    }
}
// a member of some kind near (x,y), and its box
static struct tg_geom *member(Src &s, int type, double x, double y, double sz, Box &b, enum tg_index ix) {
    b.empty = false;
    auto off = [&](int k) { return x + sz * k; };
    switch (type) {
    case TG_POINT:
        expand(b, x, y, true);
        return tg_geom_new_point({x, y});
    case TG_LINESTRING: {
        struct tg_point p[3] = {{x, y}, {off(1 + (int)s.below(3)), y + sz * (int)s.below(3)}, {x, y + sz}};
        int n = 2 + (int)s.below(2);
        for (int i = 0; i < n; i++) expand(b, p[i].x, p[i].y, i == 0);
        struct tg_line *l = tg_line_new_ix(p, n, ix);
        struct tg_geom *g = tg_geom_new_linestring(l);
        tg_line_free(l);
        return g;
    }
    default: {
        double w = sz * (1 + (int)s.below(3));
        struct tg_point p[5] = {{x, y}, {x + w, y}, {x + w, y + sz}, {x, y + sz}, {x, y}};
        for (int i = 0; i < 4; i++) expand(b, p[i].x, p[i].y, i == 0);
        struct tg_ring *r = tg_ring_new_ix(p, 5, ix);
        struct tg_poly *q = tg_poly_new(r, nullptr, 0);
        struct tg_geom *g = tg_geom_new_polygon(q);
        tg_ring_free(r);
        tg_poly_free(q);
        return g;
    }
    }
}
static void check(Src &s, pbt::Ctx &c, struct tg_geom *g, const std::vector<Box> &bs, const std::vector<const struct tg_geom *> *kids, struct tg_rect r) {
    std::vector<int> want;
    std::vector<bool> may(bs.size(), false);
    for (size_t i = 0; i < bs.size(); i++) {
        const Box &b = bs[i];
        if (b.empty) may[i] = true;
        else if (b.x0 <= r.max.x && r.min.x <= b.x1 && b.y0 <= r.max.y && r.min.y <= b.y1) want.push_back((int)i);
    }
    if (!want.empty() && want.size() < bs.size()) c.interesting();
    Got k;
    tg_geom_search(g, r, cb, &k);
    std::vector<int> got;
    for (auto &h : k.v) {
        if (h.second < 0 || h.second >= (int)bs.size()) fail("index", "index %d of %zu", h.second, bs.size());
        if (!h.first) fail("null", "no geometry for index %d", h.second);
        if (kids && h.first != (*kids)[h.second]) fail("member", "index %d came with another member", h.second);
        if (may[h.second]) continue;
        struct tg_rect q = tg_geom_rect(h.first);
        const Box &b = bs[h.second];
        if (q.min.x != b.x0 || q.min.y != b.y0 || q.max.x != b.x1 || q.max.y != b.y1) fail("member", "index %d came with another member", h.second);
        got.push_back(h.second);
    }
    std::sort(got.begin(), got.end());
    for (size_t i = 0; i + 1 < got.size(); i++)
        if (got[i] == got[i + 1]) fail("duplicate", "member %d visited twice", got[i]);
    if (got != want) {
        size_t i = 0;
        while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
        if (i < want.size() && (i >= got.size() || want[i] < got[i])) fail("missing", "member %d not visited (of %zu, %zu expected, %zu visited)", want[i], bs.size(), want.size(), got.size());
        fail("extra", "member %d visited (of %zu)", got[i], bs.size());
    }
    if (!k.v.empty()) {
        Got e;
        e.stop = 1 + (long)s.below(k.v.size());
        tg_geom_search(g, r, cb, &e);
        if ((long)e.v.size() != e.stop) fail("stop", "told to stop after %ld members, called %zu times", e.stop, e.v.size());
        for (size_t i = 0; i < e.v.size(); i++)
            if (e.v[i] != k.v[i]) fail("stop", "order differs from the full search");
    }
}
FACET(search, 6, "a collection of any kind and rectangles placed on, beside and across its members") {
    static const int types[] = {TG_MULTIPOINT, TG_MULTILINESTRING, TG_MULTIPOLYGON, TG_GEOMETRYCOLLECTION};
    int type = types[s.below(4)];
    int n = s.chance(1, 3000) ? 20000 + (int)s.below(60000) : s.chance(1, 10) ? 500 + (int)s.below(3000) : s.chance(1, 2) ? 50 + (int)s.below(200) : (int)s.below(70);
    int how = (int)s.below(4);
    bool clump = s.chance(1, 4);
    enum tg_index ix = pick_ix(s);
    std::vector<Box> bs(n);
    std::vector<struct tg_geom *> gs;
    char note[200];
    double cx = num(s, how), cy = num(s, how);
    for (int i = 0; i < n; i++) {
        double x = num(s, how), y = num(s, how);
        if (clump && s.chance(3, 4)) {
            x = cx;
            y = s.flip() ? cy : y;
        }
        double sz = how == 0 || how == 1 ? 1 + (double)s.below(4) : fabs(num(s, how)) / 64 + 0.001;
        int t = type == TG_GEOMETRYCOLLECTION ? 1 + (int)s.below(3) : type - 3;
        if (type == TG_GEOMETRYCOLLECTION && s.chance(1, 20)) {
            bs[i].empty = true;
            gs.push_back(s.flip() ? tg_geom_new_point_empty() : tg_geom_new_geometrycollection_empty());
            continue;
        }
        if (type == TG_GEOMETRYCOLLECTION && s.chance(1, 10)) { // nested
            Box b1, b2;
            struct tg_geom *k[2];
            k[0] = member(s, t, x, y, sz, b1, ix);
            k[1] = member(s, 1 + (int)s.below(3), num(s, how), y, sz, b2, ix);
            gs.push_back(tg_geom_new_geometrycollection(k, 2));
            tg_geom_free(k[0]);
            tg_geom_free(k[1]);
            bs[i] = {std::min(b1.x0, b2.x0), std::min(b1.y0, b2.y0), std::max(b1.x1, b2.x1), std::max(b1.y1, b2.y1), false};
            continue;
        }
        gs.push_back(member(s, t, x, y, sz, bs[i], ix));
    }
    tgx::G g;
    std::vector<const struct tg_geom *> kids;
    if (type == TG_GEOMETRYCOLLECTION) g.g = tg_geom_new_geometrycollection(gs.data(), n);
    else if (type == TG_MULTIPOINT) {
        std::vector<struct tg_point> p;
        for (auto x : gs) p.push_back(tg_geom_point(x));
        g.g = tg_geom_new_multipoint(p.data(), n);
    } else if (type == TG_MULTILINESTRING) {
        std::vector<const struct tg_line *> p;
        for (auto x : gs) p.push_back(tg_geom_line(x));
        g.g = tg_geom_new_multilinestring(p.data(), n);
    } else {
        std::vector<const struct tg_poly *> p;
        for (auto x : gs) p.push_back(tg_geom_poly(x));
        g.g = tg_geom_new_multipolygon(p.data(), n);
    }
    if (!g.g) fail("null", "constructor returned NULL");
    for (auto x : gs) tg_geom_free(x);
    switch (s.below(4)) { // delivered some other way
    case 0: {
        std::string w = tgx::wkb(g);
        g = tgx::G(tg_parse_wkb_ix((const uint8_t *)w.data(), w.size(), ix));
        break;
    }
    case 1: g = tgx::G(tg_geom_copy(g)); break;
    case 2:
        if (how <= 1) { // as a feature collection where possible
            std::string j = "{\"type\":\"FeatureCollection\",\"features\":[";
            if (type != TG_GEOMETRYCOLLECTION) break;
            for (int i = 0; i < n; i++)
                j += std::string(i ? "," : "") + "{\"type\":\"Feature\",\"geometry\":" + tgx::geojson(tg_geom_geometry_at(g, i)) + ",\"properties\":{}}";
            j += "]}";
            g = tgx::G(tg_parse_geojsonn_ix(j.data(), j.size(), ix));
            if (tg_geom_error(g)) fail("parse", "%s", tg_geom_error(g));
        }
        break;
    }
    if (type == TG_GEOMETRYCOLLECTION)
        for (int i = 0; i < n; i++) kids.push_back(tg_geom_geometry_at(g, i));
    snprintf(note, sizeof note, "%s of %d members, coordinates kind %d%s", tg_geom_type_string(tg_geom_typeof(g)), n, how, clump ? ", clumped" : "");
    c.note(note);
    c.label(n >= 64 ? "indexed size" : n >= 10 ? "medium" : "small");
    for (int q = 0; q < 8; q++) {
        struct tg_rect r;
        double ax = num(s, how), ay = num(s, how), bx = num(s, how), by = num(s, how);
        if (n && s.chance(2, 3)) { // edges of a member
            const Box &b = bs[s.below(n)];
            if (!b.empty) {
                ax = s.flip() ? b.x0 : b.x1;
                ay = s.flip() ? b.y0 : b.y1;
                if (s.flip()) bx = ax, by = ay;
                if (s.chance(1, 4)) ax = nextafter(ax, s.flip() ? INFINITY : -INFINITY);
            }
        }
        if (s.chance(1, 10)) ax = -1e300, ay = -1e300, bx = 1e300, by = 1e300;
        r.min = {std::min(ax, bx), std::min(ay, by)};
        r.max = {std::max(ax, bx), std::max(ay, by)};
        check(s, c, g, bs, type == TG_GEOMETRYCOLLECTION ? &kids : nullptr, r);
    }
}
FACET(others, 1, "geometries that are not collections yield nothing, and neither do missing arguments") {
    mdl::GenOpt o;
    o.vals = mdl::FINITE;
    mdl::M m = mdl::gen(s, o, 0);
    tgx::G g(mdl::build(m));
    c.note(mdl::show(m));
    struct tg_rect all = {{-INFINITY, -INFINITY}, {INFINITY, INFINITY}};
    Got k;
    tg_geom_search(g, all, cb, &k);
    size_t want = m.type >= TG_MULTIPOINT && !m.empty ? mdl::nparts(m) : 0;
    if (want > 0) c.interesting();
    if (k.v.size() != want) fail("count", "%zu members visited, expected %zu", k.v.size(), want);
    tg_geom_search(g, all, nullptr, nullptr);
    tg_geom_search(nullptr, all, cb, &k);
    if (k.v.size() != want) fail("null", "the null geometry yielded members");
    if (m.type == TG_LINESTRING && !m.empty) tg_geom_search((const struct tg_geom *)tg_geom_line(g), all, cb, &k);
    if (m.type == TG_POLYGON && !m.empty) tg_geom_search((const struct tg_geom *)tg_geom_poly(g), all, cb, &k);
    if (k.v.size() != want) fail("bare", "a line or polygon yielded members");
}
