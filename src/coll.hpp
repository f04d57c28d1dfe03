// Collections of exact shapes, and other drawings of the same shapes.
#pragma once
#include "model.hpp"
#include "pairs.hpp"
namespace coll {
using namespace pairs;
struct Col {
    int type = TG_POINT;        // a tg_geom_type
    bool empty = false;
    std::vector<Part> parts;    // single: one; multi: any number
    std::vector<Col> kids;      // geometry collection
};
inline Col single(const Part &p) {
    Col c;
    c.type = 1 + p.kind;
    c.parts = {p};
    return c;
}
inline void flat(const Col &c, std::vector<const Part *> &v) {
    if (c.empty) return;
    for (auto &p : c.parts) v.push_back(&p);
    for (auto &k : c.kids) flat(k, v);
}
inline std::vector<const Part *> flat(const Col &c) {
    std::vector<const Part *> v;
    flat(c, v);
    return v;
}
inline bool has_empty(const Col &c) {
    if (c.empty || (c.parts.empty() && c.kids.empty())) return true;
    for (auto &k : c.kids)
        if (has_empty(k)) return true;
    return false;
}
template <class F> inline void each_part(Col &c, F f) {
    for (auto &p : c.parts) f(p);
    for (auto &k : c.kids) each_part(k, f);
}
template <class F> inline void each_pt(Part &g, F f) {
    if (g.kind == POINT) f(g.pt);
    for (auto &p : g.line) f(p);
    for (auto &r : g.rings)
        for (auto &p : r) f(p);
}
// Coordinates handed to the library for a lattice point.
typedef std::function<struct tg_point(P)> Xf;
inline struct tg_point plain(P p) { return {(double)p.x, (double)p.y}; }
inline std::vector<struct tg_point> xpts(const Path &p, const Xf &f) {
    std::vector<struct tg_point> v;
    for (auto &q : p) v.push_back(f(q));
    return v;
}
inline struct tg_poly *mk_poly(const Part &g, enum tg_index ix, const Xf &f) {
    std::vector<struct tg_ring *> rs;
    for (auto &r : g.rings) {
        auto v = xpts(r, f);
        rs.push_back(tg_ring_new_ix(v.data(), (int)v.size(), ix));
    }
    struct tg_poly *p = tg_poly_new(rs[0], rs.data() + 1, (int)rs.size() - 1);
    for (auto r : rs) tg_ring_free(r);
    return p;
}
inline struct tg_line *mk_line(const Part &g, enum tg_index ix, const Xf &f) {
    auto v = xpts(g.line, f);
    return tg_line_new_ix(v.data(), (int)v.size(), ix);
}
// While one of these is alive, some of the geometries made by build() become
// features or get a further dimension, which changes nothing that is asked here.
inline Src *&variety() {
    static Src *s = nullptr;
    return s;
}
struct Varied {
    explicit Varied(Src &s) { variety() = &s; }
    ~Varied() { variety() = nullptr; }
};
inline struct tg_geom *vary(struct tg_geom *t, enum tg_index ix) {
    if (!variety() || !t) return t;
    Src &s = *variety();
    struct tg_geom *u = nullptr;
    std::vector<double> z;
    for (int i = 0; i < 8; i++) z.push_back(i * 0.5);
    switch (s.below(12)) {
    case 1: {
        std::string w = "{\"type\":\"Feature\",\"geometry\":" + tgx::geojson(t) + ",\"properties\":{\"a\":1}}";
        u = tg_parse_geojsonn_ix(w.data(), w.size(), ix);
        break;
    }
    case 2: {
        std::string w = tgx::geojson(t);
        w.insert(w.size() - 1, ",\"name\":\"x\"");
        u = tg_parse_geojsonn_ix(w.data(), w.size(), ix);
        break;
    }
    case 3:
        if (tg_geom_is_empty(t)) break;
        if (tg_geom_typeof(t) == TG_POINT) u = tg_geom_new_point_zm(tg_geom_point(t), 1, 2);
        else if (tg_geom_line(t)) u = tg_geom_new_linestring_z(tg_geom_line(t), z.data(), (int)z.size());
        else if (tg_geom_poly(t)) u = tg_geom_new_polygon_m(tg_geom_poly(t), z.data(), (int)z.size());
    }
    if (!u) return t;
    if (tg_geom_error(u)) { // a collection with features among its geometries cannot be read back
        tg_geom_free(u);
        return t;
    }
    tg_geom_free(t);
    return u;
}
inline struct tg_geom *build(const Part &g, enum tg_index ix, const Xf &f) {
    if (g.kind == POINT) return vary(tg_geom_new_point(f(g.pt)), ix);
    struct tg_geom *t;
    if (g.kind == LINE) {
        struct tg_line *l = mk_line(g, ix, f);
        t = tg_geom_new_linestring(l);
        tg_line_free(l);
    } else {
        struct tg_poly *p = mk_poly(g, ix, f);
        t = tg_geom_new_polygon(p);
        tg_poly_free(p);
    }
    return vary(t, ix);
}
inline struct tg_geom *build_col(const Col &c, enum tg_index ix, const Xf &f);
inline struct tg_geom *build(const Col &c, enum tg_index ix, const Xf &f = plain) {
    bool single = !c.empty && c.type <= TG_POLYGON; // those are varied already
    return single ? build_col(c, ix, f) : vary(build_col(c, ix, f), ix);
}
inline struct tg_geom *build_col(const Col &c, enum tg_index ix, const Xf &f) {
    if (c.empty) {
        switch (c.type) {
        case TG_POINT: return tg_geom_new_point_empty();
        case TG_LINESTRING: return tg_geom_new_linestring_empty();
        case TG_POLYGON: return tg_geom_new_polygon_empty();
        case TG_MULTIPOINT: return tg_geom_new_multipoint_empty();
        case TG_MULTILINESTRING: return tg_geom_new_multilinestring_empty();
        case TG_MULTIPOLYGON: return tg_geom_new_multipolygon_empty();
        default: return tg_geom_new_geometrycollection_empty();
        }
    }
    struct tg_geom *t = nullptr;
    switch (c.type) {
    case TG_POINT:
    case TG_LINESTRING:
    case TG_POLYGON: return build(c.parts[0], ix, f);
    case TG_MULTIPOINT: {
        std::vector<struct tg_point> v;
        for (auto &p : c.parts) v.push_back(f(p.pt));
        return tg_geom_new_multipoint(v.data(), (int)v.size());
    }
    case TG_MULTILINESTRING: {
        std::vector<struct tg_line *> v;
        for (auto &p : c.parts) v.push_back(mk_line(p, ix, f));
        t = tg_geom_new_multilinestring(v.data(), (int)v.size());
        for (auto x : v) tg_line_free(x);
        return t;
    }
    case TG_MULTIPOLYGON: {
        std::vector<struct tg_poly *> v;
        for (auto &p : c.parts) v.push_back(mk_poly(p, ix, f));
        t = tg_geom_new_multipolygon(v.data(), (int)v.size());
        for (auto x : v) tg_poly_free(x);
        return t;
    }
    default: {
        std::vector<struct tg_geom *> v;
        for (auto &k : c.kids) v.push_back(build(k, ix, f));
        t = tg_geom_new_geometrycollection(v.data(), (int)v.size());
        for (auto x : v) tg_geom_free(x);
        return t;
    }
    }
}
inline std::string str(const Col &c) {
    if (c.empty) return std::string(mdl::wkt_name(c.type)) + " EMPTY";
    if (c.type <= 3) return geo::str(c.parts[0]);
    std::string o = c.type == TG_GEOMETRYCOLLECTION ? "GEOMETRYCOLLECTION(" : std::string("GEOMETRYCOLLECTION/*") + mdl::wkt_name(c.type) + "*/(";
    bool first = true;
    for (auto &p : c.parts) o += (first ? "" : ",") + geo::str(p), first = false;
    for (auto &k : c.kids) o += (first ? "" : ",") + str(k), first = false;
    return o + ")";
}
inline std::string cut(const std::string &t) { return t.size() > 1500 ? t.substr(0, 1500) + "..." : t; }
inline Col empty_col(Src &s) {
    Col c;
    c.type = 1 + (int)s.below(7);
    c.empty = true;
    return c;
}
// A shape or collection of any kind.
inline Part part_of_kind(Src &s, int n, int kind) {
    Part p;
    if (kind == POINT) {
        p.pt = gen_pt(s, n);
        return p;
    }
    if (kind == LINE) return gen_line(s, n, true);
    return gen_poly(s, n, 2);
}
inline Col gen_col(Src &s, int n, int depth, int maxparts, bool empties) {
    Col c;
    int k = (int)s.below(depth > 0 ? 4 : 3);
    if (empties && s.chance(1, 10)) return empty_col(s);
    switch (k) {
    case 0: return single(gen_part(s, n, true, 2));
    case 1: // multi
    case 2: {
        int kind = (int)s.below(3);
        c.type = TG_MULTIPOINT + kind;
        int m = s.size(1, maxparts);
        for (int i = 0; i < m; i++) c.parts.push_back(part_of_kind(s, n, kind));
        return c;
    }
    default: {
        c.type = TG_GEOMETRYCOLLECTION;
        int m = s.size(1, maxparts);
        for (int i = 0; i < m; i++) c.kids.push_back(gen_col(s, n, depth - 1, std::max(1, maxparts / 2), empties));
        return c;
    }
    }
}
// Many small members scattered over a wide area: collections with an index.
inline Col many(Src &s, int m, int w) {
    Col c;
    int kind = (int)s.below(4);
    c.type = TG_MULTIPOINT + kind;
    bool clump = s.flip();
    for (int i = 0; i < m; i++) {
        Part p = kind == 3 ? gen_part(s, 4, true, 0) : part_of_kind(s, 4, kind);
        P d = clump ? P{(int64_t)(s.below(w / 8 + 1) + (s.flip() ? w / 2 : 0)), (int64_t)s.below(w)} : gen_pt(s, w);
        shift(p, d);
        if (kind == 3) c.kids.push_back(single(p));
        else c.parts.push_back(p);
    }
    return c;
}
// -------------------------------------------------- the same set, drawn again
struct Redraw {
    bool start = true, reverse = true, collinear = true, dup = true, holes = true;
};
// All coordinates must be multiples of 2 for collinear midpoints to be exact.
inline void redraw_path(Src &s, Path &p, bool ring, const Redraw &o) {
    if (o.collinear && s.flip()) {
        Path q;
        for (size_t i = 0; i + 1 < p.size(); i++) {
            q.push_back(p[i]);
            if (s.chance(1, 3)) {
                int64_t dx = p[i + 1].x - p[i].x, dy = p[i + 1].y - p[i].y, g = (int64_t)igcd(dx, dy);
                if (g > 1) {
                    int64_t k = 1 + (int64_t)s.below(g - 1);
                    q.push_back({p[i].x + dx / g * k, p[i].y + dy / g * k});
                }
            }
        }
        q.push_back(p.back());
        p = q;
    }
    if (o.dup && s.chance(1, 3)) {
        Path q;
        for (auto &v : p) {
            q.push_back(v);
            if (s.chance(1, 4)) q.push_back(v);
            if (s.chance(1, 16)) q.push_back(v);
        }
        p = q;
    }
    bool closed = p.front() == p.back();
    if (closed && o.start && p.size() > 2 && s.flip()) {
        // ring start; for a closed line too: the set of points is the same
        if (ring) {
            // a run of equal points may be split by the start
            p.pop_back();
            std::rotate(p.begin(), p.begin() + s.below(p.size()), p.end());
            p.push_back(p[0]);
        }
    }
    if (o.reverse && s.flip()) std::reverse(p.begin(), p.end());
}
inline Part redraw(Src &s, Part g, const Redraw &o = Redraw()) {
    if (g.kind == LINE) redraw_path(s, g.line, false, o);
    for (auto &r : g.rings) redraw_path(s, r, true, o);
    if (o.holes)
        for (size_t i = g.rings.size(); i > 2; i--) std::swap(g.rings[i - 1], g.rings[1 + s.below(i - 1)]);
    return g;
}
inline Col redraw(Src &s, Col c, const Redraw &o = Redraw()) {
    for (auto &p : c.parts) p = redraw(s, p, o);
    for (auto &k : c.kids) k = redraw(s, k, o);
    if (o.holes) {
        for (size_t i = c.parts.size(); i > 1; i--) std::swap(c.parts[i - 1], c.parts[s.below(i)]);
        for (size_t i = c.kids.size(); i > 1; i--) std::swap(c.kids[i - 1], c.kids[s.below(i)]);
    }
    return c;
}
// The eight predicates both ways as bits.
static const char *const PN[] = {"equals", "intersects", "disjoint", "contains", "within", "covers", "coveredby", "touches"};
enum { EQ, IS, DI, CO, WI, CV, CB, TO };
inline bool ask(int i, const struct tg_geom *a, const struct tg_geom *b) {
    switch (i) {
    case EQ: return tg_geom_equals(a, b);
    case IS: return tg_geom_intersects(a, b);
    case DI: return tg_geom_disjoint(a, b);
    case CO: return tg_geom_contains(a, b);
    case WI: return tg_geom_within(a, b);
    case CV: return tg_geom_covers(a, b);
    case CB: return tg_geom_coveredby(a, b);
    default: return tg_geom_touches(a, b);
    }
}
inline unsigned answers(const struct tg_geom *a, const struct tg_geom *b) {
    unsigned v = 0;
    for (int i = 0; i < 8; i++) v |= (unsigned)ask(i, a, b) << 2 * i | (unsigned)ask(i, b, a) << (2 * i + 1);
    return v;
}
inline void same_answers(unsigned want, unsigned got, const char *kind, const char *what) {
    for (int i = 0; i < 16; i++)
        if ((want ^ got) >> i & 1) pbt::fail(kind, "%s%s was %d, is %d %s", PN[i / 2], i % 2 ? " (exchanged)" : "", (int)(want >> i & 1), (int)(got >> i & 1), what);
}
} // namespace coll
