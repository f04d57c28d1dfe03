// A plain data model of geometries, with independent encoders for every
// format and a comparison against what the library's accessors report.
#pragma once
#include "json.hpp"
#include "tgx.hpp"
namespace mdl {
using pbt::fail;
using pbt::Src;
struct V4 {
    double x = 0, y = 0, z = 0, m = 0;
};
typedef std::vector<V4> Seq;
typedef std::vector<Seq> Rings;
struct M {
    int type = TG_POINT;
    bool z = false, m = false;
    bool empty = false;           // made as an explicitly empty geometry
    std::vector<Rings> parts;     // point: parts[0][0][0]; line: parts[0][0]; polygon: parts[0]; multi*: parts[i]
    std::vector<M> kids;          // geometry collections
    int dims() const { return 2 + z + m; }
};
inline bool is_empty(const M &g) {
    if (g.empty) return true;
    if (g.type == TG_GEOMETRYCOLLECTION) {
        for (auto &k : g.kids)
            if (!is_empty(k)) return false;
        return true;
    }
    return g.parts.empty();
}
inline int nparts(const M &g) { return g.type == TG_GEOMETRYCOLLECTION ? (int)g.kids.size() : (int)g.parts.size(); }
inline uint64_t bits(double d) {
    uint64_t u;
    memcpy(&u, &d, 8);
    return u;
}
inline double frombits(uint64_t u) {
    double d;
    memcpy(&d, &u, 8);
    return d;
}
// ---------------------------------------------------------------- generation
enum Vals { SMALL, FINITE, ANY };
inline double gen_num(Src &s, Vals v) {
    if (v == SMALL) return (double)s.range(0, 20) - (s.chance(1, 4) ? 10 : 0);
    switch (s.below(10)) {
    case 0: return (double)s.range(0, 20);
    case 1: return -(double)s.range(0, 20);
    case 2: { // short decimal
        static const double p[] = {10, 100, 1000, 1e4, 1e5, 1e6, 1e7, 1e8};
        double d = (double)s.range(0, 2000000000) / p[s.below(8)];
        return s.flip() ? -d : d;
    }
    case 3: { // geographic
        double d = ((double)(s.u64() >> 11) / (double)(1ull << 53)) * 360 - 180;
        return d;
    }
    case 4: { // any finite bit pattern
        double d = frombits(s.u64());
        return std::isfinite(d) ? d : 1.5;
    }
    case 5: { // power of ten or two, give or take an ulp
        double d = s.flip() ? pow(10, (double)s.range(0, 60) - 30) : ldexp(1, (int)s.range(0, 200) - 100);
        switch (s.below(3)) {
        case 1: d = nextafter(d, INFINITY); break;
        case 2: d = nextafter(d, -INFINITY); break;
        }
        return s.flip() ? -d : d;
    }
    case 6: { // big integer
        double d = (double)(s.u64() >> s.below(64));
        return s.flip() ? -d : d;
    }
    case 7: { // subnormal or extreme
        static const double e[] = {0.0, -0.0, 5e-324, -5e-324, 2.2250738585072014e-308, 2.2250738585072009e-308,
                                   1.7976931348623157e308, -1.7976931348623157e308, 9007199254740993.0, 1e21, 1e22, 1e23, 1e-7, 123456789012345680.0};
        if (s.flip()) return e[s.below(14)];
        return frombits(s.u64() & 0x800FFFFFFFFFFFFFull);
    }
    case 8: // specials
        if (v == ANY) {
            static const uint64_t e[] = {0x7FF0000000000000ull, 0xFFF0000000000000ull, 0x7FF8000000000000ull,
                                         0xFFF8000000000001ull, 0x7FF0000000000001ull};
            return frombits(e[s.below(5)]);
        }
        return -0.0;
    default: return (double)s.range(0, 20) * 0.5;
    }
}
struct GenOpt {
    Vals vals = FINITE;
    int maxpts = 8;
    int maxparts = 4;
    int depth = 2;
    bool empties = true;   // explicitly empty geometries, and empty members of collections
    bool nodim_m = false;  // no lone M (GeoJSON cannot carry it)
    bool only2d = false;
    bool small_rings = true;
};
inline V4 gen_v4(Src &s, const GenOpt &o) {
    V4 p;
    p.x = gen_num(s, o.vals);
    p.y = gen_num(s, o.vals);
    p.z = gen_num(s, o.vals);
    p.m = gen_num(s, o.vals);
    return p;
}
inline Seq gen_seq(Src &s, const GenOpt &o, int lo) {
    Seq q;
    int n = s.size(lo, std::max(lo, o.maxpts));
    for (int i = 0; i < n; i++) q.push_back(gen_v4(s, o));
    return q;
}
inline Seq gen_ring(Src &s, const GenOpt &o) {
    Seq q = gen_seq(s, o, 2);
    V4 l = gen_v4(s, o);
    // first and last position are equal in x and y; avoid NaN there
    if (std::isnan(q[0].x)) q[0].x = 3;
    if (std::isnan(q[0].y)) q[0].y = 4;
    l.x = q[0].x;
    l.y = q[0].y;
    q.push_back(l);
    return q;
}
inline Rings gen_rings(Src &s, const GenOpt &o) {
    Rings r;
    int n = 1 + (s.chance(1, 3) ? (int)s.below(3) : 0);
    for (int i = 0; i < n; i++) r.push_back(gen_ring(s, o));
    return r;
}
inline M gen(Src &s, const GenOpt &o, int depth) {
    M g;
    g.type = 1 + (int)s.below(depth > 0 ? 7 : 6);
    if (o.empties && s.chance(1, 12)) {
        g.empty = true;
        return g;
    }
    if (g.type == TG_GEOMETRYCOLLECTION) {
        int n = s.size(0, o.maxparts);
        for (int i = 0; i < n; i++) g.kids.push_back(gen(s, o, depth - 1));
        return g;
    }
    if (!o.only2d) {
        switch (s.below(o.nodim_m ? 4 : 5)) {
        case 1: g.z = true; break;
        case 2: g.z = g.m = true; break;
        case 4: g.m = true; break;
        }
    }
    switch (g.type) {
    case TG_POINT: g.parts = {Rings{Seq{gen_v4(s, o)}}}; break;
    case TG_LINESTRING: g.parts = {Rings{gen_seq(s, o, 2)}}; break;
    case TG_POLYGON: g.parts = {gen_rings(s, o)}; break;
    default: {
        int n = s.size(0, o.maxparts);
        for (int i = 0; i < n; i++) {
            if (g.type == TG_MULTIPOINT) g.parts.push_back(Rings{Seq{gen_v4(s, o)}});
            else if (g.type == TG_MULTILINESTRING) g.parts.push_back(Rings{gen_seq(s, o, 2)});
            else g.parts.push_back(gen_rings(s, o));
        }
        if (n == 0) g.z = g.m = false; // dimension of nothing is not kept by the text formats
        break;
    }
    }
    // a WKB point whose ordinates are all NaN is how an empty point is written
    if (g.type == TG_POINT || g.type == TG_MULTIPOINT)
        for (auto &p : g.parts) {
            V4 &q = p[0][0];
            if (o.vals == ANY && s.chance(1, 12)) { // some of its numbers are NaN
                if (s.flip()) q.x = frombits(0x7FF8000000000000ull);
                if (s.flip()) q.y = frombits(0x7FF8000000000000ull);
                if (s.flip()) q.z = frombits(0x7FF8000000000000ull);
                if (s.flip()) q.m = frombits(0x7FF8000000000000ull);
            }
            if (std::isnan(q.x) && std::isnan(q.y) && (!g.z || std::isnan(q.z)) && (!g.m || std::isnan(q.m))) q.x = 7;
        }
    return g;
}
// Now and then a geometry far larger than the rest: its coordinates come from one
// drawn seed, so that the case stays cheap to draw and to shrink.
inline M gen_huge(Src &s, const GenOpt &o, int most = 11) {
    static const int sizes[] = {300, 600, 1030, 1030, 2060, 4100, 4100, 8200, 17000, 33000, 66000};
    int n = sizes[s.below(most)] + (int)s.below(40);
    if (most < 11 && s.flip()) n = 40 + (int)s.below(500);
    uint64_t x = s.u64() | 1;
    auto rnd = [&](uint64_t k) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        return (x >> 11) % k;
    };
    bool small = o.vals == SMALL || s.flip();
    double unit = o.vals != SMALL && s.flip() ? 0.1 : 0.25; // floats would do, or would not
    auto num = [&]() -> double {
        if (small || rnd(4)) return ((double)rnd(4001) - 2000) * unit;
        double d = frombits(((uint64_t)rnd(1ull << 52) << 1) | ((uint64_t)(1023 - 20 + rnd(40)) << 52));
        return rnd(2) ? -d : d;
    };
    auto v4 = [&] {
        V4 p;
        p.x = num();
        p.y = num();
        p.z = num();
        p.m = num();
        return p;
    };
    auto seq = [&](int k, bool ring) {
        Seq q;
        for (int i = 0; i < k; i++) q.push_back(v4());
        if (ring) {
            V4 l = v4();
            l.x = q[0].x;
            l.y = q[0].y;
            q.push_back(l);
        }
        return q;
    };
    M g;
    g.type = 1 + (int)s.below(7);
    if (g.type == TG_POINT) g.type = TG_MULTIPOINT;
    auto dims = [&](M &k) {
        if (o.only2d) return;
        switch (s.below(o.nodim_m ? 4 : 5)) {
        case 1: k.z = true; break;
        case 2: k.z = k.m = true; break;
        case 4: k.m = true; break;
        }
    };
    if (g.type != TG_GEOMETRYCOLLECTION) dims(g);
    int per = s.flip() ? 4 : 3 + (int)s.below(300);
    switch (g.type) {
    case TG_MULTIPOINT:
        for (int i = 0; i < n; i++) g.parts.push_back(Rings{seq(1, false)});
        break;
    case TG_LINESTRING: g.parts = {Rings{seq(n, false)}}; break;
    case TG_POLYGON: {
        Rings r;
        if (s.flip()) { // one long ring, among short ones
            int before = s.chance(1, 4) ? 1 + (int)s.below(3) : 0, after = s.flip() ? (int)s.below(5) : 0;
            for (int i = 0; i < before; i++) r.push_back(seq(4, true));
            r.push_back(seq(n, true));
            for (int i = 0; i < after; i++) r.push_back(seq(4 + (int)s.below(3), true));
        } else
            for (int i = 0; i < n / per + 1; i++) r.push_back(seq(per, true));
        g.parts = {r};
        break;
    }
    case TG_MULTILINESTRING:
        if (s.flip()) { // one long line, among short ones
            int k = 1 + (int)s.below(4), at = (int)s.below(k);
            for (int i = 0; i < k; i++) g.parts.push_back(Rings{seq(i == at ? n : 2 + (int)s.below(3), false)});
            break;
        }
        for (int i = 0; i < n / per + 1; i++) g.parts.push_back(Rings{seq(per, false)});
        break;
    case TG_MULTIPOLYGON:
        if (s.flip()) { // one long ring, somewhere
            int k = 1 + (int)s.below(3), at = (int)s.below(k), hole = (int)s.below(3);
            for (int i = 0; i < k; i++) {
                Rings r;
                for (int j = 0; j < 3; j++) r.push_back(seq(i == at && j == hole ? n : 4, true));
                g.parts.push_back(r);
            }
            break;
        }
        for (int i = 0; i < n / per + 1; i++) {
            Rings r{seq(per, true)};
            for (uint64_t k = rnd(3); k > 0 && i % 3 == 0; k--) r.push_back(seq(4, true));
            g.parts.push_back(r);
        }
        break;
    default: {
        n /= 3;
        GenOpt t = o;
        t.maxpts = 3;
        t.maxparts = 3;
        std::vector<M> some;
        for (int i = 0; i < 5; i++) some.push_back(gen(s, t, 1));
        for (int i = 0; i < n; i++) g.kids.push_back(some[rnd(some.size())]);
    }
    }
    return g;
}
// A geometry; one in `rare` is huge.
inline M gen_top(Src &s, const GenOpt &o, uint64_t rare = 1500) {
    if (o.depth > 0 && s.chance(1, rare / 3)) { // collections within collections, many levels deep
        int k = 3 + (int)s.below(s.chance(1, 4) ? 250 : 30);
        M g = gen(s, o, 0);
        for (int i = 0; i < k; i++) {
            M c;
            c.type = TG_GEOMETRYCOLLECTION;
            int before = s.chance(1, 20), after = s.chance(1, 20);
            if (before) c.kids.push_back(gen(s, o, 0));
            c.kids.push_back(std::move(g));
            if (after) c.kids.push_back(gen(s, o, 0));
            g = std::move(c);
        }
        return g;
    }
    if (s.chance(1, rare)) return gen_huge(s, o);
    if (s.chance(1, rare / 3)) return gen_huge(s, o, 3);
    return gen(s, o, o.depth);
}
// ------------------------------------------------------------ constructors
inline std::vector<struct tg_point> pts(const Seq &q) {
    std::vector<struct tg_point> v;
    for (auto &p : q) v.push_back({p.x, p.y});
    return v;
}
inline std::vector<double> extra(const M &g) {
    std::vector<double> v;
    for (auto &p : g.parts)
        for (auto &r : p)
            for (auto &c : r) {
                if (g.z) v.push_back(c.z);
                if (g.m) v.push_back(c.m);
            }
    return v;
}
inline struct tg_line *mk_line(const Seq &q, enum tg_index ix) {
    auto v = pts(q);
    return tg_line_new_ix(v.data(), (int)v.size(), ix);
}
inline struct tg_ring *mk_ring(const Seq &q, enum tg_index ix) {
    auto v = pts(q);
    return tg_ring_new_ix(v.data(), (int)v.size(), ix);
}
inline struct tg_poly *mk_poly(const Rings &r, enum tg_index ix) {
    std::vector<struct tg_ring *> rs;
    for (auto &q : r) rs.push_back(mk_ring(q, ix));
    struct tg_poly *p = tg_poly_new(rs[0], rs.data() + 1, (int)rs.size() - 1);
    for (auto x : rs) tg_ring_free(x);
    return p;
}
inline struct tg_geom *build(const M &g, enum tg_index ix = TG_DEFAULT) {
    std::vector<double> x = extra(g);
    const double *xc = x.data();
    int nx = (int)x.size();
    struct tg_geom *out = nullptr;
    switch (g.type) {
    case TG_POINT: {
        if (g.empty) return tg_geom_new_point_empty();
        const V4 &p = g.parts[0][0][0];
        struct tg_point pt = {p.x, p.y};
        if (g.z && g.m) return tg_geom_new_point_zm(pt, p.z, p.m);
        if (g.z) return tg_geom_new_point_z(pt, p.z);
        if (g.m) return tg_geom_new_point_m(pt, p.m);
        return tg_geom_new_point(pt);
    }
    case TG_LINESTRING: {
        if (g.empty) return tg_geom_new_linestring_empty();
        struct tg_line *l = mk_line(g.parts[0][0], ix);
        if (g.z && g.m) out = tg_geom_new_linestring_zm(l, xc, nx);
        else if (g.z) out = tg_geom_new_linestring_z(l, xc, nx);
        else if (g.m) out = tg_geom_new_linestring_m(l, xc, nx);
        else out = tg_geom_new_linestring(l);
        tg_line_free(l);
        return out;
    }
    case TG_POLYGON: {
        if (g.empty) return tg_geom_new_polygon_empty();
        struct tg_poly *p = mk_poly(g.parts[0], ix);
        if (g.z && g.m) out = tg_geom_new_polygon_zm(p, xc, nx);
        else if (g.z) out = tg_geom_new_polygon_z(p, xc, nx);
        else if (g.m) out = tg_geom_new_polygon_m(p, xc, nx);
        else out = tg_geom_new_polygon(p);
        tg_poly_free(p);
        return out;
    }
    case TG_MULTIPOINT: {
        if (g.empty) return tg_geom_new_multipoint_empty();
        std::vector<struct tg_point> v;
        for (auto &p : g.parts) v.push_back({p[0][0].x, p[0][0].y});
        int n = (int)v.size();
        if (g.z && g.m) return tg_geom_new_multipoint_zm(v.data(), n, xc, nx);
        if (g.z) return tg_geom_new_multipoint_z(v.data(), n, xc, nx);
        if (g.m) return tg_geom_new_multipoint_m(v.data(), n, xc, nx);
        return tg_geom_new_multipoint(v.data(), n);
    }
    case TG_MULTILINESTRING: {
        if (g.empty) return tg_geom_new_multilinestring_empty();
        std::vector<struct tg_line *> v;
        for (auto &p : g.parts) v.push_back(mk_line(p[0], ix));
        int n = (int)v.size();
        if (g.z && g.m) out = tg_geom_new_multilinestring_zm(v.data(), n, xc, nx);
        else if (g.z) out = tg_geom_new_multilinestring_z(v.data(), n, xc, nx);
        else if (g.m) out = tg_geom_new_multilinestring_m(v.data(), n, xc, nx);
        else out = tg_geom_new_multilinestring(v.data(), n);
        for (auto l : v) tg_line_free(l);
        return out;
    }
    case TG_MULTIPOLYGON: {
        if (g.empty) return tg_geom_new_multipolygon_empty();
        std::vector<struct tg_poly *> v;
        for (auto &p : g.parts) v.push_back(mk_poly(p, ix));
        int n = (int)v.size();
        if (g.z && g.m) out = tg_geom_new_multipolygon_zm(v.data(), n, xc, nx);
        else if (g.z) out = tg_geom_new_multipolygon_z(v.data(), n, xc, nx);
        else if (g.m) out = tg_geom_new_multipolygon_m(v.data(), n, xc, nx);
        else out = tg_geom_new_multipolygon(v.data(), n);
        for (auto l : v) tg_poly_free(l);
        return out;
    }
    default: {
        if (g.empty) return tg_geom_new_geometrycollection_empty();
        std::vector<struct tg_geom *> v;
        for (auto &k : g.kids) v.push_back(build(k, ix));
        out = tg_geom_new_geometrycollection(v.data(), (int)v.size());
        for (auto l : v) tg_geom_free(l);
        return out;
    }
    }
}
// --------------------------------------------------------------------- WKB
struct WkbStyle {
    Src *s = nullptr; // null: canonical little endian, no SRID
    bool srid = false;
    bool odd = false; // some members of multis have dimensions of their own
};
inline void put32(std::string &o, uint32_t v, bool be) {
    for (int i = 0; i < 4; i++) o += (char)(v >> 8 * (be ? 3 - i : i));
}
inline void putd(std::string &o, double d, bool be) {
    uint64_t u = bits(d);
    for (int i = 0; i < 8; i++) o += (char)(u >> 8 * (be ? 7 - i : i));
}
inline void wkb_seq(std::string &o, const M &g, const Seq &q, bool be, bool count) {
    if (count) put32(o, (uint32_t)q.size(), be);
    for (auto &p : q) {
        putd(o, p.x, be);
        putd(o, p.y, be);
        if (g.z) putd(o, p.z, be);
        if (g.m) putd(o, p.m, be);
    }
}
inline void wkb_to(std::string &o, const M &g, const WkbStyle &st) {
    bool be = st.s && st.s->flip();
    bool srid = st.s && st.srid && st.s->chance(1, 4);
    bool gz = g.z, gm = g.m;
    if (st.s && ((g.empty && g.type <= TG_POLYGON) || g.type == TG_GEOMETRYCOLLECTION)) { // the dimension of nothing or of a collection is not kept
        int k = (int)st.s->below(4);
        gz = k & 1;
        gm = k >> 1;
    }
    auto head = [&](int type, bool b, bool sr) {
        o += b ? '\0' : '\1';
        uint32_t t = (uint32_t)type + (gz ? (gm ? 3000 : 1000) : gm ? 2000 : 0);
        if ((gz || gm) && st.s && st.srid && st.s->chance(1, 4)) // the extended way to say it
            t = (uint32_t)type | (gz ? 0x80000000u : 0) | (gm ? 0x40000000u : 0);
        if (sr) t |= 0x20000000u;
        put32(o, t, b);
        if (sr) put32(o, (uint32_t)(st.s->chance(1, 2) ? 4326 : st.s->below(1ull << 32)), b);
    };
    head(g.type, be, srid);
    auto kid = [&](int type) {
        bool b = st.s && st.s->flip();
        head(type, b, st.s && st.srid && st.s->chance(1, 4));
        return b;
    };
    switch (g.type) {
    case TG_POINT:
        if (g.empty) {
            for (int i = 0; i < 2 + gz + gm; i++) putd(o, frombits(0x7FF8000000000000ull), be);
        } else {
            wkb_seq(o, g, g.parts[0][0], be, false);
        }
        break;
    case TG_LINESTRING:
        if (g.empty) put32(o, 0, be);
        else wkb_seq(o, g, g.parts[0][0], be, true);
        break;
    case TG_POLYGON:
        put32(o, g.empty ? 0 : (uint32_t)g.parts[0].size(), be);
        if (!g.empty)
            for (auto &r : g.parts[0]) wkb_seq(o, g, r, be, true);
        break;
    case TG_MULTIPOINT:
    case TG_MULTILINESTRING:
    case TG_MULTIPOLYGON:
        put32(o, (uint32_t)g.parts.size(), be);
        for (auto &p : g.parts) {
            M as;
            as.z = g.z, as.m = g.m;
            if (st.odd && st.s->chance(1, 3)) {
                as.z = st.s->flip();
                as.m = st.s->flip();
            }
            gz = as.z, gm = as.m;
            bool b = kid(g.type - 3);
            if (g.type == TG_MULTIPOLYGON) put32(o, (uint32_t)p.size(), b);
            for (auto &r : p) wkb_seq(o, as, r, b, g.type != TG_MULTIPOINT);
        }
        break;
    default:
        put32(o, (uint32_t)g.kids.size(), be);
        for (auto &k : g.kids) wkb_to(o, k, st);
    }
}
inline std::string wkb(const M &g, Src *s = nullptr, bool srid = false, bool odd = false) {
    std::string o;
    WkbStyle st;
    st.s = s;
    st.srid = srid;
    st.odd = s && odd;
    wkb_to(o, g, st);
    return o;
}
// Collections without any members may still say they have a Z or an M.
inline void dims_of_nothing(Src &s, M &g) {
    if (g.type >= TG_MULTIPOINT && g.type <= TG_MULTIPOLYGON && !g.empty && g.parts.empty()) {
        int k = (int)s.below(4);
        g.z = k & 1;
        g.m = k >> 1;
    }
    for (auto &k : g.kids) dims_of_nothing(s, k);
}
inline std::string tohex(const std::string &b, Src *s = nullptr) {
    std::string o;
    int how = s ? (int)s->below(3) : 1;
    for (unsigned char c : b)
        for (int k = 4; k >= 0; k -= 4) {
            int d = c >> k & 15;
            bool up = how == 1 || (how == 2 && s->flip());
            o += up ? "0123456789ABCDEF"[d] : "0123456789abcdef"[d];
        }
    return o;
}
// ------------------------------------------------------------------- numbers
// A spelling of d that every correct reader turns into d.
inline std::string num(Src *s, double d) {
    char b[700];
    if (!s) {
        snprintf(b, sizeof b, "%.17g", d);
        return b;
    }
    switch (s->below(6)) {
    case 0: // shortest
    case 1:
        for (int p = 1; p <= 17; p++) {
            snprintf(b, sizeof b, "%.*g", p, d);
            if (strtod(b, nullptr) == d) break;
        }
        break;
    case 2: snprintf(b, sizeof b, "%.17g", d); break;
    case 3: snprintf(b, sizeof b, "%.*e", 16 + (int)s->below(8), d); break;
    case 4: snprintf(b, sizeof b, "%.*E", 16 + (int)s->below(4), d); break;
    default:
        if (fabs(d) < 1e40 && (d == 0 || fabs(d) > 1e-40)) {
            snprintf(b, sizeof b, "%.*f", 60, d);
            // cut trailing zeros, maybe leave some
            std::string t = b;
            size_t keep = s->below(3);
            while (t.size() > 2 && t.back() == '0' && t[t.size() - 2] != '.') {
                if (keep && t[t.size() - 2] != '0') break;
                t.pop_back();
            }
            if (s->flip() && t.size() > 2 && t.compare(t.size() - 2, 2, ".0") == 0) t.resize(t.size() - 2);
            if (strtod(t.c_str(), nullptr) == d) return t;
        }
        snprintf(b, sizeof b, "%.17g", d);
    }
    std::string t = b;
    // exponent forms: e+05 and e5 are both legal
    size_t e = t.find_first_of("eE");
    if (e != std::string::npos && s->flip()) {
        std::string m = t.substr(0, e + 1), x = t.substr(e + 1);
        bool neg = x[0] == '-';
        size_t k = x.find_first_not_of("+-0");
        x = k == std::string::npos ? "0" : x.substr(k);
        t = m + (neg ? "-" : "") + x;
    }
    return t;
}
// --------------------------------------------------------------------- WKT
struct TxtStyle {
    Src *s = nullptr; // null: canonical
    bool wsp = false;
    bool mixcase = false;
};
inline std::string w0(const TxtStyle &t) { return t.s ? js::ws(*t.s, t.wsp) : ""; }
inline std::string w1(const TxtStyle &t) {
    if (!t.s || !t.wsp) return " ";
    std::string x = js::ws(*t.s, true);
    return x.empty() ? " " : x;
}
inline std::string kw(const TxtStyle &t, const char *k) {
    std::string o = k;
    if (t.s && t.mixcase)
        for (auto &c : o)
            if (t.s->flip()) c = (char)tolower(c);
    return o;
}
inline std::string wkt_pos(const M &g, const V4 &p, const TxtStyle &t) {
    std::string o = num(t.s, p.x) + w1(t) + num(t.s, p.y);
    if (g.z) o += w1(t) + num(t.s, p.z);
    if (g.m) o += w1(t) + num(t.s, p.m);
    return o;
}
inline std::string wkt_seq(const M &g, const Seq &q, const TxtStyle &t) {
    std::string o = "(" + w0(t);
    for (size_t i = 0; i < q.size(); i++) {
        if (i) o += "," + w0(t);
        o += wkt_pos(g, q[i], t) + w0(t);
    }
    return o + ")";
}
inline std::string wkt_rings(const M &g, const Rings &r, const TxtStyle &t) {
    std::string o = "(" + w0(t);
    for (size_t i = 0; i < r.size(); i++) {
        if (i) o += "," + w0(t);
        o += wkt_seq(g, r[i], t) + w0(t);
    }
    return o + ")";
}
inline const char *wkt_name(int type) {
    static const char *n[] = {"", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION"};
    return n[type];
}
inline std::string wkt(const M &g, const TxtStyle &t) {
    std::string o = kw(t, wkt_name(g.type));
    bool e = g.empty || nparts(g) == 0;
    bool tag = g.m && !g.z; // a lone M must be said
    if (!tag && (g.z || g.m) && t.s && t.s->flip()) tag = true;
    if (e && t.s && t.s->chance(1, 4)) { // the dimension of nothing is not kept
        static const char *tg[] = {"Z", "M", "ZM"};
        o += w1(t) + kw(t, tg[t.s->below(3)]);
        tag = false;
    }
    if (tag) o += (t.s && t.s->chance(1, 3) ? "" : w1(t)) + kw(t, g.z && g.m ? "ZM" : g.z ? "Z" : "M");
    if (e) return o + w1(t) + kw(t, "EMPTY");
    o += w0(t);
    switch (g.type) {
    case TG_POINT:
    case TG_LINESTRING: return o + wkt_seq(g, g.parts[0][0], t);
    case TG_POLYGON: return o + wkt_rings(g, g.parts[0], t);
    default: break;
    }
    o += "(" + w0(t);
    bool par = t.s ? t.s->flip() : false;
    int n = nparts(g);
    for (int i = 0; i < n; i++) {
        if (i) o += "," + w0(t);
        if (g.type == TG_GEOMETRYCOLLECTION) o += wkt(g.kids[i], t);
        else if (g.type == TG_MULTIPOLYGON) o += wkt_rings(g, g.parts[i], t);
        else if (g.type == TG_MULTILINESTRING || par) o += wkt_seq(g, g.parts[i][0], t);
        else o += wkt_pos(g, g.parts[i][0][0], t);
        o += w0(t);
    }
    return o + ")";
}
// ----------------------------------------------------------------- GeoJSON
inline const char *json_name(int type) {
    static const char *n[] = {"", "Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection"};
    return n[type];
}
struct JsonStyle {
    Src *s = nullptr;
    bool wsp = false, esc = false;
    bool over = false; // more than four numbers in some positions
};
inline std::string jw(const JsonStyle &t) { return t.s ? js::ws(*t.s, t.wsp) : ""; }
inline std::string jkey(const JsonStyle &t, const char *k) {
    return (t.s ? js::lit(*t.s, k, t.esc) : std::string("\"") + k + "\"") + jw(t) + ":" + jw(t);
}
inline std::string json_pos(const M &g, const V4 &p, const JsonStyle &t) {
    std::string o = "[" + jw(t) + num(t.s, p.x) + jw(t) + "," + jw(t) + num(t.s, p.y) + jw(t);
    if (g.z) o += "," + jw(t) + num(t.s, p.z) + jw(t);
    if (g.m) o += "," + jw(t) + num(t.s, p.m) + jw(t);
    if (g.m && t.over)
        for (uint64_t i = t.s->below(4); i > 0; i--) o += "," + jw(t) + num(t.s, (double)i) + jw(t);
    return o + "]";
}
inline std::string json_seq(const M &g, const Seq &q, const JsonStyle &t) {
    std::string o = "[" + jw(t);
    for (size_t i = 0; i < q.size(); i++) {
        if (i) o += "," + jw(t);
        o += json_pos(g, q[i], t) + jw(t);
    }
    return o + "]";
}
inline std::string json_rings(const M &g, const Rings &r, const JsonStyle &t) {
    std::string o = "[" + jw(t);
    for (size_t i = 0; i < r.size(); i++) {
        if (i) o += "," + jw(t);
        o += json_seq(g, r[i], t) + jw(t);
    }
    return o + "]";
}
inline std::string json_geom(const M &g, const JsonStyle &t, std::vector<std::pair<std::string, std::string>> more = {});
inline std::string json_coords(const M &g, const JsonStyle &t) {
    if (g.empty || nparts(g) == 0) return "[" + jw(t) + "]";
    switch (g.type) {
    case TG_POINT: return json_pos(g, g.parts[0][0][0], t);
    case TG_LINESTRING: return json_seq(g, g.parts[0][0], t);
    case TG_POLYGON: return json_rings(g, g.parts[0], t);
    default: break;
    }
    std::string o = "[" + jw(t);
    int n = nparts(g);
    for (int i = 0; i < n; i++) {
        if (i) o += "," + jw(t);
        switch (g.type) {
        case TG_MULTIPOINT: o += json_pos(g, g.parts[i][0][0], t); break;
        case TG_MULTILINESTRING: o += json_seq(g, g.parts[i][0], t); break;
        case TG_MULTIPOLYGON: o += json_rings(g, g.parts[i], t); break;
        default: o += json_geom(g.kids[i], t);
        }
        o += jw(t);
    }
    return o + "]";
}
// members: key literal -> value text, written in random order with a style
inline std::string json_obj(std::vector<std::pair<std::string, std::string>> mem, const JsonStyle &t) {
    if (t.s)
        for (size_t i = mem.size(); i > 1; i--) std::swap(mem[i - 1], mem[t.s->below(i)]);
    std::string o = "{" + jw(t);
    for (size_t i = 0; i < mem.size(); i++) {
        if (i) o += "," + jw(t);
        o += mem[i].first + jw(t) + ":" + jw(t) + mem[i].second + jw(t);
    }
    return o + "}";
}
inline std::string jlit(const JsonStyle &t, const char *k) {
    if (t.s) return js::lit(*t.s, k, t.esc);
    Src none;
    return js::lit(none, k, false);
}
inline std::string json_geom(const M &g, const JsonStyle &t, std::vector<std::pair<std::string, std::string>> more) {
    std::vector<std::pair<std::string, std::string>> mem;
    mem.push_back({jlit(t, "type"), jlit(t, json_name(g.type))});
    mem.push_back({jlit(t, g.type == TG_GEOMETRYCOLLECTION ? "geometries" : "coordinates"), json_coords(g, t)});
    for (auto &m : more) mem.push_back(m);
    return json_obj(mem, t);
}
// ------------------------------------------------------------------ compare
struct CmpOpt {
    bool zero_sign = true; // -0 and 0 differ
    bool nan_any = false;  // NaN payloads may differ
    std::string path;
};
inline bool same_num(double a, double b, const CmpOpt &o) {
    if (bits(a) == bits(b)) return true;
    if (!o.zero_sign && a == 0 && b == 0) return true;
    if (o.nan_any && std::isnan(a) && std::isnan(b)) return true;
    return false;
}
#define MDL_FAIL(...) fail("mismatch", __VA_ARGS__)
inline void cmp_pt(const V4 &e, struct tg_point g, const CmpOpt &o, const char *what, int i) {
    if (!same_num(e.x, g.x, o) || !same_num(e.y, g.y, o))
        MDL_FAIL("%s %d: expected (%.17g %.17g) got (%.17g %.17g) [%s]", what, i, e.x, e.y, g.x, g.y, o.path.c_str());
}
inline void cmp_line(const Seq &q, const struct tg_line *l, const CmpOpt &o) {
    if (!l) MDL_FAIL("no line [%s]", o.path.c_str());
    if (tg_line_num_points(l) != (int)q.size())
        MDL_FAIL("line has %d points, expected %zu [%s]", tg_line_num_points(l), q.size(), o.path.c_str());
    for (size_t i = 0; i < q.size(); i++) cmp_pt(q[i], tg_line_point_at(l, (int)i), o, "line point", (int)i);
}
inline void cmp_ring(const Seq &q, const struct tg_ring *l, const CmpOpt &o) {
    if (!l) MDL_FAIL("no ring [%s]", o.path.c_str());
    if (tg_ring_num_points(l) != (int)q.size())
        MDL_FAIL("ring has %d points, expected %zu [%s]", tg_ring_num_points(l), q.size(), o.path.c_str());
    for (size_t i = 0; i < q.size(); i++) cmp_pt(q[i], tg_ring_point_at(l, (int)i), o, "ring point", (int)i);
}
inline void cmp_poly(const Rings &r, const struct tg_poly *p, const CmpOpt &o) {
    if (!p) MDL_FAIL("no polygon [%s]", o.path.c_str());
    if (tg_poly_num_holes(p) != (int)r.size() - 1)
        MDL_FAIL("polygon has %d holes, expected %d [%s]", tg_poly_num_holes(p), (int)r.size() - 1, o.path.c_str());
    cmp_ring(r[0], tg_poly_exterior(p), o);
    for (size_t i = 1; i < r.size(); i++) cmp_ring(r[i], tg_poly_hole_at(p, (int)i - 1), o);
}
// Everything the accessors say about `g` is what `e` says.
inline void compare(const M &e, const struct tg_geom *g, CmpOpt o = CmpOpt()) {
    if (!g) MDL_FAIL("no geometry [%s]", o.path.c_str());
    if (tg_geom_error(g)) MDL_FAIL("error '%s' [%s]", tg_geom_error(g), o.path.c_str());
    if ((int)tg_geom_typeof(g) != e.type)
        MDL_FAIL("type %s, expected %s [%s]", tg_geom_type_string(tg_geom_typeof(g)), json_name(e.type), o.path.c_str());
    o.path += std::string("/") + json_name(e.type);
    if (tg_geom_is_empty(g) != is_empty(e))
        MDL_FAIL("is_empty is %d, expected %d [%s]", tg_geom_is_empty(g), is_empty(e), o.path.c_str());
    bool z = e.z && !e.empty, m = e.m && !e.empty;
    if (tg_geom_has_z(g) != z || tg_geom_has_m(g) != m || tg_geom_dims(g) != 2 + z + m)
        MDL_FAIL("has_z=%d has_m=%d dims=%d, expected z=%d m=%d [%s]", tg_geom_has_z(g), tg_geom_has_m(g), tg_geom_dims(g), z, m, o.path.c_str());
    int np = e.empty ? 0 : nparts(e);
    bool mp = e.type == TG_MULTIPOINT, ml = e.type == TG_MULTILINESTRING, my = e.type == TG_MULTIPOLYGON, gc = e.type == TG_GEOMETRYCOLLECTION;
    if (tg_geom_num_points(g) != (mp ? np : 0) || tg_geom_num_lines(g) != (ml ? np : 0) || tg_geom_num_polys(g) != (my ? np : 0) ||
        tg_geom_num_geometries(g) != (gc ? np : 0))
        MDL_FAIL("members %d/%d/%d/%d, expected %d [%s]", tg_geom_num_points(g), tg_geom_num_lines(g), tg_geom_num_polys(g),
                 tg_geom_num_geometries(g), np, o.path.c_str());
    if (e.empty) return;
    switch (e.type) {
    case TG_POINT: {
        const V4 &p = e.parts[0][0][0];
        cmp_pt(p, tg_geom_point(g), o, "point", 0);
        if (!same_num(z ? p.z : 0, tg_geom_z(g), o) || !same_num(m ? p.m : 0, tg_geom_m(g), o))
            MDL_FAIL("z/m %.17g %.17g, expected %.17g %.17g [%s]", tg_geom_z(g), tg_geom_m(g), z ? p.z : 0, m ? p.m : 0, o.path.c_str());
        break;
    }
    case TG_LINESTRING: cmp_line(e.parts[0][0], tg_geom_line(g), o); break;
    case TG_POLYGON: cmp_poly(e.parts[0], tg_geom_poly(g), o); break;
    case TG_MULTIPOINT:
        for (int i = 0; i < np; i++) cmp_pt(e.parts[i][0][0], tg_geom_point_at(g, i), o, "member point", i);
        break;
    case TG_MULTILINESTRING:
        for (int i = 0; i < np; i++) cmp_line(e.parts[i][0], tg_geom_line_at(g, i), o);
        break;
    case TG_MULTIPOLYGON:
        for (int i = 0; i < np; i++) cmp_poly(e.parts[i], tg_geom_poly_at(g, i), o);
        break;
    default:
        for (int i = 0; i < np; i++) compare(e.kids[i], tg_geom_geometry_at(g, i), o);
    }
    if (e.type != TG_POINT && e.type != TG_GEOMETRYCOLLECTION) {
        std::vector<double> x = extra(e);
        if (tg_geom_num_extra_coords(g) != (int)x.size())
            MDL_FAIL("%d extra coordinates, expected %zu [%s]", tg_geom_num_extra_coords(g), x.size(), o.path.c_str());
        const double *c = tg_geom_extra_coords(g);
        for (size_t i = 0; i < x.size(); i++)
            if (!same_num(x[i], c[i], o)) MDL_FAIL("extra coordinate %zu is %.17g, expected %.17g [%s]", i, c[i], x[i], o.path.c_str());
    }
}
struct Ext {
    bool any = false;
    double lo[4] = {0}, hi[4] = {0};
    bool zany = false, many = false;
    bool lone_m = false; // something has M but no Z
};
inline void add(double &lo, double &hi, bool &any, double v) {
    if (!any) lo = hi = v;
    lo = std::min(lo, v);
    hi = std::max(hi, v);
    any = true;
}
inline void collect(const M &g, Ext &e) {
    if (g.empty) return;
    if (g.type == TG_GEOMETRYCOLLECTION) {
        for (auto &k : g.kids) collect(k, e);
        return;
    }
    if (g.m && !g.z && !g.parts.empty()) e.lone_m = true;
    for (auto &p : g.parts) {
        size_t nr = p.size();
        for (size_t r = 0; r < nr; r++)
            for (auto &c : p[r]) {
                if (g.z) add(e.lo[2], e.hi[2], e.zany, c.z);
                if (g.m) add(e.lo[3], e.hi[3], e.many, c.m);
                if (r > 0) continue; // holes lie inside
                bool a = e.any;
                add(e.lo[0], e.hi[0], a, c.x);
                a = e.any;
                add(e.lo[1], e.hi[1], a, c.y);
                e.any = true;
            }
    }
}
// The full rectangle: number of dimensions and ranges. Negative if members mix Z with a lone M.
inline int full_of(const M &, const Ext &e, double mn[4], double mx[4]) {
    int d = 0;
    for (; d < 2; d++) mn[d] = e.lo[d], mx[d] = e.hi[d];
    if (e.lone_m && e.zany) return -1;
    if (e.zany) mn[d] = e.lo[2], mx[d] = e.hi[2], d++;
    if (e.many) mn[d] = e.lo[3], mx[d] = e.hi[3], d++;
    return d;
}
// Moves the holes inside their exterior, as far as rectangles go.
inline void holes_inside(M &m) {
    if (m.type == TG_POLYGON || m.type == TG_MULTIPOLYGON)
        for (auto &p : m.parts)
            for (size_t i = 1; i < p.size(); i++)
                for (size_t j = 0; j < p[i].size(); j++) {
                    V4 k = p[0][(j + i) % (p[0].size() - 1)];
                    if (j + 1 == p[i].size()) k = p[i][0];
                    p[i][j].x = k.x;
                    p[i][j].y = k.y;
                }
    for (auto &k : m.kids) holes_inside(k);
}
inline std::string show(const M &g) {
    TxtStyle t;
    std::string w = wkt(g, t);
    return w.size() > 600 ? w.substr(0, 600) + "..." : w;
}
inline M m_as_z(M g) { // GeoJSON carries a lone M in the third position
    if (g.m && !g.z) {
        g.z = true;
        g.m = false;
        for (auto &p : g.parts)
            for (auto &r : p)
                for (auto &c : r) c.z = c.m;
    }
    for (auto &k : g.kids) k = m_as_z(k);
    return g;
}
inline bool nontriv(const M &g) { return !is_empty(g); }
} // namespace mdl
