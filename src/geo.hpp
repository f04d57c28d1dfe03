// Exact planar geometry on small integer coordinates: the reference the
// library's predicates are judged against. Everything is integer or rational
// (__int128) arithmetic, nothing here follows the library's algorithms.
#pragma once
#include "tgx.hpp"

namespace geo {
typedef __int128 i128;
struct P {
    int64_t x, y;
    bool operator==(const P &o) const { return x == o.x && y == o.y; }
    bool operator!=(const P &o) const { return !(*this == o); }
    bool operator<(const P &o) const { return x != o.x ? x < o.x : y < o.y; }
};
typedef std::vector<P> Path;          // a ring has first == last
struct Seg {
    P a, b;
};
// Rational point x/d, y/d with d > 0.
struct R {
    i128 x, y, d;
};
inline R toR(P p) { return R{p.x, p.y, 1}; }
inline int sgn(i128 v) { return v < 0 ? -1 : v > 0; }
inline i128 iabs(i128 v) { return v < 0 ? -v : v; }
inline i128 igcd(i128 a, i128 b) {
    a = iabs(a);
    b = iabs(b);
    while (b) {
        i128 t = a % b;
        a = b;
        b = t;
    }
    return a;
}
inline R norm(R r) {
    if (r.d < 0) r = R{-r.x, -r.y, -r.d};
    i128 g = igcd(igcd(r.x, r.y), r.d);
    if (g > 1) r = R{r.x / g, r.y / g, r.d / g};
    return r;
}
inline bool req(const R &a, const R &b) { return a.x * b.d == b.x * a.d && a.y * b.d == b.y * a.d; }
inline int64_t cross(P a, P b, P c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
inline i128 rcross(P a, P b, const R &c) {
    return (i128)(b.x - a.x) * (c.y - (i128)a.y * c.d) - (i128)(b.y - a.y) * (c.x - (i128)a.x * c.d);
}
inline bool on_seg(const Seg &s, const R &p) {
    if (rcross(s.a, s.b, p) != 0) return false;
    i128 x0 = (i128)std::min(s.a.x, s.b.x) * p.d, x1 = (i128)std::max(s.a.x, s.b.x) * p.d;
    i128 y0 = (i128)std::min(s.a.y, s.b.y) * p.d, y1 = (i128)std::max(s.a.y, s.b.y) * p.d;
    return p.x >= x0 && p.x <= x1 && p.y >= y0 && p.y <= y1;
}
inline bool on_seg(const Seg &s, P p) { return on_seg(s, toR(p)); }
// Intersection of two segments: none, one point, or the two ends of an overlap.
inline std::vector<R> seg_isect(const Seg &s, const Seg &t) {
    std::vector<R> out;
    auto add = [&](R r) {
        for (auto &o : out)
            if (req(o, r)) return;
        out.push_back(norm(r));
    };
    if (on_seg(s, t.a)) add(toR(t.a));
    if (on_seg(s, t.b)) add(toR(t.b));
    if (on_seg(t, s.a)) add(toR(s.a));
    if (on_seg(t, s.b)) add(toR(s.b));
    if (!out.empty()) return out;
    int64_t c1 = cross(s.a, s.b, t.a), c2 = cross(s.a, s.b, t.b);
    int64_t c3 = cross(t.a, t.b, s.a), c4 = cross(t.a, t.b, s.b);
    if (sgn(c1) * sgn(c2) < 0 && sgn(c3) * sgn(c4) < 0) {
        // t.a + (t.b - t.a) * c1/(c1-c2)
        i128 den = (i128)c1 - c2;
        R r{(i128)t.a.x * den + (i128)(t.b.x - t.a.x) * c1, (i128)t.a.y * den + (i128)(t.b.y - t.a.y) * c1, den};
        add(norm(r));
    }
    return out;
}
inline bool segs_meet(const Seg &s, const Seg &t) {
    if (on_seg(s, t.a) || on_seg(s, t.b) || on_seg(t, s.a) || on_seg(t, s.b)) return true;
    return sgn(cross(s.a, s.b, t.a)) * sgn(cross(s.a, s.b, t.b)) < 0 &&
           sgn(cross(t.a, t.b, s.a)) * sgn(cross(t.a, t.b, s.b)) < 0;
}

enum Loc { EXT = 0, BND = 1, INT = 2 };

// Even-odd location relative to one closed ring.
inline Loc loc_ring(const Path &r, const R &p) {
    bool in = false;
    for (size_t i = 0; i + 1 < r.size(); i++) {
        Seg s{r[i], r[i + 1]};
        if (on_seg(s, p)) return BND;
        P a = s.a, b = s.b;
        i128 ay = (i128)a.y * p.d, by = (i128)b.y * p.d;
        if ((ay > p.y) != (by > p.y)) {
            // crossing to the right of p?
            i128 c = rcross(a, b, p); // >0: p left of a->b
            if ((by > ay) ? c > 0 : c < 0) in = !in;
        }
    }
    return in ? INT : EXT;
}

// A lattice point beside (not on) the carrying line of a segment, as close to it as lattice points get.
inline P beside(pbt::Src &s, const Seg &a) {
    int64_t dx = a.b.x - a.a.x, dy = a.b.y - a.a.y, g = (int64_t)igcd(dx, dy);
    if (!g) return {a.a.x + (s.flip() ? 1 : -1), a.a.y};
    dx /= g;
    dy /= g;
    int64_t r0 = dx, r1 = dy, s0 = 1, s1 = 0, t0 = 0, t1 = 1; // extended Euclid: s0*dx + t0*dy = r0
    while (r1) {
        int64_t q = r0 / r1, t;
        t = r0 - q * r1, r0 = r1, r1 = t;
        t = s0 - q * s1, s0 = s1, s1 = t;
        t = t0 - q * t1, t0 = t1, t1 = t;
    }
    if (r0 < 0) s0 = -s0, t0 = -t0;
    P u{-t0, s0}; // dx * u.y - dy * u.x == 1
    if (s.flip()) u = {-u.x, -u.y};
    i128 dot = (i128)u.x * dx + (i128)u.y * dy, len = (i128)dx * dx + (i128)dy * dy;
    int64_t m = (int64_t)(dot / len);
    if (dot < m * len) m--;
    u = {u.x - m * dx, u.y - m * dy}; // its foot now lies within the first step
    int64_t k = s.chance(1, 4) ? 0 : s.chance(1, 3) ? g - 1 : (int64_t)s.below(g);
    if (s.chance(1, 8)) k = s.flip() ? -1 : g;
    return {a.a.x + u.x + k * dx, a.a.y + u.y + k * dy};
}

enum Kind { POINT, LINE, POLY };
struct Part {
    Kind kind = POINT;
    P pt{0, 0};
    Path line;
    std::vector<Path> rings; // rings[0] exterior
    std::vector<Seg> segs() const {
        std::vector<Seg> v;
        auto add = [&](const Path &p) {
            for (size_t i = 0; i + 1 < p.size(); i++) v.push_back({p[i], p[i + 1]});
        };
        if (kind == LINE) add(line);
        for (auto &r : rings) add(r);
        return v;
    }
};
inline Loc loc(const Part &g, const R &p) {
    switch (g.kind) {
    case POINT: return req(p, toR(g.pt)) ? INT : EXT;
    case LINE: {
        bool on = false;
        for (size_t i = 0; i + 1 < g.line.size() && !on; i++) on = on_seg({g.line[i], g.line[i + 1]}, p);
        if (!on) return EXT;
        if (g.line.front() != g.line.back() && (req(p, toR(g.line.front())) || req(p, toR(g.line.back()))))
            return BND;
        return INT;
    }
    default: {
        Loc e = loc_ring(g.rings[0], p);
        if (e != INT) return e;
        for (size_t i = 1; i < g.rings.size(); i++) {
            Loc h = loc_ring(g.rings[i], p);
            if (h == BND) return BND;
            if (h == INT) return EXT;
        }
        return INT;
    }
    }
}

// How two simple parts relate: cell[la][lb] says whether some point of the
// plane is at location la of A and lb of B, decided on a complete sample of the
// arrangement of both (every vertex, every edge piece, both sides of every
// edge piece).
struct Rel {
    bool cell[3][3] = {};
    bool intersects() const { return cell[INT][INT] || cell[INT][BND] || cell[BND][INT] || cell[BND][BND]; }
    bool covers() const { // A covers B
        return intersects() && !cell[EXT][INT] && !cell[EXT][BND];
    }
    bool contains_strict() const { // B inside A and not touching A's boundary
        return covers() && !cell[BND][INT] && !cell[BND][BND];
    }
    bool contains_ogc() const { return covers() && cell[INT][INT]; }
    bool touches() const { return intersects() && !cell[INT][INT]; }
};
inline Rel relate(const Part &A, const Part &B) {
    Rel rel;
    auto visit = [&](const R &p) { rel.cell[loc(A, p)][loc(B, p)] = true; };
    std::vector<Seg> all = A.segs(), sb = B.segs();
    all.insert(all.end(), sb.begin(), sb.end());
    std::vector<P> iso;
    if (A.kind == POINT) iso.push_back(A.pt);
    if (B.kind == POINT) iso.push_back(B.pt);
    for (auto &p : iso) visit(toR(p));
    bool area = A.kind == POLY || B.kind == POLY;
    for (size_t i = 0; i < all.size(); i++) {
        const Seg &s = all[i];
        if (s.a == s.b) {
            visit(toR(s.a));
            continue;
        }
        std::vector<R> on;
        on.push_back(toR(s.a));
        on.push_back(toR(s.b));
        for (size_t j = 0; j < all.size(); j++) {
            if (j == i) continue;
            for (auto &r : seg_isect(s, all[j])) on.push_back(r);
        }
        for (auto &p : iso)
            if (on_seg(s, p)) on.push_back(toR(p));
        bool byx = s.a.x != s.b.x;
        std::sort(on.begin(), on.end(), [&](const R &p, const R &q) {
            return byx ? p.x * q.d < q.x * p.d : p.y * q.d < q.y * p.d;
        });
        for (size_t k = 0; k < on.size(); k++) {
            if (k && req(on[k], on[k - 1])) continue;
            visit(on[k]);
            size_t n = k + 1;
            while (n < on.size() && req(on[n], on[k])) n++;
            if (n == on.size()) continue;
            const R &p = on[k], &q = on[n];
            R m = norm(R{p.x * q.d + q.x * p.d, p.y * q.d + q.y * p.d, 2 * p.d * q.d});
            visit(m);
            if (area) {
                const i128 E = (i128)1 << 44;
                i128 nx = -(s.b.y - s.a.y), ny = s.b.x - s.a.x;
                visit(R{m.x * E + nx * m.d, m.y * E + ny * m.d, m.d * E});
                visit(R{m.x * E - nx * m.d, m.y * E - ny * m.d, m.d * E});
            }
        }
    }
    rel.cell[EXT][EXT] = true;
    return rel;
}

inline bool ring_simple(const Path &r) {
    size_t n = r.size() - 1;
    if (n < 3 || r.front() != r.back()) return false;
    for (size_t i = 0; i < n; i++) {
        if (r[i] == r[i + 1]) return false;
        for (size_t j = i + 1; j < n; j++) {
            Seg s{r[i], r[i + 1]}, t{r[j], r[j + 1]};
            bool adj = j == i + 1 || (i == 0 && j == n - 1);
            if (!adj) {
                if (segs_meet(s, t)) return false;
            } else {
                auto v = seg_isect(s, t);
                if (v.size() != 1 && n > 2) {
                    return false;
                }
            }
        }
    }
    return true;
}
inline bool line_simple(const Path &l) {
    size_t n = l.size() - 1;
    bool closed = l.front() == l.back();
    for (size_t i = 0; i < n; i++) {
        if (l[i] == l[i + 1]) return false;
        for (size_t j = i + 1; j < n; j++) {
            Seg s{l[i], l[i + 1]}, t{l[j], l[j + 1]};
            bool adj = j == i + 1 || (closed && n > 2 && i == 0 && j == n - 1);
            auto v = seg_isect(s, t);
            if (adj ? v.size() != 1 : !v.empty()) return false;
        }
    }
    return true;
}
inline int64_t area2(const Path &r) { // twice the signed area, >0 counter-clockwise
    int64_t a = 0;
    for (size_t i = 0; i + 1 < r.size(); i++) a += r[i].x * r[i + 1].y - r[i + 1].x * r[i].y;
    return a;
}
inline bool ring_convex(const Path &r) { // simple rings only; collinear vertices allowed
    int sg = 0;
    size_t n = r.size() - 1;
    for (size_t i = 0; i < n; i++) {
        int c = sgn(cross(r[i], r[(i + 1) % n], r[(i + 2) % n]));
        if (c) {
            if (sg && c != sg) return false;
            sg = c;
        }
    }
    return true;
}

// ---------------------------------------------------------------- conversion
inline struct tg_point tp(P p) { return {(double)p.x, (double)p.y}; }
inline std::vector<struct tg_point> tps(const Path &p) {
    std::vector<struct tg_point> v;
    for (auto &q : p) v.push_back(tp(q));
    return v;
}
inline struct tg_poly *mk_poly(const Part &g, enum tg_index ix) {
    std::vector<struct tg_ring *> rs;
    for (auto &r : g.rings) {
        auto v = tps(r);
        rs.push_back(tg_ring_new_ix(v.data(), (int)v.size(), ix));
    }
    struct tg_poly *p = tg_poly_new(rs[0], rs.data() + 1, (int)rs.size() - 1);
    for (auto r : rs) tg_ring_free(r);
    return p;
}
inline struct tg_geom *mk(const Part &g, enum tg_index ix = TG_DEFAULT) {
    switch (g.kind) {
    case POINT: return tg_geom_new_point(tp(g.pt));
    case LINE: {
        auto v = tps(g.line);
        struct tg_line *l = tg_line_new_ix(v.data(), (int)v.size(), ix);
        struct tg_geom *r = tg_geom_new_linestring(l);
        tg_line_free(l);
        return r;
    }
    default: {
        struct tg_poly *p = mk_poly(g, ix);
        struct tg_geom *r = tg_geom_new_polygon(p);
        tg_poly_free(p);
        return r;
    }
    }
}
inline std::string str(const Path &p) {
    std::string s = "(";
    for (size_t i = 0; i < p.size(); i++) {
        if (i) s += ",";
        s += std::to_string(p[i].x) + " " + std::to_string(p[i].y);
    }
    return s + ")";
}
inline std::string str(const Part &g) {
    switch (g.kind) {
    case POINT: return "POINT" + str(Path{g.pt});
    case LINE: return "LINESTRING" + str(g.line);
    default: {
        std::string s = "POLYGON(";
        for (size_t i = 0; i < g.rings.size(); i++) s += (i ? "," : "") + str(g.rings[i]);
        return s + ")";
    }
    }
}

// ---------------------------------------------------------------- generators
using pbt::Src;
inline P gen_pt(Src &s, int n) {
    int64_t x = s.below(n + 1), y = s.below(n + 1);
    return {x, y};
}
inline Path hull(std::vector<P> pts) { // strict convex hull, ccw, closed
    std::sort(pts.begin(), pts.end());
    pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
    if (pts.size() < 3) return {};
    Path h(2 * pts.size());
    size_t k = 0;
    for (size_t i = 0; i < pts.size(); i++) {
        while (k >= 2 && cross(h[k - 2], h[k - 1], pts[i]) <= 0) k--;
        h[k++] = pts[i];
    }
    for (size_t i = pts.size() - 1, t = k + 1; i-- > 0;) {
        while (k >= t && cross(h[k - 2], h[k - 1], pts[i]) <= 0) k--;
        h[k++] = pts[i];
    }
    h.resize(k);
    if (h.size() < 4) return {};
    return h;
}
// A simple ring on the (n+1)x(n+1) grid, any orientation and start vertex.
inline Path gen_ring(Src &s, int n, bool want_convex = false) {
    Path r;
    int how = want_convex ? (int)s.below(2) : (int)s.below(5);
    switch (how) {
    case 0: { // axis-parallel rectangle
        int64_t x0 = s.below(n), y0 = s.below(n);
        int64_t x1 = x0 + 1 + s.below(n - x0), y1 = y0 + 1 + s.below(n - y0);
        r = {{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}, {x0, y0}};
        break;
    }
    case 1: { // convex hull
        std::vector<P> p;
        int k = 3 + (int)s.below(8);
        for (int i = 0; i < k; i++) p.push_back(gen_pt(s, n));
        r = hull(p);
        break;
    }
    case 2: { // random vertex order, kept only when simple
        int k = 3 + (int)s.below(5);
        for (int i = 0; i < k; i++) r.push_back(gen_pt(s, n));
        r.push_back(r[0]);
        break;
    }
    case 3: { // grown: start from a hull or triangle and insert vertices
        std::vector<P> p;
        for (int i = 0; i < 4; i++) p.push_back(gen_pt(s, n));
        r = hull(p);
        int k = (int)s.below(10);
        for (int i = 0; i < k && !r.empty(); i++) {
            P q = gen_pt(s, n);
            size_t at = 1 + s.below(r.size() - 1);
            Path c = r;
            c.insert(c.begin() + at, q);
            if (ring_simple(c)) r = c;
        }
        break;
    }
    default: { // histogram: rectilinear with many collinear/axis edges
        int k = 2 + (int)s.below(std::min(n, 6) - 1);
        std::vector<int64_t> h;
        for (int i = 0; i < k; i++) h.push_back(1 + s.below(n));
        r.push_back({0, 0});
        for (int i = 0; i < k; i++) {
            P a{i, h[i]}, b{i + 1, h[i]};
            if (i == 0 || a != r.back()) r.push_back(a);
            r.push_back(b);
        }
        r.push_back({k, 0});
        r.push_back({0, 0});
        break;
    }
    }
    if (r.size() < 4 || !ring_simple(r)) {
        r = {{0, 0}, {n, 0}, {n, n}, {0, n}, {0, 0}};
        if (s.flip()) r = {{0, 0}, {n, 0}, {n / 2, n}, {0, 0}};
    }
    // rotate and maybe reverse
    r.pop_back();
    size_t rot = s.below(r.size());
    std::rotate(r.begin(), r.begin() + rot, r.end());
    r.push_back(r[0]);
    if (s.flip()) std::reverse(r.begin(), r.end());
    return r;
}
inline Part gen_line(Src &s, int n, bool simple) {
    Part g;
    g.kind = LINE;
    int k = 2 + (int)s.below(6);
    bool closed = s.chance(1, 6);
    for (int i = 0; i < k; i++) {
        P q = gen_pt(s, n);
        if (i && s.chance(1, 4)) { // axis or repeat direction
            q = s.flip() ? P{q.x, g.line.back().y} : P{g.line.back().x, q.y};
        }
        g.line.push_back(q);
        if (simple && g.line.size() > 1 && !line_simple(g.line)) g.line.pop_back();
    }
    if (closed && g.line.size() > 3) {
        Path c = g.line;
        c.push_back(c[0]);
        if (!simple || line_simple(c)) g.line = c;
    }
    while (g.line.size() < 2) {
        P q = g.line.empty() ? P{0, 0} : P{g.line[0].x + 1, g.line[0].y};
        g.line.push_back(q);
    }
    return g;
}
// true when `in` lies inside `out` with at most isolated contacts, and does not
// disconnect it (we only allow at most one contact point)
inline bool hole_ok(const Path &out, const Path &in) {
    int contacts = 0;
    std::vector<R> seen;
    for (size_t i = 0; i + 1 < in.size(); i++) {
        for (size_t j = 0; j + 1 < out.size(); j++) {
            auto v = seg_isect({in[i], in[i + 1]}, {out[j], out[j + 1]});
            if (v.size() > 1) return false;
            for (auto &r : v) {
                bool dup = false;
                for (auto &q : seen)
                    if (req(q, r)) dup = true;
                if (!dup) {
                    seen.push_back(r);
                    contacts++;
                }
            }
        }
    }
    return contacts <= 1;
}
inline bool ring_inside(const Path &out, const Path &in) {
    if (!hole_ok(out, in)) return false;
    for (size_t i = 0; i + 1 < in.size(); i++) {
        R m{in[i].x + in[i + 1].x, in[i].y + in[i + 1].y, 2};
        if (loc_ring(out, m) == EXT) return false;
        if (loc_ring(out, toR(in[i])) == EXT) return false;
    }
    return true;
}
inline bool rings_apart(const Path &a, const Path &b) {
    if (!hole_ok(a, b)) return false;
    for (size_t i = 0; i + 1 < a.size(); i++) {
        R m{a[i].x + a[i + 1].x, a[i].y + a[i + 1].y, 2};
        if (loc_ring(b, m) == INT || loc_ring(b, toR(a[i])) == INT) return false;
    }
    for (size_t i = 0; i + 1 < b.size(); i++) {
        R m{b[i].x + b[i + 1].x, b[i].y + b[i + 1].y, 2};
        if (loc_ring(a, m) == INT || loc_ring(a, toR(b[i])) == INT) return false;
    }
    return true;
}
inline Part gen_poly(Src &s, int n, int maxholes, bool convex = false) {
    Part g;
    g.kind = POLY;
    g.rings.push_back(gen_ring(s, n, convex));
    int k = maxholes > 0 ? (int)s.below(maxholes + 1) : 0;
    for (int i = 0; i < k; i++) {
        Path h;
        if (s.flip()) {
            h = gen_ring(s, n);
        } else {
            int m = 2 + (int)s.below(2);
            h = gen_ring(s, m);
            P o = gen_pt(s, n - m);
            for (auto &p : h) {
                p.x += o.x;
                p.y += o.y;
            }
        }
        bool ok = ring_inside(g.rings[0], h);
        int contacts = 0;
        (void)contacts;
        for (size_t j = 1; ok && j < g.rings.size(); j++) ok = rings_apart(g.rings[j], h);
        // the combination must keep the interior connected: only accept a hole
        // with contacts when there are no other holes
        if (ok && g.rings.size() > 1) {
            for (size_t j = 0; ok && j < g.rings.size(); j++)
                for (size_t a = 0; ok && a + 1 < h.size(); a++)
                    for (size_t b = 0; b + 1 < g.rings[j].size(); b++)
                        if (segs_meet({h[a], h[a + 1]}, {g.rings[j][b], g.rings[j][b + 1]})) {
                            ok = false;
                            break;
                        }
        }
        if (ok) g.rings.push_back(h);
    }
    return g;
}
inline Part gen_part(Src &s, int n, bool simple_lines = true, int maxholes = 2) {
    switch (s.below(3)) {
    case 0: {
        Part g;
        g.pt = gen_pt(s, n);
        return g;
    }
    case 1: return gen_line(s, n, simple_lines);
    default: return gen_poly(s, n, maxholes);
    }
}
} // namespace geo
