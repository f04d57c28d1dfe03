// Larger shapes on exact coordinates, index choices and drawing variations.
#pragma once
#include "geo.hpp"
namespace shp {
using namespace geo;
// A ring strictly star-shaped about an interior point: any number of vertices.
inline Path star_ring(Src &s, int n, int64_t R_) {
    std::vector<P> d;
    for (int i = 0; i < n; i++) {
        P p{(int64_t)s.below(2 * R_ + 1) - R_, (int64_t)s.below(2 * R_ + 1) - R_};
        if (p.x || p.y) d.push_back(p);
    }
    d.push_back({1 + (int64_t)s.below(R_), 0});
    d.push_back({-1 - (int64_t)s.below(R_), (int64_t)s.below(2)});
    d.push_back({(int64_t)s.below(2), 1 + (int64_t)s.below(R_)});
    d.push_back({0, -1 - (int64_t)s.below(R_)});
    auto half = [](const P &p) { return p.y > 0 || (p.y == 0 && p.x > 0) ? 0 : 1; };
    auto crs = [](const P &a, const P &b) { return a.x * b.y - a.y * b.x; };
    std::sort(d.begin(), d.end(), [&](const P &a, const P &b) {
        if (half(a) != half(b)) return half(a) < half(b);
        int64_t k = crs(a, b);
        if (k) return k > 0;
        return a.x * a.x + a.y * a.y < b.x * b.x + b.y * b.y;
    });
    Path r;
    for (auto &p : d)
        if (r.empty() || half(p) != half(r.back()) || crs(r.back(), p) != 0) r.push_back(p);
    for (auto &p : r) {
        p.x += R_;
        p.y += R_;
    }
    r.push_back(r[0]);
    return r;
}
// A ring between two x-monotone chains.
inline Path comb_ring(Src &s, int n, int64_t h, int64_t step) {
    Path up, lo;
    int64_t x = 0;
    int k = std::max(2, n / 2);
    bool flat = s.flip();
    for (int i = 0; i < k; i++) {
        up.push_back({x, h + 1 + (flat && i && s.flip() ? up.back().y - h - 1 : (int64_t)s.below(h))});
        lo.push_back({x, h - 1 - (flat && i && s.flip() ? h - 1 - lo.back().y : (int64_t)s.below(h))});
        x += 1 + (int64_t)s.below(step);
    }
    Path r = lo;
    for (size_t i = up.size(); i-- > 0;) r.push_back(up[i]);
    r.push_back(r[0]);
    return r;
}
// A rectilinear ring: histogram.
inline Path histo_ring(Src &s, int n, int64_t h) {
    Path r{{0, 0}};
    int k = std::max(1, n / 2);
    for (int i = 0; i < k; i++) {
        int64_t y = 1 + (int64_t)s.below(h);
        if (r.back().y != y || i == 0) r.push_back({i, y});
        r.push_back({i + 1, y});
    }
    r.push_back({k, 0});
    r.push_back({0, 0});
    return r;
}
// A rectangular spiral corridor: both sides of a spiral centre line.
inline Path spiral_ring(Src &s, int n) {
    int k = std::max(3, n / 2); // centre line vertices
    int64_t gap = 3 + (int64_t)s.below(3);
    Path c{{0, 0}};
    static const P dir[] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}};
    for (int i = 0; i + 1 < k; i++) {
        int64_t len = gap * (i / 2 + 1);
        P p = c.back(), d = dir[i % 4];
        c.push_back({p.x + d.x * len, p.y + d.y * len});
    }
    auto left = [](P d) { return P{-d.y, d.x}; };
    Path l, r;
    for (int i = 0; i < k; i++) {
        P n1 = left(dir[(i ? i - 1 : 0) % 4]), n2 = left(dir[(i + 1 < k ? i : i - 1) % 4]);
        P o = i == 0 || i == k - 1 ? n1 : P{n1.x + n2.x, n1.y + n2.y};
        l.push_back({c[i].x + o.x, c[i].y + o.y});
        r.push_back({c[i].x - o.x, c[i].y - o.y});
    }
    Path q = l;
    for (int i = k; i-- > 0;) q.push_back(r[i]);
    q.push_back(q[0]);
    return q;
}
inline void turn(Src &s, Path &r) { // another start vertex, maybe the other way round
    r.pop_back();
    std::rotate(r.begin(), r.begin() + s.below(r.size()), r.end());
    r.push_back(r[0]);
    if (s.flip()) std::reverse(r.begin(), r.end());
}
// Any simple ring with about n vertices.
inline Path big_ring(Src &s, int n) {
    Path r;
    switch (s.below(5)) {
    case 4: r = spiral_ring(s, std::min(n, 400)); break;
    case 0: {
        int64_t R_ = s.flip() ? 6 + n : 5 + (int64_t)s.below(30);
        r = star_ring(s, n, R_);
        break;
    }
    case 1: r = comb_ring(s, n, 1 + (int64_t)s.below(40), 1 + (int64_t)s.below(3)); break;
    case 2: r = histo_ring(s, n, 1 + (int64_t)s.below(30)); break;
    default: {
        int64_t w = 3 + (int64_t)s.below(40);
        std::vector<P> p;
        for (int i = 0; i < n; i++) p.push_back(gen_pt(s, (int)w));
        r = hull(p);
        if (r.empty()) r = star_ring(s, n, 10);
    }
    }
    if (s.chance(1, 6))
        for (auto &p : r) std::swap(p.x, p.y);
    // extra collinear vertices on unit-divisible edges
    if (s.chance(1, 4)) {
        Path q;
        for (size_t i = 0; i + 1 < r.size(); i++) {
            q.push_back(r[i]);
            int64_t dx = r[i + 1].x - r[i].x, dy = r[i + 1].y - r[i].y;
            int64_t g = (int64_t)igcd(dx, dy);
            if (g > 1 && s.flip()) {
                int64_t k = 1 + (int64_t)s.below(g - 1);
                q.push_back({r[i].x + dx / g * k, r[i].y + dy / g * k});
            }
        }
        q.push_back(q[0]);
        r = q;
    }
    turn(s, r);
    return r;
}
inline void bbox(const Path &r, P &a, P &b) {
    a = b = r[0];
    for (auto &p : r) {
        a.x = std::min(a.x, p.x);
        a.y = std::min(a.y, p.y);
        b.x = std::max(b.x, p.x);
        b.y = std::max(b.y, p.y);
    }
}
// A point likely to be in an interesting place relative to the ring.
inline P near_pt(Src &s, const Path &r) {
    P a, b;
    bbox(r, a, b);
    switch (s.below(6)) {
    case 0: return r[s.below(r.size())]; // a vertex
    case 1: { // level with a vertex
        P v = r[s.below(r.size())];
        return {a.x - 1 + (int64_t)s.below(b.x - a.x + 3), v.y};
    }
    case 2: { // below or above a vertex
        P v = r[s.below(r.size())];
        return {v.x, a.y - 1 + (int64_t)s.below(b.y - a.y + 3)};
    }
    case 3: { // next to a vertex
        P v = r[s.below(r.size())];
        return {v.x + (int64_t)s.below(3) - 1, v.y + (int64_t)s.below(3) - 1};
    }
    case 4: { // on an edge when it has a lattice point
        size_t i = s.below(r.size() - 1);
        int64_t dx = r[i + 1].x - r[i].x, dy = r[i + 1].y - r[i].y;
        int64_t g = (int64_t)igcd(dx, dy);
        if (g == 0) return r[i];
        int64_t k = (int64_t)s.below(g + 1);
        return {r[i].x + dx / g * k, r[i].y + dy / g * k};
    }
    default: return {a.x - 1 + (int64_t)s.below(b.x - a.x + 3), a.y - 1 + (int64_t)s.below(b.y - a.y + 3)};
    }
}
// Holes of about m vertices inside a big exterior: the exterior is scaled up
// and each hole put strictly inside, apart from the others.
inline Part big_poly(Src &s, int n, int maxholes) {
    Part g;
    g.kind = POLY;
    Path ext = big_ring(s, n);
    int64_t k = maxholes ? 4 : 1;
    for (auto &p : ext) {
        p.x *= k;
        p.y *= k;
    }
    g.rings.push_back(ext);
    int h = maxholes ? (int)s.below(maxholes + 1) : 0;
    P a, b;
    bbox(ext, a, b);
    for (int i = 0; i < h; i++) {
        Path r = s.chance(1, 3) ? big_ring(s, std::max(3, n / 4)) : gen_ring(s, 2 + (int)s.below(6));
        P c = near_pt(s, ext);
        P ra, rb;
        bbox(r, ra, rb);
        for (auto &p : r) {
            p.x += c.x - (ra.x + rb.x) / 2;
            p.y += c.y - (ra.y + rb.y) / 2;
        }
        // strictly inside, strictly apart
        auto clear = [&](const Path &u, const Path &v) {
            for (size_t x = 0; x + 1 < u.size(); x++)
                for (size_t y = 0; y + 1 < v.size(); y++)
                    if (segs_meet({u[x], u[x + 1]}, {v[y], v[y + 1]})) return false;
            return true;
        };
        bool ok = loc_ring(ext, toR(r[0])) == INT && clear(ext, r);
        for (size_t j = 1; ok && j < g.rings.size(); j++)
            ok = clear(g.rings[j], r) && loc_ring(g.rings[j], toR(r[0])) == EXT && loc_ring(r, toR(g.rings[j][0])) == EXT;
        if (ok) g.rings.push_back(r);
    }
    return g;
}
// An x-monotone (hence simple) or wandering line.
inline Part big_line(Src &s, int n, bool simple) {
    Part g;
    g.kind = LINE;
    int64_t x = 0, y = 20, h = 1 + (int64_t)s.below(40);
    n = std::max(2, n);
    for (int i = 0; i < n; i++) {
        if (simple) {
            g.line.push_back({x, (int64_t)s.below(h)});
            x += 1 + (int64_t)s.below(3);
        } else {
            g.line.push_back({x, y});
            int64_t w = s.chance(1, 10) ? 20 : 2;
            x += (int64_t)s.below(2 * w + 1) - w;
            y += (int64_t)s.below(2 * w + 1) - w;
        }
    }
    if (simple && s.flip())
        for (auto &p : g.line) std::swap(p.x, p.y);
    if (s.flip()) std::reverse(g.line.begin(), g.line.end());
    return g;
}
inline void shift(Part &g, P d) {
    g.pt.x += d.x;
    g.pt.y += d.y;
    for (auto &p : g.line) {
        p.x += d.x;
        p.y += d.y;
    }
    for (auto &r : g.rings)
        for (auto &p : r) {
            p.x += d.x;
            p.y += d.y;
        }
}
inline void scale(Part &g, int64_t k) {
    g.pt.x *= k;
    g.pt.y *= k;
    for (auto &p : g.line) {
        p.x *= k;
        p.y *= k;
    }
    for (auto &r : g.rings)
        for (auto &p : r) {
            p.x *= k;
            p.y *= k;
        }
}
inline Part big_part(Src &s, int n) {
    switch (s.below(5)) {
    case 0: {
        Part g;
        g.pt = gen_pt(s, 40);
        return g;
    }
    case 1: return big_line(s, n, true);
    case 2: return big_poly(s, n, 0);
    default: return big_poly(s, n, 3);
    }
}
inline const Path &outline(const Part &g) {
    static Path one(1);
    if (g.kind == LINE) return g.line;
    if (g.kind == POLY) return g.rings[0];
    one[0] = g.pt;
    return one;
}
// Put b somewhere it is likely to matter to a.
inline void place(Src &s, const Part &a, Part &b) {
    const Path &u = outline(a);
    P p = u[s.below(u.size())];
    if (s.flip()) {
        P lo, hi;
        bbox(u, lo, hi);
        p = {lo.x + (int64_t)s.below(hi.x - lo.x + 1), lo.y + (int64_t)s.below(hi.y - lo.y + 1)};
    }
    Path v = outline(b);
    P q = v[s.below(v.size())];
    shift(b, {p.x - q.x, p.y - q.y});
}
inline enum tg_index gen_ix(Src &s) {
    static const enum tg_index k[] = {TG_DEFAULT, TG_NONE, TG_NATURAL, TG_YSTRIPES};
    return k[s.below(4)];
}
// Choose how things built from now on are indexed: small spreads index small shapes.
inline enum tg_index pick_ix(Src &s) {
    enum tg_index ix = gen_ix(s);
    static const int sp[] = {16, 2, 3, 4, 5, 8, 7, 13, 64, 17, 20};
    tg_env_set_index_spread(sp[s.below(11)]);
    if (ix == TG_DEFAULT) {
        static const enum tg_index k[] = {TG_NATURAL, TG_NONE, TG_YSTRIPES};
        tg_env_set_index(k[s.below(3)]);
    }
    return ix;
}
// What a shape is once only one of its symmetries changed.
inline P map_pt(int m, P p) {
    if (m & 1) p.x = -p.x;
    if (m & 2) p.y = -p.y;
    if (m & 4) std::swap(p.x, p.y);
    return p;
}
inline Part map_part(int m, Part g) {
    g.pt = map_pt(m, g.pt);
    for (auto &p : g.line) p = map_pt(m, p);
    for (auto &r : g.rings)
        for (auto &p : r) p = map_pt(m, p);
    return g;
}
inline Part as_rect(P a, P b) {
    Part g;
    g.kind = POLY;
    g.rings.push_back({{a.x, a.y}, {b.x, a.y}, {b.x, b.y}, {a.x, b.y}, {a.x, a.y}});
    return g;
}
} // namespace shp
