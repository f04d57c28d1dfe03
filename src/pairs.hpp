// Pairs of shapes in delicate relative positions, with the exact relation.
#pragma once
#include "shapes.hpp"
namespace pairs {
using namespace shp;
struct Pair {
    Part a, b;
};
inline std::string note(const Pair &p) {
    std::string t = str(p.a) + " " + str(p.b);
    return t.size() > 1800 ? t.substr(0, 1800) + "..." : t;
}
// b made out of pieces of a: shared edges, vertices on edges, sub-chains.
inline Part derived(Src &s, const Part &a, int n) {
    std::vector<P> v;
    for (auto &e : a.segs()) {
        v.push_back(e.a);
        int64_t dx = e.b.x - e.a.x, dy = e.b.y - e.a.y, g = (int64_t)igcd(dx, dy);
        if (g > 1) {
            int64_t k = 1 + (int64_t)s.below(g - 1);
            v.push_back({e.a.x + dx / g * k, e.a.y + dy / g * k});
        }
    }
    if (a.kind == POINT) v.push_back(a.pt);
    Part b;
    switch (s.below(5)) {
    case 0: { // a point of a
        b.pt = s.pick(v);
        return b;
    }
    case 1: { // a chain of a's boundary, maybe with one end pulled off
        std::vector<Path> ps;
        if (a.kind == LINE) ps.push_back(a.line);
        for (auto &r : a.rings) ps.push_back(r);
        if (ps.empty()) break;
        const Path &p = ps[s.below(ps.size())];
        size_t m = p.size() - 1, st = s.below(m), k = 1 + s.below(m);
        b.kind = LINE;
        bool cyc = p.front() == p.back();
        for (size_t i = 0; i <= k; i++) {
            size_t j = st + i;
            if (cyc) j %= m;
            else if (j > m) break;
            b.line.push_back(p[j]);
        }
        if (s.chance(1, 3)) b.line.back() = gen_pt(s, n);
        if (s.flip()) std::reverse(b.line.begin(), b.line.end());
        if (b.line.size() < 2 || !line_simple(b.line)) break;
        return b;
    }
    case 2: { // a line through points of a
        b.kind = LINE;
        int k = 2 + (int)s.below(4);
        for (int i = 0; i < k; i++) {
            P q = s.chance(1, 4) ? gen_pt(s, n) : s.pick(v);
            b.line.push_back(q);
            if (b.line.size() > 1 && !line_simple(b.line)) b.line.pop_back();
        }
        if (b.line.size() < 2) break;
        return b;
    }
    case 3: { // a ring through points of a
        Path r;
        int k = 3 + (int)s.below(5);
        for (int i = 0; i < k; i++) r.push_back(s.chance(1, 4) ? gen_pt(s, n) : s.pick(v));
        if (s.flip()) r = hull(r);
        else r.push_back(r[0]);
        if (r.size() < 4 || !ring_simple(r)) break;
        b.kind = POLY;
        b.rings.push_back(r);
        turn(s, b.rings[0]);
        return b;
    }
    default: { // one ring of a as a polygon, or a without one of its holes
        if (a.kind != POLY) break;
        b = a;
        if (s.flip()) b.rings = {a.rings[s.below(a.rings.size())]};
        else if (b.rings.size() > 1) b.rings.erase(b.rings.begin() + 1 + s.below(b.rings.size() - 1));
        else {
            // move one vertex
            Path &r = b.rings[0];
            size_t i = s.below(r.size() - 1);
            P q = gen_pt(s, n);
            Path t = r;
            t[i] = q;
            if (i == 0) t.back() = q;
            if (ring_simple(t)) r = t;
        }
        return b;
    }
    }
    return gen_part(s, n, true, 2);
}
inline Pair gen_small(Src &s) {
    static const int ns[] = {3, 4, 5, 6, 8, 12, 16};
    int n = ns[s.below(7)];
    Pair p;
    p.a = gen_part(s, n, true, 2);
    if (p.a.kind == POINT && s.chance(2, 3)) p.a = gen_part(s, n, true, 2);
    p.b = s.flip() ? derived(s, p.a, n) : gen_part(s, n, true, 2);
    if (s.flip()) std::swap(p.a, p.b);
    return p;
}
inline Pair gen_big(Src &s, int n) {
    Pair p;
    p.a = big_part(s, n);
    switch (s.below(6)) {
    case 4: // end to end: the outermost points in opposite directions meet
    case 5: {
        p.b = s.flip() ? big_part(s, n) : gen_part(s, 4 + (int)s.below(12), true, 2);
        const P d = {(int64_t)s.below(3) - 1, (int64_t)s.below(3) - 1};
        auto most = [&](const Path &u, int sg) {
            P m = u[0];
            for (auto &q : u)
                if (sg * (d.x * q.x + d.y * q.y) > sg * (d.x * m.x + d.y * m.y)) m = q;
            return m;
        };
        P u, v;
        if (s.chance(2, 3)) {
            u = most(outline(p.a), 1);
            Path o = outline(p.b);
            v = most(o, -1);
        } else { // an end of each
            u = s.flip() ? outline(p.a).front() : outline(p.a).back();
            Path o = outline(p.b);
            v = s.flip() ? o.front() : o.back();
        }
        shift(p.b, {u.x - v.x, u.y - v.y});
        goto done;
    }
    case 0: p.b = big_part(s, n); break;
    case 1: p.b = gen_part(s, 4 + (int)s.below(12), true, 2); break;
    case 2: p.b = derived(s, p.a, 20); if (s.flip()) goto done; break;
    default: // the same, shrunk or moved a little
        p.b = p.a;
        shift(p.b, {(int64_t)s.below(3) - 1, (int64_t)s.below(3) - 1});
        goto done;
    }
    place(s, p.a, p.b);
done:
    if (s.flip()) std::swap(p.a, p.b);
    return p;
}
// Two small shapes drawn on a much finer lattice, some vertices moved by a step or
// two: what touched or coincided now only nearly does.
inline void jitter(Src &s, Part &g, int step) {
    Part was = g;
    auto mv = [&](P &p) {
        if (s.chance(1, 3)) p.x += (int64_t)s.below(2 * step + 1) - step;
        if (s.chance(1, 3)) p.y += (int64_t)s.below(2 * step + 1) - step;
    };
    if (g.kind == POINT) mv(g.pt);
    if (g.kind == LINE) {
        bool closed = g.line.front() == g.line.back();
        for (auto &p : g.line) mv(p);
        if (closed) g.line.back() = g.line.front();
        if (!line_simple(g.line)) g = was;
    }
    if (g.kind == POLY) {
        if (g.rings.size() > 1) {
            shift(g, {(int64_t)s.below(2 * step + 1) - step, (int64_t)s.below(2 * step + 1) - step});
            return;
        }
        Path &r = g.rings[0];
        for (auto &p : r) mv(p);
        r.back() = r.front();
        if (!ring_simple(r)) g = was;
    }
}
inline Pair gen_fine(Src &s, bool finer = false) {
    Pair p = gen_small(s);
    static const int64_t ks[] = {50, 300, 4096, 30000};
    int64_t k = ks[s.below(finer ? 4 : 2)];
    scale(p.a, k);
    scale(p.b, k);
    int step = 1 + (int)s.below(3);
    if (s.flip()) jitter(s, p.a, step);
    if (s.chance(2, 3)) jitter(s, p.b, step);
    return p;
}
// A family of rings nested in each other and side by side, each in two sizes, and
// two shapes made of them: outer rings with any number of holes, chains, points.
struct Nest {
    struct Node {
        Path ring[2]; // the larger and the smaller version
        std::vector<int> kids;
    };
    std::vector<Node> nodes;
    static Path box(Src &s, int64_t x0, int64_t y0, int64_t x1, int64_t y1, int64_t cut) {
        Path r{{x0 + cut, y0}, {x1 - cut, y0}, {x1, y0 + cut}, {x1, y1 - cut}, {x1 - cut, y1}, {x0 + cut, y1}, {x0, y1 - cut}, {x0, y0 + cut}};
        if (!cut) r = {{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}};
        r.push_back(r[0]);
        turn(s, r);
        return r;
    }
    int grow(Src &s, int64_t x0, int64_t y0, int64_t x1, int64_t y1, int depth) {
        int id = (int)nodes.size();
        nodes.push_back({});
        int64_t w = std::min(x1 - x0, y1 - y0);
        int64_t cut = w >= 8 && s.chance(1, 3) ? 1 + (int64_t)s.below(w / 6) : 0;
        nodes[id].ring[0] = box(s, x0, y0, x1, y1, cut);
        nodes[id].ring[1] = box(s, x0 + 1, y0 + 1, x1 - 1, y1 - 1, cut);
        int64_t in = 2 + cut;
        x0 += in;
        y0 += in;
        x1 -= in;
        y1 -= in;
        if (depth <= 0) return id;
        int cols = 1 + (int)s.below(3), rows = 1 + (int)s.below(2);
        int64_t cw = (x1 - x0) / cols, ch = (y1 - y0) / rows;
        if (cw < 5 || ch < 5) return id;
        for (int i = 0; i < cols; i++)
            for (int j = 0; j < rows; j++) {
                if (s.chance(1, 6)) continue;
                int k = grow(s, x0 + i * cw, y0 + j * ch, x0 + (i + 1) * cw - 1, y0 + (j + 1) * ch - 1, depth - 1 - (int)s.below(2));
                nodes[id].kids.push_back(k);
            }
        return id;
    }
    void holes(Src &s, int id, Part &g) {
        std::vector<int> k = nodes[id].kids;
        if (s.flip()) std::reverse(k.begin(), k.end());
        for (int c : k) {
            if (s.chance(3, 5)) {
                g.rings.push_back(nodes[c].ring[s.below(2)]);
                turn(s, g.rings.back());
            } else if (s.flip()) holes(s, c, g);
        }
    }
    Part part(Src &s, int id, bool line) {
        Part g;
        Path r = nodes[id].ring[s.below(2)];
        turn(s, r);
        if (line && s.flip()) {
            if (s.flip()) g.pt = r[0];
            else {
                g.kind = LINE;
                if (s.flip()) r.resize(2 + s.below(r.size() - 2));
                g.line = r;
            }
            return g;
        }
        g.kind = POLY;
        g.rings.push_back(r);
        holes(s, id, g);
        return g;
    }
};
inline Pair gen_nested(Src &s) {
    Nest n;
    int64_t w = 20 + (int64_t)s.below(80);
    n.grow(s, 0, 0, w, s.flip() ? w : 16 + (int64_t)s.below(w), 1 + (int)s.below(4));
    auto pick = [&] { return s.flip() ? (int)s.below(std::min<size_t>(n.nodes.size(), 4)) : (int)s.below(n.nodes.size()); };
    Pair p;
    p.a = n.part(s, pick(), false);
    p.b = n.part(s, pick(), s.chance(1, 3));
    if (s.chance(1, 8)) shift(p.b, {(int64_t)s.below(3) - 1, (int64_t)s.below(3) - 1});
    if (s.chance(1, 4)) {
        int m = (int)s.below(8);
        p.a = map_part(m, p.a);
        p.b = map_part(m, p.b);
    }
    if (s.flip()) std::swap(p.a, p.b);
    return p;
}
// Outer ring of the second lies on a hole of the first, as sets.
// A frame of few edges and a long zigzag that stays clear of it, except that
// one or two of its many vertices reach the frame or pass it.
inline Pair gen_poke(Src &s) {
    int n = s.chance(1, 150) ? 500 + (int)s.below(300) : s.chance(1, 6) ? 60 + (int)s.below(100) : s.size(8, 50); // vertices of the zigzag
    int64_t w = n + 1, h = 4 + (int64_t)s.below(12);
    bool hole = s.chance(1, 3);
    Pair p;
    p.a.kind = POLY;
    switch (s.below(6)) {
    case 3: // a roof: what passes it need not pass the bounding rectangle
    case 4: p.a.rings.push_back({{0, 0}, {w, 0}, {w, h}, {w / 2, h + 6}, {0, h}, {0, 0}}); break;
    case 0: p.a.rings.push_back({{0, 0}, {w, 0}, {w + h, h}, {-h, h}, {0, 0}}); break;
    case 1: // not convex
        p.a.rings.push_back({{0, 0}, {w, 0}, {w, h}, {w / 2, h}, {w / 2, h + 5}, {0, h}, {0, 0}});
        break;
    case 2: p.a.rings.push_back({{0, 0}, {w / 2, -3}, {w, 0}, {w, h}, {0, h}, {0, 0}}); break;
    default: p.a.rings.push_back({{0, 0}, {w, 0}, {w, h}, {0, h}, {0, 0}});
    }
    int64_t top = h;
    if (hole) {
        for (auto &q : p.a.rings[0])
            if (q.y >= h) q.y += 6;
        int64_t a = 1 + (int64_t)s.below(w / 2), b = a + 1 + (int64_t)s.below(w - 1 - a);
        if (s.flip()) p.a.rings.push_back({{a, h}, {b, h}, {b, h + 3}, {a, h + 3}, {a, h}});
        else p.a.rings.push_back({{a, h}, {b, h}, {a, h + 4}, {a, h}});
        turn(s, p.a.rings[1]);
    }
    turn(s, p.a.rings[0]);
    Path z;
    bool ring = s.flip();
    for (int i = 0; i < n; i++) z.push_back({1 + i, 2 + (int64_t)s.below(top - 2)});
    int pokes = (int)s.below(3);
    for (int i = 0; i < pokes; i++) z[s.chance(1, 3) ? (s.flip() ? 0 : n - 1) : s.below(n)].y = top - 1 + (int64_t)s.below(6);
    if (ring) {
        // the way back
        z.push_back({n, 1});
        if (s.flip()) z.push_back({1, 1});
        z.push_back(z[0]);
        turn(s, z);
        p.b.kind = POLY;
        p.b.rings.push_back(z);
    } else {
        if (s.flip()) std::reverse(z.begin(), z.end());
        p.b.kind = LINE;
        p.b.line = z;
    }
    if (s.chance(1, 6)) { // or a line that follows the frame's foot and leaves it at one end, if at all
        p.b = Part();
        p.b.kind = LINE;
        for (int i = 0; i <= w; i++) p.b.line.push_back({i, 0});
        if (s.flip()) p.b.line.push_back({w, (int64_t)s.below(4) - 2});
        else p.b.line.back().y += (int64_t)s.below(3) - 1;
        if (s.flip()) std::reverse(p.b.line.begin(), p.b.line.end());
    } else if (p.a.rings.size() > 1 && s.flip()) {
        p.a.rings.erase(p.a.rings.begin()); // the hole alone, filled
    }
    int m = (int)s.below(8);
    p.a = map_part(m, p.a);
    p.b = map_part(m, p.b);
    if (s.chance(1, 4)) std::swap(p.a, p.b);
    return p;
}
inline bool same_ring(const Path &a, const Path &b) {
    if (llabs(area2(a)) != llabs(area2(b))) return false;
    for (size_t i = 0; i + 1 < a.size(); i++)
        if (loc_ring(b, toR(a[i])) != BND || loc_ring(b, R{a[i].x + a[i + 1].x, a[i].y + a[i + 1].y, 2}) != BND) return false;
    for (size_t i = 0; i + 1 < b.size(); i++)
        if (loc_ring(a, toR(b[i])) != BND || loc_ring(a, R{b[i].x + b[i + 1].x, b[i].y + b[i + 1].y, 2}) != BND) return false;
    return true;
}
inline bool plugs_hole(const Part &a, const Part &b) {
    if (a.kind != POLY || b.kind != POLY) return false;
    for (size_t i = 1; i < a.rings.size(); i++)
        if (same_ring(a.rings[i], b.rings[0])) return true;
    return false;
}
// How one of the shapes is handed over.
inline struct tg_geom *wrap(Src &s, const Part &g, enum tg_index ix) {
    struct tg_geom *t = mk(g, ix);
    struct tg_geom *u = nullptr;
    switch (s.below(8)) {
    case 1: u = tg_geom_copy(t); break;
    case 2: u = tg_geom_clone(t); break;
    case 3: { // through WKB and the reader's own indexing
        std::string w = tgx::wkb(t);
        u = tg_parse_wkb_ix((const uint8_t *)w.data(), w.size(), ix);
        break;
    }
    case 4: {
        std::string w = tgx::geojson(t);
        u = tg_parse_geojsonn_ix(w.data(), w.size(), ix);
        break;
    }
    case 5: { // as a Feature
        std::string w = "{\"type\":\"Feature\",\"geometry\":" + tgx::geojson(t) + ",\"properties\":{\"a\":1}}";
        u = tg_parse_geojsonn_ix(w.data(), w.size(), ix);
        break;
    }
    case 6: { // with heights, which say nothing here
        std::vector<double> z(g.kind == POINT ? 1 : g.segs().size() + g.rings.size() + 1);
        for (size_t i = 0; i < z.size(); i++) z[i] = (double)(i % 7);
        if (g.kind == POINT) u = tg_geom_new_point_z(tg_geom_point(t), 3);
        else if (g.kind == LINE) u = tg_geom_new_linestring_z(tg_geom_line(t), z.data(), (int)g.line.size());
        else u = tg_geom_new_polygon_z(tg_geom_poly(t), z.data(), (int)z.size() - 1);
        break;
    }
    default: return t;
    }
    tg_geom_free(t);
    return u;
}
inline void labels(pbt::Ctx &c, const Pair &p, const Rel &r) {
    static const char *k[] = {"point", "line", "polygon"};
    c.label((std::string(k[p.a.kind]) + "/" + k[p.b.kind]).c_str());
    if (r.intersects()) c.label(r.touches() ? "rel:touch" : r.covers() ? "rel:cover" : "rel:overlap");
    else c.label("rel:disjoint");
}
} // namespace pairs
