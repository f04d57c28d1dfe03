// C26: clones, copies and frees keep every live handle valid.
#include "alter.hpp"
#include "feat.hpp"
#include "use.hpp"
using namespace feat;
PBT_MAIN("C26", "a handle outlived another that shared its memory")

// What the library must still hold. Objects are counted by the allocations that
// were made for them; every owner (a handle, or an object it is part of) is one
// reference, and the last one to go takes the object along.
struct Node {
    long lo = 0, hi = 0; // allocations: exactly, or at least and at most
    int refs = 0;
    bool whole = false;  // made in one piece: its members are not objects of ours
    const void *ptr = nullptr;
    std::vector<Node *> kids;
};
enum Kind { LINE, RING, POLY, GEOM };
static const char *KN[] = {"line", "ring", "polygon", "geometry"};
struct H {
    Kind k;
    void *p;
    Node *n;
    uint64_t value;
    int shared; // related handles freed before this one
    bool error;
};
struct World {
    std::map<const void *, Node *> at;
    std::vector<std::unique_ptr<Node>> all;
    std::vector<H> hs;
    long lo = 0, hi = 0;
    std::string trace;
    Node *node(const void *p, long lo_, long hi_, bool whole) {
        all.emplace_back(new Node);
        Node *n = all.back().get();
        n->lo = lo_;
        n->hi = hi_;
        n->ptr = p;
        n->whole = whole;
        at[p] = n;
        lo += lo_;
        hi += hi_;
        return n;
    }
    void release(Node *n) {
        if (--n->refs) return;
        lo -= n->lo;
        hi -= n->hi;
        at.erase(n->ptr);
        for (auto k : n->kids) release(k);
    }
};
static uint64_t value(Kind k, const void *p) {
    use::Sink s;
    switch (k) {
    case LINE: use::line(s, (const struct tg_line *)p); break;
    case RING: use::ring(s, (const struct tg_ring *)p); break;
    case POLY: use::poly(s, (const struct tg_poly *)p); break;
    default: use::geom(s, (const struct tg_geom *)p);
    }
    return s.h;
}
static void free_it(Kind k, void *p) {
    switch (k) {
    case LINE: tg_line_free((struct tg_line *)p); break;
    case RING: tg_ring_free((struct tg_ring *)p); break;
    case POLY: tg_poly_free((struct tg_poly *)p); break;
    default: tg_geom_free((struct tg_geom *)p);
    }
}
static void *clone_it(Kind k, const void *p) {
    switch (k) {
    case LINE: return tg_line_clone((const struct tg_line *)p);
    case RING: return tg_ring_clone((const struct tg_ring *)p);
    case POLY: return tg_poly_clone((const struct tg_poly *)p);
    default: return tg_geom_clone((const struct tg_geom *)p);
    }
}
static void *copy_it(Kind k, const void *p) {
    switch (k) {
    case LINE: return tg_line_copy((const struct tg_line *)p);
    case RING: return tg_ring_copy((const struct tg_ring *)p);
    case POLY: return tg_poly_copy((const struct tg_poly *)p);
    default: return tg_geom_copy((const struct tg_geom *)p);
    }
}
// All the memory that can be seen through a handle.
static void memory(Kind k, const void *p, std::set<const void *> &o) {
    if (!p) return;
    o.insert(p);
    switch (k) {
    case LINE: o.insert(tg_line_points((const struct tg_line *)p)); break;
    case RING: o.insert(tg_ring_points((const struct tg_ring *)p)); break;
    case POLY: {
        auto y = (const struct tg_poly *)p;
        memory(RING, tg_poly_exterior(y), o);
        for (int i = 0; i < tg_poly_num_holes(y); i++) memory(RING, tg_poly_hole_at(y, i), o);
        break;
    }
    default: {
        auto g = (const struct tg_geom *)p;
        memory(LINE, tg_geom_line(g), o);
        memory(POLY, tg_geom_poly(g), o);
        o.insert(tg_geom_extra_coords(g));
        o.insert(tg_geom_extra_json(g));
        o.insert(tg_geom_error(g));
        for (int i = 0; i < tg_geom_num_lines(g); i++) memory(LINE, tg_geom_line_at(g, i), o);
        for (int i = 0; i < tg_geom_num_polys(g); i++) memory(POLY, tg_geom_poly_at(g, i), o);
        for (int i = 0; i < tg_geom_num_geometries(g); i++) memory(GEOM, tg_geom_geometry_at(g, i), o);
    }
    }
    o.erase(nullptr);
}
static enum tg_index any_ix(Src &s) {
    static const enum tg_index k[] = {TG_DEFAULT, TG_NONE, TG_NATURAL, TG_YSTRIPES};
    return k[s.below(4)];
}
static GenOpt small(Src &s) {
    GenOpt o;
    o.vals = SMALL;
    o.maxpts = s.chance(1, 8) ? 60 : 5;
    o.maxparts = 3;
    o.depth = (int)s.below(3);
    return o;
}
static void balance(World &w, const char *after) {
    long l = tgx::A().live;
    if (l < w.lo) fail("released early", "%ld blocks are left after %s, the live handles own %ld", l, after, w.lo);
    if (l > w.hi) fail("leak", "%ld blocks are left after %s, the live handles own %ld", l, after, w.hi);
}
static void verify(World &w, const H &h, const char *after) {
    uint64_t v = value(h.k, h.p);
    if (v != h.value) fail("changed", "a %s is no longer what it was, after %s", KN[h.k], after);
}
static H *pick(Src &s, World &w, unsigned kinds, bool errors = false) {
    std::vector<H *> c;
    for (auto &h : w.hs)
        if ((kinds >> h.k & 1) && (errors || !h.error)) c.push_back(&h);
    return c.empty() ? nullptr : c[s.below(c.size())];
}
static H &put(World &w, Kind k, void *p, Node *n, bool err = false) {
    n->refs++;
    w.hs.push_back({k, p, n, value(k, p), 0, err});
    return w.hs.back();
}
struct Delta {
    long l = tgx::A().live;
    uint64_t c = tgx::A().calls;
    long blocks() { return tgx::A().live - l; }
    bool none() { return tgx::A().calls == c; }
};
// The object behind a pointer handed out by an accessor of h.
static Node *inside(World &w, const H &h, const void *p) {
    auto it = w.at.find(p);
    if (it != w.at.end()) return it->second;
    return w.node(p, 0, h.n->hi, true);
}
static const char *step(Src &s, World &w) {
    const char *what = "";
    switch (s.below(12)) {
    case 0: { // a line or ring of its own
        GenOpt o = small(s);
        bool r = s.flip();
        Seq q = r ? gen_ring(s, o) : gen_seq(s, o, 2);
        Delta d;
        void *p = r ? (void *)mk_ring(q, any_ix(s)) : (void *)mk_line(q, any_ix(s));
        if (!p) fail("null", "no %s", r ? "ring" : "line");
        put(w, r ? RING : LINE, p, w.node(p, d.blocks(), d.blocks(), false));
        what = "making a line or ring";
        break;
    }
    case 1: { // a polygon of rings
        H *x = pick(s, w, 1 << RING);
        if (!x) return "";
        std::vector<const struct tg_ring *> hv;
        std::vector<Node *> kids = {x->n};
        int n = s.flip() ? 0 : (int)s.below(3);
        for (int i = 0; i < n; i++) {
            H *y = pick(s, w, 1 << RING);
            hv.push_back((const struct tg_ring *)y->p);
            kids.push_back(y->n);
        }
        Delta d;
        void *p = tg_poly_new((const struct tg_ring *)x->p, hv.data(), n);
        if (!p) fail("null", "no polygon");
        auto it = w.at.find(p);
        if (it != w.at.end()) { // the ring serves as the polygon
            if (d.blocks()) fail("leak", "%ld blocks for a shared polygon", d.blocks());
            put(w, POLY, p, it->second);
        } else {
            Node *m = w.node(p, d.blocks(), d.blocks(), false);
            m->kids = kids;
            for (auto k : kids) k->refs++;
            put(w, POLY, p, m);
        }
        if (value(RING, tg_poly_exterior((struct tg_poly *)p)) != value(RING, x->p)) fail("changed", "the exterior is not the ring it was made of");
        for (int i = 0; i < n; i++)
            if (value(RING, tg_poly_hole_at((struct tg_poly *)p, i)) != value(RING, hv[i])) fail("changed", "a hole is not the ring it was made of");
        what = "making a polygon";
        break;
    }
    case 2: { // a geometry of one line or polygon
        H *x = pick(s, w, 1 << LINE | 1 << POLY);
        if (!x) return "";
        int dims = (int)s.below(4);
        std::vector<double> ex;
        int n = x->k == LINE ? tg_line_num_points((struct tg_line *)x->p) : 5;
        for (int i = 0; i < n * (dims == 3 ? 2 : 1); i++) ex.push_back(i);
        auto l = (const struct tg_line *)x->p;
        auto y = (const struct tg_poly *)x->p;
        int c = (int)ex.size();
        Delta d;
        void *p;
        if (x->k == LINE)
            p = dims == 0 ? tg_geom_new_linestring(l) : dims == 1 ? tg_geom_new_linestring_z(l, ex.data(), c) : dims == 2 ? tg_geom_new_linestring_m(l, ex.data(), c) : tg_geom_new_linestring_zm(l, ex.data(), c);
        else
            p = dims == 0 ? tg_geom_new_polygon(y) : dims == 1 ? tg_geom_new_polygon_z(y, ex.data(), c) : dims == 2 ? tg_geom_new_polygon_m(y, ex.data(), c) : tg_geom_new_polygon_zm(y, ex.data(), c);
        if (!p) fail("null", "no geometry");
        auto it = w.at.find(p);
        Kind k = x->k;
        const void *part = k == LINE ? (const void *)tg_geom_line((struct tg_geom *)p) : (const void *)tg_geom_poly((struct tg_geom *)p);
        if (value(k, part) != value(k, x->p)) fail("changed", "the geometry is not the %s it was made of", KN[k]);
        Node *xn = x->n;
        if (it != w.at.end()) {
            if (d.blocks()) fail("leak", "%ld blocks for a shared geometry", d.blocks());
            put(w, GEOM, p, it->second);
        } else {
            Node *m = w.node(p, d.blocks(), d.blocks(), false);
            m->kids = {xn};
            xn->refs++;
            put(w, GEOM, p, m);
        }
        what = "making a geometry";
        break;
    }
    case 3: { // points
        struct tg_point p = {(double)s.below(9), (double)s.below(9)};
        Delta d;
        struct tg_geom *g;
        std::vector<struct tg_point> v(s.chance(1, 8) ? 70 : s.below(4), p);
        std::vector<double> ex(v.size() * 2, 4.5);
        switch (s.below(6)) {
        case 0: g = tg_geom_new_point(p); break;
        case 1: g = tg_geom_new_point_z(p, 5); break;
        case 2: g = tg_geom_new_point_zm(p, 5, 6); break;
        case 3: g = tg_geom_new_multipoint(v.data(), (int)v.size()); break;
        case 4: g = tg_geom_new_multipoint_zm(v.data(), (int)v.size(), ex.data(), (int)ex.size()); break;
        default: g = s.flip() ? tg_geom_new_point_empty() : tg_geom_new_geometrycollection_empty();
        }
        if (!g) fail("null", "no points");
        put(w, GEOM, g, w.node(g, d.blocks(), d.blocks(), true));
        what = "making points";
        break;
    }
    case 4: { // many lines, polygons or geometries
        static const Kind ks[] = {LINE, POLY, GEOM, GEOM};
        Kind k = ks[s.below(4)];
        if (!pick(s, w, 1u << k)) return "";
        int n = s.chance(1, 10) ? 64 + (int)s.below(10) : 1 + (int)s.below(4);
        std::vector<const void *> v;
        std::vector<Node *> kids;
        H *x = nullptr;
        for (int i = 0; i < n; i++) {
            if (i < 4) x = pick(s, w, 1u << k);
            v.push_back(x->p);
            kids.push_back(x->n);
        }
        if (k == GEOM && n > 4 && tg_geom_num_geometries((const struct tg_geom *)v[3]) > 20) return "";
        std::vector<double> ex(2 * n, 1.5);
        bool zm = s.chance(1, 3);
        Delta d;
        struct tg_geom *g;
        if (k == LINE) {
            auto a = (const struct tg_line *const *)v.data();
            g = zm ? tg_geom_new_multilinestring_zm(a, n, ex.data(), 2 * n) : tg_geom_new_multilinestring(a, n);
        } else if (k == POLY) {
            auto a = (const struct tg_poly *const *)v.data();
            g = zm ? tg_geom_new_multipolygon_zm(a, n, ex.data(), 2 * n) : tg_geom_new_multipolygon(a, n);
        } else g = tg_geom_new_geometrycollection((const struct tg_geom *const *)v.data(), n);
        if (!g) fail("null", "no collection");
        Node *m = w.node(g, d.blocks(), d.blocks(), false);
        m->kids = kids;
        for (auto q : kids) q->refs++;
        for (int i = 0; i < n; i++) {
            const void *q = k == LINE ? (const void *)tg_geom_line_at(g, i) : k == POLY ? (const void *)tg_geom_poly_at(g, i) : (const void *)tg_geom_geometry_at(g, i);
            if (i < 4 && value(k, q) != value(k, v[i])) fail("changed", "member %d is not the %s it was made of", i, KN[k]);
        }
        put(w, GEOM, g, m);
        what = "making a collection";
        break;
    }
    case 5: { // a document
        DocOpt o;
        o.g = small(s);
        if (o.g.maxpts > 10) o.g.depth = 0;
        int f = (int)s.below(4);
        std::string t;
        if (f == 0) {
            JsonStyle js;
            o.members = 2;
            o.g.nodim_m = true;
            t = text(gen_doc(s, o), js);
        } else {
            M g = gen(s, o.g, o.g.depth);
            t = f == 1 ? wkt(g, TxtStyle()) : f == 2 ? wkb(g) : tohex(wkb(g));
        }
        if (f == 3 && s.flip()) {
            tgx::G g(tg_parse_hexn(t.data(), t.size()));
            if (!tg_geom_error(g)) t = tohex(tgx::geobin(g));
        }
        if (s.chance(1, 6)) t = t.substr(0, t.size() - 1); // mostly an error
        else if (s.chance(1, 3)) alter::damage(s, t, f == 0, f == 2);
        enum tg_index ix = any_ix(s);
        Delta d;
        struct tg_geom *g = f == 0 ? tg_parse_geojsonn_ix(t.data(), t.size(), ix) : f == 1 ? tg_parse_wktn_ix(t.data(), t.size(), ix)
                          : f == 2 ? tg_parse_wkb_ix((const uint8_t *)t.data(), t.size(), ix) : tg_parse_hexn_ix(t.data(), t.size(), ix);
        if (!g) fail("null", "no geometry from a document");
        put(w, GEOM, g, w.node(g, d.blocks(), d.blocks(), true), tg_geom_error(g) != nullptr);
        what = "parsing";
        break;
    }
    case 6: // a part of another
    case 7: {
        H *h = pick(s, w, 1 << POLY | 1 << GEOM);
        if (!h) return "";
        Kind k = RING;
        const void *p = nullptr;
        if (h->k == POLY) {
            auto y = (const struct tg_poly *)h->p;
            int n = tg_poly_num_holes(y);
            p = n && s.flip() ? tg_poly_hole_at(y, (int)s.below(n)) : tg_poly_exterior(y);
        } else {
            auto g = (const struct tg_geom *)h->p;
            int n = tg_geom_num_lines(g), m = tg_geom_num_polys(g), c = tg_geom_num_geometries(g);
            if (tg_geom_line(g)) k = LINE, p = tg_geom_line(g);
            else if (tg_geom_poly(g)) k = POLY, p = tg_geom_poly(g);
            else if (n) k = LINE, p = tg_geom_line_at(g, (int)s.below(n));
            else if (m) k = POLY, p = tg_geom_poly_at(g, (int)s.below(m));
            else if (c) k = GEOM, p = tg_geom_geometry_at(g, (int)s.below(c));
        }
        if (!p) return "";
        Node *n = inside(w, *h, p);
        uint64_t v = value(k, p);
        Delta d;
        void *q = clone_it(k, p);
        if (!q) fail("null", "no clone of a part");
        if (d.blocks()) fail("sharing", "cloning a part took %ld blocks", d.blocks());
        if (put(w, k, q, n).value != v) fail("changed", "the clone of a part is something else");
        what = "cloning a part";
        break;
    }
    case 8: {
        H *h = pick(s, w, 15, true);
        if (!h) return "";
        Kind k = h->k;
        Delta d;
        void *q = clone_it(k, h->p);
        if (!q) fail("null", "no clone");
        if (!d.none()) fail("sharing", "cloning a %s took memory", KN[k]);
        uint64_t v = h->value;
        if (put(w, k, q, h->n, h->error).value != v) fail("changed", "the clone of a %s is something else", KN[k]);
        what = "cloning";
        break;
    }
    case 9: {
        H *h = pick(s, w, 15, true);
        if (!h) return "";
        Kind k = h->k;
        Delta d;
        void *q = copy_it(k, h->p);
        if (!q) fail("null", "no copy");
        std::set<const void *> a, b;
        memory(k, h->p, a);
        memory(k, q, b);
        for (auto x : b)
            if (a.count(x)) fail("sharing", "the copy of a %s shares memory with it", KN[k]);
        uint64_t v = h->value;
        bool e = h->error;
        if (put(w, k, q, w.node(q, d.blocks(), d.blocks(), true), e).value != v) fail("changed", "the copy of a %s is something else", KN[k]);
        what = "copying";
        break;
    }
    case 10: { // reading two, and other defaults for what comes
        H *a = pick(s, w, 1 << GEOM), *b = pick(s, w, 1 << GEOM);
        if (a && b) {
            use::Sink k1, k2;
            use::pair(k1, (struct tg_geom *)a->p, (struct tg_geom *)b->p);
            tg_env_set_index(any_ix(s));
            tg_env_set_index_spread(2 + (int)s.below(20));
            use::pair(k2, (struct tg_geom *)a->p, (struct tg_geom *)b->p);
            if (k1.h != k2.h) fail("changed", "two geometries relate differently the second time");
        }
        what = "reading";
        break;
    }
    default: {
        if (w.hs.empty()) return "";
        size_t i = s.below(w.hs.size());
        H h = w.hs[i];
        w.hs.erase(w.hs.begin() + i);
        for (auto &x : w.hs) x.shared += x.n == h.n || std::find(x.n->kids.begin(), x.n->kids.end(), h.n) != x.n->kids.end() || std::find(h.n->kids.begin(), h.n->kids.end(), x.n) != h.n->kids.end();
        w.release(h.n);
        free_it(h.k, h.p);
        what = "freeing";
    }
    }
    return what;
}
FACET(history, 400, "histories of making, composing, parsing, cloning, copying, reading and freeing; then all is freed in any order") {
    World w;
    w.hs.reserve(64);
    int n = s.size(2, 40);
    std::string log;
    for (int i = 0; i < n; i++) {
        const char *what = step(s, w);
        if (!*what) continue;
        log += std::string(log.empty() ? "" : "; ") + what;
        c.note(log);
        balance(w, what);
        if (!w.hs.empty()) verify(w, w.hs[s.below(w.hs.size())], what);
        if (w.hs.size() > 10) {
            size_t k = s.below(w.hs.size());
            H h = w.hs[k];
            w.hs.erase(w.hs.begin() + k);
            for (auto &x : w.hs) x.shared += x.n == h.n;
            w.release(h.n);
            free_it(h.k, h.p);
            balance(w, "freeing");
        }
    }
    for (auto &h : w.hs) verify(w, h, "the history");
    while (!w.hs.empty()) {
        size_t k = s.below(w.hs.size());
        H h = w.hs[k];
        w.hs.erase(w.hs.begin() + k);
        for (auto &x : w.hs) x.shared += x.n == h.n;
        if (h.shared) c.interesting();
        w.release(h.n);
        free_it(h.k, h.p);
        balance(w, "freeing");
        if (!w.hs.empty()) verify(w, w.hs[s.below(w.hs.size())], "freeing another");
    }
    if (w.lo || w.hi) fail("model", "the model lost count"); // never
    if (tgx::A().live) fail("leak", "%ld blocks are left when no handle is", tgx::A().live);
}
// One object with hundreds or tens of thousands of owners: clones, and objects
// that hold it many times over.
FACET(many, 6, "an object with hundreds or tens of thousands of owners, which go one after another") {
    GenOpt o = small(s);
    Kind k = (Kind)s.below(4);
    void *p;
    if (k == LINE) p = mk_line(gen_seq(s, o, 2), any_ix(s));
    else if (k == RING) p = mk_ring(gen_ring(s, o), any_ix(s));
    else if (k == POLY) p = mk_poly(Rings{gen_ring(s, o), gen_ring(s, o)}, any_ix(s));
    else p = build(gen(s, o, o.depth), any_ix(s));
    if (!p) fail("null", "no %s", KN[k]);
    static const int sizes[] = {100, 250, 505, 1020, 4090, 32760, 65525};
    int n = sizes[s.chance(1, 12) ? s.below(7) : s.below(4)] + (int)s.below(16);
    uint64_t v = value(k, p);
    struct Own {
        Kind k;
        void *p;
        bool outer;
    };
    std::vector<Own> held = {{k, p, false}};
    int clones = s.below(3) == 0 ? n : s.below(2) ? 0 : n / 2, rest = n - clones;
    for (int i = 0; i < clones; i++) {
        void *q = clone_it(k, p);
        if (!q) fail("null", "no clone of a %s with %d owners", KN[k], i + 1);
        held.push_back({k, q, false});
    }
    int outer = 1 + (int)s.below(3);
    for (int i = 0; i < outer && rest; i++) {
        int m = i + 1 == outer ? rest : rest / outer;
        void *q;
        Kind qk = GEOM;
        if (k == LINE) q = tg_geom_new_multilinestring(std::vector<const struct tg_line *>(m, (const struct tg_line *)p).data(), m);
        else if (k == RING) q = tg_poly_new((const struct tg_ring *)p, std::vector<const struct tg_ring *>(m, (const struct tg_ring *)p).data(), m), qk = POLY;
        else if (k == POLY) q = tg_geom_new_multipolygon(std::vector<const struct tg_poly *>(m, (const struct tg_poly *)p).data(), m);
        else q = tg_geom_new_geometrycollection(std::vector<const struct tg_geom *>(m, (const struct tg_geom *)p).data(), m);
        if (!q) fail("null", "nothing that holds a %s %d times", KN[k], m);
        held.push_back({qk, q, true});
    }
    c.note(std::string("a ") + KN[k] + " with " + std::to_string(clones) + " clones and " + std::to_string(rest) + " other owners");
    // Any of them may be the last.
    size_t last = s.below(held.size());
    std::swap(held[last], held.back());
    auto same = [&](const Own &h) {
        const void *q = h.p;
        if (h.outer) switch (k) {
        case LINE: q = tg_geom_line_at((struct tg_geom *)q, 0); break;
        case RING: q = tg_poly_hole_at((struct tg_poly *)q, 0); break;
        case POLY: q = tg_geom_poly_at((struct tg_geom *)q, 0); break;
        default: q = tg_geom_geometry_at((struct tg_geom *)q, 0);
        }
        if (value(k, q) != v) fail("changed", "a %s with %d owners is no longer what it was, with one left", KN[k], n);
    };
    bool rev = s.flip();
    for (size_t i = 0; i + 1 < held.size(); i++) {
        auto &h = held[rev ? held.size() - 2 - i : i];
        free_it(h.k, h.p);
        if (i % 4096 == 0 || i + 300 > held.size()) {
            if (!tgx::A().live) fail("released early", "nothing is left of a %s with %d owners, %zu of them live", KN[k], n, held.size() - 1 - i);
        }
    }
    same(held.back());
    free_it(held.back().k, held.back().p);
    if (tgx::A().live) fail("leak", "%ld blocks are left of a %s that had %d owners", tgx::A().live, KN[k], n);
    c.interesting();
}
FACET(nothing, 1, "null handles") {
    (void)s;
    tg_geom_free(nullptr);
    tg_line_free(nullptr);
    tg_ring_free(nullptr);
    tg_poly_free(nullptr);
    if (tg_geom_clone(nullptr) || tg_line_clone(nullptr) || tg_ring_clone(nullptr) || tg_poly_clone(nullptr)) fail("null", "a clone of nothing");
    if (tg_geom_copy(nullptr) || tg_line_copy(nullptr) || tg_ring_copy(nullptr) || tg_poly_copy(nullptr)) fail("null", "a copy of nothing");
    if (tg_geom_memsize(nullptr) || tg_line_memsize(nullptr) || tg_ring_memsize(nullptr) || tg_poly_memsize(nullptr)) fail("null", "a size of nothing");
    c.note("null");
}
