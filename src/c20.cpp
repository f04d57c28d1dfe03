// C20: segment searches report exactly the intersecting pairs.
#include "shapes.hpp"
using namespace shp;
using pbt::fail;
PBT_MAIN("C20", "at least one pair of segments intersects")

struct Hit {
    int a, b;
    bool operator<(const Hit &o) const { return a != o.a ? a < o.a : b < o.b; }
};
struct Got {
    std::vector<Hit> hits;
    std::vector<struct tg_segment> as, bs;
    long stop = -1;
    long calls = 0;
};
static bool cb(struct tg_segment as, int ai, struct tg_segment bs, int bi, void *u) {
    Got *g = (Got *)u;
    g->calls++;
    g->hits.push_back({ai, bi});
    g->as.push_back(as);
    g->bs.push_back(bs);
    return g->stop < 0 || g->calls < g->stop;
}
struct Obj {
    bool ring;
    Path p; // as given
    struct tg_ring *r = nullptr;
    struct tg_line *l = nullptr;
    int nsegs() const { return ring ? tg_ring_num_segments(r) : tg_line_num_segments(l); }
    struct tg_segment at(int i) const { return ring ? tg_ring_segment_at(r, i) : tg_line_segment_at(l, i); }
    Seg seg(int i) const {
        return {p[i], i + 1 < (int)p.size() ? p[i + 1] : p[0]};
    }
    int want_segs() const {
        int n = (int)p.size();
        if (!ring) return n - 1;
        return p.front() == p.back() ? n - 1 : n;
    }
    ~Obj() {
        tg_ring_free(r);
        tg_line_free(l);
    }
};
static Path gen_path(Src &s, int n, bool ring) {
    Path p;
    switch (s.below(4)) {
    case 0: { // anything goes, with repeats
        int w = 3 + (int)s.below(30);
        for (int i = 0; i < n; i++) p.push_back(p.empty() || !s.chance(1, 12) ? gen_pt(s, w) : p.back());
        if (ring && s.flip()) p.push_back(p[0]);
        break;
    }
    case 1: p = big_line(s, n, false).line; break;
    case 2: p = big_line(s, n, true).line; break;
    default:
        p = big_ring(s, n);
        if (!ring && s.flip()) p.pop_back();
    }
    if (ring && p.size() < 4) p = {{0, 0}, {3, 0}, {1, 4}, {0, 0}};
    if (p.size() < 2) p.push_back({p[0].x + 1, p[0].y});
    return p;
}
static void make(Src &s, Obj &o, int n, bool ring) {
    o.ring = ring;
    o.p = gen_path(s, n, ring);
}
static void realize(Src &s, Obj &o, double mul) {
    enum tg_index ix = pick_ix(s);
    std::vector<struct tg_point> v;
    for (auto &q : o.p) v.push_back({q.x * mul, q.y * mul});
    if (o.ring) o.r = tg_ring_new_ix(v.data(), (int)v.size(), ix);
    else o.l = tg_line_new_ix(v.data(), (int)v.size(), ix);
    if (o.nsegs() != o.want_segs()) fail("nsegs", "%d segments, expected %d", o.nsegs(), o.want_segs());
}
static void search(const Obj &a, const Obj &b, Got &g) {
    if (a.ring && b.ring) tg_ring_ring_search(a.r, b.r, cb, &g);
    else if (a.ring) tg_ring_line_search(a.r, b.l, cb, &g);
    else if (b.ring) tg_line_line_search(a.l, (const struct tg_line *)b.r, cb, &g);
    else tg_line_line_search(a.l, b.l, cb, &g);
}
static void run(Src &s, pbt::Ctx &c, Obj &a, Obj &b, bool self) {
    double mul = s.chance(1, 4) ? ldexp(1, (int)s.below(120) - 60) : 1;
    std::string t = std::string(a.ring ? "ring" : "line") + str(a.p) + (b.ring ? " ring" : " line") + str(b.p);
    c.note(t.size() > 1500 ? t.substr(0, 1500) + "..." : t);
    realize(s, a, mul);
    if (!self) realize(s, b, mul);
    const Obj &B = self ? a : b;
    std::vector<Hit> want;
    int na = a.nsegs(), nb = B.nsegs();
    for (int i = 0; i < na; i++)
        for (int j = 0; j < nb; j++)
            if (segs_meet(a.seg(i), B.seg(j))) want.push_back({i, j});
    if (!want.empty()) c.interesting();
    c.label(want.empty() ? "no pair" : want.size() < 10 ? "few pairs" : "many pairs");
    Got g;
    search(a, B, g);
    for (size_t i = 0; i < g.hits.size(); i++) {
        Hit h = g.hits[i];
        if (h.a < 0 || h.a >= na || h.b < 0 || h.b >= nb) fail("index", "pair (%d,%d) of %d x %d", h.a, h.b, na, nb);
        struct tg_segment x = a.at(h.a), y = B.at(h.b);
        if (memcmp(&x, &g.as[i], sizeof x) || memcmp(&y, &g.bs[i], sizeof y)) fail("segment", "pair (%d,%d) came with other segments", h.a, h.b);
        Seg e = a.seg(h.a);
        if (x.a.x != e.a.x * mul || x.a.y != e.a.y * mul || x.b.x != e.b.x * mul || x.b.y != e.b.y * mul) fail("segment", "segment %d is not the one given", h.a);
    }
    std::vector<Hit> got = g.hits;
    std::sort(got.begin(), got.end());
    for (size_t i = 0; i + 1 < got.size(); i++)
        if (!(got[i] < got[i + 1])) fail("duplicate", "pair (%d,%d) reported twice", got[i].a, got[i].b);
    size_t i = 0, j = 0;
    while (i < got.size() || j < want.size()) {
        if (i < got.size() && (j >= want.size() || got[i] < want[j])) fail("extra", "pair (%d,%d) does not intersect", got[i].a, got[i].b);
        if (j < want.size() && (i >= got.size() || want[j] < got[i])) fail("missing", "pair (%d,%d) not reported", want[j].a, want[j].b);
        i++;
        j++;
    }
    if (!want.empty()) { // stop early
        Got k;
        k.stop = 1 + (long)s.below(want.size());
        search(a, B, k);
        if (k.calls != k.stop) fail("stop", "told to stop after %ld pairs, called %ld times", k.stop, k.calls);
        for (size_t q = 0; q < k.hits.size(); q++)
            if (k.hits[q].a != g.hits[q].a || k.hits[q].b != g.hits[q].b) fail("stop", "order differs from the full search");
    }
}
FACET(small, 4, "two short rings or lines, any shape") {
    Obj a, b;
    make(s, a, 2 + (int)s.below(8), s.flip());
    make(s, b, 2 + (int)s.below(8), s.flip());
    if (!a.ring && b.ring && s.flip()) std::swap(a.ring, b.ring), std::swap(a.p, b.p);
    if (s.flip()) {
        P d{(int64_t)s.below(9) - 4, (int64_t)s.below(9) - 4};
        for (auto &q : b.p) q.x += d.x, q.y += d.y;
    }
    run(s, c, a, b, false);
}
FACET(big, 3, "rings and lines with tens to hundreds of segments") {
    Obj a, b;
    make(s, a, s.size(4, 250), s.flip());
    make(s, b, s.size(4, 120), s.flip());
    if (!a.ring && b.ring && s.flip()) std::swap(a.ring, b.ring), std::swap(a.p, b.p);
    P p = a.p[s.below(a.p.size())], q = b.p[s.below(b.p.size())];
    for (auto &x : b.p) x.x += p.x - q.x, x.y += p.y - q.y;
    run(s, c, a, b, false);
}
FACET(deep, 1, "a chain of thousands of segments, under an index of several levels, against a short one") {
    Obj a, b;
    bool rare = s.chance(1, 60);
    if (!rare) { // most cases stay small
        make(s, a, s.size(60, 700), s.flip());
    } else {
        make(s, a, s.chance(1, 12) ? 66000 + (int)s.below(3000) : 1200 + (int)s.below(9000), s.flip());
    }
    make(s, b, s.size(2, rare ? 8 : 30), s.flip());
    P p = a.p[s.below(a.p.size())], q = b.p[s.below(b.p.size())];
    for (auto &x : b.p) x.x += p.x - q.x, x.y += p.y - q.y;
    if (s.chance(1, 3)) { // stretched across
        P lo, hi;
        bbox(a.p, lo, hi);
        b.p[b.p.size() / 2] = {lo.x + (int64_t)s.below(hi.x - lo.x + 1), lo.y + (int64_t)s.below(hi.y - lo.y + 1)};
    }
    if ((!a.ring && b.ring) || (a.ring == b.ring && s.flip())) std::swap(a.ring, b.ring), std::swap(a.p, b.p);
    run(s, c, a, b, false);
}
FACET(self, 1, "a ring or line searched against itself") {
    Obj a, b;
    make(s, a, s.size(4, 120), s.flip());
    b.ring = a.ring;
    run(s, c, a, b, true);
}
