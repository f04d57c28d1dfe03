// C22: nearest-segment iteration.
#include "shapes.hpp"
using namespace shp;
using pbt::fail;
PBT_MAIN("C22", "the ring or line has at least three segments")

struct Q {
    int how;         // which distance
    double x, y;     // query point
    int steps;       // distances delivered in this many partial steps
    uint64_t salt;
    int nsegs = 0;
    double slack = 0;
    long stop = -1;
    // result
    std::vector<int> idx;
    std::vector<double> dist;
    std::vector<struct tg_segment> segs;
    bool bad_more = false;
};
static double sq(double v) { return v * v; }
static double rect_d(const struct tg_rect &r, double x, double y) {
    double dx = std::max(std::max(r.min.x - x, x - r.max.x), 0.0), dy = std::max(std::max(r.min.y - y, y - r.max.y), 0.0);
    return dx * dx + dy * dy;
}
static double seg_final(struct tg_segment s, const Q *q) {
    switch (q->how) {
    case 0: { // to the segment's bounding rectangle: consistent to the last bit
        struct tg_rect r = {{std::min(s.a.x, s.b.x), std::min(s.a.y, s.b.y)}, {std::max(s.a.x, s.b.x), std::max(s.a.y, s.b.y)}};
        return rect_d(r, q->x, q->y);
    }
    case 1: { // Euclidean
        double c = s.b.x - s.a.x, d = s.b.y - s.a.y, e = c * c + d * d;
        double f = e > 0 ? ((q->x - s.a.x) * c + (q->y - s.a.y) * d) / e : 0;
        f = f < 0 ? 0 : f > 1 ? 1 : f;
        return sqrt(sq(q->x - (s.a.x + f * c)) + sq(q->y - (s.a.y + f * d)));
    }
    default: { // arbitrary but fixed, with many ties
        uint64_t h = pbt::hash_bytes(&s, sizeof s) ^ q->salt;
        return (double)(pbt::mix64(h) % 17);
    }
    }
}
static double rect_final(const struct tg_rect &r, const Q *q) {
    switch (q->how) {
    case 0: return rect_d(r, q->x, q->y);
    case 1: return sqrt(rect_d(r, q->x, q->y)) * 0.999999;
    default: return 0;
    }
}
static double partial(double d, int *more, Q *q) {
    // deliver lower bounds first: 0, d/2, then d
    int k = *more;
    if (k < 0 || k > q->steps) q->bad_more = true;
    if (k == 0 && q->steps > 0) {
        *more = 1;
        return 0;
    }
    if (k < q->steps) {
        *more = k + 1;
        return d * k / (q->steps + 1);
    }
    *more = 0;
    return d;
}
static double seg_cb(struct tg_segment s, int *more, void *u) {
    Q *q = (Q *)u;
    return partial(seg_final(s, q), more, q);
}
static double rect_cb(struct tg_rect r, int *more, void *u) {
    Q *q = (Q *)u;
    return partial(rect_final(r, q), more, q);
}
static bool iter(struct tg_segment s, double dist, int index, void *u) {
    Q *q = (Q *)u;
    q->idx.push_back(index);
    q->dist.push_back(dist);
    q->segs.push_back(s);
    return q->stop < 0 || (long)q->idx.size() < q->stop;
}
static void judge(const Q &q, const std::function<struct tg_segment(int)> &at, int nsegs, size_t expect) {
    if (q.bad_more) fail("more", "callback saw a 'more' value it never set");
    if (q.idx.size() != expect) fail("count", "%zu segments delivered, expected %zu of %d", q.idx.size(), expect, nsegs);
    std::vector<bool> seen(nsegs);
    double last = -1;
    for (size_t i = 0; i < q.idx.size(); i++) {
        int k = q.idx[i];
        if (k < 0 || k >= nsegs) fail("index", "index %d of %d", k, nsegs);
        if (seen[k]) fail("duplicate", "segment %d delivered twice", k);
        seen[k] = true;
        struct tg_segment s = at(k);
        if (memcmp(&s, &q.segs[i], sizeof s)) fail("segment", "index %d came with another segment", k);
        double d = seg_final(s, &q);
        if (d != q.dist[i]) fail("dist", "segment %d came with distance %.17g, its distance is %.17g", k, q.dist[i], d);
        if (d < last) fail("order", "segment %d at distance %.17g came after one at %.17g", k, d, last);
        last = d;
    }
    // a prefix must hold the nearest ones
    if (expect < (size_t)nsegs)
        for (int k = 0; k < nsegs; k++)
            if (!seen[k] && seg_final(at(k), &q) < last) fail("order", "segment %d is nearer than one delivered before the stop", k);
}
FACET(nearest, 1, "a ring or line, a distance function and a query") {
    bool ring = s.flip();
    int n = s.chance(1, 3000) ? 20000 + (int)s.below(60000) : s.chance(1, 20) ? 300 + (int)s.below(3000) : s.chance(1, 2) ? s.size(3, 40) : 30 + (int)s.below(200);
    Path p = ring ? big_ring(s, n) : big_line(s, n, s.flip()).line;
    if (!ring && s.chance(1, 10)) p.resize(2);
    double mul = s.flip() ? 1 : 0.37;
    std::vector<struct tg_point> v;
    for (auto &q : p) v.push_back({q.x * mul, q.y * mul});
    if (ring && s.flip()) v.pop_back(); // closes itself
    enum tg_index ix = pick_ix(s);
    struct tg_ring *r = ring ? tg_ring_new_ix(v.data(), (int)v.size(), ix) : nullptr;
    struct tg_line *l = ring ? nullptr : tg_line_new_ix(v.data(), (int)v.size(), ix);
    int ns = ring ? tg_ring_num_segments(r) : tg_line_num_segments(l);
    char note[200];
    snprintf(note, sizeof note, "%s of %d segments, %d index levels spread %d", ring ? "ring" : "line", ns,
             ring ? tg_ring_index_num_levels(r) : tg_line_index_num_levels(l), ring ? tg_ring_index_spread(r) : tg_line_index_spread(l));
    c.note(note);
    c.label((ring ? tg_ring_index_num_levels(r) : tg_line_index_num_levels(l)) > 0 ? "indexed" : "not indexed");
    if (ns >= 3) c.interesting();
    auto at = [&](int i) { return ring ? tg_ring_segment_at(r, i) : tg_line_segment_at(l, i); };
    auto go = [&](Q &q, bool rects, bool it) {
        return ring ? tg_ring_nearest_segment(r, rects ? rect_cb : nullptr, seg_cb, it ? iter : nullptr, &q)
                    : tg_line_nearest_segment(l, rects ? rect_cb : nullptr, seg_cb, it ? iter : nullptr, &q);
    };
    for (int k = 0; k < 3; k++) {
        Q q;
        q.how = (int)s.below(3);
        P nr = near_pt(s, p);
        q.x = nr.x * mul;
        q.y = nr.y * mul;
        if (s.chance(1, 5)) q.x += 1000;
        q.steps = s.flip() ? 0 : 1 + (int)s.below(3);
        q.salt = s.below(1000);
        bool rects = s.chance(3, 4);
        Q full = q;
        if (!go(full, rects, true)) fail("result", "reported running out of memory");
        judge(full, at, ns, ns);
        Q part = q;
        part.stop = 1 + (long)s.below(ns);
        if (!go(part, rects, true)) fail("result", "reported running out of memory when stopped");
        judge(part, at, ns, part.stop);
        for (size_t i = 0; i < part.idx.size(); i++)
            if (part.idx[i] != full.idx[i]) fail("stop", "the stopped run is not a prefix of the full one");
        Q none = q;
        bool res = ring ? tg_ring_nearest_segment(r, rect_cb, nullptr, iter, &none) : tg_line_nearest_segment(l, rect_cb, nullptr, iter, &none);
        if (!res || !none.idx.empty()) fail("null", "without a segment distance nothing is to be delivered");
        res = ring ? tg_ring_nearest_segment(nullptr, rect_cb, seg_cb, iter, &none) : tg_line_nearest_segment(nullptr, rect_cb, seg_cb, iter, &none);
        if (!res || !none.idx.empty()) fail("null", "the null ring has no segments");
    }
    tg_ring_free(r);
    tg_line_free(l);
}
