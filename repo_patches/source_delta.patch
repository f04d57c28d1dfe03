From ab76b2e4a3e47ffbd81e5e99bbcfde317a556103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 01/41] fix: line covers line must terminate and check every
 segment

tg_line_covers_line could loop forever when consecutive segments did not
share an endpoint with the current segment of the covering line, and
returned true for lines which left the covering line.
---
 tg.c | 84 ++++++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 53 insertions(+), 31 deletions(-)

diff --git a/tg.c b/tg.c
index ca67505..8aed8dd 100644
--- a/tg.c
+++ b/tg.c
@@ -3458,46 +3458,68 @@ bool tg_line_intersects_rect(const struct tg_line *line, struct tg_rect rect) {
     return tg_rect_intersects_line(rect, line);
 }
 
-/// Tests whether a line contains another line
-/// @see LineFuncs
-bool tg_line_covers_line(const struct tg_line *a, const struct tg_line *b) {
-    if (tg_line_empty(a) || tg_line_empty(b)) return false;
+struct line_reach_iter_ctx {
+    struct tg_segment seg;  // the part of the segment not yet walked over
+    struct tg_point reach;  // furthest point that can be walked to
+};
 
-    if (!tg_rect_covers_rect(tg_line_rect(a), tg_line_rect(b))) {
+static bool line_reach_iter(struct tg_segment seg, int index, void *udata) {
+    (void)index;
+    struct line_reach_iter_ctx *ctx = udata;
+    if (!tg_segment_covers_point(seg, ctx->seg.a)) {
+        return true;
+    }
+    if (tg_segment_covers_point(seg, ctx->seg.b)) {
+        ctx->reach = ctx->seg.b;
         return false;
     }
-    // locate the first "other" segment that contains the first "line" segment.
-    int ansegs = tg_line_num_segments(a);
-    int j = -1;
-    for (int k = 0; k < ansegs; k++) {
-        if (tg_segment_covers_segment(tg_line_segment_at(a, k),
-            tg_line_segment_at(b, 0)))
+    struct tg_point ends[] = { seg.a, seg.b };
+    for (int i = 0; i < 2; i++) {
+        // accept the endpoint if it lies between the current reach and the 
+        // end of the segment.
+        if (tg_segment_covers_point(ctx->seg, ends[i]) && tg_segment_covers_point(
+            (struct tg_segment){ ctx->seg.a, ends[i] }, ctx->reach))
         {
-            j = k;
-            break;
+            ctx->reach = ends[i];
         }
     }
-    if (j == -1) {
+    return true;
+}
+
+// line_covers_segment returns true when every point of the segment is on the 
+// line. It walks over the segment, from seg.a to seg.b, using the line segments
+// that are collinear with it.
+static bool line_covers_segment(const struct tg_line *line, 
+    struct tg_segment seg)
+{
+    struct line_reach_iter_ctx ctx = { .seg = seg, .reach = seg.a };
+    if (pteq(seg.a, seg.b)) {
+        return tg_line_covers_point(line, seg.a);
+    }
+    while (1) {
+        tg_line_search(line, tg_point_rect(ctx.seg.a), line_reach_iter, &ctx);
+        if (pteq(ctx.reach, ctx.seg.b)) {
+            return true;
+        }
+        if (pteq(ctx.reach, ctx.seg.a)) {
+            return false;
+        }
+        ctx.seg.a = ctx.reach;
+    }
+}
+
+/// Tests whether a line contains another line
+/// @see LineFuncs
+bool tg_line_covers_line(const struct tg_line *a, const struct tg_line *b) {
+    if (tg_line_empty(a) || tg_line_empty(b)) return false;
+
+    if (!tg_rect_covers_rect(tg_line_rect(a), tg_line_rect(b))) {
         return false;
     }
     int bnsegs = tg_line_num_segments(b);
-    for (int i = 1; i < bnsegs && j < ansegs; i++) {
-        struct tg_segment aseg = tg_line_segment_at(a, j);
-        struct tg_segment bseg = tg_line_segment_at(b, i);
-        if (tg_segment_covers_segment(aseg, bseg)) {
-            continue;
-        }
-        if (pteq(bseg.a, aseg.a)) {
-            // reverse it
-            if (j == 0) {
-                return false;
-            }
-            j--;
-            i--;
-        } else if (pteq(bseg.a, aseg.b)) {
-            // forward it
-            j++;
-            i--;
+    for (int i = 0; i < bnsegs; i++) {
+        if (!line_covers_segment(a, tg_line_segment_at(b, i))) {
+            return false;
         }
     }
     return true;
-- 
2.43.0


From 42e529cf364d881478221b33675df4e189b44145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 02/41] fix: segment in concave ring tests must look at every
 part of the segment

tg_ring_contains_segment reported segments that leave a concave ring as
covered when their ends are on the ring boundary, and rejected some that
only touch it. tg_ring_intersects_segment counted touched edges to decide
if a segment enters the interior of a ring. Both now walk over the parts of
the segment that are between the boundary vertices.
---
 tg.c | 286 +++++++++++++++++++----------------------------------------
 1 file changed, 93 insertions(+), 193 deletions(-)

diff --git a/tg.c b/tg.c
index 8aed8dd..12640d0 100644
--- a/tg.c
+++ b/tg.c
@@ -2816,68 +2816,104 @@ bool tg_ring_clockwise(const struct tg_ring *ring) {
     return ring->clockwise;
 }
 
-struct contsegiterctx {
-    struct tg_segment seg;
-    bool intersects;
+enum segment_parts {
+    PART_IN = 1,   // some part of the segment is in the interior
+    PART_OUT = 2,  // some part of the segment is in the exterior
 };
 
-static bool contsegiter1(struct tg_segment seg2, int index, void *udata) {
-    (void)index;
-    struct contsegiterctx *ctx = udata;
-    if (tg_segment_intersects_segment(ctx->seg, seg2)) {
-        if (tg_raycast(seg2, ctx->seg.a) != TG_ON && 
-            tg_raycast(seg2, ctx->seg.b) != TG_ON)
-        {
-            ctx->intersects = true;
-            return false;
-        }
-    }
-    return true;
-}
+struct segment_parts_ctx {
+    struct tg_segment seg;  // the remaining part of the segment
+    struct tg_point next;   // nearest vertex on the segment, following seg.a
+    bool on_edge;           // seg.a to next is on the boundary
+    bool crosses;           // segment passes through an edge
+};
 
-static bool contsegiter4(struct tg_segment seg2, int index, void *udata) {
+static bool segment_parts_iter(struct tg_segment edge, int index, void *udata) {
     (void)index;
-    struct contsegiterctx *ctx = udata;
-    if (tg_segment_intersects_segment(ctx->seg, seg2)) {
-        if (tg_raycast(seg2, ctx->seg.a) != TG_ON) {
-            ctx->intersects = true;
-            return false;
+    struct segment_parts_ctx *ctx = udata;
+    struct tg_segment seg = ctx->seg;
+    if (!tg_segment_intersects_segment(seg, edge)) {
+        return true;
+    }
+    bool a_on_edge = tg_segment_covers_point(edge, seg.a);
+    bool b_on_edge = tg_segment_covers_point(edge, seg.b);
+    bool ends_on_seg = false;
+    bool along = b_on_edge;
+    struct tg_point ends[] = { edge.a, edge.b };
+    for (int i = 0; i < 2; i++) {
+        if (!tg_segment_covers_point(seg, ends[i])) {
+            continue;
+        }
+        ends_on_seg = true;
+        if (!pteq(ends[i], seg.a)) {
+            along = true;
+            if (tg_segment_covers_point(
+                (struct tg_segment){ seg.a, ctx->next }, ends[i]))
+            {
+                ctx->next = ends[i];
+            }
         }
     }
+    if (a_on_edge && along) {
+        ctx->on_edge = true;
+    }
+    if (!a_on_edge && !b_on_edge && !ends_on_seg) {
+        ctx->crosses = true;
+        return false;
+    }
     return true;
 }
 
-static bool contsegiter2(struct tg_segment seg2, int index, void *udata) {
-    (void)index;
-    struct contsegiterctx *ctx = udata;
-    if (tg_segment_intersects_segment(ctx->seg, seg2)) {
-        if (tg_raycast(seg2, ctx->seg.b) != TG_ON) {
-            ctx->intersects = true;
-            return false;
+// poly_segment_parts returns whether there are any parts of a segment that are 
+// in the interior and/or exterior of a polygon. It walks over the segment, from
+// one boundary vertex to the next.
+static int poly_segment_parts(const struct tg_poly *poly, 
+    struct tg_segment seg)
+{
+    int parts = 0;
+    const struct tg_ring *exterior = tg_poly_exterior(poly);
+    int nholes = tg_poly_num_holes(poly);
+    while (parts != (PART_IN | PART_OUT)) {
+        struct segment_parts_ctx ctx = { .seg = seg, .next = seg.b };
+        struct tg_rect rect = tg_segment_rect(seg);
+        tg_ring_search(exterior, rect, segment_parts_iter, &ctx);
+        for (int i = 0; i < nholes && !ctx.crosses; i++) {
+            tg_ring_search(tg_poly_hole_at(poly, i), rect, segment_parts_iter,
+                &ctx);
+        }
+        if (ctx.crosses) {
+            return PART_IN | PART_OUT;
+        }
+        if (!ctx.on_edge) {
+            struct tg_point mid = {
+                seg.a.x + (ctx.next.x - seg.a.x) / 2,
+                seg.a.y + (ctx.next.y - seg.a.y) / 2,
+            };
+            if (tg_poly_contains_point(poly, mid)) {
+                parts |= PART_IN;
+            } else if (!tg_poly_covers_point(poly, mid)) {
+                parts |= PART_OUT;
+            }
         }
-    }
-    return true;
-}
-static bool contsegiter5(struct tg_segment seg2, int index, void *udata) {
-    (void)index;
-    struct contsegiterctx *ctx = udata;
-    if (tg_segment_intersects_segment(ctx->seg, seg2)) {
-        if (tg_raycast(ctx->seg, seg2.a) != TG_ON && 
-            tg_raycast(ctx->seg, seg2.b) != TG_ON)
-        {
-            ctx->intersects = true;
-            return false;
+        if (pteq(ctx.next, seg.b)) {
+            break;
         }
+        seg.a = ctx.next;
     }
-    return true;
+    return parts;
 }
 
-static bool contsegiter3(struct tg_segment seg2, int index, void *udata) {
+struct contsegiterctx {
+    struct tg_segment seg;
+    bool intersects;
+};
+
+static bool contsegiter(struct tg_segment seg2, int index, void *udata) {
     (void)index;
     struct contsegiterctx *ctx = udata;
     if (tg_segment_intersects_segment(ctx->seg, seg2)) {
-            ctx->intersects = true;
-            return false;
+        ctx->intersects = true;
+        return false;
     }
     return true;
 }
@@ -2912,155 +2948,17 @@ bool tg_ring_contains_segment(const struct tg_ring *ring,
     // The ring is concave so it's possible that the segment crosses over the
     // edge of the ring.
     if (allow_on_edge) {
-        // do some logic around seg points that are on the edge of the ring.
-        if (res_a.idx != -1) {
-           // seg A is on a ring segment
-            if (res_b.idx != -1) {
-                // seg B is on a ring segment
-                if (res_b.idx == res_a.idx) {
-                    // seg A and B share the same ring segment, so it must be
-                    // on the inside.
-                    return true;
-                }
-
-                // seg A and seg B are on different segments.
-                // determine if the space that the seg passes over is inside or
-                // outside of the ring. To do so we create a ring from the two
-                // ring segments and check if that ring winding order matches
-                // the winding order of the ring.
-                // -- create a ring
-
-                struct tg_segment r_seg_a = ring_segment_at(ring, res_a.idx);
-                struct tg_segment r_seg_b = ring_segment_at(ring, res_b.idx);
-                if (pteq(r_seg_a.a, seg.a) || pteq(r_seg_a.b, seg.a) ||
-                    pteq(r_seg_b.a, seg.a) || pteq(r_seg_b.b, seg.a) ||
-                    pteq(r_seg_a.a, seg.b) || pteq(r_seg_a.b, seg.b) ||
-                    pteq(r_seg_b.a, seg.b) || pteq(r_seg_b.b, seg.b))
-                {
-                    return true;
-                }
-
-                // fix the order of the
-                if (res_b.idx < res_a.idx) {
-                    struct tg_segment tmp = r_seg_a;
-                    r_seg_a = r_seg_b;
-                    r_seg_b = tmp;
-                }
-
-                struct tg_point pts[] = {
-                    r_seg_a.a, r_seg_a.b, r_seg_b.a, r_seg_b.b, r_seg_a.a
-                };
-                // -- calc winding order
-                double cwc = 0.0;
-                for (int i = 0; i < 4; i++) {
-                    struct tg_point a = pts[i];
-                    struct tg_point b = pts[i+1];
-                    cwc += (b.x - a.x) * (b.y + a.y);
-                }
-                bool clockwise = cwc > 0;
-                if (clockwise != ring->clockwise) {
-                    // -- on the outside
-                    return false;
-                }
-                // the passover space is on the inside of the ring.
-                // check if seg intersects any ring segments where A and B are
-                // not on.
-                struct contsegiterctx ctx = {
-                    .intersects = false,
-                    .seg = seg,
-                };
-                tg_ring_search(ring, tg_segment_rect(seg), contsegiter1, &ctx);
-                return !ctx.intersects;
-            }
-            // case (4)
-            // seg A is on a ring segment, but seg B is not.
-            // check if seg intersects any ring segments where A is not on.
-            struct contsegiterctx ctx = {
-                .intersects = false,
-                .seg = seg,
-            };
-            tg_ring_search(ring, tg_segment_rect(seg), contsegiter4, &ctx);
-            return !ctx.intersects;
-        } else if (res_b.idx != -1) {
-            // case (2)
-            // seg B is on a ring segment, but seg A is not.
-            // check if seg intersects any ring segments where B is not on.
-            struct contsegiterctx ctx = {
-                .intersects = false,
-                .seg = seg,
-            };
-            tg_ring_search(ring, tg_segment_rect(seg), contsegiter2, &ctx);
-            return !ctx.intersects;
-        }
-        // case (5) (15)
-        struct contsegiterctx ctx = {
-            .intersects = false,
-            .seg = seg,
-        };
-        tg_ring_search(ring, tg_segment_rect(seg), contsegiter5, &ctx);
-        return !ctx.intersects;
+        return !(poly_segment_parts((struct tg_poly*)ring, seg) & PART_OUT);
     }
     // allow_on_edge is false. (not allow on edge)
     struct contsegiterctx ctx = {
         .intersects = false,
         .seg = seg,
     };
-    tg_ring_search(ring, tg_segment_rect(seg), contsegiter3, &ctx);
+    tg_ring_search(ring, tg_segment_rect(seg), contsegiter, &ctx);
     return !ctx.intersects;
 }
 
-struct intersegiterctx {
-    struct tg_segment seg;
-    int count;
-    bool allow_on_edge;
-    bool seg_a_on;
-    bool seg_b_on;
-    // bool yes;
-};
-
-static bool intersegiter(struct tg_segment seg, int index, void *udata) {
-    (void)index;
-    struct intersegiterctx *ctx = udata;
-
-    if (!tg_segment_intersects_segment(ctx->seg, seg)) {
-        return true;
-    }
-    if (ctx->allow_on_edge) {
-        ctx->count++;
-        return ctx->count < 2;
-    }
-
-    struct tg_point a = ctx->seg.a;
-    struct tg_point b = ctx->seg.b;
-    struct tg_point c = seg.a;
-    struct tg_point d = seg.b;
-
-    // bool acol = collinear(c.x, c.y, d.x, d.y, a.x, a.y);
-    // bool bcol = collinear(c.x, c.y, d.x, d.y, b.x, b.y);
-    bool ccol = collinear(a.x, a.y, b.x, b.y, c.x, c.y);
-    bool dcol = collinear(a.x, a.y, b.x, b.y, d.x, d.y);
-
-    if (ccol && dcol) {
-        // lines are parallel.
-        ctx->count = 0;
-    } else if (!ccol || !dcol) {
-        if (!ctx->seg_a_on) {
-            if (pteq(a, c) || pteq(a, d)) {
-                ctx->seg_a_on = true;
-                return true;
-            }
-        }
-        if (!ctx->seg_b_on) {
-            if (pteq(b, c) || pteq(b, d)) {
-                ctx->seg_b_on = true;
-                return true;
-            }
-        }
-        ctx->count++;
-    }
-    return ctx->count < 2;
-}
-
 bool tg_ring_intersects_segment(const struct tg_ring *ring, 
     struct tg_segment seg, bool allow_on_edge)
 {
@@ -3075,14 +2973,16 @@ bool tg_ring_intersects_segment(const struct tg_ring *ring,
     }
 
     // Neither point A or B is inside of the ring. It's possible that both
-    // are on the outside and are passing over segments. If the segment passes
-    // over at least two ring segments then it's intersecting.
-    struct intersegiterctx ctx = { 
-        .seg = seg,
-        .allow_on_edge = allow_on_edge,
-    };
-    tg_ring_search(ring, tg_segment_rect(seg), intersegiter, &ctx);
-    return ctx.count >= 2;
+    // are on the outside and are passing over the edge of the ring.
+    if (allow_on_edge) {
+        struct contsegiterctx ctx = {
+            .intersects = false,
+            .seg = seg,
+        };
+        tg_ring_search(ring, tg_segment_rect(seg), contsegiter, &ctx);
+        return ctx.intersects;
+    }
+    return (poly_segment_parts((struct tg_poly*)ring, seg) & PART_IN) != 0;
 }
 
 // tg_ring_empty returns true when the ring is NULL, or does not form a closed
-- 
2.43.0


From 3a8ef8622e66878634d0868df26ac8dd0e014d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 03/41] fix: ring convexity must include the turn at the first
 point

The turn at the closing point of a ring was never looked at, so a ring with
its only reflex vertex there was flagged convex, and the covers predicates
which depend on that flag were wrong. Duplicate points hid turns too, and a
clockwise ring that starts with collinear points was flagged concave.
---
 tg.c | 77 ++++++++++++++++++++++++++++++++----------------------------
 1 file changed, 41 insertions(+), 36 deletions(-)

diff --git a/tg.c b/tg.c
index 12640d0..a8f045f 100644
--- a/tg.c
+++ b/tg.c
@@ -1897,9 +1897,11 @@ static struct tg_rect process_points(const struct tg_point *points,
         return rect;
     }
     
-    struct tg_point a, b, c;
+    struct tg_point a, b;
     bool concave = false;
     int dir = 0;
+    double fdx = 0, fdy = 0; // direction of the first segment
+    double pdx = 0, pdy = 0; // direction of the previous segment
     double cwc = 0;
     int ixspread = index ? index->spread : 0;
 
@@ -1913,25 +1915,15 @@ static struct tg_rect process_points(const struct tg_point *points,
     spreadrect.max = points[0];
 
     // gather some point positions for concave and clockwise detection
-    #define step_gather_abc_nowrap() { \
+    #define step_gather_ab_nowrap() { \
         a = points[i]; \
         b = points[i+1]; \
-        c = points[i+2]; \
         ring_points[i] = a; \
     }
     
-    #define step_gather_abc_wrap() { \
+    #define step_gather_ab_wrap() { \
         a = points[i]; \
-        if (i < npoints-2) { \
-            b = points[i+1]; \
-            c = points[i+2]; \
-        } else if (i == npoints-1) { \
-            b = points[0]; \
-            c = points[1]; \
-        } else { \
-            b = points[i+1]; \
-            c = points[0]; \
-        } \
+        b = i < npoints-1 ? points[i+1] : points[0]; \
         ring_points[i] = a; \
     }
     
@@ -1964,19 +1956,30 @@ static struct tg_rect process_points(const struct tg_point *points,
         cwc += (b.x - a.x) * (b.y + a.y); \
     }
 
-    #define step_calc_concave(label) { \
-        double z_cross_product = (b.x-a.x)*(c.y-b.y) - (b.y-a.y)*(c.x-b.x); \
+    // checks the turn from the previous segment to one in the direction dx, dy
+    #define calc_turn(dx, dy) { \
+        double z_cross_product = pdx*(dy) - pdy*(dx); \
+        int turn = (z_cross_product > 0) - (z_cross_product < 0); \
         if (dir == 0) { \
-            dir = z_cross_product < 0 ? -1 : 1; \
-        } else if (z_cross_product < 0) { \
-            if (dir == 1) { \
-                concave = true; \
-                i++; \
-                goto label; \
+            dir = turn; \
+        } else if (turn == -dir) { \
+            concave = true; \
+        } \
+    }
+
+    #define step_calc_concave(label) { \
+        double dx = b.x-a.x; \
+        double dy = b.y-a.y; \
+        if (dx != 0 || dy != 0) { \
+            if (fdx == 0 && fdy == 0) { \
+                fdx = dx; \
+                fdy = dy; \
+            } else { \
+                calc_turn(dx, dy); \
             } \
-        } else if (z_cross_product > 0) { \
-            if (dir == -1) { \
-                concave = true; \
+            pdx = dx; \
+            pdy = dy; \
+            if (concave) { \
                 i++; \
                 goto label; \
             } \
@@ -1995,9 +1998,9 @@ static struct tg_rect process_points(const struct tg_point *points,
     //   inflated to included every point.
     //
     // For each group, there are the two outer loops. Non-wrapped and Wrapped.
-    // - Non-wrapped takes the next points A, B, C from points[i+0],
-    //   points[i+1], and points[i+2], without checking the points array
-    //   boundary. This is safe because of the "npoints-3" condition.
+    // - Non-wrapped takes the next points A, B from points[i+0] and
+    //   points[i+1], without checking the points array boundary. This is safe 
+    //   because of the "npoints-3" condition.
     //   This is be quick because all internal operations are loop-unrolled.
     // - Wrapped is the remaining loop steps, up to three.
     //
@@ -2018,7 +2021,7 @@ static struct tg_rect process_points(const struct tg_point *points,
         // Non-index branch group
         // Non-wrapped outer loop
         for (;i < npoints-3; i++) {
-            step_gather_abc_nowrap();
+            step_gather_ab_nowrap();
             step_inflate_rect_no_index();
             step_calc_clockwise();
             step_calc_concave(lconcave0);
@@ -2026,7 +2029,7 @@ static struct tg_rect process_points(const struct tg_point *points,
     lconcave0:
         // Wrapped outer loop
         for (;i < npoints; i++) {
-            step_gather_abc_wrap();
+            step_gather_ab_wrap();
             step_inflate_rect_no_index();
             step_calc_clockwise();
             step_calc_concave(lconcave);
@@ -2035,7 +2038,7 @@ static struct tg_rect process_points(const struct tg_point *points,
         // Index branch group
         // Non-wrapped outer loop
         for (;i < npoints-3; i++) {
-            step_gather_abc_nowrap();
+            step_gather_ab_nowrap();
             step_inflate_rect_with_index();
             step_calc_clockwise();
             step_calc_concave(lconcave1);
@@ -2043,25 +2046,27 @@ static struct tg_rect process_points(const struct tg_point *points,
     lconcave1:
         // Wrapped outer loop
         for (;i < npoints; i++) {
-            step_gather_abc_wrap();
+            step_gather_ab_wrap();
             step_inflate_rect_with_index();
             step_calc_clockwise();
             step_calc_concave(lconcave);
         }
     }
+    // Turn from the last segment to the first
+    calc_turn(fdx, fdy);
 lconcave:
     // Concave section
     if (!index) {
         // Non-index branch group
         // Non-wrapped outer loop
         for (;i < npoints-3; i++) {
-            step_gather_abc_nowrap();
+            step_gather_ab_nowrap();
             step_inflate_rect_no_index();
             step_calc_clockwise();
         }
         // Wrapped outer loop
         for (;i < npoints; i++) {
-            step_gather_abc_wrap();
+            step_gather_ab_wrap();
             step_inflate_rect_no_index();
             step_calc_clockwise();
         }
@@ -2069,13 +2074,13 @@ lconcave:
         // Index branch group
         // Non-wrapped outer loop
         for (;i < npoints-3; i++) {
-            step_gather_abc_nowrap();
+            step_gather_ab_nowrap();
             step_inflate_rect_with_index();
             step_calc_clockwise();
         }
         // Wrapped outer loop
         for (;i < npoints; i++) {
-            step_gather_abc_wrap();
+            step_gather_ab_wrap();
             step_inflate_rect_with_index();
             step_calc_clockwise();
         }
-- 
2.43.0


From e99336b2cc789843edeb65f30743440df2d34a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 04/41] fix: closed lines have no boundary, and lines touch
 only at boundaries

A closed line was given a boundary at its first point by contains and
touches. Lines which overlap along a part of a segment, starting from the
end of one, were reported as touching.
---
 tg.c | 81 ++++++++++++++++++++++++++++++------------------------------
 1 file changed, 41 insertions(+), 40 deletions(-)

diff --git a/tg.c b/tg.c
index a8f045f..53ea396 100644
--- a/tg.c
+++ b/tg.c
@@ -1112,14 +1112,22 @@ bool tg_point_intersects_line(struct tg_point point,
     return tg_line_intersects_point(line, point);
 }
 
-bool tg_point_touches_line(struct tg_point point, const struct tg_line *line) {
+// line_boundary fills the end points of a line and returns the number of them.
+// A closed line does not have a boundary.
+static int line_boundary(const struct tg_line *line, struct tg_point ends[2]) {
     int nsegs = tg_line_num_segments(line);
     if (nsegs == 0) {
-        return false;
+        return 0;
     }
-    struct tg_segment s0 = tg_line_segment_at(line, 0);
-    struct tg_segment sN = tg_line_segment_at(line, nsegs-1);
-    return pteq(point, s0.a) || pteq(point, sN.b);
+    ends[0] = tg_line_segment_at(line, 0).a;
+    ends[1] = tg_line_segment_at(line, nsegs-1).b;
+    return pteq(ends[0], ends[1]) ? 0 : 2;
+}
+
+bool tg_point_touches_line(struct tg_point point, const struct tg_line *line) {
+    struct tg_point ends[2];
+    int nends = line_boundary(line, ends);
+    return nends > 0 && (pteq(point, ends[0]) || pteq(point, ends[1]));
 }
 
 /// Tests whether a point fully contains a polygon.
@@ -3326,13 +3334,7 @@ bool tg_line_contains_point(const struct tg_line *line, struct tg_point point) {
     if (!tg_line_covers_point(line, point)) {
         return false;
     }
-    int nsegs = tg_line_num_segments(line);
-    if (pteq(point, tg_line_segment_at(line, 0).a) || 
-        pteq(point, tg_line_segment_at(line, nsegs-1).b))
-    {
-        return false;
-    }
-    return true;
+    return !tg_point_touches_line(point, line);
 }
 
 /// Tests whether a line intersects a point
@@ -3443,48 +3445,49 @@ enum segment_intersects_kind {
 
 struct segment_intersects_iter_ctx {
     bool yes;
-    int ansegs;
-    int bnsegs;
+    int nends;
+    struct tg_point ends[4];  // line boundary points
     enum segment_intersects_kind kind;
 };
 
-static bool segment_touches0(struct tg_segment seg,
-    struct tg_point a, struct tg_point b)
-{
-    if (!tg_segment_covers_point(seg, a)) {
-        return false;
-    }
-    if (!collinear(seg.a.x, seg.a.y, seg.b.x, seg.b.y, b.x, b.y)) {
-        return true;
-    }
-    if (pteq(seg.a, a)) {
-        return !tg_segment_covers_point((struct tg_segment){ a, b }, seg.b);
-    }
-    if (pteq(seg.b, a)) {
-        return !tg_segment_covers_point((struct tg_segment){ a, b }, seg.a);
+// segments_overlap returns true when two segments share more than one point.
+static bool segments_overlap(struct tg_segment a, struct tg_segment b) {
+    struct tg_point shared[4];
+    int n = 0;
+    if (tg_segment_covers_point(b, a.a)) shared[n++] = a.a;
+    if (tg_segment_covers_point(b, a.b)) shared[n++] = a.b;
+    if (tg_segment_covers_point(a, b.a)) shared[n++] = b.a;
+    if (tg_segment_covers_point(a, b.b)) shared[n++] = b.b;
+    for (int i = 1; i < n; i++) {
+        if (!pteq(shared[i], shared[0])) return true;
     }
     return false;
 }
 
-static bool any_touching(struct tg_segment a, int aidx, int ansegs,
-    struct tg_segment b, int bidx, int bnsegs)
+static bool any_touching(struct tg_segment a, struct tg_segment b,
+    const struct tg_point *ends, int nends)
 {
-    return (aidx == 0 && segment_touches0(b, a.a, a.b)) ||
-           (aidx == ansegs-1 && segment_touches0(b, a.b, a.a)) ||
-           (bidx == 0 && segment_touches0(a, b.a, b.b)) ||
-           (bidx == bnsegs-1 && segment_touches0(a, b.b, b.a));
+    for (int i = 0; i < nends; i++) {
+        if (tg_segment_covers_point(a, ends[i]) && 
+            tg_segment_covers_point(b, ends[i]))
+        {
+            return !segments_overlap(a, b);
+        }
+    }
+    return false;
 }
 
 static bool segment_intersects_iter(struct tg_segment a, int aidx, 
     struct tg_segment b, int bidx, void *udata)
 {
+    (void)aidx; (void)bidx;
     struct segment_intersects_iter_ctx *ctx = udata;
     switch (ctx->kind) {
     case SI_INTERSECTS:
         ctx->yes = true;
         break;
     case SI_TOUCHES:
-        if (any_touching(a, aidx, ctx->ansegs, b, bidx, ctx->bnsegs)) {
+        if (any_touching(a, b, ctx->ends, ctx->nends)) {
             ctx->yes = true;
             return true;
         }
@@ -3497,11 +3500,9 @@ static bool segment_intersects_iter(struct tg_segment a, int aidx,
 static bool line_intersects_line(const struct tg_line *a, 
     const struct tg_line *b, enum segment_intersects_kind kind)
 {
-    struct segment_intersects_iter_ctx ctx = { 
-        .kind = kind,
-        .ansegs = tg_line_num_segments(a),
-        .bnsegs = tg_line_num_segments(b),
-     };
+    struct segment_intersects_iter_ctx ctx = { .kind = kind };
+    ctx.nends += line_boundary(a, &ctx.ends[0]);
+    ctx.nends += line_boundary(b, &ctx.ends[ctx.nends]);
     tg_line_line_search(a, b, segment_intersects_iter, &ctx);
     return ctx.yes;
 }
-- 
2.43.0


From b822e3c94a8c5be2651a55aa087633d0d18d2c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 05/41] fix: rings with equal rectangles may share interiors

tg_ring_intersects_ring only looked for boundary segments of the ring with
the smaller rectangle inside of the other. When both rectangles are the same
the ring that is looked at can be the outer one, so a hole which covers part
of a polygon was missed by tg_poly_covers_poly.
---
 tg.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tg.c b/tg.c
index 53ea396..7813226 100644
--- a/tg.c
+++ b/tg.c
@@ -3076,6 +3076,18 @@ bool tg_ring_intersects_ring(const struct tg_ring *ring,
             return true;
         }
     }
+    if (!allow_on_edge) {
+        // The boundary of the inner ring is not in the interior of the outer
+        // ring, but it's possible that the inner ring is around the outer ring
+        // when their rectangles are the same.
+        for (int i = 0; i < ring->nsegs; i++) {
+            if (tg_ring_intersects_segment(other, ring_segment_at(ring, i), 
+                false)) 
+            {
+                return true;
+            }
+        }
+    }
     return false;
 }
 
-- 
2.43.0


From 1f84e4a2125a0ede3a3c947a305a64dc1c648d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 06/41] fix: polygon contains and touches must be decided by
 interiors

A line along the boundary of a polygon for one of its segments was not
contained, even if the rest was inside. Lines and polygons which touch at
points other than the vertices, or which touch holes, were not touching.
---
 tg.c | 152 +++++++++++++++--------------------------------------------
 1 file changed, 38 insertions(+), 114 deletions(-)

diff --git a/tg.c b/tg.c
index 7813226..1d1ce3c 100644
--- a/tg.c
+++ b/tg.c
@@ -3910,20 +3910,23 @@ bool tg_poly_covers_line(const struct tg_poly *a, const struct tg_line *b) {
     return true;
 }
 
-bool tg_poly_contains_line(const struct tg_poly *a, const struct tg_line *b) {
-    if (tg_poly_empty(a) || tg_line_empty(b)) {
-        return false;
-    }
-    if (!tg_ring_contains_line(tg_poly_exterior(a), b, false, true)) {
-        return false;
-    }
-    int nholes = tg_poly_num_holes(a);
-    for (int i = 0; i < nholes; i++) {
-        if (tg_ring_intersects_line(tg_poly_hole_at(a, i), b, false)) {
-            return false;
+// poly_interior_intersects_line returns true if any part of the line is in the 
+// interior of the polygon.
+static bool poly_interior_intersects_line(const struct tg_poly *poly,
+    const struct tg_line *line)
+{
+    int nsegs = tg_line_num_segments(line);
+    for (int i = 0; i < nsegs; i++) {
+        struct tg_segment seg = tg_line_segment_at(line, i);
+        if (poly_segment_parts(poly, seg) & PART_IN) {
+            return true;
         }
     }
-    return true;
+    return false;
+}
+
+bool tg_poly_contains_line(const struct tg_poly *a, const struct tg_line *b) {
+    return tg_poly_covers_line(a, b) && poly_interior_intersects_line(a, b);
 }
 
 /// Tests whether a polygon intersects a line.
@@ -4049,115 +4052,36 @@ bool tg_poly_intersects_poly(const struct tg_poly *poly,
 }
 
 bool tg_poly_touches_line(const struct tg_poly *a, const struct tg_line *b) {
-    if (!tg_rect_intersects_rect(tg_poly_rect(a), tg_line_rect(b))) {
-        return false;
-    }
-
-    // Check if the line is inside any of the polygon holes
-    int npoints = tg_line_num_points(b);
-    int nholes = tg_poly_num_holes(a);
-    for (int i = 0; i < nholes; i++) {
-        const struct tg_ring *hole = tg_poly_hole_at(a, i);
-        if (tg_ring_contains_line(hole, b, true, false)) {
-            // Yes, now check if any of the points touch the hole boundary.
-            for (int j = 0; j < npoints; j++) {
-                struct tg_point point = tg_line_point_at(b, j);
-                if (tg_line_covers_point((struct tg_line*)hole, point)) {
-                    return true;
-                }
-            }
-            return false;
-        }
-    }
+    return tg_poly_intersects_line(a, b) && 
+           !poly_interior_intersects_line(a, b);
+}
 
-    // Check if at least one line point touches the polygon exterior.
-    const struct tg_ring *ring = tg_poly_exterior(a);
-    bool touches = false;
-    for (int i = 0; i < npoints; i++) {
-        struct tg_point point = tg_line_point_at(b, i);
-        // Cast the exterior ring to a polygon to avoid holes.
-        if (tg_poly_touches_point((struct tg_poly*)ring, point)) {
-            touches = true;
-            break;
-        }
-    }
-    if (!touches) {
-        return false;
+// poly_interior_intersects_boundary returns true if any part of the boundary 
+// of polygon B is in the interior of polygon A.
+static bool poly_interior_intersects_boundary(const struct tg_poly *a,
+    const struct tg_poly *b)
+{
+    const struct tg_ring *ring = tg_poly_exterior(b);
+    if (poly_interior_intersects_line(a, (struct tg_line*)ring)) {
+        return true;
     }
-    int nsegs = tg_line_num_segments(b);
-    for (int i = 0; i < nsegs; i++) {
-        struct tg_segment seg = tg_line_segment_at(b, i);
-        if (tg_ring_intersects_segment(ring, seg, false)) {
-            return false;
+    int nholes = tg_poly_num_holes(b);
+    for (int i = 0; i < nholes; i++) {
+        ring = tg_poly_hole_at(b, i);
+        if (poly_interior_intersects_line(a, (struct tg_line*)ring)) {
+            return true;
         }
     }
-    return true;
+    return false;
 }
 
 bool tg_poly_touches_poly(const struct tg_poly *a, const struct tg_poly *b) {
-    if (!tg_rect_intersects_rect(tg_poly_rect(a), tg_poly_rect(b))) {
-        return false;
-    }
-    
-    const struct tg_ring *aext = tg_poly_exterior(a);
-    const struct tg_ring *bext = tg_poly_exterior(b);
-
-    // Check if one polygon is fully inside a hole of the other and touching
-    // the hole boundary.
-    for (int ii = 0; ii < 2; ii++) {
-        const struct tg_poly *poly = ii == 0 ? a : b; 
-        const struct tg_ring *ring = ii == 0 ? bext : aext; 
-        int nholes = tg_poly_num_holes(poly);
-        for (int i = 0; i < nholes; i++) {
-            const struct tg_ring *hole = tg_poly_hole_at(poly, i);
-            if (tg_ring_contains_ring(hole, ring, true)) {
-                // Yes, now check if any exterior points are on the other 
-                // hole boundary.
-                int npoints = tg_ring_num_points(ring);
-                for (int j = 0; j < npoints; j++) {
-                    struct tg_point point = tg_ring_point_at(ring, j);
-                    if (tg_line_covers_point((struct tg_line*)hole, point)) {
-                        // Touching
-                        return true;
-                    }
-                }
-                // Not touching and full enclosed in a hole.
-                return false;
-            }
-        }
-    }
-    
-    // Now we can work with the exterior rings only.
-    // Check if one polygon is touching the other
-    int ansegs = tg_ring_num_segments(aext);
-    int bnsegs = tg_ring_num_segments(bext);
-    int atouches = 0;
-    int btouches = 0;
-    for (int ii = 0; ii < 2; ii++) {
-        const struct tg_ring *a = ii == 0 ? aext : bext; 
-        const struct tg_ring *b = ii == 0 ? bext : aext; 
-        int nsegs = ii == 0 ? bnsegs : ansegs;
-        int touches = 0;
-        for (int i = 0; i < nsegs; i++) {
-            struct tg_segment seg = tg_ring_segment_at(b, i);
-            bool isects0 = tg_ring_intersects_segment(a, seg, true);
-            bool isects1 = tg_ring_intersects_segment(a, seg, false);
-            if (isects0 && !isects1) {
-                touches++;
-            } else if (isects0 || isects1) {
-                return false;
-            }
-        }
-        if (ii == 0) {
-            btouches = touches;
-        } else {
-            atouches = touches;
-        }
-    }
-    if (atouches > 0 || btouches > 0) {
-        return !(atouches == ansegs && btouches == bnsegs);
-    }
-    return false;
+    // When there is no boundary inside of the other polygon then the interiors
+    // are either disjoint or the same.
+    return tg_poly_intersects_poly(a, b) &&
+           !poly_interior_intersects_boundary(a, b) &&
+           !poly_interior_intersects_boundary(b, a) &&
+           !(tg_poly_covers_poly(a, b) && tg_poly_covers_poly(b, a));
 }
 
 struct tg_poly *tg_poly_move(const struct tg_poly *poly, double delta_x, 
-- 
2.43.0


From 4aa7ccc76e387eca53908d3c07ff20884b8d8865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 07/41] fix: points and lines do not touch multi geometries
 they cross

A point or line that touches one child of a multi geometry was touching,
even when it is in the interior of another child, so touches depended on
the order of its arguments.
---
 tg.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/tg.c b/tg.c
index 1d1ce3c..ce47e8b 100644
--- a/tg.c
+++ b/tg.c
@@ -6172,16 +6172,20 @@ static bool point_touches_base_geom(struct tg_point point,
         case TG_MULTIPOINT: 
         case TG_MULTILINESTRING: 
         case TG_MULTIPOLYGON:
-        case TG_GEOMETRYCOLLECTION:
+        case TG_GEOMETRYCOLLECTION: {
+            bool touches = false;
             if (geom->multi) {
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
-                    if (point_touches_geom(point, geom->multi->geoms[i])) {
-                        return true;
+                    const struct tg_geom *child = geom->multi->geoms[i];
+                    if (point_touches_geom(point, child)) {
+                        touches = true;
+                    } else if (point_intersects_geom(point, child)) {
+                        return false;
                     }
                 }
             }
-            return false;
-        }
+            return touches;
+        }}
     }
     return false;
 }
@@ -6224,16 +6228,20 @@ static bool line_touches_base_geom(struct tg_line *line,
         case TG_MULTIPOINT: 
         case TG_MULTILINESTRING: 
         case TG_MULTIPOLYGON:
-        case TG_GEOMETRYCOLLECTION: 
+        case TG_GEOMETRYCOLLECTION: {
+            bool touches = false;
             if (geom->multi) {
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
-                    if (line_touches_geom(line, geom->multi->geoms[i])) {
-                        return true;
+                    const struct tg_geom *child = geom->multi->geoms[i];
+                    if (line_touches_geom(line, child)) {
+                        touches = true;
+                    } else if (line_intersects_geom(line, child)) {
+                        return false;
                     }
                 }
             }
-            return false;
-        }
+            return touches;
+        }}
     }
     return false;
 }
-- 
2.43.0


From 8291f9c33fdc7b5b3a8748b44cc8a93e2b541cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 08/41] fix: copies of indexed geometries must not use the
 memory of the original

tg_ring_copy, tg_line_copy and tg_geom_copy left the index and ystripes
pointers of the copy pointing into the original, which is a use after free
once the original is freed.
---
 tg.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/tg.c b/tg.c
index ce47e8b..3963429 100644
--- a/tg.c
+++ b/tg.c
@@ -14919,6 +14919,14 @@ int tg_geom_de9im_dims(const struct tg_geom *geom) {
     return dims;
 }
 
+// index_relocate points the levels of a copied index at the memory of the copy.
+static void index_relocate(struct index *copy, const struct index *index) {
+    for (int i = 0; i < index->nlevels; i++) {
+        size_t offset = (char*)index->levels[i].rects - (char*)index;
+        copy->levels[i].rects = (void*)&((char*)copy)[offset];
+    }
+}
+
 /// Copies a ring
 /// @param ring Input ring, caller retains ownership.
 /// @return A duplicate of the provided ring. 
@@ -14939,6 +14947,11 @@ struct tg_ring *tg_ring_copy(const struct tg_ring *ring) {
     rc_init(&ring2->head.rc);
     rc_retain(&ring2->head.rc);
     ring2->head.noheap = 0;
+    if (ring->index) {
+        size_t offset = (char*)ring->index - (char*)ring;
+        ring2->index = (void*)&((char*)ring2)[offset];
+        index_relocate(ring2->index, ring->index);
+    }
     if (ring->ystripes) {
         ring2->ystripes = tg_malloc(ring->ystripes->memsz);
         if (!ring2->ystripes) {
@@ -14946,6 +14959,12 @@ struct tg_ring *tg_ring_copy(const struct tg_ring *ring) {
             return NULL;
         }
         memcpy(ring2->ystripes, ring->ystripes, ring->ystripes->memsz);
+        for (int i = 0; i < ring->ystripes->nstripes; i++) {
+            size_t offset = (char*)ring->ystripes->stripes[i].indexes - 
+                (char*)ring->ystripes;
+            ring2->ystripes->stripes[i].indexes = 
+                (void*)&((char*)ring2->ystripes)[offset];
+        }
     }
     return ring2;
 }
@@ -15071,6 +15090,7 @@ static struct tg_geom *geom_copy(const struct tg_geom *geom) {
                 }
                 memcpy(geom2->multi->index, geom->multi->index, 
                     geom->multi->index->memsz);
+                index_relocate(geom2->multi->index, geom->multi->index);
             }
             if (geom->multi->ixgeoms) {
                 geom2->multi->ixgeoms = tg_malloc(
-- 
2.43.0


From f292b7ff068d9503b8f9f4a23351abf708056dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 09/41] fix: tg_geom_copy of an empty linestring or polygon
 returned NULL

---
 tg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index 3963429..fe78c60 100644
--- a/tg.c
+++ b/tg.c
@@ -15046,13 +15046,13 @@ static struct tg_geom *geom_copy(const struct tg_geom *geom) {
         break;
     case TG_LINESTRING:
         geom2->line = tg_line_copy(geom->line);
-        if (!geom2->line) {
+        if (geom->line && !geom2->line) {
             goto fail;
         }
         break;
     case TG_POLYGON:
         geom2->poly = tg_poly_copy(geom->poly);
-        if (!geom2->poly) {
+        if (geom->poly && !geom2->poly) {
             goto fail;
         }
         break;
-- 
2.43.0


From 240a4712722b962411f54b3804d8530c095086c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 10/41] fix: wkb point count must not overflow

The size of the points was calculated with 32 bits, so a large point count
in a short wkb was read past the end of the input.
---
 tg.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index fe78c60..d7cf49c 100644
--- a/tg.c
+++ b/tg.c
@@ -13205,11 +13205,12 @@ static size_t parse_wkb_posns(enum base base, int dims,
     uint32_t count;
     read_uint32(count);
     if (count == 0) return i;
-    if (dims == 2 && !swap && len-i >= count*2*8) {
+    size_t nbytes = (size_t)count*2*8;
+    if (dims == 2 && !swap && len-i >= nbytes) {
         // Use the point data directly. No allocations. 
         *points = (void*)(wkb+i);
         *npoints = count;
-        i += count*2*8; 
+        i += nbytes; 
     } else {
         for (uint32_t j = 0 ; j < count; j++) {
             read_posn(posn);
-- 
2.43.0


From 2f81ef7fd0869206c611aebebbdcdd828d4eef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 11/41] fix: child accessors must not read past the last child

The point, line, polygon and geometry accessors of multi geometries
accepted an index equal to the number of children.
---
 tg.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index d7cf49c..00ca262 100644
--- a/tg.c
+++ b/tg.c
@@ -5271,7 +5271,7 @@ int tg_geom_num_geometries(const struct tg_geom *geom) {
 struct tg_point tg_geom_point_at(const struct tg_geom *geom, int index) {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_MULTIPOINT && 
-        geom->multi &&index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi &&index >= 0 && index < geom->multi->ngeoms)
     {
         return ((struct boxed_point*)geom->multi->geoms[index])->point;
     }
@@ -5288,7 +5288,7 @@ struct tg_point tg_geom_point_at(const struct tg_geom *geom, int index) {
 const struct tg_line *tg_geom_line_at(const struct tg_geom *geom, int index) {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_MULTILINESTRING && 
-        geom->multi &&index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi &&index >= 0 && index < geom->multi->ngeoms)
     {
         return (struct tg_line*)geom->multi->geoms[index];
     }
@@ -5305,7 +5305,7 @@ const struct tg_line *tg_geom_line_at(const struct tg_geom *geom, int index) {
 const struct tg_poly *tg_geom_poly_at(const struct tg_geom *geom, int index) {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_MULTIPOLYGON && 
-        geom->multi && index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi && index >= 0 && index < geom->multi->ngeoms)
     {
         return (struct tg_poly *)geom->multi->geoms[index];
     }
@@ -5327,7 +5327,7 @@ const struct tg_geom *tg_geom_geometry_at(const struct tg_geom *geom,
 {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_GEOMETRYCOLLECTION && 
-        geom->multi && index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi && index >= 0 && index < geom->multi->ngeoms)
     {
         return geom->multi->geoms[index];
     }
-- 
2.43.0


From 65a9ec9e974cdf2e5b564eac85211c73a2ef7db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 12/41] fix: binary parsers must report failure for invalid
 children

---
 tg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tg.c b/tg.c
index 00ca262..a60ba2f 100644
--- a/tg.c
+++ b/tg.c
@@ -13366,6 +13366,7 @@ fail:
     tg_geom_free(geom);
     geom = gerr;
     gerr = NULL;
+    i = PARSE_FAIL;
     goto cleanup;
 }
 
@@ -13423,6 +13424,7 @@ fail:
     tg_geom_free(geom);
     geom = gerr;
     gerr = NULL;
+    i = PARSE_FAIL;
     goto cleanup;
 }
 
@@ -13510,6 +13512,7 @@ fail:
     tg_geom_free(geom);
     geom = gerr;
     gerr = NULL;
+    i = PARSE_FAIL;
     goto cleanup;
 invalid:
     gerr = make_parse_error(wkb_invalid_err());
@@ -13591,6 +13594,7 @@ fail:
     tg_geom_free(geom);
     geom = gerr;
     gerr = NULL;
+    i = PARSE_FAIL;
     goto cleanup;
 invalid:
     gerr = make_parse_error(wkb_invalid_err());
@@ -13672,6 +13676,7 @@ fail:
     tg_geom_free(geom);
     geom = gerr;
     gerr = NULL;
+    i = PARSE_FAIL;
     goto cleanup;
 invalid:
     gerr = make_parse_error(wkb_invalid_err());
@@ -13716,6 +13721,7 @@ fail:
     tg_geom_free(geom);
     geom = gerr;
     gerr = NULL;
+    i = PARSE_FAIL;
     goto cleanup;
 invalid:
     gerr = make_parse_error(wkb_invalid_err());
-- 
2.43.0


From 5708f4788a5d2612ef360f94cc5867b47138e57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 13/41] fix: geobin feature count must be bounded by the
 remaining data

---
 tg.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tg.c b/tg.c
index a60ba2f..2fd5a64 100644
--- a/tg.c
+++ b/tg.c
@@ -15409,16 +15409,21 @@ static size_t parse_geobin(const uint8_t *geobin, size_t len, size_t i,
         uint32_t nfeats;
         memcpy(&nfeats, geobin+i, 4);
         i += 4;
-        struct tg_geom **feats = tg_malloc(nfeats*sizeof(struct tg_geom*));
+        if (nfeats > len-i) {
+            // Every feature needs at least one byte
+            goto invalid;
+        }
+        struct tg_geom **feats = tg_malloc(((size_t)nfeats+1)*sizeof(*feats));
         if (!feats) {
-            return 0;
+            *g = 0;
+            return PARSE_FAIL;
         }
         memset(feats, 0, nfeats*sizeof(struct tg_geom*));
         struct tg_geom *feat = 0;
         uint32_t j = 0;
         for (; j < nfeats; j++) {
             i = parse_geobin(geobin, len, i, depth+1, ix, &feat);
-            if (i == PARSE_FAIL) {
+            if (i == PARSE_FAIL || !feat) {
                 break;
             }
             feats[j] = feat;
-- 
2.43.0


From 4c0ee901f2a87ded322cb009ad9f502fe1b7085f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 14/41] fix: wkt nesting depth must not count closed groups

---
 tg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 2fd5a64..247c48c 100644
--- a/tg.c
+++ b/tg.c
@@ -11891,7 +11891,7 @@ static long wkt_balance_coords(const char *wkt, long len, long i) {
     for (; i < len; i++) {
         if (wkt[i] == '(') {
             depth++;
-            maxdepth++;
+            if (depth > maxdepth) maxdepth = depth;
         } else if (wkt[i] == ')') {
             depth--;
             if (depth == 0) {
-- 
2.43.0


From 59d64855b438a7e1ad234d096c6c87998db0b1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 15/41] fix: wkb must not accept empty rings, or empty children
 of multi geometries

---
 tg.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 247c48c..98b92bf 100644
--- a/tg.c
+++ b/tg.c
@@ -13253,6 +13253,10 @@ static size_t parse_wkb_multi_posns(enum base base, int dims,
         i = parse_wkb_posns(base, dims, wkb, len, i, swap, posns, xcoords, 
             &points, &npoints, err);
         if (i == PARSE_FAIL) return PARSE_FAIL;
+        if (npoints == 0) {
+            *err = "rings must have three or more positions";
+            return PARSE_FAIL;
+        }
         struct tg_ring *ring = tg_ring_new_ix(points, npoints, ix);
         if (!ring) return PARSE_FAIL;
         if (!rvec_append(rings, ring)) {
@@ -13436,7 +13440,9 @@ static bool wkb_type_match(const struct tg_geom *child, enum tg_geom_type type,
 {
     bool child_has_z = (child->head.flags&HAS_Z) == HAS_Z;
     bool child_has_m = (child->head.flags&HAS_M) == HAS_M;
-    return child->head.type == type && child_has_z == z && child_has_m == m;
+    bool child_empty = (child->head.flags&IS_EMPTY) == IS_EMPTY;
+    return child->head.type == type && child_has_z == z && child_has_m == m &&
+        !child_empty;
 }
 
 static size_t parse_wkb_multipoint(const uint8_t *wkb, size_t len, size_t i,
-- 
2.43.0


From d2f958ad46cc2df55e36db4a93e06f6b71dea8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:30 +0000
Subject: [PATCH 16/41] fix: empty multi geometries do not have z and m
 coordinates

---
 tg.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tg.c b/tg.c
index 98b92bf..265fdd6 100644
--- a/tg.c
+++ b/tg.c
@@ -8188,7 +8188,7 @@ static struct tg_geom *parse_geojson_multipoint(struct json json,
     const struct tg_point *points = (struct tg_point*)posns.data;
     int npoints = posns.len/2;
     switch (dims) {
-    case 2: 
+    case 0: case 2: 
         geom = tg_geom_new_multipoint(points, npoints);
         break;
     case 3: 
@@ -8238,7 +8238,7 @@ static struct tg_geom *parse_geojson_multilinestring(struct json json,
         val0 = json_next(val0);
     }
     switch (dims) {
-    case 2: 
+    case 0: case 2: 
         geom = tg_geom_new_multilinestring(
                 (struct tg_line const*const*)lines.data, lines.len);
         break;
@@ -8297,7 +8297,7 @@ static struct tg_geom *parse_geojson_multipolygon(struct json json,
         val0 = json_next(val0);
     }
     switch (dims) {
-    case 2: 
+    case 0: case 2: 
         geom = tg_geom_new_multipolygon(
                 (struct tg_poly const*const*)polys.data, polys.len);
         break;
@@ -12277,7 +12277,7 @@ static struct tg_geom *parse_wkt_multipoint(const char *wkt, long len,
     const struct tg_point *points = (struct tg_point*)posns.data;
     int npoints = posns.len/2;
     switch (dims) {
-    case 2: 
+    case 0: case 2: 
         geom = tg_geom_new_multipoint(points, npoints);
         break;
     case 3: 
@@ -12352,7 +12352,7 @@ static struct tg_geom *parse_wkt_multilinestring(const char *wkt, long len,
         }
     }
     switch (dims) {
-    case 2:
+    case 0: case 2:
         geom = tg_geom_new_multilinestring(
                 (struct tg_line const*const*)lines.data, lines.len);
         break;
@@ -12437,7 +12437,7 @@ static struct tg_geom *parse_wkt_multipolygon(const char *wkt, long len,
         }
     }
     switch (dims) {
-    case 2:
+    case 0: case 2:
         geom = tg_geom_new_multipolygon(
                 (struct tg_poly const*const*)polys.data, polys.len);
         break;
-- 
2.43.0


From db126e3be9d9796143a2d0ece8f49f554f5f8b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 17/41] fix: geobin rect functions must check the number of
 dimensions

---
 tg.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index 265fdd6..c8ea57a 100644
--- a/tg.c
+++ b/tg.c
@@ -15765,11 +15765,16 @@ int tg_geobin_fullrect(const uint8_t *geobin, size_t len, double min[4],
             case 2001: dims = 3; break;
             case 3001: dims = 4; break;
             }
-            if (dims > 0 && len >= 5+8*dims) {
+            if (len < 5+8*dims) {
+                dims = 0;
+            }
+            if (dims > 0) {
                 memcpy(min, geobin+5, 8*dims);
                 memcpy(max, geobin+5, 8*dims);
             }
-        } else if (geobin[0] != 0x01 && len >= 2+8*(size_t)geobin[1]*2){
+        } else if (geobin[0] != 0x01 && geobin[1] >= 2 && geobin[1] <= 4 &&
+            len >= 2+8*(size_t)geobin[1]*2)
+        {
             // Read MBR
             dims = geobin[1];
             memcpy(min, geobin+2, 8*dims);
@@ -15799,7 +15804,7 @@ struct tg_rect tg_geobin_rect(const uint8_t *geobin, size_t len) {
         } else if (geobin[0] != 0x01 && len >= 2+8*(size_t)geobin[1]*2){
             // Read MBR
             int dims = geobin[1];
-            if (dims >= 2) {
+            if (dims >= 2 && dims <= 4) {
                 memcpy(&rect.min.x, geobin+2, 8);
                 memcpy(&rect.min.y, geobin+2+8, 8);
                 memcpy(&rect.max.x, geobin+2+8*dims, 8);
@@ -15829,7 +15834,7 @@ struct tg_point tg_geobin_point(const uint8_t *geobin, size_t len) {
             // Read MBR
             struct tg_rect rect = { 0 };
             int dims = geobin[1];
-            if (dims >= 2) {
+            if (dims >= 2 && dims <= 4) {
                 memcpy(&rect.min.x, geobin+2, 8);
                 memcpy(&rect.min.y, geobin+2+8, 8);
                 memcpy(&rect.max.x, geobin+2+8*dims, 8);
-- 
2.43.0


From a8b1444eb08843ed701f37fc7740a1bb11ca73d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 18/41] fix: TG_NOATOMICS reference counting must count
 references

---
 tg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tg.c b/tg.c
index c8ea57a..1901b8a 100644
--- a/tg.c
+++ b/tg.c
@@ -549,11 +549,11 @@ static void rc_init(rc_t *rc) {
     *rc = 0;
 }
 static void rc_retain(rc_t *rc) {
-    *rc++;
+    (*rc)++;
 }
 static bool rc_release(rc_t *rc) {
-    *rc--;
-    return *rc == 1;
+    (*rc)--;
+    return *rc == 0;
 }
 
 #else
-- 
2.43.0


From 2ddf434e62f3a67266c1ac3321d67c611f0c8be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 19/41] fix: tg_poly_new must return NULL if any hole is NULL

---
 tg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tg.c b/tg.c
index 1901b8a..afd3e01 100644
--- a/tg.c
+++ b/tg.c
@@ -3712,6 +3712,9 @@ struct tg_poly *tg_poly_new(const struct tg_ring *exterior,
     poly->head.base = BASE_POLY;
     poly->head.type = TG_POLYGON;
     poly->exterior = tg_ring_clone(exterior);
+    if (!poly->exterior) {
+        goto fail;
+    }
     if (nholes > 0) {
         poly->holes = tg_malloc(sizeof(struct tg_ring*)*nholes);
         if (!poly->holes) {
@@ -3721,6 +3724,9 @@ struct tg_poly *tg_poly_new(const struct tg_ring *exterior,
         memset(poly->holes, 0, sizeof(struct tg_ring*)*poly->nholes);
         for (int i = 0; i < poly->nholes; i++) {
             poly->holes[i] = tg_ring_clone(holes[i]);
+            if (!poly->holes[i]) {
+                goto fail;
+            }
         }
     }
     return poly;
-- 
2.43.0


From ca9a1caec97aa9b46f623cdab1a55816a0f91e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 20/41] fix: tg_poly_memsize must count hole pointers

---
 tg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index afd3e01..f81146b 100644
--- a/tg.c
+++ b/tg.c
@@ -4141,7 +4141,7 @@ size_t tg_poly_memsize(const struct tg_poly *poly) {
     if (poly->exterior) {
         size += tg_ring_memsize(poly->exterior);
     }
-    size += poly->nholes*sizeof(struct tg_ring);
+    size += poly->nholes*sizeof(struct tg_ring*);
     for (int i = 0; i < poly->nholes; i++) {
         size += tg_ring_memsize(poly->holes[i]);
     }
-- 
2.43.0


From c4cc6d407c4c9886023c170c8f4338ae51007b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:34 +0000
Subject: [PATCH 21/41] fix: subnormal coordinates must not be written as zero

---
 tg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index f81146b..06dbd06 100644
--- a/tg.c
+++ b/tg.c
@@ -11201,7 +11201,7 @@ FP_EXTERN bool fp_atof(const char *data, size_t len, float *x) {
 #endif
 
 static void write_string_double(struct writer *wr, double f) {
-    if (!isnormal(f)) {
+    if (!isfinite(f) || f == 0) {
         write_char(wr, '0');
         return;
     }
-- 
2.43.0


From 1a95f9f1ab04ba31db87941237ce6591bde1b2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:06 +0000
Subject: [PATCH 22/41] fix: hilbert index of a point must be defined for every
 rect

---
 tg.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index 06dbd06..2ee8a4c 100644
--- a/tg.c
+++ b/tg.c
@@ -4376,9 +4376,15 @@ static uint32_t hilbert_xy_to_index(uint32_t x, uint32_t y) {
     return (i1 << 1) | i0;
 }
 
+static uint32_t hilbert_scale(double x, double min, double max) {
+    double s = (x - min) / (max - min);
+    if (!(s > 0)) return 0; // before the rect, or the rect has no size
+    return (s < 1 ? s : 1) * 0xFFFF;
+}
+
 uint32_t tg_point_hilbert(struct tg_point point, struct tg_rect rect) {
-    uint32_t ix = ((point.x - rect.min.x) / (rect.max.x - rect.min.x)) * 0xFFFF;
-    uint32_t iy = ((point.y - rect.min.y) / (rect.max.y - rect.min.y)) * 0xFFFF;
+    uint32_t ix = hilbert_scale(point.x, rect.min.x, rect.max.x);
+    uint32_t iy = hilbert_scale(point.y, rect.min.y, rect.max.y);
     return hilbert_xy_to_index(ix, iy);
 }
 
-- 
2.43.0


From 12b66012d95f1f6cbc1451f49bd980e5887de15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:22 +0000
Subject: [PATCH 23/41] fix: empty children must not expand the rect of a
 collection

---
 tg.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tg.c b/tg.c
index 2ee8a4c..ff9f140 100644
--- a/tg.c
+++ b/tg.c
@@ -4428,7 +4428,6 @@ static bool multi_geom_inflate_index(struct multi *multi) {
     int k = 0;
     for (int i = 1; i < multi->ngeoms; i++) {
         struct tg_rect rect = tg_geom_rect(multi->geoms[multi->ixgeoms[i]]);
-        multi->rect = tg_rect_expand(multi->rect, rect);
         struct ixrect ixrect2;
         tg_rect_to_ixrect(&rect, &ixrect2);
         if (j == spread) {
@@ -4470,14 +4469,15 @@ static bool multi_geom_inflate_index(struct multi *multi) {
 }
 
 static struct tg_geom *multi_geom_inflate_rect(struct tg_geom *geom) {
-    if (geom->multi->ngeoms == 0) {
-        geom->multi->rect = (struct tg_rect){ 0 };
-        return geom;
-    }
-    geom->multi->rect = tg_geom_rect(geom->multi->geoms[0]);
-    for (int i = 1; i < geom->multi->ngeoms; i++) {
+    geom->multi->rect = (struct tg_rect){ 0 };
+    bool first = true;
+    for (int i = 0; i < geom->multi->ngeoms; i++) {
+        // empty geometries do not have a rect
+        if (tg_geom_is_empty(geom->multi->geoms[i])) continue;
         struct tg_rect rect = tg_geom_rect(geom->multi->geoms[i]);
-        geom->multi->rect = tg_rect_expand(geom->multi->rect, rect);
+        geom->multi->rect = first ? rect : 
+            tg_rect_expand(geom->multi->rect, rect);
+        first = false;
     }
     if (geom->multi->index) {
         if (!multi_geom_inflate_index(geom->multi)) {
-- 
2.43.0


From bdc5e1e98f20caf91226d7cf753a98675c1ff76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 24/41] fix: json strings must be valid utf8

---
 deps/json.c | 4 +++-
 tg.c        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/deps/json.c b/deps/json.c
index b3e1a96..0bcab6e 100644
--- a/deps/json.c
+++ b/deps/json.c
@@ -65,7 +65,9 @@ static inline struct vutf8res vutf8(const uint8_t data[], int64_t len) {
         goto fail;
     }
     if (cp < 128) goto fail; // don't allow multibyte ascii characters
-    if (cp >= 0x10FFFF) goto fail; // restricted to utf-16
+    if (n == 3 && cp < 0x800) goto fail; // overlong
+    if (n == 4 && cp < 0x10000) goto fail; // overlong
+    if (cp > 0x10FFFF) goto fail; // restricted to utf-16
     if (cp >= 0xD800 && cp <= 0xDFFF) goto fail; // needs surrogate pairs
     return (struct vutf8res) { .n = n, .cp = cp };
 fail:
diff --git a/tg.c b/tg.c
index ff9f140..44c00e2 100644
--- a/tg.c
+++ b/tg.c
@@ -6685,7 +6685,9 @@ static inline struct vutf8res vutf8(const uint8_t data[], int64_t len) {
         goto fail;
     }
     if (cp < 128) goto fail; // don't allow multibyte ascii characters
-    if (cp >= 0x10FFFF) goto fail; // restricted to utf-16
+    if (n == 3 && cp < 0x800) goto fail; // overlong
+    if (n == 4 && cp < 0x10000) goto fail; // overlong
+    if (cp > 0x10FFFF) goto fail; // restricted to utf-16
     if (cp >= 0xD800 && cp <= 0xDFFF) goto fail; // needs surrogate pairs
     return (struct vutf8res) { .n = n, .cp = cp };
 fail:
-- 
2.43.0


From 86ce7b3322720d35997c9bf1fdf9bf7781dc1c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 25/41] fix: y-stripes of flat rings and of coordinates that
 are not finite

---
 tg.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/tg.c b/tg.c
index 44c00e2..927c766 100644
--- a/tg.c
+++ b/tg.c
@@ -1679,8 +1679,18 @@ struct ystripes {
     struct ystripe stripes[];
 };
 
+// ystripe_index returns the index of the stripe for a y value.
+static int ystripe_index(double y, double ymin, double height, int nstripes) {
+    double i = (y - ymin) / height * (double)nstripes;
+    if (!(i > 0)) return 0; // below, or flat ring, or not a number
+    if (!(i < nstripes)) return nstripes-1;
+    return (int)i;
+}
+
 static bool process_ystripes(struct tg_ring *ring) {
     double score = tg_ring_polsby_popper_score(ring);
+    if (!(score > 0)) score = 0;
+    if (score > 1) score = 1;
     int nstripes = ring->nsegs * score;
     nstripes = fmax0(nstripes, 32);
     double height = ring->rect.max.y - ring->rect.min.y;
@@ -1702,10 +1712,8 @@ static bool process_ystripes(struct tg_ring *ring) {
     for (int i = 0; i < ring->nsegs; i++) {
         double ymin = fmin0(ring->points[i].y, ring->points[i+1].y);
         double ymax = fmax0(ring->points[i].y, ring->points[i+1].y);
-        int min = (ymin - ring->rect.min.y) / height * (double)nstripes;
-        int max = (ymax - ring->rect.min.y) / height * (double)nstripes;
-        min = fmax0(min, 0);
-        max = fmin0(max, nstripes-1);
+        int min = ystripe_index(ymin, ring->rect.min.y, height, nstripes);
+        int max = ystripe_index(ymax, ring->rect.min.y, height, nstripes);
         for (int j = min; j <= max; j++) {
             ycounts[j]++;
             nmap++;
@@ -1735,10 +1743,8 @@ static bool process_ystripes(struct tg_ring *ring) {
     for (int i = 0; i < ring->nsegs; i++) {
         double ymin = fmin0(ring->points[i].y, ring->points[i+1].y);
         double ymax = fmax0(ring->points[i].y, ring->points[i+1].y);
-        int min = (ymin - ring->rect.min.y) / height * (double)nstripes;
-        int max = (ymax - ring->rect.min.y) / height * (double)nstripes;
-        min = fmax0(min, 0);
-        max = fmin0(max, nstripes-1);
+        int min = ystripe_index(ymin, ring->rect.min.y, height, nstripes);
+        int max = ystripe_index(ymax, ring->rect.min.y, height, nstripes);
         for (int j = min; j <= max; j++) {
             struct ystripe *stripe = &ystripes->stripes[j];
             stripe->indexes[stripe->count++] = i;
@@ -2711,8 +2717,8 @@ static struct ring_result ystripes_pip(const struct tg_ring *ring,
     int idx = -1;
     struct ystripes *ystripes = ring->ystripes;
     double height = ring->rect.max.y-ring->rect.min.y;
-    int y = (point.y - ring->rect.min.y) / height * (double)ystripes->nstripes;
-    y = fclamp0(y, 0, ystripes->nstripes-1);
+    int y = ystripe_index(point.y, ring->rect.min.y, height, 
+        ystripes->nstripes);
     struct ystripe *ystripe = &ystripes->stripes[y];
     for (int i = 0; i < ystripe->count; i++) {
         int j = ystripe->indexes[i];
-- 
2.43.0


From 074410ff1e002ad41ce6f2d3e91f6fc98d641bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:21 +0000
Subject: [PATCH 26/41] fix: a segment may leave a polygon where a hole meets
 the exterior

---
 tg.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/tg.c b/tg.c
index 927c766..018de30 100644
--- a/tg.c
+++ b/tg.c
@@ -2878,11 +2878,21 @@ static bool segment_parts_iter(struct tg_segment edge, int index, void *udata) {
     }
     if (!a_on_edge && !b_on_edge && !ends_on_seg) {
         ctx->crosses = true;
-        return false;
     }
     return true;
 }
 
+static void segment_parts_search(const struct tg_poly *poly, 
+    struct segment_parts_ctx *ctx)
+{
+    struct tg_rect rect = tg_segment_rect(ctx->seg);
+    int nholes = tg_poly_num_holes(poly);
+    tg_ring_search(tg_poly_exterior(poly), rect, segment_parts_iter, ctx);
+    for (int i = 0; i < nholes; i++) {
+        tg_ring_search(tg_poly_hole_at(poly, i), rect, segment_parts_iter, ctx);
+    }
+}
+
 // poly_segment_parts returns whether there are any parts of a segment that are 
 // in the interior and/or exterior of a polygon. It walks over the segment, from
 // one boundary vertex to the next.
@@ -2890,15 +2900,16 @@ static int poly_segment_parts(const struct tg_poly *poly,
     struct tg_segment seg)
 {
     int parts = 0;
-    const struct tg_ring *exterior = tg_poly_exterior(poly);
-    int nholes = tg_poly_num_holes(poly);
     while (parts != (PART_IN | PART_OUT)) {
         struct segment_parts_ctx ctx = { .seg = seg, .next = seg.b };
-        struct tg_rect rect = tg_segment_rect(seg);
-        tg_ring_search(exterior, rect, segment_parts_iter, &ctx);
-        for (int i = 0; i < nholes && !ctx.crosses; i++) {
-            tg_ring_search(tg_poly_hole_at(poly, i), rect, segment_parts_iter,
-                &ctx);
+        segment_parts_search(poly, &ctx);
+        if (ctx.crosses && !pteq(ctx.next, seg.b)) {
+            // The crossing may be at, or past, the next vertex.
+            struct segment_parts_ctx ctx2 = { 
+                .seg = { seg.a, ctx.next }, .next = ctx.next,
+            };
+            segment_parts_search(poly, &ctx2);
+            ctx.crosses = ctx2.crosses;
         }
         if (ctx.crosses) {
             return PART_IN | PART_OUT;
-- 
2.43.0


From 7cebd833b0952ee56de1be4cf4fb6470dfc84ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:21 +0000
Subject: [PATCH 27/41] fix: index rectangles must include the closing segment
 of an open ring

---
 tg.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tg.c b/tg.c
index 018de30..38e9a58 100644
--- a/tg.c
+++ b/tg.c
@@ -1897,8 +1897,8 @@ static void fill_in_upper_index_levels(struct index *index) {
 (struct tg_ring*)(&(char[sizeof(struct tg_ring)+sizeof(struct tg_point)*5]){0})
 
 static struct tg_rect process_points(const struct tg_point *points,
-    int npoints, struct tg_point *ring_points, struct index *index,
-    bool *convex, bool *clockwise, double *area)
+    int npoints, bool closed, struct tg_point *ring_points, 
+    struct index *index, bool *convex, bool *clockwise, double *area)
 {
     struct tg_rect rect = { 0 };
     if (npoints < 2) {
@@ -2104,7 +2104,11 @@ lconcave:
     if (index) {
         // Fill in the final indexing rectangles
         if (r != index->levels[index->nlevels-1].nrects) {
-            // There's one last index rectangle remaining.
+            // There's one last index rectangle remaining. The last segment of
+            // a ring ends at the first point.
+            if (closed) {
+                rect_inflate_point(&spreadrect, &b);
+            }
             inflate_mbr_and_copy_next_index_rect();
         }
         fill_in_upper_index_levels(index);
@@ -2216,8 +2220,8 @@ static struct tg_ring *series_new(const struct tg_point *points, int npoints,
         fill_index_struct(ring->index, nlevels, nsegs, ixspread, ixsize);
     }
 
-    ring->rect = process_points(points, npoints, ring->points, ring->index,
-        &ring->convex, &ring->clockwise, &ring->area);
+    ring->rect = process_points(points, npoints, closed, ring->points, 
+        ring->index, &ring->convex, &ring->clockwise, &ring->area);
     
     // Fill extra point to ensure perfect close.
     ring->points[npoints] = ring->points[0];
-- 
2.43.0


From c16da8e49792a111e84796bb00ff4db033b629e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:11 +0000
Subject: [PATCH 28/41] fix: index rectangles of very small or large
 coordinates must round outwards

---
 tg.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index 38e9a58..c0ec522 100644
--- a/tg.c
+++ b/tg.c
@@ -1533,13 +1533,25 @@ static double fup(double d) {
     return fnext0(d, 1);
 }
 
+// ixmin/ixmax round outwards to a 32-bit float. Beyond the range of normal
+// floats the conversion may round inwards by more than fdown/fup has allowed. 
+static float ixmin(double d) {
+    float f = fdown(d);
+    return f > d ? nextafterf(f, -INFINITY) : f;
+}
+
+static float ixmax(double d) {
+    float f = fup(d);
+    return f < d ? nextafterf(f, INFINITY) : f;
+}
+
 static void tg_rect_to_ixrect(struct tg_rect *rect, 
     struct ixrect *ixrect)
 {
-    ixrect->min.x = fdown(rect->min.x);
-    ixrect->min.y = fdown(rect->min.y);
-    ixrect->max.x = fup(rect->max.x);
-    ixrect->max.y = fup(rect->max.y);
+    ixrect->min.x = ixmin(rect->min.x);
+    ixrect->min.y = ixmin(rect->min.y);
+    ixrect->max.x = ixmax(rect->max.x);
+    ixrect->max.y = ixmax(rect->max.y);
 }
 
 #else
-- 
2.43.0


From 081ede11d4ac61be6e94217515ec8a84f6776578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:16 +0000
Subject: [PATCH 29/41] fix: segment searches must test segments in the same
 order with any index

---
 tg.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index c0ec522..8af9948 100644
--- a/tg.c
+++ b/tg.c
@@ -2506,7 +2506,10 @@ struct ring_ring_iter_ctx {
 
 static bool ring_ring_iter(struct tg_segment seg, int index, void *udata) {
     struct ring_ring_iter_ctx *ctx = udata;
-    if (tg_segment_intersects_segment(seg, ctx->seg)) {
+    // Keep the order of the rings, for the same result with any index.
+    if (ctx->swapped ? tg_segment_intersects_segment(ctx->seg, seg) :
+                       tg_segment_intersects_segment(seg, ctx->seg))
+    {
         bool ok = ctx->swapped ? 
             ctx->iter(ctx->seg, ctx->index, seg, index, ctx->udata):
             ctx->iter(seg, index, ctx->seg, ctx->index, ctx->udata);
-- 
2.43.0


From c1be467021fdb1bffdeb04ae55e72f3f2ba792ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:59 +0000
Subject: [PATCH 30/41] fix: tg_geom_foreach must flatten nested collections
 and skip empty geometries

---
 tg.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 8af9948..2f581de 100644
--- a/tg.c
+++ b/tg.c
@@ -5397,7 +5397,9 @@ static bool geom_foreach(const struct tg_geom *geom,
         case TG_GEOMETRYCOLLECTION:
             if (geom->multi) {
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
-                    if (!iter(geom->multi->geoms[i], udata)) return false;
+                    if (!geom_foreach(geom->multi->geoms[i], iter, udata)) {
+                        return false;
+                    }
                 }
             }
             return true;
@@ -5405,6 +5407,9 @@ static bool geom_foreach(const struct tg_geom *geom,
             break;
         }
     }
+    if (tg_geom_is_empty(geom)) {
+        return true;
+    }
     return iter(geom, udata);
 }
 
-- 
2.43.0


From e3233207c27e55e88b9ddaa5ffe2ccddec92b9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:32 +0000
Subject: [PATCH 31/41] fix: empty members must not keep a collection from
 being covered

---
 tg.c | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/tg.c b/tg.c
index 2f581de..0643fda 100644
--- a/tg.c
+++ b/tg.c
@@ -5672,9 +5672,11 @@ static bool point_covers_base_geom(struct tg_point point,
         case TG_MULTILINESTRING:
         case TG_MULTIPOLYGON:
         case TG_GEOMETRYCOLLECTION: 
-            if (!geom->multi || geom->multi->ngeoms == 0) return false;
+            if (tg_geom_is_empty(geom)) return false;
             for (int i = 0; i < geom->multi->ngeoms; i++) {
-                if (!point_covers_geom(point, geom->multi->geoms[i])) {
+                const struct tg_geom *child = geom->multi->geoms[i];
+                if (tg_geom_is_empty(child)) continue;
+                if (!point_covers_geom(point, child)) {
                     return false;
                 }
             }
@@ -5723,9 +5725,11 @@ static bool line_covers_base_geom(struct tg_line *line,
         case TG_MULTILINESTRING: 
         case TG_MULTIPOLYGON:
         case TG_GEOMETRYCOLLECTION: 
-            if (!geom->multi || geom->multi->ngeoms == 0) return false;
+            if (tg_geom_is_empty(geom)) return false;
             for (int i = 0; i < geom->multi->ngeoms; i++) {
-                if (!line_covers_geom(line, geom->multi->geoms[i])) {
+                const struct tg_geom *child = geom->multi->geoms[i];
+                if (tg_geom_is_empty(child)) continue;
+                if (!line_covers_geom(line, child)) {
                     return false;
                 }
             }
@@ -5774,9 +5778,11 @@ static bool poly_covers_base_geom(struct tg_poly *poly,
         case TG_MULTILINESTRING: 
         case TG_MULTIPOLYGON:
         case TG_GEOMETRYCOLLECTION: 
-            if (!geom->multi || geom->multi->ngeoms == 0) return false;
+            if (tg_geom_is_empty(geom)) return false;
             for (int i = 0; i < geom->multi->ngeoms; i++) {
-                if (!poly_covers_geom(poly, geom->multi->geoms[i])) {
+                const struct tg_geom *child = geom->multi->geoms[i];
+                if (tg_geom_is_empty(child)) continue;
+                if (!poly_covers_geom(poly, child)) {
                     return false;
                 }
             }
@@ -5959,10 +5965,12 @@ static bool poly_contains_base_geom(struct tg_poly *poly,
         case TG_MULTIPOLYGON:
         case TG_GEOMETRYCOLLECTION: {
             bool contains = false;
-            if (geom->multi && geom->multi->ngeoms > 0) {
+            if (!tg_geom_is_empty(geom)) {
                 contains = true;
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
-                    if (!poly_contains_geom(poly, geom->multi->geoms[i])) {
+                    const struct tg_geom *child = geom->multi->geoms[i];
+                    if (tg_geom_is_empty(child)) continue;
+                    if (!poly_contains_geom(poly, child)) {
                         contains = false;
                         break;
                     }
@@ -6014,10 +6022,12 @@ static bool line_contains_base_geom(struct tg_line *line,
         case TG_MULTIPOLYGON:
         case TG_GEOMETRYCOLLECTION: {
             bool contains = false;
-            if (geom->multi && geom->multi->ngeoms > 0) {
+            if (!tg_geom_is_empty(geom)) {
                 contains = true;
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
-                    if (!line_contains_geom(line, geom->multi->geoms[i])) {
+                    const struct tg_geom *child = geom->multi->geoms[i];
+                    if (tg_geom_is_empty(child)) continue;
+                    if (!line_contains_geom(line, child)) {
                         contains = false;
                         break;
                     }
@@ -6070,10 +6080,12 @@ static bool point_contains_base_geom(struct tg_point point,
         case TG_MULTIPOLYGON:
         case TG_GEOMETRYCOLLECTION: {
             bool contains = false;
-            if (geom->multi && geom->multi->ngeoms > 0) {
+            if (!tg_geom_is_empty(geom)) {
                 contains = true;
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
-                    if (!point_contains_geom(point, geom->multi->geoms[i])) {
+                    const struct tg_geom *child = geom->multi->geoms[i];
+                    if (tg_geom_is_empty(child)) continue;
+                    if (!point_contains_geom(point, child)) {
                         contains = false;
                         break;
                     }
-- 
2.43.0


From af0a7cbacc11d0b4f23cac729360fffd21942d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:07 +0000
Subject: [PATCH 32/41] fix: escaped id and properties keys of a feature were
 written twice

---
 tg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index 0643fda..dcbc591 100644
--- a/tg.c
+++ b/tg.c
@@ -11688,13 +11688,13 @@ static void write_base_geom_geojson(const struct tg_geom *geom,
             struct json key = json_first(fjson);
             struct json val = json_next(key);
             while (json_exists(key)) {
-                if (json_raw_compare(key, "\"id\"") != 0) {
+                if (json_string_compare(key, "id") != 0) {
                     write_char(wr, ',');
                     write_stringn(wr, json_raw(key), json_raw_length(key));
                     write_char(wr, ':');
                     write_stringn(wr, json_raw(val), json_raw_length(val));
                     if (!wrote_props && 
-                        json_raw_compare(key, "\"properties\"") == 0)
+                        json_string_compare(key, "properties") == 0)
                     {
                         wrote_props = true;
                     }
-- 
2.43.0


From f3c413316f3a16bd438f3928096de0029f02b9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:51 +0000
Subject: [PATCH 33/41] fix: JSON numbers of 512 or more characters were read
 as zero

---
 deps/json.c | 8 ++++++--
 tg.c        | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/deps/json.c b/deps/json.c
index 0bcab6e..3b593b7 100644
--- a/deps/json.c
+++ b/deps/json.c
@@ -789,8 +789,12 @@ static double stod(const uint8_t *str, size_t len, char *buf) {
 
 static double parse_double_big(const uint8_t *str, size_t len) {
     char buf[512];
-    if (len >= sizeof(buf)) return 0;
-    return stod(str, len, buf);
+    if (len < sizeof(buf)) return stod(str, len, buf);
+    char *big = malloc(len+1);
+    if (!big) return 0;
+    double x = stod(str, len, big);
+    free(big);
+    return x;
 }
 
 static double parse_double(const uint8_t *str, size_t len) {
diff --git a/tg.c b/tg.c
index dcbc591..84ff25d 100644
--- a/tg.c
+++ b/tg.c
@@ -7462,8 +7462,12 @@ static double stod(const uint8_t *str, size_t len, char *buf) {
 
 static double parse_double_big(const uint8_t *str, size_t len) {
     char buf[512];
-    if (len >= sizeof(buf)) return 0;
-    return stod(str, len, buf);
+    if (len < sizeof(buf)) return stod(str, len, buf);
+    char *big = malloc(len+1);
+    if (!big) return 0;
+    double x = stod(str, len, big);
+    free(big);
+    return x;
 }
 
 static double parse_double(const uint8_t *str, size_t len) {
-- 
2.43.0


From 2a93e4de304af2cb058491e3d8a9e0421e5d1d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:28 +0000
Subject: [PATCH 34/41] fix: extended WKB type flags were dropped, so Z and M
 positions were misread

---
 tg.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 84ff25d..412ab79 100644
--- a/tg.c
+++ b/tg.c
@@ -13828,8 +13828,19 @@ static size_t parse_wkb(const uint8_t *wkb, size_t len, size_t i, int depth,
     uint32_t type;
     read_uint32(type);
 
+    // The extended wkb format marks an SRID, and the Z and M dimensions, with
+    // the high bits of the type.
     bool has_srid = !!(type & 0x20000000);
-    type &= 0xFFFF;
+    bool ext_z = !!(type & 0x80000000);
+    bool ext_m = !!(type & 0x40000000);
+    type &= 0x1FFFFFFF;
+    if (ext_z || ext_m) {
+        if (type > 7) {
+            *g = make_parse_error("invalid type");
+            return PARSE_FAIL;
+        }
+        type += (ext_z ? 1000 : 0) + (ext_m ? 2000 : 0);
+    }
     int srid = 0;
     if (has_srid) {
         // Read the SRID from the extended wkb format.
-- 
2.43.0


From 782fdd22f5b824aa5e40ef7f5733a0ec00e83b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:51 +0000
Subject: [PATCH 35/41] fix: JSON strings with an invalid escape could pass
 validation

---
 deps/json.c | 2 +-
 tg.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/deps/json.c b/deps/json.c
index 3b593b7..3fcc512 100644
--- a/deps/json.c
+++ b/deps/json.c
@@ -140,7 +140,7 @@ static int64_t vstring(const uint8_t *json, int64_t jlen, int64_t i) {
             i += res.n;
 #endif
         } else if (json[i] == '\\') {
-            if ((i = vesc(json, jlen, i)) < 0) break;
+            if ((i = vesc(json, jlen, i)) < 0) return i;
         } else {
             break;
         }
diff --git a/tg.c b/tg.c
index 412ab79..8417015 100644
--- a/tg.c
+++ b/tg.c
@@ -6813,7 +6813,7 @@ static int64_t vstring(const uint8_t *json, int64_t jlen, int64_t i) {
             i += res.n;
 #endif
         } else if (json[i] == '\\') {
-            if ((i = vesc(json, jlen, i)) < 0) break;
+            if ((i = vesc(json, jlen, i)) < 0) return i;
         } else {
             break;
         }
-- 
2.43.0


From d42e0c1b4b9ac238ab50d4efb306a5c39e939617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:06 +0000
Subject: [PATCH 36/41] fix: WKT positions after EMPTY were silently dropped

---
 tg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tg.c b/tg.c
index 8417015..b2ea204 100644
--- a/tg.c
+++ b/tg.c
@@ -12645,6 +12645,9 @@ static struct tg_geom *parse_wkt(const char *wkt, long len, enum tg_index ix) {
         }
     }
     if (is_empty) {
+        if (i < len) {
+            return make_parse_error(wkt_invalid_err("too much data"));
+        }
         switch (type) {
         case TG_POINT: return tg_geom_new_point_empty();
         case TG_LINESTRING: return tg_geom_new_linestring_empty();
-- 
2.43.0


From 3899d6cb27433db46e1bceeea1c3efcf3e464166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:03 +0000
Subject: [PATCH 37/41] fix: GeoJSON type names with an embedded null character
 were accepted

---
 tg.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index b2ea204..92cd004 100644
--- a/tg.c
+++ b/tg.c
@@ -8544,7 +8544,11 @@ static struct tg_geom *parse_geojson(struct json json, bool req_geom,
         return make_parse_error("'type' is required");
     }
     char type[24];
-    json_string_copy(jtype, type, sizeof(type));
+    size_t tlen = json_string_copy(jtype, type, sizeof(type));
+    if (tlen < sizeof(type) && strlen(type) != tlen) {
+        // has an embedded null character
+        return make_parse_error("unknown type '%s'", type);
+    }
     struct tg_geom *geom = NULL;
     if (strcmp(type, "Point") == 0) {
         geom = parse_geojson_point(json, req_geom, ix);
-- 
2.43.0


From d36525d3cbd11369cfb85eba581e5cfc6660654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:19 +0000
Subject: [PATCH 38/41] fix: WKT type names with an embedded null character
 were accepted

---
 tg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tg.c b/tg.c
index 92cd004..e6adb2b 100644
--- a/tg.c
+++ b/tg.c
@@ -11899,6 +11899,9 @@ static enum tg_geom_type wkt2type(const char *wkt, long len,
         if (j == sizeof(name)-1) {
             goto bad_type;
         }
+        if (wkt[i] == '\0') {
+            goto bad_type;
+        }
         if (isws(wkt[i])) {
             if (j > 0 && name[j-1] == ' ') continue;
             name[j] = ' ';
-- 
2.43.0


From d6e3e11165e4c13d4ff5ee2f658cd4809c474fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 39/41] fix: copying a geometry reads its reference count while
 other threads change it

---
 tg.c | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/tg.c b/tg.c
index e6adb2b..6ebd0c2 100644
--- a/tg.c
+++ b/tg.c
@@ -15032,6 +15032,17 @@ static void index_relocate(struct index *copy, const struct index *index) {
     }
 }
 
+// head_copy copies a head, other than its reference count, which might be 
+// changing in another thread.
+static void head_copy(struct head *copy, const struct head *head) {
+    rc_init(&copy->rc);
+    rc_retain(&copy->rc);
+    copy->noheap = 0;
+    copy->base = head->base;
+    copy->type = head->type;
+    copy->flags = head->flags;
+}
+
 /// Copies a ring
 /// @param ring Input ring, caller retains ownership.
 /// @return A duplicate of the provided ring. 
@@ -15048,10 +15059,9 @@ struct tg_ring *tg_ring_copy(const struct tg_ring *ring) {
     if (!ring2) {
         return NULL;
     }
-    memcpy(ring2, ring, size);
-    rc_init(&ring2->head.rc);
-    rc_retain(&ring2->head.rc);
-    ring2->head.noheap = 0;
+    const size_t hsize = sizeof(struct head);
+    memcpy((char*)ring2+hsize, (const char*)ring+hsize, size-hsize);
+    head_copy(&ring2->head, &ring->head);
     if (ring->index) {
         size_t offset = (char*)ring->index - (char*)ring;
         ring2->index = (void*)&((char*)ring2)[offset];
@@ -15104,10 +15114,7 @@ struct tg_poly *tg_poly_copy(const struct tg_poly *poly) {
         goto fail;
     }
     memset(poly2, 0, sizeof(struct tg_poly));
-    memcpy(&poly2->head, &poly->head, sizeof(struct head));
-    rc_init(&poly2->head.rc);
-    rc_retain(&poly2->head.rc);
-    poly2->head.noheap = 0;
+    head_copy(&poly2->head, &poly->head);
     poly2->exterior = tg_ring_copy(poly->exterior);
     if (!poly2->exterior) {
         goto fail;
@@ -15138,10 +15145,7 @@ static struct tg_geom *geom_copy(const struct tg_geom *geom) {
         return NULL;
     }
     memset(geom2, 0, sizeof(struct tg_geom));
-    memcpy(&geom2->head, &geom->head, sizeof(struct head));
-    rc_init(&geom2->head.rc);
-    rc_retain(&geom2->head.rc);
-    geom2->head.noheap = 0;
+    head_copy(&geom2->head, &geom->head);
     switch (geom->head.type) {
     case TG_POINT:
         geom2->point.x = geom->point.x;
@@ -15237,10 +15241,9 @@ static struct boxed_point *boxed_point_copy(const struct boxed_point *point) {
     if (!point2) {
         return NULL;
     }
-    memcpy(point2, point, sizeof(struct boxed_point));
-    rc_init(&point2->head.rc);
-    rc_retain(&point2->head.rc);
-    point2->head.noheap = 0;
+    memset(point2, 0, sizeof(struct boxed_point));
+    head_copy(&point2->head, &point->head);
+    point2->point = point->point;
     return point2;
 }
 
-- 
2.43.0


From df4c82a22f1bfa469feb03e987d0ec7d4b05d0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 40/41] fix: empty members of a collection add nothing to its
 full rectangle

---
 tg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tg.c b/tg.c
index 6ebd0c2..1468c2f 100644
--- a/tg.c
+++ b/tg.c
@@ -15787,6 +15787,8 @@ int tg_geom_fullrect(const struct tg_geom *geom, double min[4], double max[4]) {
             int ngeoms = geom->multi->ngeoms;
             double gmin[4], gmax[4];
             for (int i = 0; i < ngeoms; i++) {
+                // empty geometries do not have a rect
+                if (tg_geom_is_empty(geoms[i])) continue;
                 int gdims = tg_geom_fullrect(geoms[i], gmin, gmax);
                 if (gdims >= 3) {
                     if (dims == 2) {
-- 
2.43.0


From 65db786fad2762db817480a014db4c4be1a79441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 41/41] fix: points level with a vertex far from the origin
 were located a step too high

---
 tg.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index 1468c2f..50c3bc3 100644
--- a/tg.c
+++ b/tg.c
@@ -1230,8 +1230,13 @@ static enum tg_raycast_result raycast(struct tg_segment seg,
         }
         return TG_ON;
     }
-    if (p.y == a.y || p.y == b.y) {
-        p.y = nexttoward(p.y, INFINITY);
+    if (p.y == b.y) {
+        // level with the top of the segment, which is not a part of it here
+        return TG_OUT;
+    }
+    if (p.y == a.y) {
+        // level with the bottom of the segment
+        return p.x < a.x ? TG_IN : TG_OUT;
     }
     if (p.y < a.y || p.y > b.y) {
         return TG_OUT;
-- 
2.43.0

