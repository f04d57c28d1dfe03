// Linked with one build of the library into a shared object; see c29.cpp.
#define TGX_CUSTOM_SETUP
#include "use.hpp"
#include "c29.hpp"
static struct tg_geom *read(int r, const char *p, size_t n, enum tg_index ix) {
    const uint8_t *b = (const uint8_t *)p;
    switch (r) {
    case 0: return tg_parse_ix(p, n, ix);
    case 1: return tg_parse_geojsonn_ix(p, n, ix);
    case 2: return tg_parse_wktn_ix(p, n, ix);
    case 3: return tg_parse_wkb_ix(b, n, ix);
    case 4: return tg_parse_hexn_ix(p, n, ix);
    default: return tg_parse_geobin_ix(b, n, ix);
    }
}
extern "C" __attribute__((visibility("default"))) uint64_t C29_RUN(c29::Req *q, std::string *log) {
    use::Sink k;
    k.log = log;
    k.internals = q->internals;
    q->accepted = 0;
    tg_env_set_index(TG_NATURAL); // whatever earlier requests set: builds see different requests
    tg_env_set_index((enum tg_index)q->env);
    tg_env_set_index_spread(16);
    tg_env_set_index_spread(q->spread);
    tg_env_set_print_fixed_floats(q->fixed);
    enum tg_index ix = (enum tg_index)q->ix;
    std::vector<struct tg_geom *> gs;
    for (int i = 0; i < q->ndocs; i++) {
        k.say("document %d", i);
        struct tg_geom *g = read(q->reader[i], q->doc[i], q->len[i], ix);
        gs.push_back(g);
        q->accepted += !tg_geom_error(g);
        use::geom(k, g);
        const uint8_t *b = (const uint8_t *)q->doc[i];
        double mn[4] = {0}, mx[4] = {0};
        k.say("helpers");
        int n = tg_geobin_fullrect(b, q->len[i], mn, mx);
        k.u(n);
        for (int j = 0; j < n; j++) {
            k.d(mn[j]);
            k.d(mx[j]);
        }
        k.r(tg_geobin_rect(b, q->len[i]));
        k.p(tg_geobin_point(b, q->len[i]));
    }
    for (auto a : gs)
        for (auto b : gs) {
            k.say("pair");
            use::pair(k, a, b);
        }
    auto &v = q->v;
    k.say("primitives");
    struct tg_segment s1 = {{v[0], v[1]}, {v[2], v[3]}}, s2 = {{v[4], v[5]}, {v[6], v[7]}};
    struct tg_rect r1 = {{std::min(v[0], v[2]), std::min(v[1], v[3])}, {std::max(v[0], v[2]), std::max(v[1], v[3])}}, r2 = tg_segment_rect(s2);
    k.u(tg_segment_intersects_segment(s1, s2));
    k.r(tg_segment_rect(s1));
    k.r(r2);
    k.r(tg_rect_expand(r1, r2));
    k.r(tg_rect_expand_point(r1, s2.a));
    k.p(tg_rect_center(r1));
    k.u(tg_rect_intersects_rect(r1, r2));
    k.u(tg_rect_intersects_point(r1, s2.b));
    k.u(tg_point_intersects_rect(s2.a, r1));
    k.r(tg_point_rect(s1.b));
    for (auto g : gs) {
        k.u(tg_geom_intersects_xy(g, v[0], v[1]));
        k.u(tg_geom_intersects_rect(g, r1));
        if (tg_geom_line(g)) k.d(tg_line_length(tg_geom_line(g)));
    }
    for (auto g : gs) tg_geom_free(g);
    return k.h;
}
