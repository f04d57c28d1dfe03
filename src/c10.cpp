// C10: writers respect the caller's buffer.
#include "feat.hpp"
using namespace feat;
PBT_MAIN("C10", "the written form is longer than some of the buffers tried")

static enum tg_index any_ix(Src &s) {
    static const enum tg_index k[] = {TG_DEFAULT, TG_NONE, TG_NATURAL, TG_YSTRIPES};
    return k[s.below(4)];
}
static const char *fname[] = {"wkt", "geojson", "hex", "wkb", "geobin"};
static size_t put(int f, const struct tg_geom *g, void *p, size_t n) {
    switch (f) {
    case 0: return tg_geom_wkt(g, (char *)p, n);
    case 1: return tg_geom_geojson(g, (char *)p, n);
    case 2: return tg_geom_hex(g, (char *)p, n);
    case 3: return tg_geom_wkb(g, (uint8_t *)p, n);
    default: return tg_geom_geobin(g, (uint8_t *)p, n);
    }
}
static void sizes(Src &s, int f, const struct tg_geom *g) {
    size_t full = put(f, g, nullptr, 0);
    bool text = f < 3;
    std::string ref(full + 1, '\x55');
    if (put(f, g, &ref[0], full + 1) != full) fail("length", "%s: length changes with the buffer", fname[f]);
    if (text) {
        if (strlen(ref.c_str()) != full) fail("content", "%s: %zu characters, %zu announced", fname[f], strlen(ref.c_str()), full);
    }
    std::vector<size_t> ns;
    if (full <= 400) {
        for (size_t n = 0; n <= full + 3; n++) ns.push_back(n);
    } else {
        bool huge = full > 20000;
        for (size_t n = 0; n < (huge ? 3 : 40); n++) ns.push_back(n);
        for (size_t n = full - (huge ? 2 : 20); n <= full + (huge ? 1 : 3); n++) ns.push_back(n);
        for (int i = 0; i < (huge ? 4 : 40); i++) ns.push_back(s.below(full));
        ns.push_back(full * 2);
    }
    for (size_t n : ns) {
        // an exact block: AddressSanitizer sees anything beyond it
        char *b = (char *)malloc(n ? n : 1);
        memset(b, n & 1 ? 0xAA : 0x00, n ? n : 1);
        char old = n & 1 ? (char)0xAA : 0;
        size_t r = put(f, g, b, n);
        std::string got(b, n);
        char first = b[0];
        free(b);
        if (r != full) fail("length", "%s: %zu for a buffer of %zu, %zu in full", fname[f], r, n, full);
        if (n == 0) {
            if (first != old) fail("overrun", "%s: wrote into a buffer of no size", fname[f]);
            continue;
        }
        size_t keep = std::min(text ? n - 1 : n, full);
        if (got.compare(0, keep, ref, 0, keep)) {
            size_t k = 0;
            while (got[k] == ref[k]) k++;
            fail("content", "%s: byte %zu differs in a buffer of %zu, %zu in full", fname[f], k, n, full);
        }
        if (text && got[keep] != 0) fail("terminator", "%s: not terminated in a buffer of %zu, %zu in full", fname[f], n, full);
    }
}
FACET(geometries, 3, "a constructed geometry, written in every format into buffers of every size") {
    GenOpt o;
    o.vals = s.flip() ? ANY : SMALL;
    o.maxpts = 5;
    o.maxparts = 3;
    o.depth = (int)s.below(3);
    if (s.chance(1, 20)) o.maxpts = 60;
    M g = gen_top(s, o, 4000);
    c.note(show(g));
    c.interesting();
    if (s.chance(1, 3)) tg_env_set_print_fixed_floats(true);
    tgx::G t(build(g, any_ix(s)));
    sizes(s, (int)s.below(5), t);
    sizes(s, (int)s.below(5), t);
}
FACET(documents, 3, "a parsed document with features and extra members, written in every format into buffers of every size") {
    DocOpt o;
    o.g.vals = s.flip() ? FINITE : SMALL;
    o.g.nodim_m = true;
    o.g.maxpts = 4;
    o.g.maxparts = 3;
    o.g.depth = (int)s.below(2);
    o.w = s.flip();
    Doc d = gen_doc(s, o);
    JsonStyle st;
    st.s = &s;
    std::string txt = text(d, st);
    c.note(txt.size() > 900 ? txt.substr(0, 900) + "..." : txt);
    c.interesting();
    if (s.chance(1, 3)) tg_env_set_print_fixed_floats(true);
    tgx::G t(tg_parse_geojson_ix(txt.c_str(), any_ix(s)));
    sizes(s, 1, t);
    sizes(s, (int)s.below(5), t);
}
FACET(others, 1, "lines, rings and polygons used as geometries, members of collections, errors and NULL") {
    int how = (int)s.below(6);
    GenOpt o;
    o.vals = FINITE;
    o.only2d = true;
    struct tg_geom *t = nullptr;
    c.interesting();
    switch (how) {
    case 0: t = (struct tg_geom *)mk_line(gen_seq(s, o, 2), any_ix(s)); break;
    case 1: t = (struct tg_geom *)mk_ring(gen_ring(s, o), any_ix(s)); break;
    case 2: t = (struct tg_geom *)mk_poly(gen_rings(s, o), any_ix(s)); break;
    case 3: t = tg_geom_new_error(js::gen_string(s).c_str()); break;
    case 4: t = tg_parse_wkt("POINT(1"); break;
    default: break;
    }
    tgx::G own(t);
    c.note(how == 0 ? "line" : how == 1 ? "ring" : how == 2 ? "polygon" : how < 5 ? "error" : "NULL");
    for (int f = 0; f < 5; f++) {
        if (t) sizes(s, f, t);
        else if (put(f, t, nullptr, 0) != 0) fail("length", "%s of NULL has a length", fname[f]);
    }
}
