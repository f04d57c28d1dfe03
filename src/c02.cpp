// C02: WKB and hex, encode and decode, bit for bit.
#include "model.hpp"
using namespace mdl;
PBT_MAIN("C02", "the geometry has at least one coordinate")

static GenOpt opts(Src &s) {
    GenOpt o;
    o.vals = ANY;
    o.depth = (int)s.below(5);
    if (s.chance(1, 40)) {
        o.maxpts = 400;
    } else if (s.chance(1, 40)) {
        o.maxparts = 150;
        o.maxpts = 4;
        o.depth = 1;
    }
    return o;
}
static enum tg_index any_ix(Src &s) {
    static const enum tg_index k[] = {TG_DEFAULT, TG_NONE, TG_NATURAL, TG_YSTRIPES};
    return k[s.below(4)];
}
static std::string bytes(const std::string &b) {
    std::string h = tohex(b);
    return h.size() > 400 ? h.substr(0, 400) + "..." : h;
}
static void same_bytes(const std::string &got, const std::string &want, const char *what) {
    if (got == want) return;
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    fail("bytes", "%s: got %zu bytes, expected %zu, first difference at %zu\n got  %s\n want %s", what, got.size(), want.size(), i,
         bytes(got).c_str(), bytes(want).c_str());
}
FACET(write, 4, "a geometry made by constructors, written as WKB and hex") {
    GenOpt o = opts(s);
    M g = gen_top(s, o);
    c.note(show(g));
    if (nontriv(g)) c.interesting();
    tgx::G t(build(g, any_ix(s)));
    if (!t.g) fail("null", "constructor returned NULL");
    std::string want = wkb(g);
    same_bytes(tgx::wkb(t), want, "wkb");
    same_bytes(tgx::hex(t), tohex(want), "hex");
}
FACET(read, 4, "a WKB document in random byte orders, maybe with SRIDs, read as binary and as hex") {
    GenOpt o = opts(s);
    M g = gen_top(s, o);
    bool srid = s.flip();
    std::string w = wkb(g, &s, srid);
    c.note(show(g) + " as " + bytes(w));
    if (nontriv(g)) c.interesting();
    enum tg_index ix = any_ix(s);
    {
        // an exact-size heap copy, so any read past the end is seen
        std::vector<uint8_t> v(w.begin(), w.end());
        tgx::G t(s.flip() ? tg_parse_wkb(v.data(), v.size()) : tg_parse_wkb_ix(v.data(), v.size(), ix));
        compare(g, t);
        same_bytes(tgx::wkb(t), wkb(g), "rewritten wkb");
    }
    {
        std::string h = tohex(w, &s);
        std::vector<char> v(h.begin(), h.end());
        tgx::G t(s.flip() ? tg_parse_hexn(v.data(), v.size()) : tg_parse_hexn_ix(v.data(), v.size(), ix));
        compare(g, t);
        tgx::G t2(s.flip() ? tg_parse_hex(h.c_str()) : tg_parse_hex_ix(h.c_str(), ix));
        compare(g, t2);
        same_bytes(tgx::hex(t2), tohex(wkb(g)), "rewritten hex");
    }
}
FACET(deep, 1, "a chain of nested collections") {
    int d = s.size(1, 200);
    GenOpt o;
    o.vals = ANY;
    M g = gen(s, o, 0);
    for (int i = 0; i < d; i++) {
        M k;
        k.type = TG_GEOMETRYCOLLECTION;
        k.kids.push_back(g);
        g = k;
        if (s.chance(1, 10)) g.kids.push_back(gen(s, o, 0));
    }
    c.note("depth " + std::to_string(d));
    c.interesting();
    tgx::G t(build(g));
    same_bytes(tgx::wkb(t), wkb(g), "wkb");
    std::string w = wkb(g, &s);
    tgx::G p(tg_parse_wkb((const uint8_t *)w.data(), w.size()));
    compare(g, p);
}
FACET(nothing, 1, "documents with members without positions, some of them with a Z or M dimension") {
    GenOpt o;
    o.vals = ANY;
    M g;
    g.type = TG_GEOMETRYCOLLECTION;
    int n = s.size(1, 6);
    for (int i = 0; i < n; i++) {
        M k;
        if (s.chance(3, 5)) {
            k.type = TG_POINT + (int)s.below(6);
            k.empty = k.type <= TG_POLYGON;
        } else {
            k = gen(s, o, (int)s.below(3));
        }
        g.kids.push_back(k);
    }
    if (n == 1 && s.flip()) {
        M k = g.kids[0];
        g = k;
    }
    dims_of_nothing(s, g);
    std::string w = wkb(g, &s, s.flip());
    c.note(show(g) + " as " + bytes(w));
    if (nontriv(g)) c.interesting();
    std::vector<uint8_t> v(w.begin(), w.end());
    tgx::G t(tg_parse_wkb_ix(v.data(), v.size(), any_ix(s)));
    compare(g, t);
    same_bytes(tgx::wkb(t), wkb(g), "rewritten wkb");
    tgx::G b(build(g));
    same_bytes(tgx::wkb(b), wkb(g), "wkb of the constructed");
}
