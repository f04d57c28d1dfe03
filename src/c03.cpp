// C03: WKT, read and written faithfully.
#include "wktp.hpp"
using namespace mdl;
PBT_MAIN("C03", "the geometry has at least one coordinate")

static GenOpt opts(Src &s) {
    GenOpt o;
    o.vals = FINITE;
    o.depth = (int)s.below(5);
    if (s.chance(1, 60)) {
        o.maxpts = 300;
    } else if (s.chance(1, 40)) {
        o.maxparts = 120;
        o.maxpts = 4;
        o.depth = 1;
    }
    return o;
}
static enum tg_index any_ix(Src &s) {
    static const enum tg_index k[] = {TG_DEFAULT, TG_NONE, TG_NATURAL, TG_YSTRIPES};
    return k[s.below(4)];
}
static std::string cut(const std::string &t) { return t.size() > 900 ? t.substr(0, 900) + "..." : t; }
static void check_read(Src &s, const M &g, const std::string &t, const CmpOpt &o) {
    enum tg_index ix = any_ix(s);
    switch (s.below(4)) {
    case 0: compare(g, tgx::G(tg_parse_wkt(t.c_str())), o); break;
    case 1: compare(g, tgx::G(tg_parse_wkt_ix(t.c_str(), ix)), o); break;
    default: {
        // exact-size copy without terminator
        std::vector<char> v(t.begin(), t.end());
        compare(g, tgx::G(s.flip() ? tg_parse_wktn(v.data(), v.size()) : tg_parse_wktn_ix(v.data(), v.size(), ix)), o);
    }
    }
}
FACET(read, 5, "a WKT spelling of a model geometry") {
    GenOpt o = opts(s);
    M g = gen_top(s, o);
    TxtStyle t;
    t.s = &s;
    t.wsp = s.flip();
    t.mixcase = s.flip();
    std::string lead = s.chance(1, 4) ? js::ws(s, true) : "";
    std::string txt = lead + wkt(g, t);
    if (s.chance(1, 4)) txt += js::ws(s, true);
    c.note(cut(txt));
    if (nontriv(g)) c.interesting();
    M own;
    std::string err;
    if (!wktp::parse(txt, own, &err) || !wktp::same(own, g)) fail("oracle", "reference reader disagrees with the reference writer: %s", err.c_str());
    check_read(s, g, txt, CmpOpt());
}
FACET(write, 5, "a geometry made by constructors, written, judged by the reference reader and read back") {
    GenOpt o = opts(s);
    M g = gen_top(s, o);
    c.note(show(g));
    if (nontriv(g)) c.interesting();
    if (s.chance(1, 4)) tg_env_set_print_fixed_floats(true);
    tgx::G t(build(g, any_ix(s)));
    std::string txt = tgx::wkt(t);
    M own;
    std::string err;
    if (!wktp::parse(txt, own, &err)) fail("malformed", "%s: %s", err.c_str(), cut(txt).c_str());
    if (!wktp::same(own, g)) fail("differs", "wrote %s", cut(txt).c_str());
    CmpOpt co;
    co.zero_sign = false;
    check_read(s, g, txt, co);
    // once more round: nothing changes any more
    tgx::G t2(tg_parse_wkt(txt.c_str()));
    if (tgx::wkt(t2) != txt) fail("unstable", "%s rewritten as %s", cut(txt).c_str(), cut(tgx::wkt(t2)).c_str());
}
FACET(deep, 1, "nested collections") {
    int d = s.size(1, 200);
    GenOpt o;
    M g = gen(s, o, 0);
    for (int i = 0; i < d; i++) {
        M k;
        k.type = TG_GEOMETRYCOLLECTION;
        k.kids.push_back(g);
        g = k;
        if (s.chance(1, 10)) g.kids.push_back(gen(s, o, 0));
    }
    TxtStyle t;
    t.s = &s;
    t.wsp = s.flip();
    std::string txt = wkt(g, t);
    c.note("depth " + std::to_string(d) + " " + cut(txt));
    c.interesting();
    check_read(s, g, txt, CmpOpt());
    tgx::G b(build(g));
    M own;
    if (!wktp::parse(tgx::wkt(b), own) || !wktp::same(own, g)) fail("differs", "wrote %s", cut(tgx::wkt(b)).c_str());
}
