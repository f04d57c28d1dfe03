// C29: all build configurations behave alike.
#define C29_RUN c29_here
#include "c29_lib.cpp"
#undef C29_RUN
#include "alter.hpp"
#include "feat.hpp"
#include <dlfcn.h>
using namespace feat;
using namespace alter;
PBT_MAIN("C29", "a geometry was read, and compared in every build")
namespace pbt {
void case_setup() {}
void case_teardown() {}
}
typedef uint64_t (*RunFn)(c29::Req *, std::string *);
struct Lib {
    std::string name;
    RunFn run;
};
static std::vector<Lib> &libs() {
    static std::vector<Lib> v;
    if (!v.empty()) return v;
    const char *e = getenv("VERIF_LIBS");
    std::string all = e ? e : "";
    size_t i = 0;
    while (i < all.size()) {
        size_t j = all.find(':', i);
        if (j == std::string::npos) j = all.size();
        std::string p = all.substr(i, j - i);
        i = j + 1;
        void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
        RunFn f = h ? (RunFn)dlsym(h, "c29_run") : nullptr;
        if (!f) {
            fprintf(stderr, "cannot load %s: %s\n", p.c_str(), dlerror());
            _exit(3);
        }
        std::string n = p.substr(p.rfind('/') + 1);
        v.push_back({n, f});
    }
    if (v.empty()) {
        fprintf(stderr, "no builds to compare\n");
        _exit(3);
    }
    return v;
}
static std::string printable(const std::string &d) {
    bool ok = true;
    for (unsigned char ch : d) ok = ok && ch >= 32 && ch < 127;
    std::string o = ok ? d : "hex " + tohex(d);
    return o.size() > 1500 ? o.substr(0, 1500) + "..." : o;
}
// tame: coordinates with which arithmetic is exact; with others, how a shape is
// indexed may show.
static void compare_builds(pbt::Ctx &c, c29::Req &q, bool tame) {
    uint64_t hs[2];
    for (int i = 0; i < 2; i++) {
        q.internals = i;
        hs[i] = c29_here(&q, nullptr);
    }
    for (auto &l : libs()) {
        q.internals = l.name != "lib-oix64.so"; // its indexes have another size
        if (!q.internals && !tame) continue;
        if (l.run(&q, nullptr) == hs[q.internals]) continue;
        std::string a, b;
        c29_here(&q, &a);
        l.run(&q, &b);
        size_t i = 0, la = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i]) {
            if (a[i] == '\n') la = i + 1;
            i++;
        }
        fail("differ", "%s says \"%s\", the single-file clang -O1 build \"%s\" (result %ld)", l.name.c_str(), b.substr(la, b.find('\n', la) - la).c_str(),
             a.substr(la, a.find('\n', la) - la).c_str(), (long)std::count(a.begin(), a.begin() + la, '\n'));
    }
}
static std::string any_doc(Src &s, int f, const GenOpt &go) {
    if (f == 1 || f == 5) {
        DocOpt o;
        o.g = go;
        o.w = s.flip();
        o.members = 2;
        o.g.nodim_m = true;
        o.g.vals = go.vals == ANY ? FINITE : go.vals;
        JsonStyle t;
        t.s = &s;
        t.wsp = o.w;
        t.esc = s.chance(1, 4);
        std::string d = text(gen_doc(s, o), t);
        if (f == 1) return d;
        struct tg_geom *g = tg_parse_geojsonn(d.data(), d.size());
        d = tgx::geobin(g);
        tg_geom_free(g);
        return d;
    }
    GenOpt g2 = go;
    if (f == 2 && go.vals == ANY) g2.vals = FINITE;
    M g = gen(s, g2, go.depth);
    TxtStyle t;
    t.s = &s;
    t.wsp = s.flip();
    std::string d = f == 2 ? wkt(g, t) : wkb(g, s.flip() ? &s : nullptr, s.flip());
    return f == 4 ? tohex(d, &s) : d;
}
FACET(documents, 4, "good and damaged documents of every format: verdict, message, everything readable, every relation") {
    GenOpt o;
    o.vals = s.flip() ? SMALL : ANY;
    o.maxpts = s.chance(1, 8) ? 80 : 6;
    o.maxparts = s.chance(1, 20) ? 80 : 4;
    o.depth = (int)s.below(3);
    if (o.maxpts > 6) o.maxparts = 3;
    if (o.maxparts > 4) o.depth = 0;
    std::string d[3];
    bool tame = o.vals == SMALL;
    c29::Req q;
    memset(&q, 0, sizeof q);
    q.ndocs = 1 + (int)s.below(3);
    std::string note;
    for (int i = 0; i < q.ndocs; i++) {
        int f = 1 + (int)s.below(5);
        d[i] = any_doc(s, f, o);
        if (s.chance(1, 3)) {
            tame = false;
            int n = 1 + (int)s.below(3);
            for (int j = 0; j < n; j++) {
                if (f == 1) alter_text(s, d[i], "{}[]\",:0123456789.-+eE \t\n\\/utfnabr");
                else if (f == 2) alter_text(s, d[i], "(),.-+eE 0123456789ZMPTYzm\t\n");
                else if (f == 4) alter_text(s, d[i], "0123456789abcdefABCDEF");
                else alter_bytes(s, d[i]);
            }
        }
        q.reader[i] = s.flip() ? 0 : f;
        q.doc[i] = d[i].data();
        q.len[i] = d[i].size();
        note += (i ? " | " : "") + printable(d[i]);
    }
    static const int ks[] = {TG_DEFAULT, TG_NONE, TG_NATURAL, TG_YSTRIPES};
    q.ix = ks[s.below(4)];
    q.env = ks[s.below(4)];
    q.spread = 2 + (int)s.below(24); // out of range, it would stay as it was
    q.fixed = s.chance(1, 4);
    Vals v = tame || s.flip() ? SMALL : ANY;
    for (auto &x : q.v) x = gen_num(s, v);
    c.note(note);
    compare_builds(c, q, tame);
    if (q.accepted) c.interesting();
}
static std::string number(Src &s) {
    std::string t = s.chance(1, 3) ? "-" : "";
    int n = s.size(1, 24);
    for (int i = 0; i < n; i++) t += (char)('0' + (i ? s.below(10) : 1 + s.below(9)));
    if (s.flip()) {
        t += ".";
        n = s.size(1, 24);
        for (int i = 0; i < n; i++) t += (char)('0' + s.below(10));
    }
    if (s.flip()) t += "e" + std::string(s.flip() ? "-" : "") + std::to_string(s.below(s.flip() ? 30 : 345));
    return t;
}
FACET(numbers, 1, "numbers read and written, and measured shapes with all kinds of coordinates") {
    c29::Req q;
    memset(&q, 0, sizeof q);
    std::string d;
    int n = 4 + (int)s.below(8);
    std::vector<std::string> x;
    for (int i = 0; i < 2 * n; i++) x.push_back(s.flip() ? number(s) : std::to_string(s.below(100)) + "." + std::to_string(s.below(1000)));
    if (s.flip()) {
        d = "{\"type\":\"Polygon\",\"coordinates\":[[";
        for (int i = 0; i < n; i++) d += "[" + x[2 * i] + "," + x[2 * i + 1] + "],";
        d += "[" + x[0] + "," + x[1] + "]]]}";
    } else {
        d = s.flip() ? "LINESTRING(" : "MULTIPOINT(";
        for (int i = 0; i < n; i++) d += (i ? "," : "") + x[2 * i] + " " + x[2 * i + 1];
        d += ")";
    }
    q.ndocs = 1;
    q.doc[0] = d.data();
    q.len[0] = d.size();
    q.ix = s.flip() ? TG_NATURAL : TG_YSTRIPES;
    q.env = TG_DEFAULT;
    q.spread = 2;
    q.fixed = s.chance(1, 4);
    for (auto &v : q.v) v = gen_num(s, ANY);
    c.note(d);
    compare_builds(c, q, false);
    if (q.accepted) c.interesting();
}
