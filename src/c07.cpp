// C07: numbers are read and written exactly.
#include "model.hpp"
using namespace mdl;
PBT_MAIN("C07", "the number is not a small integer")

// ---------------------------------------------------------------- reading
static std::string digits(Src &s, int n) {
    std::string o;
    int style = (int)s.below(3);
    for (int i = 0; i < n; i++) o += (char)('0' + (style == 0 ? s.below(10) : style == 1 ? (s.chance(1, 6) ? s.below(10) : 0) : (s.chance(1, 6) ? s.below(10) : 9)));
    return o;
}
// The exact decimal expansion of the midpoint between two neighbouring doubles.
static std::string midpoint(double d) {
    double u = nextafter(d, INFINITY);
    if (!std::isfinite(u)) return "1.5e+00";
    long double m = ((long double)d + (long double)u) / 2; // exact: 64 bit significand
    char b[1600];
    snprintf(b, sizeof b, "%.*Le", 1100, m);
    std::string t = b;
    size_t e = t.find('e');
    std::string mant = t.substr(0, e), ex = t.substr(e);
    while (mant.back() == '0') mant.pop_back();
    if (mant.back() == '.') mant += '0';
    return mant + ex;
}
static double any_double(Src &s) {
    double d = gen_num(s, FINITE);
    return d;
}
static std::string spell(Src &s, pbt::Ctx &c) {
    std::string t;
    switch (s.below(9)) {
    case 0: { // plain decimal
        t = s.chance(1, 4) ? "0" : std::to_string(1 + s.below(9)) + digits(s, s.size(0, 24));
        if (s.flip()) t += "." + digits(s, s.size(1, 24));
        c.label("decimal");
        break;
    }
    case 1: { // with exponent
        t = s.chance(1, 4) ? "0" : std::to_string(1 + s.below(9)) + digits(s, s.size(0, 20));
        if (s.flip()) t += "." + digits(s, s.size(1, 20));
        t += s.flip() ? "e" : "E";
        t += s.below(3) == 0 ? "" : s.flip() ? "-" : "+";
        if (s.chance(1, 8)) t += "00";
        t += std::to_string(s.below(s.chance(1, 3) ? 400 : 30));
        c.label("exponent");
        break;
    }
    case 2: { // long
        int n = s.size(1, 500), k = (int)s.below(n + 1);
        t = k == 0 ? "0" : std::to_string(1 + s.below(9)) + digits(s, k - 1);
        if (k < n) t += "." + digits(s, n - k);
        if (s.chance(1, 4)) t += "e" + std::to_string((int)s.below(600) - 300);
        c.label("long");
        break;
    }
    case 3: { // very long
        int n = 480 + (int)s.below(1000), k = (int)s.below(n + 1);
        t = k == 0 ? "0" : std::to_string(1 + s.below(9)) + digits(s, k - 1);
        if (k < n) t += "." + digits(s, n - k);
        if (s.chance(1, 4)) t += "e" + std::to_string((int)s.below(2000) - 1000);
        c.label("very long");
        break;
    }
    case 4: { // halfway between two doubles, or just off it
        double d = fabs(any_double(s));
        if (s.chance(1, 3)) d = frombits(s.below(1ull << 52));
        t = midpoint(d);
        c.label("halfway");
        size_t e = t.find('e');
        switch (s.below(4)) {
        case 1: t.insert(e, std::string(s.below(20), '0') + "1"); break;
        case 2: // one less in the last place
            for (size_t i = e; i-- > 0;) {
                if (t[i] == '.') continue;
                if (t[i] == '0') {
                    t[i] = '9';
                    continue;
                }
                t[i]--;
                break;
            }
            break;
        case 3: t.insert(e, std::string(s.below(800), '0')); break;
        }
        if (t[0] == '0' && t[1] != '.') t = "1.25";
        break;
    }
    case 5: { // near the largest and smallest doubles
        static const char *e[] = {"1.7976931348623157e308", "1.7976931348623158e308", "1.79769313486231580e+308", "2.2250738585072014e-308",
                                  "2.2250738585072011e-308", "4.9406564584124654e-324", "2.4703282292062327e-324", "2.4703282292062328e-324",
                                  "9007199254740993", "9007199254740992.99999999999999999999", "1e22", "1e23", "8.41e21", "0e400", "0.000e-999", "1e-400",
                                  "123456789012345678", "12345678901234567890123", "0.1e1", "100000000000000016777215", "1e-5", "7.2057594037927933e16"};
        t = e[s.below(22)];
        c.label("edge");
        break;
    }
    case 6: { // leading zeros after the point, trailing zeros before the exponent
        t = "0." + std::string(s.below(330), '0') + digits(s, s.size(1, 20));
        if (s.flip()) t += "e" + std::to_string(s.below(340));
        c.label("zeros");
        break;
    }
    case 7: {
        t = std::to_string(1 + s.below(9)) + digits(s, s.size(0, 20)) + std::string(s.below(290), '0');
        if (s.flip()) t += "e-" + std::to_string(s.below(340));
        c.label("zeros");
        break;
    }
    default: { // what printing gives
        double d = any_double(s);
        t = num(&s, fabs(d));
        c.label("printed");
    }
    }
    if (s.chance(1, 4)) t = "-" + t;
    return t;
}
FACET(read, 6, "a decimal number as a coordinate of a GeoJSON and a WKT document, against strtod") {
    std::string t = spell(s, c);
    c.note(t);
    double want = strtod(t.c_str(), nullptr);
    if (std::isinf(want)) want = std::signbit(want) ? -INFINITY : INFINITY;
    if (t.size() > 3) c.interesting();
    int where = (int)s.below(4); // x, y, z, m
    for (int f = 0; f < 2; f++) {
        std::string doc = f ? "POINT(" : "{\"type\":\"Point\",\"coordinates\":[";
        int n = std::max(2, where + 1);
        for (int i = 0; i < n; i++) doc += (i ? f ? " " : "," : "") + (i == where ? t : std::to_string(i + 1));
        doc += f ? ")" : "]}";
        std::vector<char> v(doc.begin(), doc.end());
        tgx::G g(f ? tg_parse_wktn(v.data(), v.size()) : tg_parse_geojsonn(v.data(), v.size()));
        const char *what = f ? "WKT" : "GeoJSON";
        if (tg_geom_error(g)) fail("rejected", "%s: %s", what, tg_geom_error(g));
        double got[4] = {tg_geom_point(g).x, tg_geom_point(g).y, tg_geom_z(g), tg_geom_m(g)};
        for (int i = 0; i < n; i++) {
            double w = i == where ? want : i + 1;
            if (bits(got[i]) != bits(w)) fail("read", "%s: %.17g, expected %.17g", what, got[i], w);
        }
    }
}
// ---------------------------------------------------------------- writing
// Significant digits of a spelling: without sign, point, exponent, outer zeros.
static size_t sig(const std::string &t) {
    std::string d;
    for (char ch : t) {
        if (ch == 'e' || ch == 'E') break;
        if (isdigit((unsigned char)ch)) d += ch;
    }
    size_t a = d.find_first_not_of('0');
    if (a == std::string::npos) return 0;
    return d.find_last_not_of('0') - a + 1;
}
static size_t needed(double d) {
    char b[64];
    for (int p = 1; p <= 17; p++) {
        snprintf(b, sizeof b, "%.*e", p - 1, d);
        if (strtod(b, nullptr) == d) return sig(b);
    }
    return 17;
}
static void written(const std::string &t, double d, bool fixed, const char *what) {
    if (t.empty() || (!isdigit((unsigned char)t[0]) && t[0] != '-')) fail("written", "%s of %.17g: %s", what, d, t.c_str());
    char *e;
    double r = strtod(t.c_str(), &e);
    if (*e) fail("written", "%s of %.17g is not a number: %s", what, d, t.c_str());
    if (r != d) fail("written", "%s of %.17g reads as %.17g: %s", what, d, r, t.c_str());
    js::V v;
    if (!js::parse(t, v) || v.t != js::V::NUM) fail("written", "%s of %.17g is not a JSON number: %s", what, d, t.c_str());
    if (fixed && t.find_first_of("eE") != std::string::npos) fail("fixed", "%s of %.17g has an exponent: %s", what, d, t.c_str());
    if (sig(t) > needed(d)) fail("digits", "%s of %.17g has %zu digits, %zu are enough: %s", what, d, sig(t), needed(d), t.c_str());
}
FACET(write, 6, "a double as a coordinate, written as WKT and GeoJSON in either notation") {
    double d = gen_num(s, FINITE);
    double other = gen_num(s, FINITE);
    char b[64];
    snprintf(b, sizeof b, "%.17g (%a)", d, d);
    c.note(b);
    if (d != rint(d) || fabs(d) > 1000) c.interesting();
    bool fixed = s.flip();
    tg_env_set_print_fixed_floats(fixed);
    c.label(fixed ? "fixed" : "shortest");
    tgx::G g(tg_geom_new_point_zm({d, other}, other, d));
    std::string w = tgx::wkt(g), j = tgx::geojson(g);
    size_t a = w.find('('), z = w.find(')');
    if (a == std::string::npos || z == std::string::npos) fail("written", "%s", w.c_str());
    std::string in = w.substr(a + 1, z - a - 1);
    std::vector<std::string> p;
    for (size_t i = 0;;) {
        size_t k = in.find(' ', i);
        p.push_back(in.substr(i, k == std::string::npos ? k : k - i));
        if (k == std::string::npos) break;
        i = k + 1;
    }
    if (p.size() != 4) fail("written", "%s", w.c_str());
    double want[4] = {d, other, other, d};
    for (int i = 0; i < 4; i++) written(p[i], want[i], fixed, "WKT");
    js::V v;
    if (!js::parse(j, v) || !v.get("coordinates") || v.get("coordinates")->arr.size() != 4) fail("written", "%s", j.c_str());
    for (int i = 0; i < 4; i++) written(v.get("coordinates")->arr[i].raw, want[i], fixed, "GeoJSON");
}
