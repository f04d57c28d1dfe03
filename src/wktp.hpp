// A small strict reader of WKT into the data model. Independent of the library;
// used to judge what the library writes and which texts are well-formed.
#pragma once
#include "model.hpp"
namespace wktp {
using namespace mdl;
struct Rd {
    const std::string &s;
    size_t i = 0;
    std::string err;
    bool lenient = false; // also numbers JSON would not spell so, "()" for no members, and half-bracketed multipoints
    explicit Rd(const std::string &t) : s(t) {}
    bool no(const char *w) {
        if (err.empty()) err = std::string(w) + " at " + std::to_string(i);
        return false;
    }
    void ws() {
        while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) i++;
    }
    bool ch(char c) {
        ws();
        if (i < s.size() && s[i] == c) {
            i++;
            return true;
        }
        return false;
    }
    std::string word() {
        ws();
        std::string w;
        while (i < s.size() && isalpha((unsigned char)s[i])) w += (char)toupper(s[i++]);
        return w;
    }
    bool number(double &d) { // a JSON number
        ws();
        if (lenient) {
            size_t b = i, dig = 0;
            if (i < s.size() && s[i] == '-') i++;
            while (i < s.size() && isdigit((unsigned char)s[i])) i++, dig++;
            if (i + 1 < s.size() && s[i] == '.' && isdigit((unsigned char)s[i + 1])) {
                i++;
                while (i < s.size() && isdigit((unsigned char)s[i])) i++, dig++;
            }
            if (!dig) return no("number");
            size_t k = i;
            if (k < s.size() && (s[k] == 'e' || s[k] == 'E')) {
                k++;
                if (k < s.size() && (s[k] == '+' || s[k] == '-')) k++;
                if (k >= s.size() || !isdigit((unsigned char)s[k])) return no("exponent");
                while (k < s.size() && isdigit((unsigned char)s[k])) k++;
                i = k;
            }
            d = strtod(s.substr(b, i - b).c_str(), nullptr);
            return true;
        }
        js::Parser p(s);
        p.i = i;
        js::V v;
        if (!p.number(v)) return no("number");
        i = p.i;
        d = v.num;
        return true;
    }
    // dims: 0 unknown yet
    bool pos(V4 &p, int &dims, int tag) {
        double v[5];
        int n = 0;
        for (;;) {
            ws();
            if (i >= s.size() || s[i] == ',' || s[i] == ')') break;
            if (n == 4) return no("too many numbers");
            size_t before = i;
            if (n && !isspace((unsigned char)s[i - 1])) return no("numbers run together");
            (void)before;
            if (!number(v[n])) return false;
            n++;
        }
        if (n < 2) return no("too few numbers");
        int want = tag == 0 ? 0 : tag == 3 ? 4 : 3;
        if (want && n != want) return no("wrong number of numbers for the tag");
        if (dims && n != dims) return no("mixed dimensions");
        dims = n;
        p.x = v[0];
        p.y = v[1];
        if (n == 4) {
            p.z = v[2];
            p.m = v[3];
        } else if (n == 3) {
            if (tag == 2) p.m = v[2];
            else p.z = v[2];
        }
        return true;
    }
    bool seq(Seq &q, int &dims, int tag) {
        if (!ch('(')) return no("expected (");
        for (;;) {
            V4 p;
            if (!pos(p, dims, tag)) return false;
            q.push_back(p);
            if (ch(',')) continue;
            if (ch(')')) return true;
            return no("expected , or )");
        }
    }
    bool rings(Rings &r, int &dims, int tag) {
        if (!ch('(')) return no("expected (");
        for (;;) {
            Seq q;
            if (!seq(q, dims, tag)) return false;
            if (q.size() < 3) return no("ring too short");
            if (q[0].x != q.back().x || q[0].y != q.back().y) return no("ring not closed");
            r.push_back(q);
            if (ch(',')) continue;
            if (ch(')')) return true;
            return no("expected , or )");
        }
    }
    bool geom(M &g, int depth = 0) {
        if (depth > 3000) return no("too deep");
        std::string w = word();
        static const char *names[] = {"GEOMETRYCOLLECTION", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "POINT", "LINESTRING", "POLYGON"};
        static const int types[] = {TG_GEOMETRYCOLLECTION, TG_MULTIPOINT, TG_MULTILINESTRING, TG_MULTIPOLYGON, TG_POINT, TG_LINESTRING, TG_POLYGON};
        g.type = 0;
        std::string rest;
        for (int k = 0; k < 7; k++) {
            size_t n = strlen(names[k]);
            if (w.compare(0, n, names[k]) == 0) {
                g.type = types[k];
                rest = w.substr(n);
                break;
            }
        }
        if (!g.type) return no("type");
        int tag = 0;
        bool first = true, empty = false;
        for (;;) {
            if (rest.empty()) {
                rest = word();
                if (rest.empty()) break;
                first = false;
            }
            int t = rest == "Z" ? 1 : rest == "M" ? 2 : rest == "ZM" ? 3 : 0;
            if (t && !tag) tag = t;
            else if (rest == "EMPTY" && !first) {
                empty = true;
                break;
            } else return no("unknown word");
            rest.clear();
        }
        if (empty) {
            g.empty = true;
            return true;
        }
        int dims = 0;
        switch (g.type) {
        case TG_POINT: {
            Seq q;
            if (!seq(q, dims, tag)) return false;
            if (q.size() != 1) return no("point with many positions");
            g.parts = {Rings{q}};
            break;
        }
        case TG_LINESTRING: {
            Seq q;
            if (!seq(q, dims, tag)) return false;
            if (q.size() < 2) return no("line too short");
            g.parts = {Rings{q}};
            break;
        }
        case TG_POLYGON: {
            Rings r;
            if (!rings(r, dims, tag)) return false;
            g.parts = {r};
            break;
        }
        default:
            if (!ch('(')) return no("expected (");
            if (lenient && g.type != TG_GEOMETRYCOLLECTION && ch(')')) {
                g.empty = true;
                return true;
            }
            for (int par = -1;;) {
                if (g.type == TG_GEOMETRYCOLLECTION) {
                    M k;
                    if (!geom(k, depth + 1)) return false;
                    g.kids.push_back(k);
                } else if (g.type == TG_MULTIPOINT) {
                    ws();
                    Seq q;
                    int p_ = i < s.size() && s[i] == '(';
                    if (!lenient && par >= 0 && p_ != par) return no("brackets around some points only");
                    par = p_;
                    if (i < s.size() && s[i] == '(') {
                        if (!seq(q, dims, tag)) return false;
                        if (q.size() != 1) return no("point with many positions");
                    } else {
                        V4 p;
                        if (!pos(p, dims, tag)) return false;
                        q.push_back(p);
                    }
                    g.parts.push_back(Rings{q});
                } else if (g.type == TG_MULTILINESTRING) {
                    Seq q;
                    if (!seq(q, dims, tag)) return false;
                    if (q.size() < 2) return no("line too short");
                    g.parts.push_back(Rings{q});
                } else {
                    Rings r;
                    if (!rings(r, dims, tag)) return false;
                    g.parts.push_back(r);
                }
                if (ch(',')) continue;
                if (ch(')')) break;
                return no("expected , or )");
            }
        }
        g.z = dims == 4 || (dims == 3 && tag != 2);
        g.m = dims == 4 || (dims == 3 && tag == 2);
        return true;
    }
};
inline bool parse(const std::string &s, M &g, std::string *err = nullptr, bool lenient = false) {
    Rd r(s);
    r.lenient = lenient;
    bool ok = r.geom(g);
    if (ok) {
        r.ws();
        if (r.i != s.size()) ok = r.no("trailing text");
    }
    if (err) *err = r.err;
    return ok;
}
// Same geometry: same structure, and the same numbers (signs of zeros aside).
inline bool same(const M &a, const M &b) {
    if (a.type != b.type || is_empty(a) != is_empty(b)) return false;
    bool ea = a.empty || nparts(a) == 0, eb = b.empty || nparts(b) == 0;
    if (ea != eb) return false;
    if (ea) return true;
    if (a.type == TG_GEOMETRYCOLLECTION) {
        if (a.kids.size() != b.kids.size()) return false;
        for (size_t i = 0; i < a.kids.size(); i++)
            if (!same(a.kids[i], b.kids[i])) return false;
        return true;
    }
    if (a.z != b.z || a.m != b.m || a.parts.size() != b.parts.size()) return false;
    for (size_t i = 0; i < a.parts.size(); i++) {
        if (a.parts[i].size() != b.parts[i].size()) return false;
        for (size_t j = 0; j < a.parts[i].size(); j++) {
            if (a.parts[i][j].size() != b.parts[i][j].size()) return false;
            for (size_t k = 0; k < a.parts[i][j].size(); k++) {
                const V4 &p = a.parts[i][j][k], &q = b.parts[i][j][k];
                if (p.x != q.x || p.y != q.y) return false;
                if (a.z && p.z != q.z) return false;
                if (a.m && p.m != q.m) return false;
            }
        }
    }
    return true;
}
} // namespace wktp
