// A small strict JSON parser (RFC 8259, depth limited) that keeps the exact text
// of every value, and generators of JSON text. Independent of the library.
#pragma once
#include "pbt.hpp"
namespace js {
struct V {
    enum T { NUL, FALSE_, TRUE_, NUM, STR, ARR, OBJ } t = NUL;
    std::string raw; // exact text
    std::string str; // unescaped, strings only
    double num = 0;
    std::vector<V> arr;
    std::vector<std::pair<V, V>> obj; // in order, keys are STR values
    const V *get(const char *k) const { // first member with that (unescaped) name
        for (auto &m : obj)
            if (m.first.str == k) return &m.second;
        return nullptr;
    }
};
struct Parser {
    const std::string &s;
    size_t i = 0;
    int maxdepth = 0;
    bool bad = false;
    explicit Parser(const std::string &t) : s(t) {}
    void ws() {
        while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) i++;
    }
    static void put(std::string &o, uint32_t cp) {
        if (cp < 0x80) o += (char)cp;
        else if (cp < 0x800) {
            o += (char)(0xC0 | cp >> 6);
            o += (char)(0x80 | (cp & 63));
        } else if (cp < 0x10000) {
            o += (char)(0xE0 | cp >> 12);
            o += (char)(0x80 | (cp >> 6 & 63));
            o += (char)(0x80 | (cp & 63));
        } else {
            o += (char)(0xF0 | cp >> 18);
            o += (char)(0x80 | (cp >> 12 & 63));
            o += (char)(0x80 | (cp >> 6 & 63));
            o += (char)(0x80 | (cp & 63));
        }
    }
    bool utf8(std::string &o) { // one multibyte code point at i
        unsigned char c = s[i];
        int n = c >= 0xF0 && c <= 0xF4 ? 4 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xC2 && c < 0xE0 ? 2 : 0;
        if (!n || i + n > s.size()) return false;
        uint32_t cp = c & (n == 4 ? 7 : n == 3 ? 15 : 31);
        for (int k = 1; k < n; k++) {
            unsigned char d = s[i + k];
            if ((d & 0xC0) != 0x80) return false;
            cp = cp << 6 | (d & 63);
        }
        if (n == 3 && (cp < 0x800 || (cp >= 0xD800 && cp <= 0xDFFF))) return false;
        if (n == 4 && (cp < 0x10000 || cp > 0x10FFFF)) return false;
        o.append(s, i, n);
        i += n;
        return true;
    }
    bool hex4(uint32_t &v) {
        if (i + 4 > s.size()) return false;
        v = 0;
        for (int k = 0; k < 4; k++) {
            char c = s[i + k];
            int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
            if (d < 0) return false;
            v = v << 4 | d;
        }
        i += 4;
        return true;
    }
    bool string(V &v) {
        size_t b = i;
        if (i >= s.size() || s[i] != '"') return false;
        i++;
        while (i < s.size()) {
            unsigned char c = s[i];
            if (c == '"') {
                i++;
                v.t = V::STR;
                v.raw = s.substr(b, i - b);
                return true;
            }
            if (c < 0x20) return false;
            if (c >= 0x80) {
                if (!utf8(v.str)) return false;
                continue;
            }
            if (c != '\\') {
                v.str += (char)c;
                i++;
                continue;
            }
            i++;
            if (i >= s.size()) return false;
            char e = s[i++];
            switch (e) {
            case '"': case '\\': case '/': v.str += e; break;
            case 'b': v.str += '\b'; break;
            case 'f': v.str += '\f'; break;
            case 'n': v.str += '\n'; break;
            case 'r': v.str += '\r'; break;
            case 't': v.str += '\t'; break;
            case 'u': {
                uint32_t u;
                if (!hex4(u)) return false;
                if (u >= 0xD800 && u < 0xDC00 && i + 1 < s.size() && s[i] == '\\' && s[i + 1] == 'u') {
                    size_t save = i;
                    i += 2;
                    uint32_t l;
                    if (!hex4(l)) return false;
                    if (l >= 0xDC00 && l < 0xE000) u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
                    else i = save;
                }
                put(v.str, u);
                break;
            }
            default: return false;
            }
        }
        return false;
    }
    bool number(V &v) {
        size_t b = i;
        if (i < s.size() && s[i] == '-') i++;
        if (i >= s.size() || !isdigit((unsigned char)s[i])) return false;
        if (s[i] == '0') i++;
        else
            while (i < s.size() && isdigit((unsigned char)s[i])) i++;
        if (i < s.size() && s[i] == '.') {
            i++;
            if (i >= s.size() || !isdigit((unsigned char)s[i])) return false;
            while (i < s.size() && isdigit((unsigned char)s[i])) i++;
        }
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
            i++;
            if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
            if (i >= s.size() || !isdigit((unsigned char)s[i])) return false;
            while (i < s.size() && isdigit((unsigned char)s[i])) i++;
        }
        v.t = V::NUM;
        v.raw = s.substr(b, i - b);
        v.num = strtod(v.raw.c_str(), nullptr);
        return true;
    }
    bool value(V &v, int depth) {
        if (depth > maxdepth) maxdepth = depth;
        if (depth > 5000) return false;
        ws();
        if (i >= s.size()) return false;
        size_t b = i;
        char c = s[i];
        if (c == '"') return string(v);
        if (c == '-' || isdigit((unsigned char)c)) return number(v);
        auto lit = [&](const char *w, V::T t) {
            size_t n = strlen(w);
            if (s.compare(i, n, w)) return false;
            i += n;
            v.t = t;
            v.raw = w;
            return true;
        };
        if (c == 't') return lit("true", V::TRUE_);
        if (c == 'f') return lit("false", V::FALSE_);
        if (c == 'n') return lit("null", V::NUL);
        if (c == '[') {
            i++;
            v.t = V::ARR;
            ws();
            if (i < s.size() && s[i] == ']') {
                i++;
                v.raw = s.substr(b, i - b);
                return true;
            }
            for (;;) {
                V e;
                if (!value(e, depth + 1)) return false;
                v.arr.push_back(std::move(e));
                ws();
                if (i >= s.size()) return false;
                if (s[i] == ',') {
                    i++;
                    continue;
                }
                if (s[i] == ']') {
                    i++;
                    v.raw = s.substr(b, i - b);
                    return true;
                }
                return false;
            }
        }
        if (c == '{') {
            i++;
            v.t = V::OBJ;
            ws();
            if (i < s.size() && s[i] == '}') {
                i++;
                v.raw = s.substr(b, i - b);
                return true;
            }
            for (;;) {
                ws();
                V k, e;
                if (!string(k)) return false;
                ws();
                if (i >= s.size() || s[i] != ':') return false;
                i++;
                if (!value(e, depth + 1)) return false;
                v.obj.push_back({std::move(k), std::move(e)});
                ws();
                if (i >= s.size()) return false;
                if (s[i] == ',') {
                    i++;
                    continue;
                }
                if (s[i] == '}') {
                    i++;
                    v.raw = s.substr(b, i - b);
                    return true;
                }
                return false;
            }
        }
        return false;
    }
};
inline bool parse(const std::string &s, V &v, int *depth = nullptr) {
    Parser p(s);
    if (!p.value(v, 1)) return false;
    p.ws();
    if (depth) *depth = p.maxdepth;
    return p.i == s.size();
}

using pbt::Src;
// White space between tokens, usually none.
inline std::string ws(Src &s, bool on) {
    if (!on) return "";
    static const char *w[] = {"", " ", "\n", "\t", "\r\n", "  ", " \t\n\r "};
    return w[s.below(7)];
}
// A JSON string literal for text without special needs; may spell characters as escapes.
inline std::string lit(Src &s, const std::string &t, bool esc) {
    std::string o = "\"";
    for (unsigned char c : t) {
        char b[8];
        if (esc && c < 0x80 && s.chance(1, 3)) {
            snprintf(b, sizeof b, s.flip() ? "\\u%04x" : "\\u%04X", c);
            o += b;
        } else if (c == '"' || c == '\\') {
            o += '\\';
            o += (char)c;
        } else if (c < 0x20) {
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else {
            o += (char)c;
        }
    }
    return o + "\"";
}
// A random string literal (raw JSON text).
inline std::string gen_string(Src &s) {
    static const std::vector<std::string> bits = {
        "a", "b", "z", "0", " ", "{", "}", "[", "]", ":", ",", "/", "\\\"", "\\\\", "\\/", "\\n", "\\u0041",
        "\\u00e9", "\\ud83d\\ude00", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\\t", "'", "null", "\x7f",
        "\xf4\x8f\xbf\xbf", "\\b\\f\\r"};
    std::string o = "\"";
    int n = s.size(0, 12);
    for (int i = 0; i < n; i++) o += s.pick(bits);
    return o + "\"";
}
inline std::string gen_number(Src &s) {
    static const std::vector<std::string> fix = {"0", "-0", "1", "12.50", "1e5", "1E+2", "-3.25e-7", "123456789012345678901234567890",
                                                 "0.1", "1.0", "-17", "9007199254740993", "1e400", "0.0000001"};
    if (s.flip()) return s.pick(fix);
    return std::to_string(s.range(0, 100000));
}
// A random JSON value as text; white space inside only when `w`.
inline std::string gen_value(Src &s, int depth, bool w) {
    switch (s.below(depth > 0 ? 8 : 6)) {
    case 0: return gen_number(s);
    case 1: return gen_string(s);
    case 2: return "true";
    case 3: return "false";
    case 4: return "null";
    case 5: return s.flip() ? "{}" : "[]";
    case 6: {
        std::string o = "[" + ws(s, w);
        int n = (int)s.below(4);
        for (int i = 0; i < n; i++) {
            if (i) o += "," + ws(s, w);
            o += gen_value(s, depth - 1, w) + ws(s, w);
        }
        return o + "]";
    }
    default: {
        std::string o = "{" + ws(s, w);
        int n = (int)s.below(4);
        static const std::vector<std::string> ks = {"a", "id", "type", "properties", "geometry", "coordinates", "features", "geometries", "bbox", ""};
        for (int i = 0; i < n; i++) {
            if (i) o += "," + ws(s, w);
            o += (s.flip() ? lit(s, s.pick(ks), false) : gen_string(s)) + ws(s, w) + ":" + ws(s, w) + gen_value(s, depth - 1, w) + ws(s, w);
        }
        return o + "}";
    }
    }
}
} // namespace js
