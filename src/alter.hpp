// Ways to damage documents: value trees, characters, bytes.
#pragma once
#include "json.hpp"
namespace alter {
using pbt::Src;
// Text of a value tree, as its tokens stand.
inline std::string put(const js::V &v) {
    std::string o;
    switch (v.t) {
    case js::V::ARR:
        o = "[";
        for (size_t i = 0; i < v.arr.size(); i++) o += (i ? "," : "") + put(v.arr[i]);
        return o + "]";
    case js::V::OBJ:
        o = "{";
        for (size_t i = 0; i < v.obj.size(); i++) o += (i ? "," : "") + v.obj[i].first.raw + ":" + put(v.obj[i].second);
        return o + "}";
    default: return v.raw;
    }
}
inline void nodes(js::V &v, std::vector<js::V *> &o) {
    o.push_back(&v);
    for (auto &e : v.arr) nodes(e, o);
    for (auto &e : v.obj) nodes(e.second, o);
}
inline js::V leaf(Src &s) {
    static const char *t[] = {"null", "true", "0", "1", "[]", "{}", "\"\"", "\"Point\"", "\"Polygon\"", "\"Feature\"", "\"FeatureCollection\"", "\"GeometryCollection\"",
                              "\"LineString\"", "\"MultiPoint\"", "\"MultiLineString\"", "\"MultiPolygon\"", "\"point\"", "\"Pointx\"", "\"Poin\"", "[0]", "[0,0]", "[0,0,0]",
                              "[0,0,0,0]", "[[0,0],[1,1]]", "[[0,0],[1,1],[0,0]]", "[[[0,0],[1,1],[0,0]]]", "[null]", "[\"1\",\"2\"]", "{\"type\":\"Point\",\"coordinates\":[1,2]}",
                              "{\"type\":\"Feature\",\"geometry\":null,\"properties\":null}", "{\"type\":\"FeatureCollection\",\"features\":[]}", "false", "-1.5e3", "\"Point\\u0000\"", "\"Feature\\u0000x\"", "\"P\\u006fint\""};
    js::V v;
    js::parse(t[s.below(sizeof t / sizeof *t)], v);
    return v;
}
inline void alter_tree(Src &s, js::V &root) {
    std::vector<js::V *> n;
    nodes(root, n);
    js::V &v = *n[s.below(n.size())];
    js::V x = leaf(s);
    switch (s.below(8)) {
    case 0: v = x; return;
    case 1: // remove
        if (v.t == js::V::ARR && !v.arr.empty()) v.arr.erase(v.arr.begin() + s.below(v.arr.size()));
        else if (v.t == js::V::OBJ && !v.obj.empty()) v.obj.erase(v.obj.begin() + s.below(v.obj.size()));
        else v = x;
        return;
    case 2: // add
        if (v.t == js::V::ARR) v.arr.insert(v.arr.begin() + s.below(v.arr.size() + 1), x);
        else if (v.t == js::V::OBJ) {
            static const char *k[] = {"\"type\"", "\"coordinates\"", "\"geometry\"", "\"geometries\"", "\"features\"", "\"properties\"", "\"id\"", "\"Type\"", "\"coordinate\""};
            js::V key;
            js::parse(k[s.below(9)], key);
            v.obj.insert(v.obj.begin() + s.below(v.obj.size() + 1), {key, x});
        } else v = x;
        return;
    case 3: { // one level more
        js::V w;
        w.t = js::V::ARR;
        w.arr.push_back(v);
        v = w;
        return;
    }
    case 4: // one level less
        if (v.t == js::V::ARR && !v.arr.empty()) {
            js::V w = v.arr[s.below(v.arr.size())];
            v = w;
        } else if (v.t == js::V::OBJ && !v.obj.empty()) {
            js::V w = v.obj[s.below(v.obj.size())].second;
            v = w;
        }
        return;
    case 5: // twice
        if (v.t == js::V::ARR && !v.arr.empty()) {
            js::V w = v.arr[s.below(v.arr.size())];
            v.arr.insert(v.arr.begin() + s.below(v.arr.size() + 1), w);
        }
        return;
    case 6: // another key
        if (v.t == js::V::OBJ && !v.obj.empty()) {
            static const char *k[] = {"\"type\"", "\"coordinates\"", "\"geometry\"", "\"geometries\"", "\"features\"", "\"properties\"", "\"id\"", "\"typ\"", "\"t\\u0079pe\"", "\"types\"", "\"type\\u0000\"", "\"coordinates\\u0000x\""};
            js::V key;
            js::parse(k[s.below(12)], key);
            v.obj[s.below(v.obj.size())].first = key;
        } else v = x;
        return;
    default: { // a value from elsewhere
        js::V w = *n[s.below(n.size())];
        v = w;
    }
    }
}
inline void alter_text(Src &s, std::string &d, const std::string &alphabet) {
    if (d.empty()) return;
    size_t at = s.below(d.size());
    static const char odd[] = "!#$%&'*/:;<=>?@[\\]^_`{|}~\f\v\b\x7f\xa0";
    char ch = alphabet[s.below(alphabet.size())];
    if (s.chance(1, 5)) ch = s.chance(1, 4) ? '\0' : s.flip() ? (char)s.below(256) : odd[s.below(sizeof odd - 1)];
    switch (s.below(8)) {
    case 0: d.erase(at, 1 + s.below(s.chance(1, 4) ? 10 : 1)); break;
    case 1: d.insert(at, 1, ch); break;
    case 2: d[at] = ch; break;
    case 3: d.resize(at); break;
    case 4: { // move a piece
        size_t n = 1 + s.below(12);
        std::string p = d.substr(at, n);
        d.insert(s.below(d.size() + 1), p);
        break;
    }
    case 5: std::swap(d[at], d[s.below(d.size())]); break;
    case 6: d.insert((size_t)0, 1, ch); break;
    default: d += ch;
    }
}
inline void alter_bytes(Src &s, std::string &d) {
    if (d.empty()) return;
    // offsets where a small number stands, most likely a count or a type code
    std::vector<size_t> cand;
    for (size_t k = 0; k + 4 <= d.size() && cand.size() < 400; k++) {
        uint32_t a = 0, b = 0;
        for (int j = 0; j < 4; j++) {
            a |= (uint32_t)(uint8_t)d[k + j] << 8 * j;
            b |= (uint32_t)(uint8_t)d[k + j] << 8 * (3 - j);
        }
        if (a < 3010 || b < 3010) cand.push_back(k);
    }
    size_t at = cand.empty() || s.chance(1, 4) ? s.below(d.size()) : cand[s.below(cand.size())];
    static const uint8_t v[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 0xE9, 0xEA, 0xEB, 0xD1, 0xB9, 0x0B, 0x20, 0x40, 0x80, 0xFF, 0x7F, 0x10};
    switch (s.below(9)) {
    case 0:
    case 1:
    case 2: d[at] = (char)v[s.below(sizeof v)]; break;
    case 3: d[at] = (char)(d[at] + (s.flip() ? 1 : -1)); break;
    case 4: d[at] = (char)(d[at] ^ 1 << s.below(8)); break;
    case 5: d.resize(at); break;
    case 6: d.erase(at, 1 + s.below(s.chance(1, 3) ? 16 : 4)); break;
    case 7: d.insert(at, d.substr(s.below(d.size()), 1 + s.below(21))); break;
    default: { // another type code or count
        static const uint32_t t[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 1001, 1002, 1003, 2001, 2004, 3001, 3003, 3007, 4001, 1008, 0x20000001u, 0x80000002u, 0x40000001u, 0xC0000003u, 0xE0000001u, 0x10001u, 0x10000002u, 0xFFFFFFFFu, 0x7FFFFFFFu};
        uint32_t x = t[s.below(sizeof t / sizeof *t)];
        bool be = s.flip();
        for (int j = 0; j < 4 && at + j < d.size(); j++) d[at + j] = (char)(x >> 8 * (be ? 3 - j : j));
    }
    }
}
// One of these, as suits the document.
inline void damage(Src &s, std::string &d, bool json, bool bytes) {
    js::V v;
    if (json && s.chance(4, 5) && js::parse(d, v)) {
        std::vector<js::V *> n, ob;
        nodes(v, n);
        for (auto x : n)
            if (x->t == js::V::OBJ && x->get("type")) ob.push_back(x);
        if (ob.size() > 1 && s.flip()) { // an object in the place of another
            js::V w = *ob[s.below(ob.size())];
            *ob[s.below(ob.size())] = w;
        } else alter_tree(s, v);
        d = put(v);
    } else if (bytes) alter_bytes(s, d);
    else alter_text(s, d, "0123456789abcdefABCDEF(){}[],:\"-. ZMn");
}
} // namespace alter
