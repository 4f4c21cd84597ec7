// Structured generators for JSON values, schemas of drafts 3/4/7, and
// documents biased towards a given schema.
#pragma once
#include "json.hpp"
#include "pbt.hpp"
#include "refval.hpp"

namespace gen {
using pbt::Src;

inline const std::vector<std::string> &plainKeys() {
    static const std::vector<std::string> k{"a", "b", "c", "foo", "bar", "ab", "x1", "baz"};
    return k;
}
// Names that stress paths, escaping and look-alikes of keywords.
inline const std::vector<std::string> &oddKeys() {
    static const std::vector<std::string> k{"", "a/b", "m~n", "~1", "~0", "/", "x y", "0", "1", "10", "-1", "\xC3\xA9", "\xE6\x97\xA5", "\xF0\x9F\x98\x80",
                                            "items", "properties", "type", "length", "$id", "id", "ref", "[\"a\"]", "a\"b", "a\\b", "%25", "%7E", "q?r", "#", "__proto__", "required", "A"};
    return k;
}
struct Cfg {
    Draft draft = Draft::D7;
    unsigned oddKeyPct = 12;       // probability (%) of an odd property name
    bool patterns = true;
    bool multipleOf = true;
    bool bools = true;             // boolean schemas
    bool bigNumbers = true;
    bool uniq = true;
    bool constEnum = true;
    bool pnames = true;
    bool annotations = false;
    bool doubles = true;           // floating point literals in instances
    bool nul = true;               // strings with U+0000
    bool integralDoubles = true;   // 1.0 style numbers
    bool badUtf8 = false;
    bool controls = true;          // control characters in strings
    int maxDepth = 3;
    std::function<bool(Src &, J &schema)> extra; // hook: may replace/augment a schema node
};

// long strings that differ from each other in one place only
inline std::string longStr(Src &s) {
    static const int lens[] = {7, 8, 15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 1000};
    std::string o((size_t)lens[s.below(s.chance(1, 4) ? 24 : 17)], 'a');
    switch (s.below(4)) {
    case 0: break;
    case 1: o.back() = s.coin() ? 'b' : 'c'; break;
    case 2: o[0] = s.coin() ? 'b' : 'c'; break;
    default: o[o.size() / 2] = s.coin() ? 'b' : 'c'; break;
    }
    return o;
}
inline std::string key(Src &s, const Cfg &c) {
    if (s.below(100) >= 100 - c.oddKeyPct) {
        if (s.chance(1, 10)) return longStr(s);
        if (c.nul && s.chance(1, 8)) return s.pick(std::vector<std::string>{std::string("a\0b", 3), std::string("a\0c", 3), std::string("\0", 1), std::string("a\0", 2)});
        return s.pick(oddKeys());
    }
    return s.pick(plainKeys());
}
inline std::string str(Src &s, const Cfg &c) {
    switch (s.weighted({10, 8, 4, 3, 2, 1, 1, 1})) {
    case 7: return longStr(s);
    case 0: return s.pick(plainKeys());
    case 1: { // short over a small alphabet, interesting for patterns and lengths
        std::string o;
        int n = s.range(0, 5);
        for (int i = 0; i < n; i++) o += s.pick(std::vector<char>{'a', 'b', 'c', '1', '0', 'x', '_', ' ', '-', 'A'});
        return o;
    }
    case 2: { // code points of every encoded length
        std::string o;
        int n = s.range(1, 4);
        for (int i = 0; i < n; i++) {
            static const unsigned cps[] = {0x61, 0x7F, 0x80, 0xE9, 0x7FF, 0x800, 0x65E5, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0x301, 0xD7FF, 0xE000};
            unsigned cp = cps[s.below(15)];
            if (!c.controls && cp == 0x7f) cp = 0x62;
            JParser::utf8(o, cp);
        }
        return o;
    }
    case 3: return s.pick(oddKeys());
    case 4: return s.pick(std::vector<std::string>{"1", "0", "-1", "1.5", "true", "false", "null", "1e3", " 1", "01", "1 ", "0x10", "nan", "inf", "", "+1", ".5", "-"});
    case 5: return c.nul ? std::string("a\0b", 3) + (s.coin() ? "c" : "") : std::string("z");
    default: return c.controls ? std::string(s.pick(std::vector<std::string>{"\n", "a\nb", "\t", "\x01", "\r\n", "\"", "\\"})) : std::string("zz");
    }
}
inline J num(Src &s, const Cfg &c) {
    switch (s.weighted({12, 5, 4, 3, 2, 2})) {
    case 0: return J((int)s.range(-3, 12));
    case 1: if (c.doubles) { double v = s.range(-6, 24) / 2.0; if (!c.integralDoubles && std::floor(v) == v) v += 0.25; return J(v); } return J((int)s.range(-3, 12));
    case 2: if (c.doubles) { int k = s.range(-40, 130); static const double q[] = {10, 4, 8, 100}; double v = k / q[s.below(4)]; if (!c.integralDoubles && std::floor(v) == v) v += 0.25; return J(v); } return J((int)s.range(-40, 130));
    case 3: return J((long long)s.pick(std::vector<long long>{100, 255, 256, 1000, 65535, 65536, 2147483647LL, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, 9007199254740991LL, -9007199254740991LL, 9007199254740992LL}));
    case 4: return c.doubles && c.bigNumbers && c.integralDoubles ? J(s.pick(std::vector<double>{1e10, 1e15, 9007199254740992.0, 1e20, -1e20, 1e100, 1e300, -1e300, 9223372036854775808.0, 18446744073709551616.0, -9223372036854775808.0})) : J(7);
    default: return c.doubles ? J(s.pick(std::vector<double>{0.5, 1e-5, 2.5e-8, 1e-300, 0.125, 3.75})) : J(9);
    }
}
inline J scalar(Src &s, const Cfg &c) {
    switch (s.weighted({3, 2, 6, 6})) {
    case 0: return J();
    case 1: return J(s.coin());
    case 2: return num(s, c);
    default: return J(str(s, c));
    }
}
inline J value(Src &s, const Cfg &c, int depth) {
    if (depth <= 0) {
        switch (s.weighted({8, 1, 1})) { case 0: return scalar(s, c); case 1: return J::arr(); default: return J::obj(); }
    }
    switch (s.weighted({6, 3, 4})) {
    case 0: return scalar(s, c);
    case 1: {
        J a = J::arr();
        int n = s.chance(1, 24) ? s.range(8, 24) : s.range(0, 4);
        for (int i = 0; i < n; i++) a.push(i > 0 && s.chance(1, 4) ? a.a[s.below(a.a.size())] : value(s, c, depth - 1));
        return a;
    }
    default: {
        J o = J::obj();
        int n = s.chance(1, 30) ? s.range(8, 20) : s.range(0, 4);
        for (int i = 0; i < n; i++) o.set(n > 8 && s.coin() ? "k" + std::to_string(s.below(24)) : key(s, c), value(s, c, depth - 1));
        return o;
    }
    }
}

// ---- patterns: (text) pairs from a tiny grammar, safe for byte/code point ambiguity
inline std::string patAtom(Src &s, int depth);
inline std::string pattern(Src &s, int depth = 2) {
    switch (s.weighted({6, 2, 3})) {
    case 0: return s.pick(std::vector<std::string>{"a", "^a", "b$", "^a$", "o", "^foo", "^[a-c]$", "^[a-z]+$", "[0-9]", "^x[0-9]$", "^.*$", "", "^$", "b", "^b", "^[a-f]", "[^a]", "^(a|b)$", "ab?", "^ab*$", "a{2}", "^\\w+$", "\\d", "^\\S*$", "ba[rz]", "^(foo|bar)$", "\\."});
    case 1: { // anchored concatenation
        std::string o;
        bool al = s.coin(), ar = s.coin();
        int n = s.range(1, 3);
        if (al) o += "^";
        for (int i = 0; i < n; i++) o += patAtom(s, depth);
        if (ar) o += "$";
        return o;
    }
    default: {
        std::string o = "(";
        int n = s.range(1, 2);
        for (int i = 0; i <= n; i++) { if (i) o += "|"; o += patAtom(s, depth); }
        return (s.coin() ? "^" : "") + o + ")" + (s.coin() ? "$" : "");
    }
    }
}
inline std::string patAtom(Src &s, int depth) {
    std::string a;
    if (depth > 0 && s.chance(1, 6)) a = "(" + patAtom(s, depth - 1) + patAtom(s, depth - 1) + ")";
    else a = s.pick(std::vector<std::string>{"a", "b", "c", "1", "x", "_", "[ab]", "[a-c]", "[0-9]", "\\d", "\\w", "[^a]", "foo", "[a-zA-Z0-9_]"});
    switch (s.weighted({6, 1, 1, 1, 1})) {
    case 1: return (a.size() > 1 && a[0] != '[' && a[0] != '(' && a[0] != '\\' ? "(" + a + ")" : a) + "*";
    case 2: return (a.size() > 1 && a[0] != '[' && a[0] != '(' && a[0] != '\\' ? "(" + a + ")" : a) + "+";
    case 3: return (a.size() > 1 && a[0] != '[' && a[0] != '(' && a[0] != '\\' ? "(" + a + ")" : a) + "?";
    case 4: return (a.size() > 1 && a[0] != '[' && a[0] != '(' && a[0] != '\\' ? "(" + a + ")" : a) + s.pick(std::vector<std::string>{"{2}", "{1,2}", "{0,1}", "{2,}"});
    default: return a;
    }
}

// ---- schemas
J schema(Src &s, const Cfg &c, int depth);
inline J countVal(Src &s) { return s.chance(1, 24) ? s.chance(1, 8) ? J(s.pick(std::vector<int>{31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 257, 260})) : J((int)s.range(5, 24)) : J((int)s.range(0, 4)); }
inline J lengthVal(Src &s) { return s.chance(1, 16) ? J(s.pick(std::vector<int>{5, 8, 15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 300, 1000})) : J((int)s.range(0, 4)); }
inline J typeName(Src &s, const Cfg &c) {
    static const std::vector<std::string> t{"string", "number", "integer", "boolean", "null", "array", "object"};
    (void)c;
    return J(s.pick(t));
}
inline J posNum(Src &s) {
    switch (s.weighted({6, 3, 2})) {
    case 0: return J((int)s.range(1, 7));
    case 1: return J(s.pick(std::vector<double>{0.5, 0.1, 0.01, 0.25, 1.5, 2.5, 0.001, 0.125, 0.2, 0.3}));
    default: return J((long long)s.pick(std::vector<long long>{10, 100, 256, 1000, 65536, 2147483648LL, 3000000000LL}));
    }
}
inline void addKeyword(Src &s, const Cfg &c, int depth, J &o) {
    const bool d3 = c.draft == Draft::D3, d7 = c.draft == Draft::D7;
    auto sub = [&]() { return schema(s, c, depth - 1); };
    auto subs = [&]() { J a = J::arr(); int n = s.chance(1, 40) ? s.range(9, 13) : s.range(1, 3); for (int i = 0; i < n; i++) a.push(n > 8 && s.chance(3, 4) ? J::obj({{"type", typeName(s, c)}}) : sub()); return a; };
    auto propMap = [&]() { J m = J::obj(); int n = s.chance(1, 40) ? s.range(8, 13) : s.range(1, 3); for (int i = 0; i < n; i++) m.set(n > 7 && s.coin() ? "k" + std::to_string(s.below(24)) : key(s, c), n > 7 && s.chance(3, 4) ? J::obj({{"type", typeName(s, c)}}) : sub()); return m; };
    size_t k = depth > 0 ? s.weighted({10, 4, 4, 6, 3, 4, 3, 3, 2, 3, /*10 structural*/ 9, 4, 5, 7, 4, 3, 3, 3, 3, 3, 3, 3, 3, 3}) : s.weighted({10, 4, 4, 6, 3, 4, 3, 3, 2, 3});
    switch (k) {
    case 0:
        if (s.chance(1, 4)) {
            J a = J::arr();
            std::set<std::string> seen;
            int n = s.range(1, 3);
            for (int i = 0; i < n; i++) { J t = typeName(s, c); if (seen.insert(t.s).second) a.push(t); }
            if (d3 && depth > 0 && s.chance(1, 3)) for (int m = s.range(1, 3); m > 0; m--) { J x = sub(); if (x.isObj()) a.a.insert(a.a.begin() + (long)(a.a.size() - s.below(a.a.size() + 1)), x); }
            o.set("type", a);
        } else if (d3 && s.chance(1, 12)) o.set("type", "any");
        else o.set("type", typeName(s, c));
        return;
    case 1: case 2: // numeric bounds
        {
            bool mn = k == 1;
            J b = num(s, c);
            if (d7) { o.set(s.coin() ? (mn ? "exclusiveMinimum" : "exclusiveMaximum") : (mn ? "minimum" : "maximum"), b); }
            else { o.set(mn ? "minimum" : "maximum", b); if (s.chance(1, 2)) o.set(mn ? "exclusiveMinimum" : "exclusiveMaximum", J(s.coin())); }
        }
        return;
    case 3: o.set(s.pick(std::vector<std::string>{"minLength", "maxLength"}), lengthVal(s)); return;
    case 4: if (c.patterns) o.set("pattern", pattern(s)); return;
    case 5: {
        if (!c.constEnum) return;
        if (d7 && s.coin()) { o.set("const", value(s, c, 2)); return; }
        J e = J::arr();
        int n = s.chance(1, 24) ? s.range(8, 20) : s.range(1, 4);
        for (int i = 0; i < n; i++) { J v = value(s, c, 1); bool dup = false; for (auto &x : e.a) dup = dup || jeq(x, v); if (!dup) e.push(v); }
        o.set("enum", e);
        return;
    }
    case 6: if (c.multipleOf) o.set(d3 ? "divisibleBy" : "multipleOf", posNum(s)); return;
    case 7: o.set(s.pick(std::vector<std::string>{"minItems", "maxItems"}), countVal(s)); return;
    case 8: if (c.uniq) o.set("uniqueItems", J(!s.chance(1, 5))); return;
    case 9:
        if (d3) { o.set(s.pick(std::vector<std::string>{"minItems", "maxItems"}), countVal(s)); return; }
        if (s.coin()) { o.set(s.pick(std::vector<std::string>{"minProperties", "maxProperties"}), countVal(s)); return; }
        {
            J r = J::arr();
            int n = s.chance(1, 24) ? s.range(4, 12) : s.range(1, 3);
            for (int i = 0; i < n; i++) { std::string q = key(s, c); bool dup = false; for (auto &x : r.a) dup = dup || x.s == q; if (!dup) r.push(J(q)); }
            if (d7 && s.chance(1, 12)) r.a.clear();
            o.set("required", r);
        }
        return;
    case 10: {
        J m = propMap();
        if (d3) for (auto &p : m.o) if (p.second.isObj() && s.chance(1, 3)) p.second.set("required", J(!s.chance(1, 5)));
        o.set("properties", m);
        return;
    }
    case 11: {
        if (!c.patterns) return;
        J m = J::obj();
        int n = s.chance(1, 24) ? s.range(3, 6) : s.range(1, 2);
        for (int i = 0; i < n; i++) m.set(pattern(s), sub());
        o.set("patternProperties", m);
        return;
    }
    case 12: o.set("additionalProperties", s.coin() ? J(s.chance(1, 4)) : sub()); return;
    case 13: // items
        if (s.coin()) o.set("items", sub());
        else { o.set("items", subs()); if (s.chance(3, 4)) o.set("additionalItems", s.coin() ? J(s.chance(1, 4)) : sub()); }
        return;
    case 14: if (d3) { o.set("extends", s.coin() ? sub() : subs()); return; } o.set("allOf", subs()); return;
    case 15: if (!d3) o.set("anyOf", subs()); return;
    case 16: if (!d3) o.set("oneOf", subs()); return;
    case 17: if (!d3) o.set("not", sub()); return;
    case 18:
        if (d7) { o.set("if", sub()); if (s.chance(3, 4)) o.set("then", sub()); if (s.chance(3, 4)) o.set("else", sub()); }
        return;
    case 19: if (d7) o.set("contains", sub()); return;
    case 20: if (d7 && c.pnames) o.set("propertyNames", sub()); return;
    case 21: {
        J m = J::obj();
        int n = s.range(1, 2);
        for (int i = 0; i < n; i++) {
            if (s.coin()) m.set(key(s, c), sub());
            else if (d3 && s.coin()) m.set(key(s, c), J(key(s, c)));
            else { J a = J::arr(); int q = s.range(1, 2); std::set<std::string> seen; for (int z = 0; z < q; z++) { auto kk = key(s, c); if (seen.insert(kk).second) a.push(J(kk)); } if (d7 && s.chance(1, 10)) a.a.clear(); m.set(key(s, c), a); }
        }
        o.set("dependencies", m);
        return;
    }
    case 22: // related keywords that must not interfere
        if (d7) o.set(s.pick(std::vector<std::string>{"then", "else"}), sub());
        return;
    default: // additionalItems without array items is ignored
        if (!o.has("additionalItems") && !o.has("items")) o.set("additionalItems", s.coin() ? J(false) : sub());
        return;
    }
}
inline J schema(Src &s, const Cfg &c, int depth) {
    if (c.draft == Draft::D7 && c.bools && s.chance(1, 12)) return J(!s.chance(1, 2));
    J o = J::obj();
    if (c.extra && c.extra(s, o)) return o;
    int n = depth > 0 ? s.range(0, 4) : s.range(0, 2);
    for (int i = 0; i < n; i++) addKeyword(s, c, depth, o);
    return o;
}

// ---- documents biased towards a schema
// Regular expressions with several quantifiers can take a backtracking engine exponential time
// on long strings, which is not what any of the checks is about.
inline bool backtracks(const std::string &p) {
    size_t q = 0;
    for (char ch : p) q += ch == '*' || ch == '+' || ch == '{' || ch == '?' || ch == '|';
    return q > 1;
}
inline bool backtracks(const J &schema) {
    for (auto &x : schema.a) if (backtracks(x)) return true;
    for (auto &m : schema.o) {
        if (m.first == "pattern" && m.second.isStr() && backtracks(m.second.s)) return true;
        if (m.first == "patternProperties" && m.second.isObj()) for (auto &p : m.second.o) if (backtracks(p.first)) return true;
        if (backtracks(m.second)) return true;
    }
    return false;
}
inline std::string shortened(const std::string &t) { // at a code point
    if (t.size() <= 10) return t;
    size_t n = 7;
    while (n > 0 && ((unsigned char)t[n] & 0xC0) == 0x80) n--;
    return t.substr(0, n);
}
inline J shortened(const J &v) {
    if (v.isStr()) return J(shortened(v.s));
    if (v.isNum() && jdump(v).size() > 10) return J(12.5); // weak types: numbers may be looked at as strings
    if (v.isArr()) { J r = J::arr(); for (auto &x : v.a) r.push(shortened(x)); return r; }
    if (v.isObj()) { J r = J::obj(); for (auto &m : v.o) r.set(shortened(m.first), shortened(m.second)); return r; }
    return v;
}
inline J tame(const J &schema, const J &v) { return backtracks(schema) ? shortened(v) : v; }

struct InstGen {
    Src &s;
    const Cfg &c;
    const J *root;
    std::function<const J *(const std::string &)> resolver;
    InstGen(Src &ss, const Cfg &cc, const J &r) : s(ss), c(cc), root(&r) {}

    const J *deref(const J *sc, int n = 0) {
        while (sc && sc->isObj() && sc->has("$ref") && n++ < 20) {
            const J *r = sc->get("$ref");
            if (resolver) sc = resolver(r->s);
            else if (!r->s.empty() && r->s[0] == '#') sc = RefVal::pointer(*root, r->s.substr(1), true);
            else return nullptr;
        }
        return sc;
    }
    // string matching a pattern, by sampling candidates
    std::string matching(const std::string &p) {
        static const std::vector<std::string> cand{"a", "b", "ab", "foo", "x1", "c", "1", "", "bar", "baz", "aa", "aab", "abc", "_", "a1", "b1", "cc", "ac", "foofoo", "1a", "x", "abb", "11"};
        size_t st = s.below(cand.size());
        try {
            MiniRegex r(p);
            for (size_t i = 0; i < cand.size(); i++) if (r.search(cand[(st + i) % cand.size()])) return cand[(st + i) % cand.size()];
        } catch (std::exception &) {}
        return cand[st];
    }
    J near(const J &b) {
        J r = near0(b);
        if (r.t == J::Int && (r.i > (1LL << 53) || r.i < -(1LL << 53))) return b; // keep numbers exact as doubles
        if (r.t == J::Dbl && jdouble(r.d).size() > 14) return b;
        return r;
    }
    J near0(const J &b) {
        if (b.t == J::Int) { switch (s.weighted({4, 3, 3, 2, 1})) { case 0: return b; case 1: return J((long long)((unsigned long long)b.i + 1)); case 2: return J((long long)((unsigned long long)b.i - 1)); case 3: return c.doubles ? J((double)b.i + (c.integralDoubles ? 0.0 : 0.25)) : b; default: return c.doubles && b.i < (1LL << 50) && b.i > -(1LL << 50) ? J((double)b.i + 0.5) : b; } }
        switch (s.weighted({4, 2, 2})) { case 0: return b; case 1: return J(b.d + 1 == b.d ? b.d * 2 : b.d + 1); default: return J(b.d - 1 == b.d ? b.d / 2 : b.d - 1); }
    }
    std::string ofLen(int n) {
        std::string o;
        for (int i = 0; i < n; i++) o += s.pick(std::vector<std::string>{"a", "b", "\xC3\xA9", "1", "\xE6\x97\xA5", "x", "\xF0\x9F\x98\x80"});
        return o;
    }
    J gen(const J *sc, int depth) { return tame(*root, inner(sc, depth)); }
    J inner(const J *sc, int depth) {
        sc = deref(sc);
        if (!sc || !sc->isObj() || sc->o.empty() || s.chance(1, 9)) return value(s, c, std::min(depth, 2));
        // follow a sub-schema?
        std::vector<const J *> alts;
        for (const char *k : {"allOf", "anyOf", "oneOf", "extends"}) if (const J *x = sc->get(k)) { if (x->isArr()) for (auto &y : x->a) alts.push_back(&y); else alts.push_back(x); }
        for (const char *k : {"not", "if", "then", "else"}) if (const J *x = sc->get(k)) alts.push_back(x);
        if (!alts.empty() && s.chance(1, 2)) {
            const J *ch = alts[s.below(alts.size())];
            J g = inner(ch, depth);
            // overlay members wanted by this schema
            if (g.isObj() && sc->has("properties")) { J h = typed(sc, "object", depth); for (auto &p : h.o) if (!g.has(p.first) && s.coin()) g.set(p.first, p.second); }
            return g;
        }
        if (const J *k = sc->get("const")) if (s.chance(2, 3)) return mutate(*k);
        if (const J *k = sc->get("enum")) if (k->isArr() && !k->a.empty() && s.chance(2, 3)) return mutate(k->a[s.below(k->a.size())]);
        std::vector<std::string> ts;
        if (const J *t = sc->get("type")) {
            if (t->isStr()) ts.push_back(t->s);
            else if (t->isArr()) for (auto &x : t->a) { if (x.isStr()) ts.push_back(x.s); else if (s.coin()) return inner(&x, depth - 1); }
        }
        auto hint = [&](const char *t, std::initializer_list<const char *> ks) { for (auto k : ks) if (sc->has(k)) ts.push_back(t); };
        if (ts.empty() || s.chance(1, 8)) {
            hint("number", {"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "divisibleBy"});
            hint("string", {"minLength", "maxLength", "pattern", "format"});
            hint("array", {"items", "additionalItems", "minItems", "maxItems", "uniqueItems", "contains"});
            hint("object", {"properties", "patternProperties", "additionalProperties", "required", "minProperties", "maxProperties", "propertyNames", "dependencies"});
        }
        if (ts.empty()) return value(s, c, std::min(depth, 2));
        return typed(sc, ts[s.below(ts.size())], depth);
    }
    J mutate(const J &v) {
        if (s.chance(4, 5)) {
            // equal but differently spelled?
            if (v.t == J::Int && c.doubles && c.integralDoubles && v.i < (1LL << 53) && v.i > -(1LL << 53) && s.chance(1, 4)) return J((double)v.i);
            if (v.t == J::Dbl && v.isIntegral() && std::fabs(v.d) < 1e15 && s.chance(1, 4)) return J((long long)v.d);
            if (v.t == J::Obj && v.o.size() > 1 && s.coin()) { J w = v; std::reverse(w.o.begin(), w.o.end()); return w; }
            return v;
        }
        J w = v;
        switch (w.t) {
        case J::Int: return near(w);
        case J::Dbl: return near(w);
        case J::Str: w.s += "a"; return w;
        case J::Bool: return s.coin() ? J(!w.b) : J((int)w.b);
        case J::Null: return s.coin() ? J(false) : J("");
        case J::Arr: if (!w.a.empty() && s.coin()) { w.a.pop_back(); } else w.push(scalar(s, c)); return w;
        case J::Obj: if (!w.o.empty() && s.coin()) { size_t i = s.below(w.o.size()); w.o[i].second = mutate(w.o[i].second); } else w.set(key(s, c), scalar(s, c)); return w;
        }
        return w;
    }
    J typed(const J *sc, const std::string &t, int depth) {
        if (t == "null") return J();
        if (t == "boolean") return J(s.coin());
        if (t == "number" || t == "integer") {
            std::vector<const J *> bs;
            for (const char *k : {"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"}) if (const J *b = sc->get(k)) if (b->isNum()) bs.push_back(b);
            const J *mo = sc->get("multipleOf");
            if (!mo) mo = sc->get("divisibleBy");
            if (mo && mo->isNum() && s.chance(2, 3)) {
                int k = s.range(-3, 20);
                if (mo->t == J::Int) { long long v = (long long)((unsigned long long)mo->i * (unsigned long long)(long long)k); switch (s.weighted({4, 2, 1})) { case 0: return J(v); case 1: return J((long long)((unsigned long long)v + 1)); default: return c.doubles ? J((double)v + 0.5) : J(v); } }
                // a decimal multiple, written in decimal
                Dec q; toDec(*mo, q);
                std::string txt = std::to_string((long long)((unsigned long long)q.m * (unsigned long long)(long long)k)) + "e" + std::to_string(q.e);
                double v = strtod(txt.c_str(), nullptr);
                if (s.chance(1, 3)) v += s.pick(std::vector<double>{0.5, 0.25, 0.05});
                std::string rt = jdouble(v);
                if (rt.size() > 12) return J(k);
                if (std::floor(v) == v && std::fabs(v) < 9e18 && (!c.integralDoubles || s.coin())) return J((long long)v);
                return J(v);
            }
            if (!bs.empty() && s.chance(4, 5)) return near(*bs[s.below(bs.size())]);
            return num(s, c);
        }
        if (t == "string") {
            if (const J *p = sc->get("pattern")) if (p->isStr() && s.chance(2, 3)) return J(matching(p->s));
            for (const char *k : {"minLength", "maxLength"}) if (const J *l = sc->get(k)) if (l->isNum() && l->num() < 400 && l->num() > -20 && s.chance(1, 2)) return J(ofLen(std::max(0, (int)l->num() + s.range(-1, 1))));
            return J(str(s, c));
        }
        if (t == "array") {
            J a = J::arr();
            int n = s.chance(1, 24) ? s.chance(1, 12) ? s.range(25, 270) : s.range(8, 24) : s.range(0, 4);
            for (const char *k : {"minItems", "maxItems"}) if (const J *l = sc->get(k)) if (l->isNum() && l->num() < 300 && l->num() > -20 && s.coin()) n = std::max(0, (int)l->num() + s.range(-1, 1));
            const J *it = sc->get("items"), *ad = sc->get("additionalItems"), *co = sc->get("contains");
            if (it && it->isArr() && s.coin()) n = std::max(0, (int)it->a.size() + s.range(-1, 2));
            const bool wide = n > 40; // simple items, most of them alike
            J usual = wide ? scalar(s, c) : J();
            for (int i = 0; i < n; i++) {
                if (wide && !a.a.empty() && s.chance(5, 6)) { a.push(sc->has("uniqueItems") && usual.t == J::Int && std::llabs(usual.i) < 1000 ? J(usual.i + i) : usual); continue; }
                const J *es = nullptr;
                if (it && it->isArr()) es = (size_t)i < it->a.size() ? &it->a[i] : ad;
                else if (it) es = it;
                if (co && s.chance(1, 3)) es = co;
                if (sc->has("uniqueItems") && !a.a.empty() && s.chance(1, 3)) a.push(mutate(a.a[s.below(a.a.size())]));
                else a.push(es && depth > 0 ? inner(es, depth - 1) : value(s, c, depth > 1 ? 1 : 0));
            }
            return a;
        }
        J o = J::obj();
        std::vector<std::string> want;
        const J *pr = sc->get("properties"), *pp = sc->get("patternProperties"), *ap = sc->get("additionalProperties");
        if (pr && pr->isObj()) for (auto &p : pr->o) if (s.chance(2, 3)) want.push_back(p.first);
        if (const J *r = sc->get("required")) if (r->isArr()) for (auto &x : r->a) if (x.isStr() && s.chance(5, 6)) want.push_back(x.s);
        if (pp && pp->isObj()) for (auto &p : pp->o) if (s.chance(2, 3)) want.push_back(matching(p.first));
        if (const J *dp = sc->get("dependencies")) if (dp->isObj()) for (auto &p : dp->o) if (s.coin()) {
            want.push_back(p.first);
            if (p.second.isArr()) { for (auto &x : p.second.a) if (x.isStr() && s.chance(2, 3)) want.push_back(x.s); }
            else if (p.second.isStr() && s.coin()) want.push_back(p.second.s);
            else if (p.second.isObj() && s.coin()) { J g = typed(&p.second, "object", depth - 1); for (auto &m : g.o) o.set(m.first, m.second); }
        }
        int extra = s.range(0, 2);
        for (int i = 0; i < extra; i++) want.push_back(key(s, c));
        if (s.chance(1, 24)) for (int i = s.chance(1, 12) ? s.range(25, 270) : s.range(5, 24); i > 0; i--) want.push_back("k" + std::to_string(i));
        for (const char *k : {"minProperties", "maxProperties"}) if (const J *l = sc->get(k)) if (l->isNum() && l->num() < 300 && l->num() > -20 && s.coin()) {
            std::set<std::string> have(want.begin(), want.end());
            for (auto &m : o.o) have.insert(m.first);
            for (int i = 0, w = (int)l->num() + s.range(-1, 1); (int)have.size() < w; i++) if (have.insert("k" + std::to_string(i)).second) want.push_back("k" + std::to_string(i));
        }
        if (const J *pn = sc->get("propertyNames")) if (s.coin()) { J g = inner(pn, 0); if (g.isStr()) want.push_back(g.s); }
        const bool bt = backtracks(*root);
        for (auto &k : want) {
            if (bt) k = shortened(k);
            const J *vs = nullptr;
            if (pr) vs = pr->get(k);
            if (!vs && pp) for (auto &p : pp->o) { try { if (MiniRegex(p.first).search(k)) vs = &p.second; } catch (std::exception &) {} }
            if (!vs && ap && ap->isObj()) vs = ap;
            o.set(k, vs && depth > 0 ? inner(vs, depth - 1) : value(s, c, depth > 1 ? 1 : 0));
        }
        return o;
    }
};

// Does the decimal reference apply to every multipleOf check this pair can make?
inline bool decSafe(const J &j) {
    switch (j.t) {
    case J::Dbl: return std::fabs(j.d) < 1e9 || j.d == 0;
    case J::Arr: for (auto &x : j.a) if (!decSafe(x)) return false; return true;
    case J::Obj: for (auto &x : j.o) if (!decSafe(x.second)) return false; return true;
    default: return true;
    }
}
inline bool mentions(const J &j, const std::string &k) {
    if (j.t == J::Obj) { for (auto &p : j.o) if (p.first == k || mentions(p.second, k)) return true; }
    else if (j.t == J::Arr) for (auto &x : j.a) if (mentions(x, k)) return true;
    return false;
}
inline int depthOf(const J &j) {
    int m = 0;
    if (j.t == J::Obj) for (auto &p : j.o) m = std::max(m, depthOf(p.second) + 1);
    else if (j.t == J::Arr) for (auto &x : j.a) m = std::max(m, depthOf(x) + 1);
    return m;
}
} // namespace gen
