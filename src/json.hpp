// Independent JSON value model used by generators, oracles and replay files.
// Shares no code with valijson or with any of the JSON libraries under test.
#pragma once
#include <cstdint>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <string>
#include <utility>
#include <vector>
#include <stdexcept>
#include <algorithm>

struct J {
    enum T { Null, Bool, Int, Dbl, Str, Arr, Obj };
    T t = Null;
    bool b = false;
    int64_t i = 0;
    double d = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;

    J() = default;
    J(std::nullptr_t) {}
    J(bool v) : t(Bool), b(v) {}
    J(int v) : t(Int), i(v) {}
    J(long v) : t(Int), i(v) {}
    J(long long v) : t(Int), i(v) {}
    J(unsigned v) : t(Int), i(v) {}
    J(double v) : t(Dbl), d(v) {}
    J(const char *v) : t(Str), s(v) {}
    J(std::string v) : t(Str), s(std::move(v)) {}
    // number with a particular spelling
    static J raw(std::string text) { J j(strtod(text.c_str(), nullptr)); j.s = std::move(text); return j; }
    static J arr() { J j; j.t = Arr; return j; }
    static J arr(std::vector<J> v) { J j; j.t = Arr; j.a = std::move(v); return j; }
    static J obj() { J j; j.t = Obj; return j; }
    static J obj(std::vector<std::pair<std::string, J>> v) { J j; j.t = Obj; j.o = std::move(v); return j; }

    bool isNum() const { return t == Int || t == Dbl; }
    bool isStr() const { return t == Str; }
    bool isArr() const { return t == Arr; }
    bool isObj() const { return t == Obj; }
    // mathematically an integer (JSON Schema sense)
    bool isIntegral() const { return t == Int || (t == Dbl && std::isfinite(d) && std::floor(d) == d); }
    long double num() const { return t == Int ? (long double)i : (long double)d; }

    const J *get(const std::string &k) const {
        if (t != Obj) return nullptr;
        for (auto &p : o) if (p.first == k) return &p.second;
        return nullptr;
    }
    J *get(const std::string &k) {
        if (t != Obj) return nullptr;
        for (auto &p : o) if (p.first == k) return &p.second;
        return nullptr;
    }
    bool has(const std::string &k) const { return get(k) != nullptr; }
    J &set(const std::string &k, J v) {
        if (t != Obj) { *this = obj(); }
        for (auto &p : o) if (p.first == k) { p.second = std::move(v); return p.second; }
        o.emplace_back(k, std::move(v));
        return o.back().second;
    }
    void erase(const std::string &k) {
        for (size_t n = 0; n < o.size(); n++) if (o[n].first == k) { o.erase(o.begin() + n); return; }
    }
    J &push(J v) { a.push_back(std::move(v)); return a.back(); }
};

// JSON value equality: numbers by mathematical value, objects as unordered maps.
inline bool jeq(const J &x, const J &y) {
    if (x.isNum() && y.isNum()) return x.num() == y.num();
    if (x.t != y.t) return false;
    switch (x.t) {
    case J::Null: return true;
    case J::Bool: return x.b == y.b;
    case J::Str: return x.s == y.s;
    case J::Arr:
        if (x.a.size() != y.a.size()) return false;
        for (size_t n = 0; n < x.a.size(); n++) if (!jeq(x.a[n], y.a[n])) return false;
        return true;
    case J::Obj:
        if (x.o.size() != y.o.size()) return false;
        for (auto &p : x.o) { const J *q = y.get(p.first); if (!q || !jeq(p.second, *q)) return false; }
        return true;
    default: return false;
    }
}

inline void jquote(std::string &out, const std::string &s) {
    out += '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { out += '\\'; out += (char)c; }
        else if (c == '\n') out += "\\n";
        else if (c == '\t') out += "\\t";
        else if (c < 0x20 || c == 0x7f) { char buf[8]; snprintf(buf, sizeof buf, "\\u%04x", c); out += buf; }
        else out += (char)c;
    }
    out += '"';
}
// Text of a double that every library reads back as the same double and as a
// floating point number (it always has '.', or an exponent).
inline std::string jdouble(double d) {
    char buf[64];
    for (int p = 1; p <= 17; p++) { snprintf(buf, sizeof buf, "%.*g", p, d); if (strtod(buf, nullptr) == d) break; }
    std::string s = buf;
    if (s.find_first_of(".eEn") == std::string::npos) s += ".0";
    else if (s.find('.') == std::string::npos && s.find('e') != std::string::npos) s.insert(s.find('e'), ".0");
    return s;
}
inline void jdump(std::string &out, const J &j) {
    switch (j.t) {
    case J::Null: out += "null"; break;
    case J::Bool: out += j.b ? "true" : "false"; break;
    case J::Int: out += std::to_string(j.i); break;
    case J::Dbl: out += j.s.empty() ? jdouble(j.d) : j.s; break;
    case J::Str: jquote(out, j.s); break;
    case J::Arr: {
        out += '[';
        bool f = true;
        for (auto &e : j.a) { if (!f) out += ','; f = false; jdump(out, e); }
        out += ']';
        break;
    }
    case J::Obj: {
        out += '{';
        bool f = true;
        for (auto &p : j.o) { if (!f) out += ','; f = false; jquote(out, p.first); out += ':'; jdump(out, p.second); }
        out += '}';
        break;
    }
    }
}
inline std::string jdump(const J &j) { std::string s; jdump(s, j); return s; }

// Minimal strict JSON parser (for replay files and fixed cases).
struct JParser {
    const char *p, *e;
    [[noreturn]] void bad() { throw std::runtime_error("json parse error"); }
    void ws() { while (p < e && strchr(" \t\r\n", *p) && *p) p++; }
    static void utf8(std::string &o, unsigned c) {
        if (c < 0x80) o += (char)c;
        else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
        else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    }
    unsigned hex4() {
        unsigned v = 0;
        for (int n = 0; n < 4; n++) {
            if (p >= e) bad();
            char c = *p++;
            v = v * 16 + (c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : (bad(), 0));
        }
        return v;
    }
    std::string str() {
        if (p >= e || *p != '"') bad();
        p++;
        std::string o;
        while (p < e && *p != '"') {
            if (*p == '\\') {
                p++;
                if (p >= e) bad();
                char c = *p++;
                switch (c) {
                case 'n': o += '\n'; break; case 't': o += '\t'; break; case 'r': o += '\r'; break;
                case 'b': o += '\b'; break; case 'f': o += '\f'; break;
                case '"': case '\\': case '/': o += c; break;
                case 'u': {
                    unsigned v = hex4();
                    if (v >= 0xD800 && v < 0xDC00 && e - p >= 6 && p[0] == '\\' && p[1] == 'u') { p += 2; unsigned w = hex4(); v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00); }
                    utf8(o, v);
                    break;
                }
                default: bad();
                }
            } else o += *p++;
        }
        if (p >= e) bad();
        p++;
        return o;
    }
    J val() {
        ws();
        if (p >= e) bad();
        if (*p == '{') {
            J j = J::obj();
            p++; ws();
            if (p < e && *p == '}') { p++; return j; }
            for (;;) {
                ws();
                std::string k = str();
                ws();
                if (p >= e || *p != ':') bad();
                p++;
                J v = val();
                j.o.emplace_back(std::move(k), std::move(v));
                ws();
                if (p < e && *p == ',') { p++; continue; }
                if (p < e && *p == '}') { p++; return j; }
                bad();
            }
        }
        if (*p == '[') {
            J j = J::arr();
            p++; ws();
            if (p < e && *p == ']') { p++; return j; }
            for (;;) {
                j.a.push_back(val());
                ws();
                if (p < e && *p == ',') { p++; continue; }
                if (p < e && *p == ']') { p++; return j; }
                bad();
            }
        }
        if (*p == '"') return J(str());
        auto lit = [&](const char *s) { size_t n = strlen(s); if ((size_t)(e - p) >= n && !memcmp(p, s, n)) { p += n; return true; } return false; };
        if (lit("true")) return J(true);
        if (lit("false")) return J(false);
        if (lit("null")) return J();
        const char *q = p;
        bool dbl = false;
        while (p < e && strchr("+-0123456789.eE", *p) && *p) { if (strchr(".eE", *p)) dbl = true; p++; }
        if (p == q) bad();
        std::string n(q, p);
        if (dbl) return J(strtod(n.c_str(), nullptr));
        return J((long long)strtoll(n.c_str(), nullptr, 10));
    }
};
inline J jparse(const std::string &s) {
    JParser q{s.data(), s.data() + s.size()};
    J j = q.val();
    q.ws();
    if (q.p != q.e) q.bad();
    return j;
}
