// Small independent regular expression matcher (backtracking, bytes) for the
// ECMAScript subset the generators emit. Used only as an oracle.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <stdexcept>

struct MiniRegex {
    struct N {
        enum K { Cls, Cat, Alt, Rep, Bol, Eol } k;
        bool set[256] = {false};
        std::vector<std::unique_ptr<N>> c;
        int lo = 0, hi = -1;
    };
    std::unique_ptr<N> root;
    const char *p = nullptr, *e = nullptr;
    explicit MiniRegex(const std::string &s) : p(s.data()), e(s.data() + s.size()) {
        root = alt();
        if (p != e) throw std::runtime_error("miniregex: trailing input in /" + s + "/");
    }
    using P = std::unique_ptr<N>;
    static P mk(N::K k) { P n(new N); n->k = k; return n; }
    P alt() {
        P n = mk(N::Alt);
        n->c.push_back(cat());
        while (p < e && *p == '|') { p++; n->c.push_back(cat()); }
        return n;
    }
    P cat() {
        P n = mk(N::Cat);
        while (p < e && *p != '|' && *p != ')') n->c.push_back(rep());
        return n;
    }
    P rep() {
        P a = atom();
        while (p < e && (*p == '*' || *p == '+' || *p == '?' || *p == '{')) {
            P r = mk(N::Rep);
            char ch = *p++;
            if (ch == '*') { r->lo = 0; r->hi = -1; }
            else if (ch == '+') { r->lo = 1; r->hi = -1; }
            else if (ch == '?') { r->lo = 0; r->hi = 1; }
            else {
                auto num = [&]() { int v = 0; bool any = false; while (p < e && *p >= '0' && *p <= '9') { v = v * 10 + (*p++ - '0'); any = true; if (v > 10000) throw std::runtime_error("miniregex: large quantifier"); } if (!any) throw std::runtime_error("miniregex: bad quantifier"); return v; };
                r->lo = num();
                r->hi = r->lo;
                if (p < e && *p == ',') { p++; if (p < e && *p == '}') r->hi = -1; else r->hi = num(); }
                if (p >= e || *p != '}') throw std::runtime_error("miniregex: bad quantifier");
                p++;
            }
            r->c.push_back(std::move(a));
            a = std::move(r);
        }
        return a;
    }
    static void esc(char c, bool *set) {
        auto addIf = [&](std::function<bool(int)> f) { for (int n = 0; n < 256; n++) if (f(n)) set[n] = true; };
        auto dig = [](int n) { return n >= '0' && n <= '9'; };
        auto wrd = [](int n) { return (n >= '0' && n <= '9') || (n >= 'a' && n <= 'z') || (n >= 'A' && n <= 'Z') || n == '_'; };
        auto spc = [](int n) { return n == ' ' || (n >= 9 && n <= 13); };
        switch (c) {
        case 'd': addIf(dig); break;
        case 'D': addIf([&](int n) { return !dig(n); }); break;
        case 'w': addIf(wrd); break;
        case 'W': addIf([&](int n) { return !wrd(n); }); break;
        case 's': addIf(spc); break;
        case 'S': addIf([&](int n) { return !spc(n); }); break;
        case 't': set[9] = true; break;
        case 'n': set[10] = true; break;
        default: set[(unsigned char)c] = true;
        }
    }
    P atom() {
        char c = *p++;
        if (c == '(') {
            if (e - p >= 2 && p[0] == '?' && p[1] == ':') p += 2;
            P n = alt();
            if (p >= e || *p != ')') throw std::runtime_error("miniregex: )");
            p++;
            return n;
        }
        if (c == '^') return mk(N::Bol);
        if (c == '$') return mk(N::Eol);
        P n = mk(N::Cls);
        if (c == '.') { for (int i = 0; i < 256; i++) n->set[i] = i != '\n' && i != '\r'; return n; }
        if (c == '\\') { if (p >= e) throw std::runtime_error("miniregex: \\"); esc(*p++, n->set); return n; }
        if (c == '[') {
            bool neg = false;
            if (p < e && *p == '^') { neg = true; p++; }
            while (p < e && *p != ']') {
                if (*p == '\\') { p++; esc(*p++, n->set); continue; }
                unsigned char a = (unsigned char)*p++;
                if (e - p >= 2 && *p == '-' && p[1] != ']') { p++; unsigned char b = (unsigned char)*p++; for (int i = a; i <= b; i++) n->set[i] = true; }
                else n->set[a] = true;
            }
            if (p >= e) throw std::runtime_error("miniregex: ]");
            p++;
            if (neg) for (bool &b : n->set) b = !b;
            return n;
        }
        n->set[(unsigned char)c] = true;
        return n;
    }
    using K = std::function<bool(size_t)>;
    static bool m(const N &n, const std::string &s, size_t i, const K &k) {
        switch (n.k) {
        case N::Bol: return i == 0 && k(i);
        case N::Eol: return i == s.size() && k(i);
        case N::Cls: return i < s.size() && n.set[(unsigned char)s[i]] && k(i + 1);
        case N::Alt: for (auto &c : n.c) if (m(*c, s, i, k)) return true; return false;
        case N::Cat: return cat(n, 0, s, i, k);
        case N::Rep: return rep(n, 0, s, i, k);
        }
        return false;
    }
    static bool cat(const N &n, size_t ix, const std::string &s, size_t i, const K &k) {
        if (ix == n.c.size()) return k(i);
        return m(*n.c[ix], s, i, [&](size_t j) { return cat(n, ix + 1, s, j, k); });
    }
    static bool rep(const N &n, int cnt, const std::string &s, size_t i, const K &k) {
        if (cnt < n.lo) return m(*n.c[0], s, i, [&](size_t j) { return rep(n, cnt + 1, s, j, k); });
        if (k(i)) return true;
        if (n.hi >= 0 && cnt >= n.hi) return false;
        return m(*n.c[0], s, i, [&](size_t j) { return j != i && rep(n, cnt + 1, s, j, k); });
    }
    bool search(const std::string &s) const {
        for (size_t i = 0; i <= s.size(); i++) if (m(*root, s, i, [](size_t) { return true; })) return true;
        return false;
    }
};
