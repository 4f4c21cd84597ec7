#include <cerrno>
// Reference validator: the JSON Schema specifications (drafts 3, 4, 7)
// implemented directly over the J model. Independent of valijson.
#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>
#include <memory>
#include <functional>
#include "glue.hpp"
#include "json.hpp"
#include "miniregex.hpp"

inline size_t codePoints(const std::string &s) {
    size_t n = 0;
    for (unsigned char c : s) if ((c & 0xC0) != 0x80) n++;
    return n;
}
inline std::string ptrEsc(const std::string &k) {
    std::string o;
    for (char c : k) { if (c == '~') o += "~0"; else if (c == '/') o += "~1"; else o += c; }
    return o;
}

// Exact decimal: value = m * 10^e
struct Dec { __int128 m; int e; };
inline bool toDec(const J &j, Dec &out) {
    if (j.t == J::Int) { out = {j.i, 0}; return true; }
    std::string s = jdouble(j.d);
    __int128 m = 0; int e = 0; bool neg = false, dot = false; int digits = 0;
    size_t i = 0;
    if (s[i] == '-') { neg = true; i++; }
    for (; i < s.size() && s[i] != 'e' && s[i] != 'E'; i++) {
        if (s[i] == '.') { dot = true; continue; }
        if (s[i] < '0' || s[i] > '9') return false;
        m = m * 10 + (s[i] - '0');
        if (++digits > 15) return false;
        if (dot) e--;
    }
    if (i < s.size()) e += atoi(s.c_str() + i + 1);
    while (m != 0 && m % 10 == 0 && e < 0) { m /= 10; e++; }
    out = {neg ? -m : m, e};
    return true;
}
// is a a multiple of b, exactly, in decimal
struct Ambiguous {}; // the reference takes no side: the case is discarded
inline bool decMultiple(const J &a, const J &b) {
    Dec x, y;
    if ((a.t == J::Dbl && std::fabs(a.d) > 9007199254740992.0) || (a.t == J::Dbl && a.d != 0 && std::fabs(a.d) < 1e-200)) {
        if (std::fabs(a.d) < 1) return false;
        throw Ambiguous{};
    }
    // beyond double precision the quotient's fraction cannot be seen
    if (!b.isIntegral() && fabsl(a.num() / b.num()) > 1e11L) throw Ambiguous{};
    if (!toDec(a, x) || !toDec(b, y)) throw Ambiguous{};
    if (y.m == 0) throw std::runtime_error("decMultiple: zero divisor");
    if (x.m == 0) return true;
    __int128 p = x.m, q = y.m;
    int d = x.e - y.e;
    if (d > 0) { if (d > 36) throw std::runtime_error("decMultiple: range"); // p*10^d mod q
        __int128 r = p % q; for (int i = 0; i < d; i++) r = (r * 10) % q; return r == 0; }
    for (int i = 0; i < -d; i++) { if (q > ((__int128)1 << 120) / 10) return false; q *= 10; }
    return p % q == 0;
}

class RefVal {
public:
    Draft d;
    const J *root;                       // document "#" refers to
    std::function<bool(const std::string &format, const std::string &)> format; // optional assertion
    std::function<const J *(const std::string &ref)> resolver;                  // optional
    std::function<bool(const std::string &pattern, const std::string &)> regex; // optional
    // optional: further assertions of a schema object, given whether a failure must be reported
    std::function<bool(const J &schema, const J &inst, const std::string &loc, bool mustReport)> custom;
    std::set<std::string> failing;       // instance locations with a failing own assertion/applied schema
    bool track = false;
    bool weak = false;                   // casts between types, as documented for kWeakTypes
    int depth = 0;
    struct TooDeep {};
    std::map<std::string, std::shared_ptr<MiniRegex>> cache;
    RefVal(Draft dd, const J &r) : d(dd), root(&r) {}

    bool matches(const std::string &pat, const std::string &s) {
        if (regex) return regex(pat, s);
        auto &r = cache[pat];
        if (!r) r = std::make_shared<MiniRegex>(pat);
        return r->search(s);
    }
    bool valid(const J &schema, const J &inst) { return v(schema, inst, ""); }

    // Locations which must be reported because they fail under conjunctive
    // application only (filled by conj()).
    std::set<std::string> must;
    bool conjunctive = true;

private:
    struct Guard { int &x; Guard(int &y) : x(y) { if (++x > 400) throw TooDeep{}; } ~Guard() { x--; } };
public:
    static bool typeIs(const std::string &t, const J &i) {
        if (t == "null") return i.t == J::Null;
        if (t == "boolean") return i.t == J::Bool;
        if (t == "number") return i.isNum();
        if (t == "integer") return i.isIntegral();
        if (t == "string") return i.t == J::Str;
        if (t == "array") return i.t == J::Arr;
        if (t == "object") return i.t == J::Obj;
        if (t == "any") return true;
        throw std::runtime_error("refval: unknown type " + t);
    }
public:
    // ---- documented casts (weak types); Ambiguous where the documentation leaves the result open
    // 1: the text is a JSON number, 0: it is certainly no number
    static int numText(const std::string &s, J &out) {
        size_t i = 0, n = s.size();
        auto digits = [&]() { size_t b = i; while (i < n && s[i] >= '0' && s[i] <= '9') i++; return i - b; };
        if (i < n && s[i] == '-') i++;
        size_t b = i, whole = digits(), frac = 0;
        bool dot = i < n && s[i] == '.';
        if (dot) { i++; frac = digits(); }
        if (whole + frac == 0) return 0;
        bool open = !whole || (dot && !frac) || (whole > 1 && s[b] == '0');
        bool ex = i < n && (s[i] == 'e' || s[i] == 'E');
        if (ex) { i++; if (i < n && (s[i] == '+' || s[i] == '-')) i++; if (!digits()) return 0; }
        if (i != n) return 0;
        if (open) throw Ambiguous{};
        double d = strtod(s.c_str(), nullptr);
        if (!std::isfinite(d) || (d == 0 && s.find_first_of("123456789") < s.find_first_of("eE"))) throw Ambiguous{};
        if (!dot && !ex) {
            errno = 0;
            long long v = strtoll(s.c_str(), nullptr, 10);
            if (errno == 0) { out = J(v); return 1; }
        }
        out = J(d);
        return 1;
    }
    const J *asNum(const J &i, J &tmp) const {
        if (i.isNum()) return &i;
        if (weak && i.t == J::Str && numText(i.s, tmp)) return &tmp;
        return nullptr;
    }
    const J *asStr(const J &i, J &tmp) const {
        if (i.t == J::Str) return &i;
        if (!weak) return nullptr;
        switch (i.t) {
        case J::Bool: tmp = J(i.b ? "true" : "false"); return &tmp;
        case J::Int: tmp = J(std::to_string(i.i)); return &tmp;
        case J::Dbl: { std::string t = jdouble(i.d); if (i.isIntegral() || t.find_first_of("eE") != t.npos) throw Ambiguous{}; tmp = J(t); return &tmp; }
        case J::Arr: if (i.a.empty()) { tmp = J(""); return &tmp; } return nullptr;
        case J::Obj: if (i.o.empty()) { tmp = J(""); return &tmp; } return nullptr;
        default: return nullptr;
        }
    }
    const J *asArr(const J &i, J &tmp) const {
        if (i.t == J::Arr) return &i;
        if (weak && i.t == J::Str && i.s.empty()) throw Ambiguous{}; // header and implementation disagree
        if (weak && i.t == J::Obj && i.o.empty()) { tmp = J::arr(); return &tmp; }
        return nullptr;
    }
    const J *asObj(const J &i, J &tmp) const {
        if (i.t == J::Obj) return &i;
        if (weak && i.t == J::Str && i.s.empty()) throw Ambiguous{};
        if (weak && i.t == J::Arr && i.a.empty()) { tmp = J::obj(); return &tmp; }
        return nullptr;
    }
    bool typeMatches(const std::string &t, const J &i) const {
        if (typeIs(t, i)) return true;
        if (!weak || i.t != J::Str) return false;
        J n;
        if (t == "null") return i.s.empty();
        if (t == "boolean") return i.s == "true" || i.s == "false";
        if (t == "number") return numText(i.s, n);
        if (t == "integer") { if (!numText(i.s, n)) return false; if (n.t == J::Dbl && n.isIntegral()) throw Ambiguous{}; return n.t == J::Int; }
        return false;
    }
    bool equal(const J &a, const J &b) const {
        if (!weak) return jeq(a, b);
        auto none = [](const J &x) { return x.t == J::Null || (x.t == J::Str && x.s.empty()); };
        auto hollow = [](const J &x) { return (x.t == J::Arr && x.a.empty()) || (x.t == J::Obj && x.o.empty()); };
        if ((none(a) && hollow(b)) || (none(b) && hollow(a))) throw Ambiguous{};
        if (none(a) || none(b)) return none(a) && none(b);
        auto truth = [](const J &x) { return x.t == J::Bool ? (int)x.b : x.t == J::Str && x.s == "true" ? 1 : x.t == J::Str && x.s == "false" ? 0 : -1; };
        if (truth(a) >= 0 || truth(b) >= 0) return truth(a) == truth(b);
        J p, q;
        const J *x = asNum(a, p), *y = asNum(b, q);
        if (x || y) {
            if (!x || !y) return false;
            if (x->t == J::Int && y->t == J::Int && x->i != y->i && (double)x->i == (double)y->i) throw Ambiguous{};
            return (double)x->num() == (double)y->num();
        }
        if (hollow(a) && hollow(b)) return true;
        if (a.t != b.t) return false;
        if (a.t == J::Str) return a.s == b.s;
        if (a.t == J::Arr) { if (a.a.size() != b.a.size()) return false; for (size_t k = 0; k < a.a.size(); k++) if (!equal(a.a[k], b.a[k])) return false; return true; }
        if (a.o.size() != b.o.size()) return false;
        for (auto &m : a.o) { const J *o = b.get(m.first); if (!o || !equal(m.second, *o)) return false; }
        return true;
    }
private:
    static uint64_t count(const J &k) { return (uint64_t)(long double)k.num(); }
    // evaluate a non-conjunctive sub-application: location failures inside are
    // possible but need not be reported
    bool quiet(const J &s, const J &i, const std::string &loc) {
        bool c = conjunctive;
        conjunctive = false;
        bool r = v(s, i, loc);
        conjunctive = c;
        return r;
    }
    // failures inside 'not' and 'if' are not failures of the document
    bool untracked(const J &s, const J &i, const std::string &loc) {
        bool t = track;
        track = false;
        bool r = v(s, i, loc);
        track = t;
        return r;
    }
    bool bad(const std::string &loc) {
        if (track) { failing.insert(loc); if (conjunctive) must.insert(loc); }
        return false;
    }
    const J *resolve(const std::string &ref) {
        if (resolver) return resolver(ref);
        if (ref.empty() || ref[0] != '#') throw std::runtime_error("refval: remote ref " + ref);
        return pointer(*root, ref.substr(1), true);
    }
public:
    static const J *pointer(const J &doc, const std::string &ptr, bool pct) {
        std::string p;
        if (pct) {
            for (size_t i = 0; i < ptr.size(); i++) {
                if (ptr[i] == '%' && i + 2 < ptr.size() + 0 && isxdigit((unsigned char)ptr[i + 1]) && isxdigit((unsigned char)ptr[i + 2])) {
                    p += (char)strtol(ptr.substr(i + 1, 2).c_str(), nullptr, 16);
                    i += 2;
                } else p += ptr[i];
            }
        } else p = ptr;
        const J *cur = &doc;
        size_t i = 0;
        if (p.empty()) return cur;
        if (p[0] != '/') return nullptr;
        while (i < p.size()) {
            size_t n = p.find('/', i + 1);
            if (n == std::string::npos) n = p.size();
            std::string tok;
            for (size_t k = i + 1; k < n; k++) {
                if (p[k] == '~' && k + 1 < n && p[k + 1] == '0') { tok += '~'; k++; }
                else if (p[k] == '~' && k + 1 < n && p[k + 1] == '1') { tok += '/'; k++; }
                else tok += p[k];
            }
            if (cur->t == J::Obj) { cur = cur->get(tok); if (!cur) return nullptr; }
            else if (cur->t == J::Arr) {
                if (tok.empty() || tok.size() > 9 || tok.find_first_not_of("0123456789") != std::string::npos || (tok.size() > 1 && tok[0] == '0')) return nullptr;
                size_t ix = (size_t)atoi(tok.c_str());
                if (ix >= cur->a.size()) return nullptr;
                cur = &cur->a[ix];
            } else return nullptr;
            i = n;
        }
        return cur;
    }
private:
    bool v(const J &s, const J &i, const std::string &loc) {
        Guard g(depth);
        if (s.t == J::Bool && d == Draft::D7) return s.b ? true : bad(loc);
        if (s.t != J::Obj) throw std::runtime_error("refval: bad schema " + jdump(s));
        if (const J *r = s.get("$ref")) {
            const J *t = resolve(r->s);
            if (!t) throw std::runtime_error("refval: dangling ref " + r->s);
            return v(*t, i, loc);
        }
        bool ok = true;
        auto A = [&](bool c) { if (!c) { ok = false; bad(loc); } };
        // sub(): applied schema whose failure makes this location fail as well
        auto sub = [&](const J &ss, const J &ii, const std::string &l) { if (!v(ss, ii, l)) { ok = false; if (track) failing.insert(loc); } };
        const bool d7 = d == Draft::D7, d3 = d == Draft::D3;

        if (const J *t = s.get("type")) {
            bool m = false;
            auto one = [&](const J &x) { if (x.t == J::Str) m = m || typeMatches(x.s, i); else m = quiet(x, i, loc) || m; };
            if (t->t == J::Arr) for (auto &x : t->a) one(x); else one(*t);
            A(m);
        }
        if (const J *e = s.get("enum")) { bool m = false; for (auto &x : e->a) m = m || equal(x, i); A(m); }
        if (d7) if (const J *c = s.get("const")) A(equal(*c, i));

        J tNum, tStr, tArr, tObj;
        auto any = [&](std::initializer_list<const char *> ks) { for (auto k : ks) if (s.has(k)) return true; return false; };
        if (any({"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "divisibleBy"})) if (const J *ip = asNum(i, tNum)) {
            const J &i = *ip;
            long double n = i.num();
            if (d7) {
                if (const J *k = s.get("minimum")) A(n >= k->num());
                if (const J *k = s.get("maximum")) A(n <= k->num());
                if (const J *k = s.get("exclusiveMinimum")) A(n > k->num());
                if (const J *k = s.get("exclusiveMaximum")) A(n < k->num());
            } else {
                if (const J *k = s.get("minimum")) { const J *x = s.get("exclusiveMinimum"); A(x && x->b ? n > k->num() : n >= k->num()); }
                if (const J *k = s.get("maximum")) { const J *x = s.get("exclusiveMaximum"); A(x && x->b ? n < k->num() : n <= k->num()); }
            }
            if (const J *k = s.get(d3 ? "divisibleBy" : "multipleOf")) A(decMultiple(i, *k));
        }
        if (i.t == J::Str) if (const J *k = s.get("format")) if (format) A(format(k->s, i.s));
        if (any({"minLength", "maxLength", "pattern"})) if (const J *ip = asStr(i, tStr)) {
            const J &i = *ip;
            if (const J *k = s.get("minLength")) A(codePoints(i.s) >= count(*k));
            if (const J *k = s.get("maxLength")) A(codePoints(i.s) <= count(*k));
            if (const J *k = s.get("pattern")) A(matches(k->s, i.s));
        }
        if (any({"minItems", "maxItems", "uniqueItems", "items", "additionalItems", "contains"})) if (const J *ip = asArr(i, tArr)) {
            const J &i = *ip;
            if (const J *k = s.get("minItems")) A(i.a.size() >= count(*k));
            if (const J *k = s.get("maxItems")) A(i.a.size() <= count(*k));
            if (const J *k = s.get("uniqueItems"))
                if (k->b) {
                    bool u = true;
                    for (size_t x = 0; x < i.a.size(); x++) for (size_t y = x + 1; y < i.a.size(); y++) if (jeq(i.a[x], i.a[y])) u = false;
                    A(u);
                }
            if (const J *k = s.get("items")) {
                if (k->t == J::Arr) {
                    for (size_t x = 0; x < i.a.size() && x < k->a.size(); x++) sub(k->a[x], i.a[x], loc + "/" + std::to_string(x));
                    if (const J *ad = s.get("additionalItems")) {
                        if (ad->t == J::Bool && !d7) { if (!ad->b) A(i.a.size() <= k->a.size()); }
                        else if (ad->t == J::Bool) { if (!ad->b) A(i.a.size() <= k->a.size()); }
                        else for (size_t x = k->a.size(); x < i.a.size(); x++) sub(*ad, i.a[x], loc + "/" + std::to_string(x));
                    }
                } else for (size_t x = 0; x < i.a.size(); x++) sub(*k, i.a[x], loc + "/" + std::to_string(x));
            }
            if (d7) if (const J *k = s.get("contains")) {
                bool m = false;
                for (size_t x = 0; x < i.a.size(); x++) m = quiet(*k, i.a[x], loc + "/" + std::to_string(x)) || m;
                A(m);
            }
        }
        if (any({"minProperties", "maxProperties", "required", "properties", "patternProperties", "additionalProperties", "propertyNames", "dependencies"})) if (const J *ip = asObj(i, tObj)) {
            const J &whole = i;
            const J &i = *ip;
            if (!d3) {
                if (const J *k = s.get("minProperties")) A(i.o.size() >= count(*k));
                if (const J *k = s.get("maxProperties")) A(i.o.size() <= count(*k));
                if (const J *k = s.get("required")) for (auto &r : k->a) A(i.has(r.s));
            }
            const J *pr = s.get("properties"), *pp = s.get("patternProperties"), *ap = s.get("additionalProperties");
            if (d3 && pr)
                for (auto &p : pr->o) {
                    const J *ps = &p.second;
                    for (int hops = 0; hops < 20 && ps && ps->has("$ref"); hops++) ps = resolve(ps->get("$ref")->s);
                    if (ps && !ps->has("$ref")) if (const J *rq = ps->get("required")) if (rq->t == J::Bool && rq->b) A(i.has(p.first));
                }
            for (auto &m : i.o) {
                bool matched = false;
                std::string l = loc + "/" + ptrEsc(m.first);
                if (pr) if (const J *ps = pr->get(m.first)) { matched = true; sub(*ps, m.second, l); }
                if (pp) for (auto &q : pp->o) if (matches(q.first, m.first)) { matched = true; sub(q.second, m.second, l); }
                if (!matched && ap) {
                    if (ap->t == J::Bool) A(ap->b);
                    else sub(*ap, m.second, l);
                }
            }
            if (d7) if (const J *k = s.get("propertyNames")) for (auto &m : i.o) { J nm(m.first); A(quiet(*k, nm, loc)); }
            if (const J *k = s.get("dependencies"))
                for (auto &p : k->o)
                    if (i.has(p.first)) {
                        if (p.second.t == J::Arr) { for (auto &r : p.second.a) A(i.has(r.s)); }
                        else if (p.second.t == J::Str && d3) A(i.has(p.second.s));
                        else if (!quiet(p.second, whole, loc)) { ok = false; if (track) failing.insert(loc); }
                    }
        }
        if (!d3) {
            if (const J *k = s.get("allOf")) for (auto &x : k->a) sub(x, i, loc);
            if (const J *k = s.get("anyOf")) { bool m = false; for (auto &x : k->a) m = quiet(x, i, loc) || m; A(m); }
            if (const J *k = s.get("oneOf")) { int m = 0; for (auto &x : k->a) m += quiet(x, i, loc); A(m == 1); }
            if (const J *k = s.get("not")) A(!untracked(*k, i, loc));
        } else if (const J *k = s.get("extends")) {
            if (k->t == J::Arr) for (auto &x : k->a) sub(x, i, loc); else sub(*k, i, loc);
        }
        if (d7) if (const J *k = s.get("if")) {
            if (untracked(*k, i, loc)) { if (const J *t = s.get("then")) { A(quiet(*t, i, loc)); } }
            else if (const J *t = s.get("else")) { A(quiet(*t, i, loc)); }
        }
        if (custom) A(custom(s, i, loc, track && conjunctive));
        return ok;
    }
};
