// C09: URI references resolve as RFC 3986 prescribes.
#include <cstring>
#include <valijson/internal/json_reference.hpp>
#include <valijson/internal/uri.hpp>
#include "common.hpp"
#include "uriref.hpp"
using namespace pbt;
using namespace vc;
namespace vu = valijson::internal::uri;
namespace vr = valijson::internal::json_reference;

using Strs = std::vector<std::string>;
static std::string q(const std::string &s) { std::string o; jquote(o, s); return o; }

// ---- generators
static std::string pchars(Src &s, int lo, int hi, bool colon) {
    static const Strs plain{"a", "b", "g", "x", "schema", "1", "v2"};
    static const Strs odd{"-", ".", "_", "~", "!", "$", "&", "'", "(", ")", "*", "+", ",", ";", "=", "@", "%20", "%2F", "%2e", "..", "\xC3\xA9"};
    std::string o;
    int n = s.range(lo, hi);
    for (int i = 0; i < n; i++) switch (s.weighted({6, 3, 1})) {
        case 0: o += s.pick(plain); break;
        case 1: o += s.pick(odd); break;
        default: o += colon ? s.pick(Strs{":", "a:b", ":8", "://"}).substr(0, 2) : "c"; break; // never a '/'
    }
    // substr above may leave "a:" or ":/": keep segments free of '/'
    for (char &c : o) if (c == '/') c = ':';
    return o;
}
static std::string segment(Src &s, bool colon) {
    std::string o;
    switch (s.weighted({6, 4, 3})) {
    case 0: o = s.pick(Strs{"a", "b", "c", "g", "d;p", "schema.json", "x=1"}); break;
    case 1: o = pchars(s, 1, 3, colon); break;
    default: o = s.pick(Strs{"a.", ".a", "..a", "a..", "...", ".a.", "....", "%2e", "%2e%2e", ". ", "~"}); break;
    }
    if (o == "." || o == "..") o += "x";
    return o;
}
static std::string dots(Src &s) { return s.coin() ? "." : ".."; }
static std::string queryText(Src &s) {
    std::string o;
    int n = s.range(0, 3);
    for (int i = 0; i < n; i++) o += s.pick(Strs{"y", "a=b", "/", "?", "../x", "/./", "http://h/p", ":", "&", "//", "%23", "@", "urn:x-y:z", "."});
    return o;
}
static std::string fragText(Src &s) {
    std::string o;
    int n = s.range(0, 3);
    for (int i = 0; i < n; i++) o += s.pick(Strs{"s", "/definitions/a", "/", "?", "../", "://", "http://h/", "%23", ":", "~1", "foo"});
    return o;
}
static std::string schemeText(Src &s) { return s.pick(Strs{"http", "https", "file", "x", "HTTP", "a+b", "x-y.z1", "ftp"}); }
static std::string authText(Src &s) { return s.pick(Strs{"a", "example.com", "h:8080", "u@h", "u:p@h:1", "[::1]", "[2001:db8::7]:80", "a.b.c", "", "1.2.3.4"}); }
// path of an absolute base ("" or starting with '/')
static std::string dirPath(Src &s, int lo, int hi, bool dotted) {
    std::string o;
    int n = s.range(lo, hi);
    for (int i = 0; i < n; i++) o += "/" + (dotted && s.chance(1, 8) ? dots(s) : segment(s, true));
    return o;
}
struct Base { std::string text; bool hierarchical, query = false, frag = false; };
static Base base(Src &s, bool relative) {
    Base b;
    std::string p = dirPath(s, 0, 5, true);
    if (!p.empty() || relative) {
        if (s.coin() || p.empty()) p += "/" + (s.chance(1, 5) ? std::string() : segment(s, true));
        else { size_t k = p.rfind('/'); std::string last = p.substr(k + 1); if (last == "." || last == "..") p += "/f"; }
    }
    if (relative) { b.hierarchical = false; b.text = s.chance(1, 4) ? p : p.substr(1); }
    else { b.hierarchical = true; b.text = schemeText(s) + "://" + authText(s) + p; }
    if (!p.empty()) {
        if (s.chance(1, 4)) { b.query = true; b.text += "?" + queryText(s); }
        if (s.chance(1, 5)) { b.frag = true; b.text += "#" + fragText(s); }
    }
    return b;
}
static std::string urnText(Src &s) {
    std::string o = s.pick(Strs{"urn:", "URN:", "urn:", "Urn:"});
    o += s.pick(Strs{"isbn", "mvn", "example", "x-1", "a0", "uuid", "ABCDEFGHIJKLMNOPQRSTUVWXYZ012345"}) + ":";
    o += pchars(s, 1, 3, true);
    for (size_t i = 0; i < o.size(); i++) if ((unsigned char)o[i] & 0x80) o[i] = 'e';
    if (s.chance(1, 3)) o += ":" + std::string("x/y");
    if (s.chance(1, 5)) o += s.coin() ? "?+r" : "?=q=1";
    if (s.chance(1, 4)) o += "#" + s.pick(Strs{"", "/a", "f", "foo:bar"});
    return o;
}
static std::string ref(Src &s, const Base &b) {
    switch (s.weighted({10, 3, 2, 2, 2, 1})) {
    case 0: case 1: { // a path
        std::string o;
        int lead = s.weighted({4, 3, 2});
        if (lead == 1) { int n = s.range(1, 4); for (int i = 0; i < n; i++) o += dots(s) + "/"; }
        if (lead == 2) o += "/";
        int n = s.range(0, 4);
        for (int i = 0; i < n; i++) o += (s.chance(1, 4) ? dots(s) : segment(s, !o.empty())) + "/";
        if (s.chance(4, 5) || o.empty()) o += segment(s, o.find('/') != std::string::npos);
        if (s.chance(1, 4)) o += "?" + queryText(s);
        if (s.chance(1, 4)) o += "#" + fragText(s);
        return o;
    }
    case 2: return "?" + queryText(s) + (s.coin() ? "#" + fragText(s) : "");
    case 3: return b.query ? std::string("f") : "#" + fragText(s);
    case 4: return schemeText(s) + "://" + authText(s) + dirPath(s, 0, 3, false) + (s.coin() ? "?" + queryText(s) : "") + (s.coin() ? "#" + fragText(s) : "");
    default: return urnText(s);
    }
}
static bool absoluteRef(const std::string &r) { size_t p = r.find("://"); return uriref::split(r).hasScheme && p != std::string::npos && p == uriref::split(r).scheme.size(); }

static void resolveCase(Ctx &c, bool relative) {
    Src &s = c.s;
    Base b = base(s, relative);
    std::string r = ref(s, b), want;
    auto sp = uriref::split(r);
    if (sp.hasScheme && !absoluteRef(r) && r.compare(0, 4, "urn:") && r.compare(0, 4, "URN:") && r.compare(0, 4, "Urn:")) c.discard(); // g:h
    if (!sp.hasScheme && sp.hasAuth) c.discard();
    if (relative && uriref::split(b.text).hasScheme) c.discard(); // "x:y/z" is not relative
    if (b.hierarchical && uriref::split(b.text).path.empty() && !sp.hasScheme && sp.path.empty()) c.discard(); // "http://a" and "http://a/" are equivalent
    if (absoluteRef(r) || sp.hasScheme) want = r;
    else if (!relative) want = uriref::resolve(b.text, r);
    else {
        // relative bases: as if rooted somewhere, as long as nothing climbs out
        std::string pre = b.text[0] == '/' ? "x://h" : "x://h/q/";
        std::string full = uriref::resolve(pre + b.text, r), other = uriref::resolve((b.text[0] == '/' ? "x://h" : "x://h/q/q/") + b.text, r);
        if (full.compare(0, pre.size(), pre)) c.discard();
        want = full.substr(pre.size());
        if (b.text[0] != '/') {
            if (r[0] == '/') want = "/" + uriref::resolve("x://h/", r).substr(6);
            else if (other != "x://h/q/q/" + want) c.discard();
            if (uriref::split(want).path.empty()) c.discard(); // collapses to nothing
        }
    }
    c.desc = "base " + q(b.text) + " reference " + q(r);
    c.key = c.desc;
    c.nontrivial = true;
    c.label(sp.hasScheme ? "absolute" : r[0] == '?' ? "query" : r[0] == '#' ? "fragment" : r[0] == '/' ? "path-absolute" : "path-relative");
    std::string got = vu::resolveRelativeUri(b.text, r);
    if (got != want) c.fail("resolves to " + q(got) + " but RFC 3986 gives " + q(want));
    std::string again = vu::resolveRelativeUri(b.text, got);
    if (!relative && again != got) c.fail("the result " + q(got) + " is not a fixed point: " + q(again));
    // the split of the reference loses nothing
    auto u = vr::getJsonReferenceUri(r);
    auto p = vr::getJsonReferencePointer(r);
    size_t h = r.find('#');
    std::string wu = r.substr(0, h);
    if (u.has_value() != !wu.empty() || (u && *u != wu)) c.fail("the document part of the reference is " + (u ? q(*u) : "absent"));
    if (p.has_value() != (h != std::string::npos) || (p && *p != r.substr(h + 1))) c.fail("the fragment of the reference is " + (p ? q(*p) : "absent"));
}

// ---- classification
// 1 urn, 0 not, -1 not decided by the property
static int urnModel(const std::string &t) {
    auto al = [](char c) { return uriref::alpha(c) || uriref::digit(c); };
    if (t.size() < 4 || (t[0] | 32) != 'u' || (t[1] | 32) != 'r' || (t[2] | 32) != 'n' || t[3] != ':') return 0;
    size_t e = t.find(':', 4);
    if (e == std::string::npos) return 0;
    std::string nid = t.substr(4, e - 4), rest = t.substr(e + 1);
    if (nid.size() < 2 || nid.size() > 32 || !al(nid.front()) || !al(nid.back())) return 0;
    for (char c : nid) if (!al(c) && c != '-') return 0;
    if (nid.size() == 3 && (nid[0] | 32) == 'u' && (nid[1] | 32) == 'r' && (nid[2] | 32) == 'n') return -1;
    std::string frag, query;
    size_t h = rest.find('#');
    if (h != std::string::npos) { frag = rest.substr(h + 1); rest.erase(h); }
    size_t k = rest.find('?');
    bool hasQ = k != std::string::npos;
    if (hasQ) { query = rest.substr(k + 1); rest.erase(k); }
    auto chars = [&](const std::string &x, const char *more) {
        for (size_t i = 0; i < x.size(); i++) {
            if (x[i] == '%') { if (i + 2 >= x.size() || !isxdigit((unsigned char)x[i + 1]) || !isxdigit((unsigned char)x[i + 2])) return false; i += 2; continue; }
            if (!x[i] || (!al(x[i]) && !strchr("-._~!$&'()*+,;=:@", x[i]) && !strchr(more, x[i]))) return false;
        }
        return true;
    };
    if (rest.empty() || rest[0] == '/' || !chars(rest, "/") || !chars(frag, "/?")) return 0;
    if (hasQ) {
        if (!chars(query, "/?")) return 0;
        if (query.size() < 2 || (query[0] != '+' && query[0] != '=')) return -1; // a query, but not an RFC 8141 component
        if (query.find("?=") != std::string::npos || query.find("?+") != std::string::npos || query[1] == '/' || query[1] == '?') return -1;
    }
    return 1;
}
static void classify(Ctx &c) {
    Src &s = c.s;
    std::string t;
    switch (s.weighted({4, 4, 3, 2})) {
    case 0: t = urnText(s); break;
    case 1: t = schemeText(s) + "://" + authText(s) + dirPath(s, 0, 2, true); break;
    case 2: { Base b = base(s, s.coin()); t = ref(s, b); break; }
    default: { int n = s.range(0, 6); for (int i = 0; i < n; i++) t += s.pick(Strs{"a", "1", ":", "/", "://", "?", "#", "urn", "+", "-", ".", "%", "//", " ", "_"}); }
    }
    int n = s.coin() ? 0 : s.range(1, 3);
    for (int i = 0; i < n; i++) {
        size_t at = s.below(t.size() + 1);
        std::string bit = s.pick(Strs{":", "-", "#", "?", "/", "://", "a", "1", "%", "%4", "%41", "\\", "\"", "<", " ", "@", "_", ".", "+", "urn:", std::string("\0", 1), "\xC3\xA9", "::", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "\n", "^", "|", "[", "{"});
        switch (s.below(3)) {
        case 0: t.insert(at, bit); break;
        case 1: if (at < t.size()) t.erase(at, 1 + s.below(3)); break;
        default: if (at < t.size()) t.replace(at, 1, bit); break;
        }
    }
    c.desc = q(t);
    c.key = t;
    c.nontrivial = t.find(':') != std::string::npos;
    auto sp = uriref::split(t);
    bool abs = sp.hasScheme && t.compare(sp.scheme.size(), 3, "://") == 0;
    if (abs) c.label("absolute");
    if (vu::isUriAbsolute(t) != abs) c.fail(std::string("isUriAbsolute gives ") + (abs ? "false" : "true") + " for " + q(t));
    int u = urnModel(t);
    if (u == 1) c.label("urn");
    if (u >= 0 && vu::isUrn(t) != (u == 1)) c.fail(std::string("isUrn gives ") + (u ? "false" : "true") + " for " + q(t));
}

// ---- what the fetch callback of a schema is asked for
static void endToEnd(Ctx &c) {
    Src &s = c.s;
    Base b = base(s, false);
    if (b.frag) { b.text.erase(b.text.find('#')); b.frag = false; }
    std::string r;
    bool urn = false;
    for (int i = 0; i < 20; i++) {
        r = ref(s, b);
        auto sp = uriref::split(r);
        urn = sp.hasScheme && !absoluteRef(r);
        if (urn && urnModel(r) != 1) { r = "g"; continue; }
        if ((sp.hasScheme && !absoluteRef(r) && !urn) || (!sp.hasScheme && sp.hasAuth) || (sp.path.empty() && !sp.hasQuery && !sp.hasAuth)) { r = "g"; continue; }
        break;
    }
    if (b.text.empty() || uriref::split(r).path.empty()) if (r[0] != '?' && !absoluteRef(r)) r = "g";
    urn = uriref::split(r).hasScheme && !absoluteRef(r);
    size_t h = r.find('#');
    std::string doc = r.substr(0, h);
    std::string want = absoluteRef(doc) || urn ? doc : uriref::resolve(b.text, doc);
    if (want == b.text || (uriref::split(b.text).path.empty() && r[0] == '?')) c.discard();
    r = doc + (s.coin() ? "" : s.coin() ? "#" : "#/definitions/x");
    bool nested = s.coin();
    J leaf = J::obj({{"$ref", J(r)}});
    J schema;
    std::string first = b.text;
    Base mid;
    if (nested && s.coin()) { // a base made of two identifiers
        std::string rel = ref(s, b);
        auto sp = uriref::split(rel);
        if (!sp.hasScheme && !sp.hasAuth && !sp.path.empty() && !sp.hasFrag) {
            std::string full = uriref::resolve(b.text, rel);
            std::string w2 = absoluteRef(doc) || urn ? doc : uriref::resolve(full, doc);
            auto fs = uriref::split(full);
            if (!fs.path.empty() && w2 != full && w2 != b.text && full != b.text) {
                want = w2;
                leaf = J::obj({{"$id", J(rel)}, {"allOf", J::arr({leaf})}});
            }
        }
    }
    schema = J::obj({{"$id", J(first)}, {"allOf", J::arr({leaf})}});
    c.desc = jdump(schema);
    c.key = c.desc;
    c.nontrivial = true;
    c.label(urn ? "urn" : absoluteRef(doc) ? "absolute" : "relative");
    const Lib &lib = libRapid();
    DocPtr dp = lib.load(jdump(schema));
    if (!dp) throw Fail{"harness: cannot load " + jdump(schema)};
    std::vector<std::string> asked;
    std::map<const void *, DocPtr> live;
    FetchCb cb;
    cb.fetch = [&](const std::string &u) -> DocPtr {
        asked.push_back(u);
        DocPtr p = lib.load("{\"definitions\":{\"x\":{\"type\":\"integer\"}},\"type\":\"integer\"}");
        live[p.get()] = p;
        return p;
    };
    cb.freed = [&](const void *p) { live.erase(p); };
    valijson::Schema out;
    try { lib.parseFetch(dp.get(), Draft::D7, out, cb); } catch (std::exception &e) { c.fail(std::string("rejected: ") + e.what()); }
    std::string got;
    for (auto &u : asked) got += " " + q(u);
    if (asked.size() != 1 || asked[0] != want) c.fail("the documents requested are" + got + " but the reference designates " + q(want));
    auto v = lib.validator({});
    DocPtr one = lib.load("1"), str = lib.load("\"x\"");
    if (!v->validate(out, one.get(), nullptr) || v->validate(out, str.get(), nullptr)) c.fail("the fetched document is not applied");
}

// ---- any strings at all, short or huge
static std::string anyText(Src &s, bool huge) {
    std::string o;
    int n = s.range(0, 8);
    for (int i = 0; i < n; i++) {
        std::string bit = s.pick(Strs{"/", "..", ".", "../", "./", "a", ":", "://", "#", "?", "urn:", "urn:ab:", "%", "//", "\\", std::string("\0", 1), "\xFF", "@", "x/", "/../", "-"});
        size_t times = huge && s.chance(1, 3) ? 1 + s.below(60000) : 1 + s.below(3);
        for (size_t k = 0; k < times; k++) o += bit;
    }
    return o;
}
static void total(Ctx &c, bool huge) {
    std::string a = anyText(c.s, huge), b = anyText(c.s, huge);
    c.key = std::to_string(hashStr(a)) + std::to_string(hashStr(b));
    c.desc = "base " + q(a.substr(0, 200)) + " reference " + q(b.substr(0, 200)) + (huge ? " (cut)" : "");
    c.nontrivial = !a.empty() && !b.empty();
    std::string r = vu::resolveRelativeUri(a, b);
    vu::isUriAbsolute(r), vu::isUrn(r), vu::isUrn(a), vu::isUrn(b);
    if (r.size() > a.size() + b.size() + 2) c.fail("the result is longer than base and reference together");
    // every '..' that remains is at the start of a relative path
    auto u = vr::getJsonReferenceUri(b);
    auto p = vr::getJsonReferencePointer(b);
    if ((u ? *u : "") + (p ? "#" + *p : "") != b) c.fail("splitting the reference loses something");
    if (b.empty() && r != a) c.fail("an empty reference changes the base");
}

int main(int argc, char **argv) {
    Check ck;
    ck.id = "C09";
    ck.rule = "'absolute'/'relative': random hierarchical bases (schemes, authorities with ports, user information and IPv6 literals, dotted paths, queries and fragments full of delimiters) and references (paths with dot segments, queries, fragments, absolute URIs, URNs), resolved by the library and by an independent RFC 3986 section 5.2 implementation; "
              "'classify': URNs, absolute URIs and mutants of them against the RFC 8141/3986 grammars; 'fetch': the URI a schema's fetch callback is asked for under one or two nested $id; 'total'/'huge': arbitrary strings of up to half a megabyte (termination, no memory error, splitting loses nothing). Non-trivial: a judged pair, or a string with a colon; distinct by text.";
    ck.assumptions = {"excluded, as uri.md documents them: scheme-only references (g:h), network-path references (//g), fragment-only references on a base with a query, terminal '.' and '..', empty segments, empty references, an authority followed at once by ? or #, non-hierarchical bases", "query- and fragment-only references on a base without a path (the result may name the equivalent '/')",
                      "absolute references are kept verbatim (uri.md, last section)", "relative bases are judged while nothing climbs above them", "URN queries that are not RFC 8141 components, and the namespace 'urn', are not judged"};
    ck.subs.push_back({"absolute", 900000, 20000000, [](Ctx &c) { resolveCase(c, false); }});
    ck.subs.push_back({"relative", 500000, 10000000, [](Ctx &c) { resolveCase(c, true); }});
    ck.subs.push_back({"classify", 900000, 20000000, classify});
    ck.subs.push_back({"fetch", 150000, 3000000, endToEnd});
    ck.subs.push_back({"total", 400000, 8000000, [](Ctx &c) { total(c, false); }});
    ck.subs.push_back({"huge", 400, 8000, [](Ctx &c) { total(c, true); }, 60});
    return runMain(argc, argv, ck);
}
