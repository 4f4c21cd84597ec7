// Schemas with references. A canonical document (all references are plain
// "#/pointer" into itself) gives the meaning; it is then dressed up: pointers
// respelled, $id added, definitions moved to other documents, references
// written as any equivalent URI reference. The reference validator judges the
// canonical document, the library the dressed one.
#pragma once
#include <map>
#include "common.hpp"
#include "uriref.hpp"

namespace refs {
using pbt::Src;

inline bool boolSchemas = true; // drafts before 7 have no boolean schemas, only boolean additionalItems/Properties
// every subschema below s (s itself excluded): fn(node, pointer, consuming) -> descend?
template <class F> void walk(J &s, const std::string &p, const F &fn) {
    if (!s.isObj() || s.has("$ref")) return;
    auto at = [&](J &x, const std::string &q, bool cons) { if (fn(x, q, cons)) walk(x, q, fn); };
    for (auto &m : s.o) {
        const std::string &k = m.first;
        std::string q = p + "/" + ptrEsc(k);
        J &v = m.second;
        bool cons = k == "properties" || k == "patternProperties" || k == "additionalProperties" || k == "items" || k == "additionalItems" || k == "contains" || k == "propertyNames";
        bool list = (k == "items" && v.isArr()) || k == "allOf" || k == "anyOf" || k == "oneOf" || (k == "extends" && v.isArr()) || (k == "type" && v.isArr());
        bool map = k == "properties" || k == "patternProperties" || k == "dependencies";
        bool single = k == "additionalProperties" || (k == "items" && !v.isArr()) || k == "additionalItems" || k == "contains" || k == "propertyNames" || k == "not" || k == "if" || k == "then" || k == "else" || (k == "extends" && v.isObj());
        if (list && v.isArr()) { for (size_t i = 0; i < v.a.size(); i++) if (!v.a[i].isStr()) at(v.a[i], q + "/" + std::to_string(i), cons); }
        else if (map && v.isObj()) { for (auto &x : v.o) if (x.second.isObj() || (x.second.t == J::Bool && k != "dependencies")) at(x.second, q + "/" + ptrEsc(x.first), cons); }
        else if (single && (v.isObj() || (v.t == J::Bool && boolSchemas))) at(v, q, cons);
    }
}

inline J *at(J &doc, const std::string &ptr) { return const_cast<J *>(RefVal::pointer(doc, ptr, false)); }

// Draft 3's boolean 'required' belongs to the enclosing object, which a
// referenced schema does not have
inline void dropRequired(J &j) {
    if (j.isObj()) { const J *r = j.get("required"); if (r && r->t == J::Bool) j.erase("required"); for (auto &m : j.o) dropRequired(m.second); }
    else for (auto &x : j.a) dropRequired(x);
}

struct Canon {
    J doc;
    std::vector<std::string> defs; // pointers of the definitions, "" (the root) first
    int nrefs = 0;
    bool recursive = false, chain = false;
};
inline J *put(J &doc, const std::string &container, const std::string &name, J v, std::string &ptr) {
    J *c = doc.get(container);
    if (container == "list") {
        if (!c) c = &doc.set(container, J::arr());
        ptr = "/list/" + std::to_string(c->a.size());
        return &c->push(std::move(v));
    }
    if (!c) c = &doc.set(container, J::obj());
    ptr = "/" + ptrEsc(container) + "/" + ptrEsc(name);
    return &c->set(name, std::move(v));
}
inline std::string freshName(Src &s, const J &doc, const std::string &container) {
    for (int i = 0;; i++) {
        std::string n = s.chance(1, 2) ? s.pick(gen::oddKeys()) : s.pick(gen::plainKeys());
        if (i > 4) n += std::to_string(i);
        const J *c = doc.get(container);
        if (!c || !c->isObj() || !c->has(n)) return n;
    }
}
inline const char *pickContainer(Src &s) {
    switch (s.weighted({8, 2, 2, 1})) { case 0: return "definitions"; case 1: return "list"; case 2: return "x lib"; default: return "a/b~c%"; }
}
inline Canon canon(Src &s, const gen::Cfg &cfg, int maxDefs = 4, bool rootRef = true, bool linked = false) {
    Canon c;
    boolSchemas = cfg.draft == Draft::D7;
    c.doc = gen::schema(s, cfg, s.range(0, 2));
    if (!c.doc.isObj()) c.doc = J::obj();
    if (cfg.draft == Draft::D3) dropRequired(c.doc);
    bool rr = rootRef && s.chance(1, 10);
    if (rr) c.doc = J::obj();
    int n = s.range(1, maxDefs);
    std::vector<std::pair<std::string, J>> top = c.doc.o; // root keywords, before containers
    c.defs.push_back("");
    for (int i = 0; i < n; i++) {
        std::string k = pickContainer(s), p;
        J body = gen::schema(s, cfg, s.range(0, 2));
        if (cfg.draft == Draft::D3) dropRequired(body);
        put(c.doc, k, freshName(s, c.doc, k), body, p);
        c.defs.push_back(p);
    }
    struct Pos { std::string ptr; bool cons, ref; int def; };
    std::vector<Pos> pos;
    auto isContainer = [](const std::string &k) { return k == "definitions" || k == "list" || k == "x lib" || k == "a/b~c%"; };
    // 1. choose the nodes that become references
    bool any = false;
    for (size_t d = 0; d < c.defs.size(); d++) {
        J *b = at(c.doc, c.defs[d]);
        if (d > 0 && d + 1 < c.defs.size() && s.chance(1, 8)) { *b = J::obj({{"$ref", J("")}}); any = true; continue; }
        auto pick = [&](J &x, const std::string &, bool) {
            if (s.chance(3, 10)) { x = J::obj({{"$ref", J("")}}); any = true; return false; }
            return true;
        };
        walk(*b, c.defs[d], pick);
    }
    if (rr) c.doc.set("$ref", J("")), any = true;
    if (!any) c.doc.set("properties", J::obj({{"a", J::obj({{"$ref", J("")}})}}));
    // 2. positions
    for (size_t d = 0; d < c.defs.size(); d++) {
        J *b = at(c.doc, c.defs[d]);
        pos.push_back({c.defs[d], false, b->isObj() && b->has("$ref"), (int)d});
        if (pos.back().ref) continue;
        walk(*b, c.defs[d], [&](J &x, const std::string &p, bool cons) {
            if (d == 0) for (auto &k : {"definitions", "list", "x lib"}) (void)k;
            pos.push_back({p, cons, x.isObj() && x.has("$ref"), (int)d});
            return true;
        });
    }
    (void)isContainer;
    // 3. targets. In-place references go to a later definition and not to a
    // consuming reference, so every unfolding over a finite document is finite.
    auto target = [&](const std::string &p) { return at(c.doc, p)->get("$ref")->s; };
    for (auto &p : pos) {
        if (!p.ref) continue;
        std::vector<const Pos *> cand;
        for (auto &q : pos) {
            if (p.cons ? q.ptr != p.ptr : q.def > p.def && !(q.ref && q.cons)) cand.push_back(&q);
        }
        J *r = at(c.doc, p.ptr);
        if (cand.empty()) { *r = J::obj(); if (p.ptr.empty()) return canon(s, cfg, maxDefs, false, linked); p.ref = false; continue; }
        const Pos *t = s.chance(1, 3) && p.cons ? cand[s.below(std::min<size_t>(cand.size(), 1 + c.defs.size()))] : cand[s.below(cand.size())];
        if (s.chance(1, 4)) { // one of several in a list, where the place in the list matters
            std::vector<const Pos *> lists;
            for (auto q : cand) { size_t cut = q->ptr.rfind('/'); const J *l = cut == std::string::npos ? nullptr : at(c.doc, q->ptr.substr(0, cut)); if (l && l->isArr() && l->a.size() > 1) lists.push_back(q); }
            if (!lists.empty()) t = lists[s.below(lists.size())];
        }
        // a chain of references must end
        if (t->ref) {
            std::string cur = t->ptr;
            bool cyc = false;
            for (int i = 0; i < 50; i++) {
                const J *x = at(c.doc, cur);
                if (!x || !x->isObj() || !x->has("$ref")) break;
                std::string u = x->get("$ref")->s;
                if (u.empty()) break; // not chosen yet
                cur = u.substr(1);
                if (cur == p.ptr) { cyc = true; break; }
            }
            if (cur == p.ptr) cyc = true;
            if (cyc) t = nullptr; else c.chain = true;
        }
        if (!t) { *r = J::obj(); p.ref = false; continue; }
        r->set("$ref", J("#" + t->ptr));
        c.nrefs++;
        if (t->def <= p.def) c.recursive = true;
    }
    (void)target;
    // make every definition matter: a chain of extra references through them
    if (linked) for (size_t k = 1; k < c.defs.size(); k++) {
        J *from = at(c.doc, c.defs[s.chance(2, 3) ? k - 1 : s.below(k)]);
        if (!from || !from->isObj() || from->has("$ref")) continue;
        J ref = J::obj({{"$ref", J("#" + c.defs[k])}});
        const char *all = cfg.draft == Draft::D3 ? "extends" : "allOf";
        switch (s.below(3)) {
        case 0: if (!from->has(all)) { from->set(all, J::arr({ref})); c.nrefs++; } break;
        case 1: if (!from->has("properties")) { from->set("properties", J::obj({{"a", ref}, {"foo", ref}})); c.nrefs += 2; } break;
        default: if (!from->has("items") && !from->has("additionalItems")) { from->set("items", ref); c.nrefs++; } break;
        }
    }
    return c;
}

// verdict of a canonical document: 1, 0, or -1 (no claim)
inline std::function<const J *(const std::string &)> canonResolver(const J &doc) {
    return [&doc](const std::string &r) { return RefVal::pointer(doc, r.substr(1), false); };
}
inline int reference(Draft d, const J &doc, const J &inst) {
    try { RefVal r(d, doc); r.resolver = canonResolver(doc); return r.valid(doc, inst); }
    catch (Ambiguous &) { return -1; }
    catch (RefVal::TooDeep &) { return -1; }
}
inline std::vector<J> documents(Src &s, const gen::Cfg &cfg, const J &canon) {
    std::vector<J> r;
    int n = s.range(1, 4);
    for (int i = 0; i < n; i++) { gen::InstGen g(s, cfg, canon); g.resolver = canonResolver(canon); r.push_back(g.gen(&canon, 4)); }
    return r;
}

// ---- spelling
inline std::string spellPtr(Src &s, const std::string &ptr) {
    std::string o;
    unsigned pct = s.chance(1, 3) ? 3 : 0;
    bool prev = false;
    for (unsigned char ch : ptr) {
        if ((ch & 0xC0) == 0x80) { // all bytes of a code point or none, so that the text stays UTF-8
            if (prev) { char b[8]; snprintf(b, sizeof b, "%%%02X", ch); o += b; } else o += (char)ch;
            continue;
        }
        bool must = ch == '%' || ch < 0x20 || (s.chance(1, 2) && strchr(" \"<>\\^`{|}", ch)) || (ch == '#');
        prev = false;
        if (must || (pct && ch != '/' && s.below(10) < pct)) { char b[8]; snprintf(b, sizeof b, s.coin() ? "%%%02x" : "%%%02X", ch); o += b; prev = true; }
        else o += (char)ch;
    }
    return o;
}
inline J junkSiblings(Src &s, const std::string &ref, Draft d) {
    J o = J::obj();
    bool first = s.coin();
    if (first) o.set("$ref", J(ref));
    if (s.chance(1, 3)) {
        int n = s.range(1, 2);
        for (int i = 0; i < n; i++) switch (s.below(8)) {
        case 0: o.set("type", J("null")); break;
        case 1: o.set("not", d == Draft::D4 ? J::obj() : J(true)); break;
        case 2: o.set("minimum", J("bogus")); break;
        case 3: o.set("maxLength", J(-5)); break;
        case 4: o.set("enum", J::arr({J("nothing matches this")})); break;
        case 5: o.set(d == Draft::D7 ? "$id" : "id", J(s.coin() ? "http://evil.example/else/where.json" : "evil/")); break;
        case 6: o.set("properties", J(3)); break;
        default: o.set("title", J("t")); break;
        }
    }
    if (!first) o.set("$ref", J(ref));
    return o;
}

struct Dressed {
    std::vector<J> docs;            // [0] is the main schema
    std::vector<std::string> uris;  // retrieval URI; "" for the main schema
    std::map<std::string, int> served; // every URI the fetch callback answers
    int ids = 0, names = 0, remote = 0;
    std::string text() const {
        std::string t = jdump(docs[0]);
        for (size_t i = 1; i < docs.size(); i++) t += "\n   " + uris[i] + " -> " + jdump(docs[i]);
        return t;
    }
};
struct DressCfg { bool ids = false, remotes = false, decoys = true; Draft draft = Draft::D7; bool plainPointers = false; };

inline bool under(const std::string &ptr, const std::string &root) { return ptr.compare(0, root.size(), root) == 0 && (ptr.size() == root.size() || ptr[root.size()] == '/'); }

inline std::vector<std::string> relativeSpellings(const std::string &base, const std::string &target) {
    std::vector<std::string> r;
    if (base.compare(0, 7, "http://") != 0 || target.compare(0, 7, "http://") != 0) return r;
    size_t ps = target.find('/', 7);
    if (ps == std::string::npos) return r;
    std::string path = target.substr(ps);
    std::vector<std::string> cand{path, path.substr(path.rfind('/') + 1), "./" + path.substr(path.rfind('/') + 1)};
    for (size_t i = 1; i < path.size(); i++) if (path[i - 1] == '/') { cand.push_back(path.substr(i)); cand.push_back("../" + path.substr(i)); cand.push_back("../../" + path.substr(i)); cand.push_back("x/../" + path.substr(i)); }
    for (auto &c : cand) {
        if (c.empty() || c == "/" || c.find("//") != std::string::npos) continue;
        std::string tail = c.substr(c.rfind('/') == std::string::npos ? 0 : c.rfind('/') + 1);
        if (tail == "." || tail == "..") continue;
        if (uriref::resolve(base, c) == target) r.push_back(c);
    }
    return r;
}

// nullptr-like: returns false when this canonical document cannot be dressed as asked
inline bool dress(Src &s, const Canon &c, const DressCfg &cfg, Dressed &out) {
    const char *idk = cfg.draft == Draft::D7 ? "$id" : "id";
    struct Loc { int doc; std::string ptr; };
    std::vector<Loc> loc(c.defs.size()); // where each definition lives
    out.docs.assign(1, c.doc);
    out.uris.assign(1, "");
    bool rootIsRef = c.doc.has("$ref");
    for (size_t k = 0; k < c.defs.size(); k++) loc[k] = {0, c.defs[k]};
    if (cfg.remotes) {
        static const std::vector<std::string> pool{"http://h.example/a/one.json", "http://h.example/a/b/two.json", "http://h.example/three.json", "http://other.example/a/one.json", "http://h.example/a/one.json/x", "urn:example:doc:4", "http://h.example/a/q.json?v=1"};
        int nd = s.range(1, 3);
        std::vector<std::string> p = pool;
        for (int i = 0; i < nd; i++) { size_t j = s.below(p.size()); out.docs.push_back(J::obj()); out.uris.push_back(p[j]); p.erase(p.begin() + j); }
        std::vector<bool> rootUsed(nd + 1, false);
        // definitions in 'list' keep their place unless everything after moves too: leave a hole
        for (size_t k = 1; k < c.defs.size(); k++) {
            if (!s.chance(4, 5)) continue;
            int d = s.range(1, nd);
            J body = *at(out.docs[0], c.defs[k]);
            *at(out.docs[0], c.defs[k]) = J::obj({{"type", J(7)}}); // never reached; malformed on purpose
            out.remote++;
            if (!rootUsed[d] && body.isObj() && s.coin()) {
                rootUsed[d] = true;
                for (auto &m : body.o) out.docs[d].set(m.first, m.second);
                loc[k] = {d, ""};
            } else {
                std::string cont = pickContainer(s), ptr;
                put(out.docs[d], cont, freshName(s, out.docs[d], cont), body, ptr);
                loc[k] = {d, ptr};
            }
        }
    }
    auto where = [&](const std::string &canonPtr) {
        size_t best = 0;
        for (size_t k = 1; k < c.defs.size(); k++) if (under(canonPtr, c.defs[k])) best = k;
        return Loc{loc[best].doc, loc[best].ptr + canonPtr.substr(c.defs[best].size())};
    };
    // all schema positions per document
    struct Node { int doc; std::string ptr, canonRef; };
    std::vector<Node> all;
    for (size_t k = 0; k < c.defs.size(); k++) {
        J *b = at(out.docs[loc[k].doc], loc[k].ptr);
        auto add = [&](J &x, const std::string &p) { all.push_back({loc[k].doc, p, x.isObj() && x.has("$ref") ? x.get("$ref")->s : std::string()}); };
        add(*b, loc[k].ptr);
        walk(*b, loc[k].ptr, [&](J &x, const std::string &p, bool) { add(x, p); return true; });
    }
    // does a remote document refer to the main one?
    bool needMain = false;
    for (auto &n : all) if (!n.canonRef.empty() && n.doc != 0 && where(n.canonRef.substr(1)).doc == 0) needMain = true;
    if (needMain && rootIsRef) return false;
    // resources
    struct Res { int doc; std::string ptr, uri; };
    std::vector<Res> res;
    for (size_t d = 1; d < out.docs.size(); d++) { res.push_back({(int)d, "", out.uris[d]}); out.served[out.uris[d]] = (int)d; }
    auto baseOf = [&](int doc, const std::string &ptr) -> const Res * {
        const Res *b = nullptr;
        for (auto &r : res) if (r.doc == doc && under(ptr, r.ptr) && (!b || r.ptr.size() >= b->ptr.size())) b = &r;
        return b;
    };
    std::map<std::pair<int, std::string>, std::string> name;
    int serial = 0;
    auto uniqueUri = [&](const std::string &u) { for (auto &r : res) if (r.uri == u) return false; return true; };
    if (!rootIsRef && (needMain || (cfg.ids && s.chance(2, 3)))) {
        std::string u = s.pick(std::vector<std::string>{"http://h.example/a/main.json", "http://h.example/main.json", "http://h.example/a/b/c/main.json", "urn:example:main"});
        res.push_back({0, "", u});
        out.served[u] = 0;
        out.docs[0].set(idk, J(u + (s.chance(1, 6) ? "#" : "")));
        out.ids++;
    }
    if (cfg.ids) {
        bool mainId = baseOf(0, "") != nullptr;
        std::vector<Node> order = all; // outer before inner
        std::stable_sort(order.begin(), order.end(), [](const Node &x, const Node &y) { return x.ptr.size() < y.ptr.size(); });
        for (auto &n : order) {
            if (!n.canonRef.empty() || (n.doc == 0 && n.ptr.empty())) continue;
            J *x = at(out.docs[n.doc], n.ptr);
            if (!x || !x->isObj() || x->has("$ref")) continue;
            if (n.doc > 0 && n.ptr.empty() && x->has(idk)) continue;
            if (n.ptr.find("/x lib/") == 0 || n.ptr.find("/list/") == 0 || n.ptr.find("/a~1b~0c%/") == 0) continue; // unknown keywords: identifiers there mean nothing
            if (!s.chance(1, 5)) continue;
            const Res *b = baseOf(n.doc, n.ptr);
            std::string tag = std::to_string(++serial);
            if (s.coin() && !(n.doc > 0 && n.ptr.empty())) { // location-independent name
                std::string nm = s.pick(std::vector<std::string>{"n", "name-", "A_", "x."}) + tag;
                name[{n.doc, n.ptr}] = nm;
                x->set(idk, J("#" + nm));
                out.names++;
            } else if (mainId || n.doc > 0) {
                std::string id;
                bool http = b && b->uri.compare(0, 7, "http://") == 0;
                switch (http ? s.below(6) : s.below(2)) {
                case 0: id = "http://ids.example/d/i" + tag + ".json"; break;
                case 1: id = "urn:example:i:" + tag; break;
                case 2: id = "i" + tag + ".json"; break;
                case 3: id = "sub/i" + tag + ".json"; break;
                case 4: id = "../i" + tag + ".json"; break;
                default: id = "/r/i" + tag + "/"; break;
                }
                std::string u = b ? uriref::resolve(b->uri, id) : id;
                if (!uniqueUri(u)) continue;
                res.push_back({n.doc, n.ptr, u});
                x->set(idk, J(id));
                out.ids++;
                // a relative identifier only means u below the original retrieval URI
                if (n.doc > 0 && n.ptr.empty() && id == u) out.served[u] = n.doc;
            }
        }
    }
    if (cfg.decoys && s.chance(1, 3)) for (auto &n : all) {
        if (!n.canonRef.empty() || !s.chance(1, 4) || res.empty()) continue;
        if (n.ptr.find("/x lib/") == 0 || n.ptr.find("/list/") == 0 || n.ptr.find("/a~1b~0c%/") == 0) continue;
        J *x = at(out.docs[n.doc], n.ptr);
        if (!x || !x->isObj() || x->has("$ref")) continue;
        J decoy = J::obj({{idk, J(s.pick(res).uri)}, {"not", J::obj()}});
        if (!name.empty() && s.coin()) { auto it = name.begin(); std::advance(it, s.below(name.size())); decoy.set(idk, J("#" + it->second)); }
        if (s.coin()) x->o.insert(x->o.begin(), {"default", decoy}); else x->o.insert(x->o.begin(), {"examples", J::arr({J(1), decoy})});
    }
    // references
    for (auto &n : all) {
        if (n.canonRef.empty()) continue;
        Loc t = where(n.canonRef.substr(1));
        const Res *nb = baseOf(n.doc, n.ptr);
        struct Cand { std::string uri, frag; bool isName; };
        std::vector<Cand> cs;
        auto nm = name.find({t.doc, t.ptr});
        if (t.doc == n.doc) {
            bool rootHasUri = false;
            for (auto &r : res) if (r.doc == t.doc) {
                if (r.ptr.empty()) rootHasUri = true;
                if (!under(t.ptr, r.ptr)) continue;
                cs.push_back({r.uri, t.ptr.substr(r.ptr.size()), false});
                if (nb && nb->doc == r.doc && nb->ptr == r.ptr) { cs.push_back({"", t.ptr.substr(r.ptr.size()), false}); cs.push_back(cs.back()); }
            }
            if (!rootHasUri && !nb) cs.push_back({"", t.ptr, false});
            if (nm != name.end()) {
                const Res *tb = baseOf(t.doc, t.ptr);
                if (tb) cs.push_back({tb->uri, nm->second, true});
                if ((!tb && !nb) || (tb && nb && tb->uri == nb->uri)) { cs.push_back({"", nm->second, true}); cs.push_back(cs.back()); }
            }
        } else {
            for (auto &sv : out.served) if (sv.second == t.doc) {
                cs.push_back({sv.first, t.ptr, false});
                const Res *tb = baseOf(t.doc, t.ptr);
                if (nm != name.end() && tb && tb->uri == sv.first) { cs.push_back({sv.first, nm->second, true}); cs.push_back(cs.back()); }
            }
        }
        if (cs.empty()) return false;
        const Cand &cd = cs[s.below(cs.size())];
        std::string u = cd.uri;
        if (!u.empty() && nb && s.chance(2, 3)) { auto rs = relativeSpellings(nb->uri, u); if (!rs.empty()) u = rs[s.below(rs.size())]; }
        std::string ref = u;
        if (cd.isName) ref += "#" + cd.frag;
        else if (!cd.frag.empty()) ref += "#" + (cfg.plainPointers ? cd.frag : spellPtr(s, cd.frag));
        else if (u.empty()) ref = s.chance(1, 5) ? "" : "#";
        else if (s.coin()) ref += "#";
        J *x = at(out.docs[n.doc], n.ptr);
        std::string cc = ref;
        J kept = J::obj(); // containers of other definitions stay
        for (auto &m : x->o) if (m.first != "$ref") kept.set(m.first, m.second);
        J jk = junkSiblings(s, ref, cfg.draft);
        for (auto &m : kept.o) if (!jk.has(m.first)) jk.set(m.first, m.second);
        *x = jk;
    }
    return true;
}
} // namespace refs
