// Annotations, unknown keywords, member order and logically equivalent
// rewritings never change a verdict.
#include "common.hpp"
using namespace vc;

static const std::vector<const Lib *> &strictLibs() { static const std::vector<const Lib *> v{&libRapid(), &libNlohmann(), &libPico(), &libBoostJson()}; return v; }

struct Editor {
    Src &s; gen::Cfg &cfg; Draft d;
    int annotations = 0, orders = 0, logical = 0, fresh = 0;
    std::set<std::string> kinds{};
    struct Pos { J *j; bool root, prop; int depth; };
    bool d3() const { return d == Draft::D3; }
    bool d7() const { return d == Draft::D7; }

    // every position that holds a schema
    void positions(J &j, bool root, bool prop, int depth, std::vector<Pos> &out) {
        if (!j.isObj() && !(d7() && j.t == J::Bool)) return;
        out.push_back({&j, root, prop, depth});
        if (!j.isObj()) return;
        if (j.has("$ref")) { if (root) if (J *x = j.get("definitions")) for (auto &m : x->o) positions(m.second, false, false, depth + 1, out); return; }
        for (auto &m : j.o) {
            const std::string &k = m.first;
            auto is = [&](std::initializer_list<const char *> l) { for (auto x : l) if (k == x) return true; return false; };
            if (is({"properties", "patternProperties"})) { for (auto &x : m.second.o) positions(x.second, false, true, depth + 1, out); }
            else if (is({"definitions"}) && root) { for (auto &x : m.second.o) positions(x.second, false, false, depth + 1, out); }
            else if (is({"dependencies"})) { for (auto &x : m.second.o) if (x.second.isObj() || x.second.t == J::Bool) positions(x.second, false, false, depth + 1, out); }
            else if (is({"allOf", "anyOf", "oneOf"})) { for (auto &x : m.second.a) positions(x, false, false, depth + 1, out); }
            else if (is({"items", "extends"})) { if (m.second.isArr()) for (auto &x : m.second.a) positions(x, false, false, depth + 1, out); else positions(m.second, false, false, depth + 1, out); }
            else if (is({"not", "if", "then", "else", "contains", "propertyNames", "additionalItems", "additionalProperties"})) { if (m.second.isObj() || d7()) positions(m.second, false, false, depth + 1, out); }
            else if (k == "type" && m.second.isArr()) { for (auto &x : m.second.a) if (x.isObj()) positions(x, false, false, depth + 1, out); }
        }
    }
    J trueS() { return d7() && s.coin() ? J(true) : J::obj(); }
    J falseS() { return d7() && s.coin() ? J(false) : J::obj({{"not", J::obj()}}); }
    J trap() {
        switch (s.below(6)) {
        case 0: return J::obj({{"$ref", "#/nowhere"}});
        case 1: return J::obj({{"type", "nosuch"}, {"required", J(true)}});
        case 2: return J::obj({{"properties", J(3)}, {"$ref", J(7)}});
        case 3: return J::arr({J::obj({{"enum", J()}})});
        case 4: return J(false);
        default: return gen::value(s, cfg, 2);
        }
    }
    void annotate(J &n, bool root) {
        auto put = [&](const std::string &k, J v) { // anywhere among the members
            if (n.has(k)) { n.get(k)->operator=(std::move(v)); return; }
            n.o.insert(n.o.begin() + s.below(n.o.size() + 1), {k, std::move(v)});
        };
        switch (s.below(12)) {
        case 0: put("title", J(gen::str(s, cfg))); break;
        case 1: put("description", J(gen::str(s, cfg))); break;
        case 2: put("default", s.coin() ? trap() : J::obj({{d7() ? "$id" : "id", "http://h/other"}, {"type", "string"}})); break;
        case 3: put("examples", J::arr({trap(), trap()})); break;
        case 4: put("$comment", J(gen::str(s, cfg))); break;
        case 5: if (root) put("$schema", J(s.pick(std::vector<std::string>{"http://json-schema.org/draft-07/schema#", "http://json-schema.org/draft-03/schema#", "http://example.org/x", ""}))); else put("readOnly", J(s.coin())); break;
        case 6: put(s.pick(std::vector<std::string>{"readOnly", "writeOnly", "deprecated"}), J(s.coin())); break;
        case 7: put("contentEncoding", "base64"); break;
        case 8: put("contentMediaType", "application/json"); break;
        case 9: { J *x = n.get("definitions"); std::string nm = "unused" + std::to_string(fresh++); J v = gen::schema(s, cfg, 1); if (v.t == J::Bool && !d7()) v = J::obj(); if (x) x->o.insert(x->o.begin() + s.below(x->o.size() + 1), {nm, v}); else put("definitions", J::obj({{nm, v}})); break; }
        default: put(s.pick(std::vector<std::string>{"x-foo", "Type", "propertie", "minlength", "maxLengths", "", "a", "0", "additionalItem", "allof", "$refs", "$Ref", "REQUIRED", "ifs", "_type", "type "}), trap()); break;
        }
        annotations++;
    }
    void shuffle(J &j, bool deep) {
        if (j.isObj()) {
            for (size_t i = j.o.size(); i > 1; i--) std::swap(j.o[i - 1], j.o[s.below(i)]);
            if (deep) for (auto &m : j.o) shuffle(m.second, true);
        } else if (deep) for (auto &x : j.a) shuffle(x, true);
    }
    template <class V> void mix(V &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[s.below(i)]); }

    static J *at(J &n, const char *k) { return n.get(k); }
    // The node without what has to stay where it is
    struct Kept { J inner, outer; };
    Kept take(J &n, bool root) {
        Kept k; k.inner = n; k.outer = J::obj();
        if (!n.isObj()) return k;
        if (root) if (J *x = n.get("definitions")) { k.outer.set("definitions", *x); k.inner.erase("definitions"); }
        if (d3() && !n.has("$ref")) if (J *x = n.get("required")) { k.outer.set("required", *x); k.inner.erase("required"); }
        return k;
    }
    bool done(const char *kind) { kinds.insert(kind); logical++; return true; }
    J one(const std::string &k, J v) { return J::obj({{k, std::move(v)}}); }
    void andAlso(J &n, J extra) { // adds an assertion to a node
        if (!n.has("allOf")) { n.set("allOf", J::arr({extra})); return; }
        J &l = *n.get("allOf");
        l.a.insert(l.a.begin() + s.below(l.a.size() + 1), extra);
    }
    bool rewrite(Pos p) {
        J &n = *p.j;
        if (d3()) return rewrite3(p);
        auto wrap = [&](const char *kind, std::function<J(J)> f) { Kept k = take(n, p.root); J w = f(k.inner); for (auto &m : k.outer.o) w.set(m.first, m.second); n = w; return done(kind); };
        bool ref = n.isObj() && n.has("$ref");
        switch (s.chance(1, 3) ? s.below(13) : 99) {
        case 0: return wrap("allOf1", [&](J x) { return one("allOf", J::arr({x})); });
        case 1: return wrap("anyOf1", [&](J x) { return one("anyOf", J::arr({x})); });
        case 2: return wrap("oneOf1", [&](J x) { return one("oneOf", J::arr({x})); });
        case 3: return wrap("notnot", [&](J x) { return one("not", one("not", x)); });
        case 4: return wrap("and-true", [&](J x) { J l = J::arr({x, trueS()}); mix(l.a); return one("allOf", l); });
        case 5: return wrap("or-false", [&](J x) { J l = J::arr({x, falseS()}); mix(l.a); return one("anyOf", l); });
        case 6: return wrap("xor-false", [&](J x) { J l = J::arr({x, falseS()}); mix(l.a); return one("oneOf", l); });
        case 7: return wrap("twice", [&](J x) { return one("allOf", J::arr({x, x})); });
        case 8: return wrap("or-itself", [&](J x) { return one("anyOf", J::arr({x, x})); });
        case 9: if (!d7()) return false; return wrap("if-true", [&](J x) { J y = one("if", trueS()); y.set("then", x); if (s.coin()) y.set("else", falseS()); return y; });
        case 10: if (!d7()) return false; return wrap("if-false", [&](J x) { J y = one("if", falseS()); y.set("else", x); if (s.coin()) y.set("then", falseS()); return y; });
        case 11: if (!d7()) return false; return wrap("if-self", [&](J x) { J y = one("if", x); y.set("else", falseS()); return y; });
        case 12: if (!d7() || n.t != J::Bool) return false; n = n.b ? J::obj() : one("not", s.coin() ? J(true) : J::obj()); return done("bool");
        default: break;
        }
        if (!n.isObj() || ref) return false;
        auto subs = [&](const char *k) -> J * { J *x = n.get(k); return x && x->isArr() && !x->a.empty() ? x : nullptr; };
        switch (s.below(20)) {
        case 0: for (const char *k : {"allOf", "anyOf", "oneOf"}) if (J *x = subs(k)) if (x->a.size() > 1) { mix(x->a); return done("branch-order"); } return false;
        case 1: { // split keywords over allOf
            J a = J::obj(), b = J::obj(), keep = J::obj();
            std::map<std::string, std::string> group{{"patternProperties", "properties"}, {"additionalProperties", "properties"}, {"additionalItems", "items"}, {"then", "if"}, {"else", "if"}};
            if (!d7()) { group["exclusiveMinimum"] = "minimum"; group["exclusiveMaximum"] = "maximum"; }
            std::map<std::string, int> side;
            for (auto &m : n.o) {
                if (m.first == "definitions") { keep.set(m.first, m.second); continue; }
                auto g = group.find(m.first);
                std::string name = g == group.end() ? m.first : g->second;
                if (!side.count(name)) side[name] = (int)s.below(3);
                (side[name] == 0 ? keep : side[name] == 1 ? a : b).set(m.first, m.second);
            }
            if (a.o.empty() && b.o.empty()) return false;
            n = keep;
            if (!a.o.empty()) andAlso(n, a);
            if (!b.o.empty()) andAlso(n, b);
            return done("split");
        }
        case 2: if (J *x = n.get("const")) { if (!d7()) return false; J v = *x; n.erase("const"); if (n.has("enum")) andAlso(n, one("enum", J::arr({v}))); else n.set("enum", J::arr({v})); return done("const-enum"); } return false;
        case 3: if (J *x = n.get("enum")) { if (!d7() || x->a.size() != 1 || n.has("const")) return false; J v = x->a[0]; n.erase("enum"); n.set("const", v); return done("enum-const"); } return false;
        case 4: if (J *x = n.get("enum")) { if (!x->isArr()) return false; if (s.coin() || x->a.empty()) { mix(x->a); return done("enum-order"); } J l = J::arr(); for (auto &v : x->a) l.push(one("enum", J::arr({v}))); n.erase("enum"); andAlso(n, one("anyOf", l)); return done("enum-split"); } return false;
        case 5: if (J *x = n.get("type")) { if (x->isStr()) { *x = J::arr({*x}); return done("type-list"); } if (s.coin()) { mix(x->a); return done("type-order"); } J l = J::arr(); for (auto &v : x->a) l.push(one("type", v)); n.erase("type"); andAlso(n, one("anyOf", l)); return done("type-split"); } return false;
        case 6: if (J *x = n.get("required")) { J l = *x; if (l.a.size() < 2 || s.coin()) { mix(x->a); return done("required-order"); } J k = one("required", J::arr({l.a.back()})); x->a.pop_back(); andAlso(n, k); return done("required-split"); } return false;
        case 7: if (J *x = n.get("dependencies")) { for (auto &m : x->o) if (m.second.isArr() && !m.second.a.empty()) { std::set<std::string> u; bool dup = false; for (auto &v : m.second.a) dup = dup || !u.insert(v.s).second; if (dup) continue; J r = one("required", m.second); m.second = r; return done("dependency-schema"); } } return false;
        case 8: if (!d7()) return false; for (auto kk : {std::pair<const char *, const char *>{"minimum", "exclusiveMaximum"}, {"maximum", "exclusiveMinimum"}, {"exclusiveMinimum", "maximum"}, {"exclusiveMaximum", "minimum"}}) if (J *x = n.get(kk.first)) { J v = *x; n.erase(kk.first); J in = one("type", "number"); in.set(kk.second, v); andAlso(n, one("not", in)); return done("bound"); } return false;
        case 9: { static const struct { const char *k, *o, *t; } q[] = {{"minLength", "maxLength", "string"}, {"minItems", "maxItems", "array"}, {"minProperties", "maxProperties", "object"}};
            auto &e = q[s.below(3)];
            if (J *x = n.get(e.k)) if (x->t == J::Int && x->i > 0) { J v = J((long long)(x->i - 1)); n.erase(e.k); J in = one("type", e.t); in.set(e.o, v); andAlso(n, one("not", in)); return done("count"); }
            if (J *x = n.get(e.o)) if (x->t == J::Int && x->i >= 0) { J v = J((long long)(x->i + 1)); n.erase(e.o); J in = one("type", e.t); in.set(e.k, v); andAlso(n, one("not", in)); return done("count"); }
            return false; }
        case 10: if (!d7()) return false; if (J *x = n.get("items")) if (x->isObj() || x->t == J::Bool) { J v = *x; n.erase("items"); n.erase("additionalItems"); J in = one("type", "array"); in.set("contains", one("not", v)); andAlso(n, one("not", in)); return done("items-contains"); } return false;
        case 11: if (!d7()) return false; if (J *x = n.get("contains")) { J v = *x; n.erase("contains"); J in = one("type", "array"); in.set("items", one("not", v)); andAlso(n, one("not", in)); return done("contains-items"); } return false;
        case 12: { J *x = n.get("properties"); if (!x) return false; for (size_t i = 0; i < x->o.size(); i++) { std::string k = x->o[i].first; bool plain = !k.empty(); for (char ch : k) plain = plain && isalnum((unsigned char)ch); J *pp = n.get("patternProperties"); if (!plain || (pp && pp->has("^" + k + "$"))) continue; J v = x->o[i].second; x->o.erase(x->o.begin() + i); if (!n.has("patternProperties")) n.set("patternProperties", J::obj()); n.get("patternProperties")->set("^" + k + "$", v); return done("property-pattern"); } return false; }
        case 13: { if (!d7() || n.has("propertyNames") || n.has("patternProperties")) return false; J *ap = n.get("additionalProperties"), *pr = n.get("properties"); if (!ap || ap->t != J::Bool || ap->b) return false; J l = J::arr(); if (pr) for (auto &m : pr->o) l.push(J(m.first)); n.erase("additionalProperties"); n.set("propertyNames", one("enum", l)); return done("closed-names"); }
        case 14: { if (!d7()) return false; J *i = n.get("if"); if (!i) return false; J I = *i; J T = n.has("then") ? *n.get("then") : trueS(), E = n.has("else") ? *n.get("else") : trueS(); n.erase("if"); n.erase("then"); n.erase("else"); andAlso(n, one("anyOf", J::arr({one("allOf", J::arr({I, T})), one("allOf", J::arr({one("not", I), E}))}))); return done("if-anyOf"); }
        case 15: { J *x = n.get("oneOf"); if (!x || x->a.size() != 2) return false; J A = x->a[0], B = x->a[1]; n.erase("oneOf"); andAlso(n, one("anyOf", J::arr({one("allOf", J::arr({A, one("not", B)})), one("allOf", J::arr({one("not", A), B}))}))); return done("oneOf-anyOf"); }
        case 16: { J *x = n.get("anyOf"); if (!x || x->a.empty()) return false; J l = J::arr(); for (auto &v : x->a) l.push(one("not", v)); n.erase("anyOf"); andAlso(n, one("not", one("allOf", l))); return done("de-morgan"); }
        case 17: { J *x = n.get("allOf"); if (!x || x->a.empty()) return false; J l = J::arr(); for (auto &v : x->a) l.push(one("not", v)); n.erase("allOf"); andAlso(n, one("not", one("anyOf", l))); return done("de-morgan"); }
        case 18: { J *x = n.get("not"); if (!x) return false; J v = *x; n.erase("not"); andAlso(n, d7() && s.coin() ? J::obj({{"if", v}, {"then", falseS()}}) : one("oneOf", J::arr({v, trueS()}))); return done("not"); }
        default: { // additionalProperties per property through patternProperties is not expressible; dependencies instead
            J *x = n.get("dependencies"); if (!x || x->o.empty()) return false;
            auto m = x->o.back(); x->o.pop_back();
            J then = m.second.isArr() ? (m.second.a.empty() ? J::obj() : one("required", m.second)) : m.second;
            J has = J::obj({{"type", "object"}, {"required", J::arr({J(m.first)})}});
            andAlso(n, one("anyOf", J::arr({one("not", has), then})));
            return done("dependency-anyOf");
        }
        }
    }
    bool rewrite3(Pos p) {
        J &n = *p.j;
        if (!n.isObj()) return false;
        Kept k = take(n, p.root);
        J w;
        switch (s.below(6)) {
        case 0: w = one("extends", k.inner); kinds.insert("extends1"); break;
        case 1: w = one("extends", J::arr({k.inner})); kinds.insert("extends-list"); break;
        case 2: w = one("extends", J::arr({k.inner, J::obj()})); kinds.insert("extends-true"); break;
        case 3: w = one("type", J::arr({k.inner})); kinds.insert("type-schema"); break;
        case 4: { J *t = n.get("type"); if (!t || n.has("$ref")) return false; if (t->isStr()) { *t = J::arr({*t}); return done("type-list"); } mix(t->a); return done("type-order"); }
        default: { J *e = n.get("enum"); if (!e || n.has("$ref")) return false; mix(e->a); return done("enum-order"); }
        }
        for (auto &m : k.outer.o) w.set(m.first, m.second);
        n = w;
        logical++;
        return true;
    }
};

static J base(Src &s, gen::Cfg &cfg, bool refs) {
    int nd = refs ? s.range(1, 3) : 0, level = 0;
    std::function<bool(Src &, J &)> extra = [&](Src &q, J &o) {
        if (level + 1 <= nd && q.chance(1, 7)) { o = J::obj({{"$ref", J("#/definitions/d" + std::to_string(q.range(level + 1, nd)))}}); return true; }
        return false;
    };
    if (nd) cfg.extra = extra;
    J root = gen::schema(s, cfg, s.range(1, 3));
    if (!root.isObj()) root = J::obj();
    J defs = J::obj();
    for (level = 1; level <= nd; level++) {
        J x = gen::schema(s, cfg, 2);
        if (!x.isObj()) x = J::obj({{"type", "string"}});
        if (s.chance(1, 3) && !x.has("properties") && !x.has("$ref")) x.set("properties", J::obj({{"a", J::obj({{"$ref", J(s.coin() ? "#" : "#/definitions/d" + std::to_string(s.range(1, nd)))}})}}));
        defs.set("d" + std::to_string(level), x);
    }
    cfg.extra = nullptr;
    if (nd) root.set("definitions", defs);
    if (s.chance(1, 6) && !root.has("$ref")) root.set("format", J(s.pick(std::vector<std::string>{"date", "ipv4", "nosuch", "regex"})));
    return root;
}
static int keywords(const J &j) { int n = 0; if (j.isObj()) for (auto &m : j.o) n += 1 + keywords(m.second); for (auto &x : j.a) n += keywords(x); return n; }

static void one(Ctx &c, int mode) { // 0 annotations, 1 order, 2 logical, 3 everything
    Src &s = c.s;
    gen::Cfg cfg;
    cfg.draft = s.pick({Draft::D7, Draft::D7, Draft::D7, Draft::D4, Draft::D3});
    const Lib *lib = s.pick(strictLibs());
    VOpts vo;
    if (mode < 2 && s.chance(1, 6)) lib = &libYaml();
    if (mode < 2) { vo.weak = s.chance(1, 4); vo.permissive = s.chance(1, 4); }
    if (!lib->strictTypes) { cfg.oddKeyPct = 0; cfg.nul = false; cfg.controls = false; vo.weak = true; }
    J schema = base(s, cfg, s.chance(1, 3));
    auto docs = documents(s, cfg, schema, 2, 4);
    J other = schema;
    Editor e{s, cfg, cfg.draft};
    int edits = s.range(1, 5);
    for (int n = 0; n < edits; n++) {
        std::vector<Editor::Pos> ps;
        e.positions(other, true, false, 0, ps);
        if (ps.empty()) break;
        if (ps.size() > 400) break;
        auto p = s.pick(ps);
        int what = mode == 3 ? (int)s.below(3) : mode;
        if (what == 0) { if (p.j->isObj()) e.annotate(*p.j, p.root); }
        else if (what == 1) { if (p.j->isObj() && p.j->o.size() > 1) { e.shuffle(*p.j, false); e.orders++; } else if (s.coin()) { e.shuffle(other, true); e.orders++; } }
        else for (int tries = 0; tries < 6; tries++) if (e.rewrite(p)) break;
    }
    if (mode == 3 && s.coin()) { e.shuffle(other, true); e.orders++; }
    std::vector<J> docs2 = docs;
    if (mode == 1 || mode == 3) for (auto &x : docs2) e.shuffle(x, true);
    int applied = e.annotations + e.orders + e.logical;
    if (!applied) c.discard();
    c.desc = std::string(draftName(cfg.draft)) + " " + lib->name + (vo.weak ? " weak" : "") + " " + jdump(schema) + "  ==>  " + jdump(other) + "  docs " + docsText(docs);
    c.key = c.desc;
    Parsed p = tryParse(*lib, cfg.draft, schema), q = tryParse(*lib, cfg.draft, other);
    if ((bool)p != (bool)q) c.fail(std::string("one of two equivalent schemas is rejected: ") + (p ? "original accepted, rewritten: " : "rewritten accepted, original: ") + p.error + q.error + ": " + jdump(schema) + "  ==>  " + jdump(other));
    for (auto &k : e.kinds) c.label("rewrite-" + k);
    if (e.annotations) c.label("annotated");
    if (e.orders) c.label("reordered");
    c.label(lib->name);
    if (!p) { c.label("rejected"); return; }
    auto v = lib->validator(vo);
    bool yes = false, no = false;
    for (size_t i = 0; i < docs.size(); i++) {
        valijson::ValidationResults r1, r2;
        bool a = validate(*lib, *v, *p.schema, docs[i]), b = validate(*lib, *v, *q.schema, docs2[i]);
        bool b2 = validate(*lib, *v, *q.schema, docs2[i], &r2);
        if (a != b || a != b2) c.fail(std::string("verdict changes from ") + word(a) + " to " + word(b) + "/" + word(b2) + " (with results) for " + jdump(docs[i]) + (jdump(docs[i]) != jdump(docs2[i]) ? " reordered as " + jdump(docs2[i]) : "") + ": " + jdump(schema) + "  ==>  " + jdump(other));
        (a ? yes : no) = true;
    }
    c.label(yes && no ? "both-verdicts" : yes ? "valid-only" : "invalid-only");
    c.nontrivial = keywords(schema) >= 2 && !docs.empty();
}
int main(int argc, char **argv) {
    Check ck;
    ck.id = "C21";
    ck.rule = "A random schema (all keywords of a draft, definitions and recursion) and documents; then 1..5 random edits anywhere in the schema: annotations and unknown keywords (many look like keywords, their values like broken schemas), member permutations (of the documents as well), or logical rewritings (wrapping, double negation, splitting, De Morgan, conditionals as disjunctions, bounds as negated opposite bounds, items as negated contains, properties as patterns, ...). Acceptance and every verdict, with and without results, must be the same. "
              "Non-trivial: at least one edit was applied to a schema of at least two keywords; distinct by schema pair and documents.";
    ck.assumptions = {"references only designate definitions or the root, which rewriting leaves in place", "draft 3 has no negation or disjunction keywords here: only wrapping in extends and type"};
    ck.subs.push_back({"annotations", 120000, 3000000, [](Ctx &c) { one(c, 0); }});
    ck.subs.push_back({"order", 100000, 2500000, [](Ctx &c) { one(c, 1); }});
    ck.subs.push_back({"logical", 300000, 7000000, [](Ctx &c) { one(c, 2); }});
    ck.subs.push_back({"mixed", 100000, 2500000, [](Ctx &c) { one(c, 3); }});
    return runMain(argc, argv, ck);
}
