// Malformed keyword values are rejected, well-formed schemas are not, and data
// positions are never interpreted.
#include "common.hpp"
using namespace vc;

// ---- which values a draft allows
enum Q { Good, Open, Bad };
static Q worst(Q a, Q b) { return a > b ? a : b; }
struct Judge {
    Draft d; const J &root;
    std::set<std::string> seen{};
    int looked = 0, deepest = 0;
    std::vector<std::string> why{};
    Q bad(const std::string &w) { why.push_back(w); return Bad; }
    static bool emptyBox(const J &j) { return (j.isArr() && j.a.empty()) || (j.isObj() && j.o.empty()); }
    static bool numeric(const std::string &t) { // may be cast
        if (t.empty()) return true;
        for (char c : t) if (!strchr("0123456789+-.eE infaINFAxX", c)) return false;
        return true;
    }
    static bool boolText(const J &j) { return j.isStr() && (j.s == "true" || j.s == "false"); }

    Q schema(const J &j, const std::string &at, int depth, bool prop = false) {
        looked++;
        deepest = std::max(deepest, depth);
        if (!j.isObj()) {
            if (d == Draft::D7) { if (j.t == J::Bool) return Good; if (boolText(j)) return Open; }
            return bad(at + " is not a schema");
        }
        if (const J *r = j.get("$ref")) {
            if (!r->isStr()) return bad(at + "/$ref");
            if (r->s.empty() || r->s[0] != '#') return Open;
            if (!seen.insert(r->s + (prop ? "p" : "")).second) return Good;
            const J *t = RefVal::pointer(root, r->s.substr(1), true);
            if (!t) return Open; // C06 and C07
            return schema(*t, r->s, depth + 1, prop);
        }
        Q q = Good;
        for (auto &m : j.o) q = worst(q, keyword(j, m.first, m.second, at + "/" + m.first, depth, prop));
        return q;
    }
    // where the library applies a cast before it insists on an object
    Q looseSchema(const J &v, const std::string &at, int depth) { return emptyBox(v) && v.isArr() ? Open : schema(v, at, depth + 1); }
    Q map(const J &v, const std::string &at, int depth, bool prop) {
        if (!v.isObj()) return emptyBox(v) ? Open : bad(at + " is not an object");
        Q q = Good;
        for (auto &m : v.o) q = worst(q, schema(m.second, at + "/" + m.first, depth + 1, prop));
        return q;
    }
    Q count(const J &v, const std::string &at) {
        if (v.t == J::Int) return v.i >= 0 ? Good : bad(at + " is negative");
        if (v.t == J::Dbl) {
            if (v.d < 0) return v.d == std::floor(v.d) && v.d < -9e18 ? Open : bad(at + " is negative");
            if (v.d != std::floor(v.d)) return bad(at + " is fractional");
            return d == Draft::D7 && v.d < 9e18 ? Good : Open;
        }
        if (v.isStr() && numeric(v.s)) return Open;
        return bad(at + " is not a number");
    }
    Q number(const J &v, const std::string &at) {
        if (v.isNum()) return Good;
        if (v.isStr() && numeric(v.s)) return Open;
        return bad(at + " is not a number");
    }
    Q boolean(const J &v, const std::string &at) {
        if (v.t == J::Bool) return Good;
        return boolText(v) ? Open : bad(at + " is not a boolean");
    }
    Q strings(const J &v, const std::string &at, bool mayBeEmpty) { // array of distinct strings
        if (!v.isArr()) return emptyBox(v) ? Open : bad(at + " is not an array");
        Q q = v.a.empty() && !mayBeEmpty ? Open : Good;
        std::set<std::string> s;
        for (auto &x : v.a) { if (!x.isStr()) q = worst(q, bad(at + " has an element that is not a string")); else if (!s.insert(x.s).second) q = worst(q, Open); }
        return q;
    }
    Q list(const J &v, const std::string &at, int depth, bool mayBeEmpty) {
        if (!v.isArr()) return emptyBox(v) ? Open : bad(at + " is not an array");
        Q q = v.a.empty() && !mayBeEmpty ? Open : Good;
        for (size_t n = 0; n < v.a.size(); n++) q = worst(q, schema(v.a[n], at + "/" + std::to_string(n), depth + 1));
        return q;
    }
    Q typeName(const J &v, const std::string &at) {
        static const std::set<std::string> ok{"string", "number", "integer", "boolean", "null", "array", "object"};
        if (!v.isStr()) return bad(at + " is not a type name");
        if (ok.count(v.s)) return Good;
        if (d == Draft::D3) return v.s == "any" ? Good : Open; // custom type names
        return bad(at + ": no such type");
    }
    Q keyword(const J &j, const std::string &k, const J &v, const std::string &at, int depth, bool prop) {
        bool d3 = d == Draft::D3, d4 = d == Draft::D4, d7 = d == Draft::D7;
        auto isAny = [&](std::initializer_list<const char *> l) { for (auto x : l) if (k == x) return true; return false; };
        if (isAny({"maxLength", "minLength", "maxItems", "minItems"})) return count(v, at);
        if (isAny({"maxProperties", "minProperties"})) return d3 ? Open : count(v, at);
        if (isAny({"maximum", "minimum"})) return number(v, at);
        if (isAny({"exclusiveMaximum", "exclusiveMinimum"})) {
            if (d7) return number(v, at);
            bool mate = j.has(k == "exclusiveMaximum" ? "maximum" : "minimum");
            if (mate) return boolean(v, at);
            return d4 ? bad(at + " without its bound") : Open;
        }
        if (k == (d3 ? "divisibleBy" : "multipleOf")) {
            Q q = number(v, at);
            if (q == Good && !(v.num() > 0)) return bad(at + " is not positive");
            return q;
        }
        if (isAny({"divisibleBy", "multipleOf", "disallow"})) return Open; // another draft's, or not supported
        if (k == "extends") { if (!d3) return Good; if (v.isArr()) return list(v, at, depth, true); return schema(v, at, depth + 1); }
        if (k == "pattern") return v.isStr() ? Good : bad(at + " is not a string");
        if (k == "format") return v.isStr() ? Good : bad(at + " is not a string");
        if (k == "title" || k == "description") { if (v.isStr()) return Good; if ((v.isArr() || v.isObj()) && !emptyBox(v)) return bad(at + " is not a string"); return Open; }
        if (k == "uniqueItems") return boolean(v, at);
        if (k == "enum") { if (!v.isArr()) return emptyBox(v) ? Open : bad(at + " is not an array"); if (d7) return Good; for (size_t a = 0; a < v.a.size(); a++) for (size_t b = 0; b < a; b++) if (jeq(v.a[a], v.a[b])) return Open; return v.a.empty() ? Open : Good; }
        if (k == "const") return d7 ? Good : Open;
        if (k == "required") {
            if (!d3) return strings(v, at, d7);
            if (!prop) return Open; // rejected by design
            return boolean(v, at);
        }
        if (k == "type") {
            if (v.isArr()) {
                if (v.a.empty()) return d3 ? Open : bad(at + " is empty");
                Q q = Good;
                std::set<std::string> s;
                for (size_t n = 0; n < v.a.size(); n++) {
                    std::string here = at + "/" + std::to_string(n);
                    if (d3 && v.a[n].isObj()) q = worst(q, schema(v.a[n], here, depth + 1));
                    else q = worst(q, typeName(v.a[n], here));
                    if (v.a[n].isStr() && !s.insert(v.a[n].s).second) q = worst(q, Open);
                }
                return q;
            }
            if (d3 && v.isObj()) return worst(Open, schema(v, at, depth + 1)); // an extension
            if (emptyBox(v)) return Open;
            return typeName(v, at);
        }
        if (isAny({"allOf", "anyOf", "oneOf"})) return d3 ? Open : list(v, at, depth, false);
        if (k == "not") return d3 ? Open : looseSchema(v, at, depth);
        if (k == "if") return d7 ? schema(v, at, depth + 1) : Open;
        if (k == "then" || k == "else") return d7 && j.has("if") ? schema(v, at, depth + 1) : Open;
        if (k == "contains") return d7 ? looseSchema(v, at, depth) : Open;
        if (k == "propertyNames") return d7 ? schema(v, at, depth + 1) : Open;
        if (k == "items") { if (v.isArr()) return list(v, at, depth, true); return schema(v, at, depth + 1); }
        if (k == "additionalItems") { const J *it = j.get("items"); if (!it || !it->isArr()) return Open; if (v.t == J::Bool) return Good; if (boolText(v)) return Open; return looseSchema(v, at, depth); }
        if (k == "additionalProperties") { if (v.t == J::Bool) return Good; if (boolText(v)) return Open; return schema(v, at, depth + 1); }
        if (k == "properties") return map(v, at, depth, true);
        if (k == "patternProperties") return map(v, at, depth, true);
        if (k == "dependencies") {
            if (!v.isObj()) return emptyBox(v) ? Open : bad(at + " is not an object");
            Q q = Good;
            for (auto &m : v.o) {
                std::string here = at + "/" + m.first;
                if (m.second.isArr()) q = worst(q, strings(m.second, here, !d4));
                else if (emptyBox(m.second)) q = worst(q, Good); // a schema, or cast to an empty list
                else if (d3 && m.second.isStr()) q = worst(q, Good);
                else q = worst(q, schema(m.second, here, depth + 1));
            }
            return q;
        }
        if (k == "id" || k == "$id") return v.isStr() ? Good : Open;
        return Good; // annotations and unknown keywords
    }
};

// ---- generation
static const std::vector<std::string> &pats() { static const std::vector<std::string> p{"^a", "b$", "^[a-z]+$", ".", "a|b", "foo"}; return p; }
static J thing(Src &s, int depth) { // any JSON value
    switch (s.weighted({2, 3, 3, 3, 3, 2, 2, 2})) {
    case 0: return J();
    case 1: return J(s.coin());
    case 2: return J(s.pick(std::vector<int>{0, 1, 2, 3, -1, 7, 100, -5}));
    case 3: return s.pick(std::vector<J>{J(0.5), J(-0.5), J(2.0), J(-2.0), J(1e-9), J(1e17), J(3.25)});
    case 4: return J(s.pick(std::vector<std::string>{"", "a", "string", "any", "integer", "int", "5", "true", "false", "null", "object", "#", "x y", "-1", "1e2", "Array", "strings"}));
    case 5: { J r = J::arr(); for (int n = s.range(0, 2); n > 0; n--) r.push(depth > 0 ? thing(s, depth - 1) : J(1)); return r; }
    case 6: { J r = J::obj(); for (int n = s.range(0, 2); n > 0; n--) r.set(s.pick(std::vector<std::string>{"a", "b", "type", "properties", "required", "$ref2", "items", "enum", "minimum"}), depth > 0 ? thing(s, depth - 1) : J(1)); return r; }
    default: return J::obj({{"type", "string"}});
    }
}
struct Maker {
    Src &s; gen::Cfg cfg; int wrong = 0;
    std::vector<std::string> defs{};
    bool odds(unsigned n, unsigned d) { return s.chance(n, d); }
    J sub(int depth) {
        if (!defs.empty() && odds(1, 8)) return J::obj({{"$ref", J("#/definitions/" + s.pick(defs))}});
        if (depth <= 0 || odds(1, 4)) return gen::schema(s, cfg, std::max(0, depth));
        return node(depth);
    }
    std::string name() { return s.pick(std::vector<std::string>{"a", "b", "foo", "type", "properties", "items", "enum", "$ref", "required", "id", "$id", "not", "dependencies", "default", "const"}); }
    J map(int depth) { J r = J::obj(); for (int n = s.range(0, 3); n > 0; n--) r.set(name(), sub(depth - 1)); return r; }
    J list(int depth, int lo) { J r = J::arr(); for (int n = s.range(lo, 3); n > 0; n--) r.push(sub(depth - 1)); return r; }
    J names() { J r = J::arr(); std::set<std::string> u; for (int n = s.range(1, 3); n > 0; n--) { std::string k = name(); if (u.insert(k).second) r.push(J(k)); } return r; }
    J trap() { // data that looks like a schema, often a broken one
        switch (s.below(7)) {
        case 0: return J::obj({{"$ref", "#/nowhere"}});
        case 1: return J::obj({{"$ref", J(3)}});
        case 2: return J::obj({{"type", "nosuch"}});
        case 3: return J::obj({{"properties", J(3)}, {"required", J(1)}});
        case 4: return J::obj({{"minLength", J(-1)}, {"pattern", J(3)}, {"items", J(1)}});
        case 5: return J::arr({J::obj({{"type", J(1)}}), J::obj({{"enum", J()}})});
        default: return thing(s, 1);
        }
    }
    J good(const std::string &k, int depth) {
        Draft d = cfg.draft;
        auto is = [&](std::initializer_list<const char *> l) { for (auto x : l) if (k == x) return true; return false; };
        if (is({"maxLength", "minLength", "maxItems", "minItems", "maxProperties", "minProperties"})) { if (d == Draft::D7 && odds(1, 6)) return J((double)s.range(0, 4)); return odds(1, 10) ? J((long long)s.pick(std::vector<long long>{2147483648ll, 4294967295ll, 4294967296ll, INT64_MAX})) : J(s.range(0, 4)); }
        if (is({"maximum", "minimum"}) || (d == Draft::D7 && is({"exclusiveMaximum", "exclusiveMinimum"}))) return s.pick(std::vector<J>{J(0), J(-3), J(2.5), J(1e300), J(-1e300), J(7), J((long long)INT64_MIN)});
        if (is({"exclusiveMaximum", "exclusiveMinimum"})) return J(s.coin());
        if (is({"multipleOf", "divisibleBy"})) return s.pick(std::vector<J>{J(1), J(2), J(0.5), J(0.25), J(3), J(1000000)});
        if (k == "extends") return s.coin() ? sub(depth - 1) : list(depth, 0);
        if (k == "pattern") return J(s.pick(pats()));
        if (is({"title", "description", "$comment"})) return J(s.pick(std::vector<std::string>{"", "t", "#/nowhere"}));
        if (k == "format") return J(s.pick(std::vector<std::string>{"", "nosuch", "regex", "uri"}));
        if (k == "uniqueItems") return J(s.coin());
        if (k == "enum") { J r = J::arr(); for (int n = s.range(d == Draft::D7 ? 0 : 1, 3); n > 0; n--) r.push(odds(1, 3) ? gen::value(s, cfg, 1) : trap()); return r; }
        if (is({"const", "default", "x-unknown", "examples", "definitions", "readOnly", "contentMediaType", "propertie", "Type"})) return trap();
        if (k == "required") return d == Draft::D3 ? J(s.coin()) : odds(1, 6) && d == Draft::D7 ? J::arr() : names();
        if (k == "type") {
            auto one = [&]() -> J { if (d == Draft::D3 && odds(1, 4)) return sub(depth - 1); if (d == Draft::D3 && odds(1, 6)) return "any"; return gen::typeName(s, cfg); };
            if (s.coin()) { J t = one(); if (t.isStr()) return t; return J::arr({t}); }
            J r = J::arr(); for (int n = s.range(1, 3); n > 0; n--) { J t = one(); bool dup = false; for (auto &x : r.a) dup = dup || jeq(x, t); if (!dup) r.push(t); } return r;
        }
        if (is({"allOf", "anyOf", "oneOf"})) return list(depth, 1);
        if (is({"not", "if", "then", "else", "contains", "propertyNames"})) return sub(depth - 1);
        if (k == "items") return s.coin() ? sub(depth - 1) : list(depth, 0);
        if (k == "additionalItems" || k == "additionalProperties") return odds(1, 3) ? J(s.coin()) : sub(depth - 1);
        if (k == "properties") return map(depth);
        if (k == "patternProperties") { J r = J::obj(); for (int n = s.range(0, 2); n > 0; n--) r.set(s.pick(pats()), sub(depth - 1)); return r; }
        if (k == "dependencies") { J r = J::obj(); for (int n = s.range(0, 2); n > 0; n--) { std::string t = name(); if (s.coin()) r.set(t, names()); else if (d == Draft::D3 && s.coin()) r.set(t, J(name())); else r.set(t, sub(depth - 1)); } return r; }
        throw Fail{"harness: no value for " + k};
    }
    J mutated(const std::string &k, int depth) { // one step away from a good value
        J v = good(k, depth);
        if (v.isArr() && !v.a.empty() && s.coin()) { v.a[s.below(v.a.size())] = thing(s, 1); return v; }
        if (v.isObj() && !v.o.empty() && s.coin()) { v.o[s.below(v.o.size())].second = thing(s, 1); return v; }
        if (v.isNum() && s.coin()) return s.pick(std::vector<J>{J(-1), J(0), J(-0.5), J(0.5), J(1.5), J(-2.0), J(2.0)});
        return thing(s, 1);
    }
    std::vector<std::string> keywords() {
        std::vector<std::string> k{"maxLength", "minLength", "maxItems", "minItems", "maximum", "minimum", "exclusiveMaximum", "exclusiveMinimum", "pattern", "title", "description", "format", "uniqueItems", "enum", "default", "x-unknown", "required", "type", "items", "additionalItems", "additionalProperties", "properties", "patternProperties", "dependencies", "properties", "items", "examples"};
        if (cfg.draft == Draft::D3) for (auto x : {"extends", "divisibleBy"}) k.push_back(x);
        else for (auto x : {"maxProperties", "minProperties", "multipleOf", "allOf", "anyOf", "oneOf", "not", "allOf", "anyOf", "oneOf", "not"}) k.push_back(x);
        if (cfg.draft == Draft::D7) for (auto x : {"if", "then", "else", "contains", "propertyNames", "const", "if", "$comment"}) k.push_back(x);
        return k;
    }
    J node(int depth) {
        J o = J::obj();
        auto ks = keywords();
        for (int n = s.range(1, 3); n > 0; n--) {
            std::string k = s.pick(ks);
            bool w = wrong > 0 && odds(1, 4);
            if (w) wrong--;
            o.set(k, w ? mutated(k, depth) : good(k, depth));
            if (k == "additionalItems" && !o.has("items") && odds(3, 4)) o.set("items", list(depth, 0));
            if ((k == "then" || k == "else") && !o.has("if") && odds(3, 4)) o.set("if", sub(depth - 1));
            if (cfg.draft != Draft::D7 && k == "exclusiveMaximum" && !o.has("maximum") && odds(3, 4)) o.set("maximum", J(3));
            if (cfg.draft != Draft::D7 && k == "exclusiveMinimum" && !o.has("minimum") && odds(3, 4)) o.set("minimum", J(3));
        }
        return o;
    }
    J document() {
        if (wrong && odds(1, 40)) { wrong = 0; return thing(s, 1); }
        int nd = s.weighted({3, 2, 1});
        for (int i = 0; i < nd; i++) defs.push_back("d" + std::to_string(i));
        J r = node(s.range(0, 3));
        if (nd) { J dd = J::obj(); for (auto &n : defs) dd.set(n, node(s.range(0, 2))); r.set("definitions", dd); }
        return r;
    }
};
static const std::vector<const Lib *> &libs() { static const std::vector<const Lib *> v{&libRapid(), &libNlohmann(), &libBoostJson(), &libPico()}; return v; }
static bool bareRefLoop(const J &root, const J &j, int n = 0) {
    const J *r = j.get("$ref");
    if (!r || !r->isStr() || r->s.empty() || r->s[0] != '#') return false;
    if (n > 8) return true;
    const J *t = RefVal::pointer(root, r->s.substr(1), true);
    return t && t->isObj() && bareRefLoop(root, *t, n + 1);
}
static void one(Ctx &c, int wrong) {
    Src &s = c.s;
    Maker m{s, {}, wrong};
    m.cfg.draft = s.pick({Draft::D7, Draft::D7, Draft::D4, Draft::D3});
    m.cfg.nul = false;
    J doc = m.document();
    std::function<bool(const J &)> loops = [&](const J &j) { if (j.isObj() && j.has("$ref") && bareRefLoop(doc, j)) return true; for (auto &x : j.a) if (loops(x)) return true; for (auto &x : j.o) if (loops(x.second)) return true; return false; };
    if (loops(doc)) c.discard();
    const Lib &lib = *s.pick(libs());
    c.desc = std::string(draftName(m.cfg.draft)) + " " + lib.name + " schema " + jdump(doc);
    Judge jd{m.cfg.draft, doc};
    Q q = jd.schema(doc, "", 0);
    Parsed p = tryParse(lib, m.cfg.draft, doc);
    if (q == Bad && p) c.fail("accepted, although " + jd.why[0] + ": " + jdump(doc));
    if (q == Good && !p) c.fail("well-formed schema rejected: " + p.error + ": " + jdump(doc));
    c.label(q == Bad ? "malformed" : q == Good ? "well-formed" : "open");
    if (q == Open) c.label(p ? "open-accepted" : "open-rejected");
    if (q == Bad && jd.why.size() == 1) c.label("single-defect");
    c.nontrivial = q != Open && (jd.deepest >= 1 || jd.looked > 1 || (doc.isObj() && doc.o.size() > 1));
    if (p && q == Good) { // data positions taken literally
        auto v = lib.validator({});
        auto docs = documents(s, m.cfg, doc, 0, 2);
        for (const char *k : {"const", "default"}) if (const J *x = doc.get(k)) docs.push_back(*x);
        if (const J *x = doc.get("enum")) if (x->isArr() && !x->a.empty()) docs.push_back(s.pick(x->a));
        for (auto &d : docs) {
            int want = reference(m.cfg.draft, doc, d);
            if (want < 0) continue; // in particular schemas that refer to themselves without progress
            bool got = validate(lib, *v, *p.schema, d);
            if (got != (bool)want) c.fail(std::string("verdict ") + word(got) + " but the specification says " + word(want) + " for " + jdump(d) + " against " + jdump(doc));
        }
    }
}
int main(int argc, char **argv) {
    Check ck;
    ck.id = "C19";
    ck.rule = "Schemas over all keywords of a draft, nested and referenced through definitions, with data positions holding things that look like broken schemas; in 'malformed' up to 3 keyword values are replaced by values of another shape. An independent judge of each draft's keyword rules says malformed (must be rejected), well-formed (must be accepted, with the verdicts of the specification) or open (values the documented casts make acceptable, shapes on which drafts differ). "
              "Non-trivial: judged malformed or well-formed, with more than one keyword or schema; distinct by schema and library.";
    ck.assumptions = {"the judge in src/c19.cpp reads each draft's keyword rules", "empty arrays where a draft asks for one element, repeated names, keywords of other drafts and identifiers are open"};
    ck.subs.push_back({"malformed", 900000, 20000000, [](Ctx &c) { one(c, 1 + (int)c.s.below(3)); }});
    ck.subs.push_back({"well-formed", 350000, 8000000, [](Ctx &c) { one(c, 0); }});
    return runMain(argc, argv, ck);
}
