// No JSON input crashes parsing or validation: any value as schema, any value
// as document, every library, draft and mode, under AddressSanitizer and
// UndefinedBehaviorSanitizer. Only a verdict or a standard exception may come out.
#include "common.hpp"
using namespace vc;

static const std::vector<const Lib *> &libs() {
    static const std::vector<const Lib *> v{&libRapid(), &libRapidCrt(), &libNlohmann(), &libJsonCpp(), &libPico(), &libBoostJson(), &libPoco(), &libQtJson(), &libQVariant(), &libPtree(), &libYaml()};
    return v;
}
static bool loose(const Lib &l) { return &l == &libPtree() || &l == &libYaml(); }

// ---- generation: nothing here cares about being meaningful
static const std::vector<std::string> &words() {
    static const std::vector<std::string> k{"type", "properties", "patternProperties", "additionalProperties", "items", "additionalItems", "required", "dependencies", "enum", "const",
        "allOf", "anyOf", "oneOf", "not", "if", "then", "else", "contains", "propertyNames", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "divisibleBy",
        "minLength", "maxLength", "pattern", "format", "minItems", "maxItems", "uniqueItems", "minProperties", "maxProperties", "title", "description", "default", "definitions",
        "extends", "disallow", "$id", "id", "$ref", "$schema", "examples", "a", "b", "0", "", "~", "a/b"};
    return k;
}
struct Any {
    Src &s; gen::Cfg &cfg; Draft d;
    std::string text() {
        switch (s.weighted({4, 4, 3, 2, 1})) {
        case 0: return s.pick(std::vector<std::string>{"string", "number", "integer", "boolean", "null", "array", "object", "any", "nosuch", ""});
        case 1: return gen::str(s, cfg);
        case 2: return s.pick(std::vector<std::string>{"date", "time", "date-time", "ipv4", "2020-02-30", "2020-02-29", "12:00:60Z", "23:59:60Z", "2020-01-01T00:00:00+99:99", "1.2.3.4", "255.255.255.256", "99999999999.1.1.1", "-----", "0000-00-00", "9999-99-99", "::::", "2020-01-01T00:00:00.Z"});
        case 3: return s.pick(words());
        default: { std::string o; for (int n = s.range(0, 6); n > 0; n--) o += (char)s.range(1, 127); return o; }
        }
    }
    std::string pattern() {
        if (s.chance(3, 4)) return gen::pattern(s);
        return s.pick(std::vector<std::string>{"(", ")", "[", "]", "*", "+", "?", "{", "}", "a{2,1}", "a{99999999999}", "\\", "[z-a]", "(?=a)", "(?!a)", "(?<a>b)", "\\1", "(a)\\1", "(a)\\2", "[[:alpha:]]", "[[:nosuch:]]", "\\u0041", "\\x4", "\\cA", "\\p{L}", "^^", "$$", "|", "||", "[]", "[^]", "\\b", "(?:", "a**", "\xC3\xA9", std::string("a\0b", 3)});
    }
    J number() {
        return s.pick(std::vector<J>{J(0), J(1), J(2), J(3), J(-1), J(-0.0), J(0.5), J(1e-320), J(5e-324), J(1e308), J(-1e308), J(1.7976931348623157e308), J((long long)INT64_MAX), J((long long)INT64_MIN), J(9223372036854775808.0), J(18446744073709551616.0), J(4294967296ll), J(2147483648ll), J(-2147483649ll), J(1e19), J(-1e19), J(2.0), J(1e-9), J(0.1)});
    }
    std::string ref() {
        switch (s.weighted({4, 3, 2, 3, 2})) {
        case 0: return "#/definitions/" + s.pick(std::vector<std::string>{"a", "b", "0"});
        case 1: return s.pick(std::vector<std::string>{"#", "", "#/", "#/properties/a", "#/items/0", "#/items", "#/allOf/0", "#/a~1b", "#/~", "#/~2", "#/%", "#/%2", "#/%zz", "#/%00", "#//", "#/definitions/a/properties/b", "#/definitions", "#a", "#/-1", "#/99999999999999999999", "#/items/-", "#/items/01"});
        case 2: return s.pick(std::vector<std::string>{"http://h/x", "http://h/x#/definitions/a", "x.json", "../x", "/y", "?q", "//h/z", "urn:a:b", "urn:a:b#/definitions/a", "http://", ":", "::", "a:", "http://h:99999999/", "http://[::1", "%", "file:///etc/x", "http://h/x#", "http://h/x#a", "///", "?", "x#/0/1"});
        case 3: return s.pick(std::vector<std::string>{"http://h/x", "x.json", "urn:a:b"});
        default: return text();
        }
    }
    J value(int depth) { // anything, rather schema-like
        switch (s.weighted({5, 3, 3, 2, 6, 6})) {
        case 0: return J(text());
        case 1: return number();
        case 2: return s.pick(std::vector<J>{J(), J(true), J(false)});
        case 3: return gen::value(s, cfg, std::max(0, depth - 1));
        case 4: { J r = J::arr(); if (depth > 0) for (int n = s.range(0, 3); n > 0; n--) r.push(value(depth - 1)); return r; }
        default: { J r = J::obj(); if (depth > 0) for (int n = s.range(0, 4); n > 0; n--) { std::string k = s.pick(words()); r.set(k, k == "$ref" || k == "$id" || k == "id" ? J(ref()) : value(depth - 1)); } return r; }
        }
    }
    J soup(int depth) { // keywords with plausible but unchecked values
        if (depth <= 0) return s.chance(1, 3) ? value(1) : gen::schema(s, cfg, 1);
        J o = J::obj();
        for (int n = s.range(0, 4); n > 0; n--) {
            const std::string &k = s.pick(words());
            auto is = [&](std::initializer_list<const char *> l) { for (auto x : l) if (k == x) return true; return false; };
            if (s.chance(1, 8)) o.set(k, value(1));
            else if (is({"properties", "patternProperties", "dependencies", "definitions"})) {
                J m = J::obj();
                for (int i = s.range(0, 3); i > 0; i--) {
                    std::string name = k == "patternProperties" && s.coin() ? pattern() : k == "definitions" ? s.pick(std::vector<std::string>{"a", "b", "0"}) : gen::key(s, cfg);
                    if (k == "dependencies" && s.coin()) { J l = J::arr(); for (int q = s.range(0, 3); q > 0; q--) l.push(J(gen::key(s, cfg))); m.set(name, l); }
                    else m.set(name, soup(depth - 1));
                }
                o.set(k, m);
            } else if (is({"allOf", "anyOf", "oneOf"}) || (is({"items", "extends", "disallow", "type"}) && s.coin())) {
                J l = J::arr();
                for (int i = s.range(0, 3); i > 0; i--) l.push(k == "type" && s.coin() ? J(text()) : soup(depth - 1));
                o.set(k, l);
            } else if (is({"not", "if", "then", "else", "contains", "propertyNames", "items", "extends", "additionalItems", "additionalProperties"})) o.set(k, s.chance(1, 5) ? J(s.coin()) : soup(depth - 1));
            else if (is({"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "divisibleBy", "minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties"})) o.set(k, s.chance(1, 6) && is({"exclusiveMinimum", "exclusiveMaximum"}) ? J(s.coin()) : s.coin() ? J(s.range(0, 4)) : number());
            else if (is({"uniqueItems"})) o.set(k, J(s.coin()));
            else if (is({"enum", "required", "examples"})) { if (k == "required" && d == Draft::D3) { o.set(k, J(s.coin())); continue; } J l = J::arr(); for (int i = s.range(0, 3); i > 0; i--) l.push(k == "required" ? J(gen::key(s, cfg)) : value(1)); o.set(k, l); }
            else if (is({"pattern"})) o.set(k, J(pattern()));
            else if (is({"$ref", "$id", "id"})) o.set(k, J(ref()));
            else if (is({"type", "format", "title", "description"})) o.set(k, J(text()));
            else o.set(k, value(1));
        }
        return o;
    }
    // replaces one node of a well-formed schema, or moves one elsewhere
    void mutate(J &root) {
        std::vector<J *> all;
        std::function<void(J &)> walk = [&](J &j) { all.push_back(&j); for (auto &x : j.a) walk(x); for (auto &x : j.o) walk(x.second); };
        walk(root);
        J *at = s.pick(all);
        switch (s.weighted({4, 2, 2, 1})) {
        case 0: *at = value(1); break;
        case 1: { J copy = *s.pick(all); *at = copy; break; }
        case 2: if (at->isObj()) at->set(s.pick(words()), value(2)); else *at = number(); break;
        default: if (at->isObj()) at->set("$ref", J(ref())); else if (at->isArr() && !at->a.empty()) at->a.pop_back(); else *at = J(); break;
        }
    }
    J document(const J &schema, int depth) { return wild(schema, depth); }
    J wild(const J &schema, int depth) {
        if (s.chance(2, 3) && (schema.isObj())) { gen::InstGen g(s, cfg, schema); return g.gen(&schema, depth); }
        if (s.coin()) { J r = gen::value(s, cfg, depth); return r; }
        return value(depth);
    }
};

// References that lead only to references, in a circle, are rejected unless
// they start at the root of a schema without URI (a recorded finding): keep
// those out, generously.
struct Loops {
    std::vector<const J *> docs; // root and fetched documents
    std::vector<const J *> bases;
    std::map<const J *, int> state;
    explicit Loops(const std::vector<const J *> &d) : docs(d), bases(d) { for (auto x : docs) ids(*x); }
    void ids(const J &j) { if (j.isObj() && (j.has("$id") || j.has("id"))) bases.push_back(&j); for (auto &x : j.a) ids(x); for (auto &x : j.o) ids(x.second); }
    void targets(const std::string &r, std::vector<const J *> &out) {
        size_t h = r.find('#');
        std::string f = h == std::string::npos ? "" : r.substr(h + 1);
        bool local = h == 0;
        if (f.empty() || f == "/") { if (local || r.empty()) out.push_back(docs[0]); for (auto b : bases) out.push_back(b); return; }
        if (f[0] != '/') { for (auto b : bases) out.push_back(b); return; }
        for (auto b : bases) if (const J *t = RefVal::pointer(*b, f, true)) out.push_back(t);
    }
    bool cyclic(const J &j) {
        int &st = state[&j];
        if (st == 1) return true;
        if (st == 2) return false;
        st = 1;
        std::vector<const J *> next;
        if (j.isObj()) {
            if (const J *r = j.get("$ref")) { if (r->isStr()) targets(r->s, next); else for (auto b : bases) next.push_back(b); }
        }
        for (auto n : next) if (cyclic(*n)) { state[&j] = 1; return true; }
        state[&j] = 2;
        return false;
    }
    bool any() {
        std::vector<const J *> all;
        std::function<void(const J &)> walk = [&](const J &j) { all.push_back(&j); for (auto &x : j.a) walk(x); for (auto &x : j.o) walk(x.second); };
        for (auto d : docs) walk(*d);
        for (auto n : all) if (n->isObj() && cyclic(*n)) return true;
        return false;
    }
};
static int nodes(const J &j) { int n = 1; for (auto &x : j.a) n += nodes(x); for (auto &x : j.o) n += nodes(x.second); return n; }

struct Case {
    Draft d; const Lib *lib; J schema; std::vector<J> docs; std::map<std::string, J> web; int webMode = 0; // 0 none 1 serve 2 null 3 throw
    bool parsed = false, viaWeb = false; int verdicts = 0, threw = 0, errors = 0;
};
struct Stop : std::runtime_error { Stop() : std::runtime_error("fetch failed") {} };
static void exercise(Case &k) {
    const Lib &lib = *k.lib;
    DocPtr doc = lib.load(jdump(k.schema));
    if (!doc) return; // not every loader takes every text
    valijson::Schema schema;
    std::map<const void *, DocPtr> live;
    int fetches = 0;
    FetchCb cb;
    cb.fetch = [&](const std::string &u) -> DocPtr {
        k.viaWeb = true;
        if (k.webMode == 2 || ++fetches > 20) return nullptr; // a finite web
        if (k.webMode == 3) throw Stop();
        auto it = k.web.find(u);
        const J *j = it == k.web.end() ? nullptr : &it->second;
        if (!j) { if (k.web.empty()) return nullptr; j = &k.web.begin()->second; }
        DocPtr p = lib.load(jdump(*j));
        if (p) live[p.get()] = p;
        return p;
    };
    cb.freed = [&](const void *p) { live.erase(p); };
    try {
        if (k.webMode) lib.parseFetch(doc.get(), k.d, schema, cb);
        else lib.parse(doc.get(), k.d, schema);
        k.parsed = true;
    } catch (std::exception &) { return; }
    catch (...) { throw Fail{"parsing threw something that is not a standard exception"}; }
    doc.reset(); // the schema must not need its document
    for (int mode = 0; mode < 4; mode++) {
        VOpts o; o.weak = mode & 1; o.permissive = mode & 2;
        auto v = lib.validator(o);
        for (auto &x : k.docs) {
            DocPtr dp = lib.load(jdump(x));
            if (!dp) continue;
            for (int res = 0; res < 2; res++) {
                valijson::ValidationResults r;
                try { bool ok = v->validate(schema, dp.get(), res ? &r : nullptr); k.verdicts++; (void)ok; }
                catch (std::exception &) { k.threw++; }
                catch (...) { throw Fail{"validation threw something that is not a standard exception"}; }
                valijson::ValidationResults::Error e;
                while (r.popError(e)) { k.errors++; if (e.jsonPointer.size() > 100000) throw Fail{"absurd pointer"}; }
            }
        }
    }
}
static void run(Ctx &c, Case &k, bool measure) {
    std::vector<const J *> all{&k.schema};
    for (auto &w : k.web) all.push_back(&w.second);
    if (Loops(all).any()) c.discard();
    bool backtracks = false; // which is exponential in std::regex
    for (auto x : all) backtracks = backtracks || gen::backtracks(*x);
    if (backtracks) for (auto &x : k.docs) x = gen::shortened(x);
    int size = nodes(k.schema);
    c.desc = std::string(draftName(k.d)) + " " + k.lib->name + " web " + std::to_string(k.webMode) + " schema " + jdump(k.schema) + " docs " + docsText(k.docs);
    for (auto &w : k.web) c.desc += " web[" + w.first + "]=" + jdump(w.second);
    c.key = c.desc;
    exercise(k);
    c.label(k.parsed ? "accepted" : "rejected");
    c.label(k.lib->name);
    if (k.viaWeb) c.label("fetched");
    if (k.threw) c.label("validation-threw");
    if (k.errors) c.label("with-errors");
    c.nontrivial = size >= 3 && (!k.parsed || k.verdicts >= 8);
    if (measure) {
        long l = leakOf([&] { Case q = k; exercise(q); });
        c.label("leak-checked");
        if (l) c.fail(std::to_string(l) + " bytes leaked: " + c.desc);
    }
}
static Case base(Ctx &c, gen::Cfg &cfg) {
    Case k;
    k.d = c.s.pick({Draft::D7, Draft::D7, Draft::D4, Draft::D3});
    cfg.draft = k.d;
    cfg.badUtf8 = false;
    k.lib = c.s.pick(libs());
    if (loose(*k.lib)) cfg.nul = false;
    return k;
}
static void web(Src &s, Any &a, Case &k) {
    k.webMode = (int)s.weighted({5, 4, 1, 1});
    if (k.webMode == 1) for (int n = s.range(1, 2); n > 0; n--) k.web[s.pick(std::vector<std::string>{"http://h/x", "x.json", "urn:a:b", "http://h/x.json"})] = s.chance(1, 4) ? a.value(2) : a.soup(2);
}
int main(int argc, char **argv) {
    Check ck;
    ck.id = "C20";
    ck.rule = "Any JSON value as schema and as document for every library, draft, type mode and date mode, with and without results and with several kinds of fetch callback: 'anything' is unconstrained schema-like JSON; 'soup' has plausible keywords with unchecked values, references and identifiers; 'references' scatters references, identifiers and fetched documents over well-formed schemas; 'mutated' damages a well-formed schema; 'documents' confronts well-formed schemas with arbitrary documents and extreme numbers and strings; 'deep' nests 5..60 levels. Everything runs under AddressSanitizer and UndefinedBehaviorSanitizer, results are drained, the schema outlives its document, one case in 24 is repeated with allocation accounting. "
              "Non-trivial: a schema of at least 3 nodes that was rejected, or accepted and used for at least 8 verdicts.";
    ck.assumptions = {"circles of bare references are excluded (recorded as a finding; C06 covers those that are rejected)", "nesting at most 60 and at most 20 documents served by a fetch callback", "regular expressions are matched against strings of at most 300 bytes (std::regex recurses per byte)"};
    ck.subs.push_back({"anything", 104000, 1500000, [](Ctx &c) {
        gen::Cfg cfg; Case k = base(c, cfg); Any a{c.s, cfg, k.d};
        k.schema = a.value(4); web(c.s, a, k);
        for (int n = c.s.range(1, 3); n > 0; n--) k.docs.push_back(a.document(k.schema, 3));
        run(c, k, c.s.chance(1, 24));
    }});
    ck.subs.push_back({"soup", 136000, 2500000, [](Ctx &c) {
        gen::Cfg cfg; Case k = base(c, cfg); Any a{c.s, cfg, k.d};
        k.schema = a.soup(c.s.range(1, 4)); web(c.s, a, k);
        if (c.s.coin() && k.schema.isObj()) { J m = J::obj(); for (const char *n : {"a", "b", "0"}) m.set(n, a.soup(2)); k.schema.set("definitions", m); }
        for (int n = c.s.range(1, 3); n > 0; n--) k.docs.push_back(a.document(k.schema, 3));
        run(c, k, c.s.chance(1, 24));
    }});
    ck.subs.push_back({"references", 80000, 1500000, [](Ctx &c) {
        gen::Cfg cfg; Case k = base(c, cfg); Any a{c.s, cfg, k.d};
        auto place = [&](J &root) { // references and identifiers at random schema positions
            for (int n = c.s.range(1, 4); n > 0; n--) {
                std::vector<J *> all;
                std::function<void(J &)> walk = [&](J &j) { if (j.isObj()) all.push_back(&j); for (auto &x : j.a) walk(x); for (auto &x : j.o) walk(x.second); };
                walk(root);
                if (all.empty()) return;
                J *at = c.s.pick(all);
                switch (c.s.weighted({4, 3, 2})) {
                case 0: at->set("properties", J::obj({{c.s.pick(std::vector<std::string>{"a", "b"}), J::obj({{"$ref", J(a.ref())}})}})); break;
                case 1: at->set("$ref", J(a.ref())); break;
                default: at->set(k.d == Draft::D7 ? "$id" : "id", J(a.ref())); break;
                }
            }
        };
        k.schema = gen::schema(c.s, cfg, c.s.range(1, 3));
        if (!k.schema.isObj()) k.schema = J::obj();
        { J m = J::obj(); for (const char *n : {"a", "b", "0"}) m.set(n, gen::schema(c.s, cfg, 2)); k.schema.set("definitions", m); }
        place(k.schema);
        k.webMode = (int)c.s.weighted({1, 8, 1, 1});
        if (k.webMode == 1) for (int n = c.s.range(1, 3); n > 0; n--) {
            J w = c.s.chance(1, 6) ? a.value(2) : gen::schema(c.s, cfg, 2);
            if (w.isObj() && c.s.coin()) w.set("definitions", J::obj({{"a", gen::schema(c.s, cfg, 1)}}));
            if (w.isObj() && c.s.coin()) place(w);
            k.web[c.s.pick(std::vector<std::string>{"http://h/x", "x.json", "urn:a:b", "http://h/x.json", "http://h/y"})] = w;
        }
        for (int n = c.s.range(1, 3); n > 0; n--) k.docs.push_back(a.document(k.schema, 3));
        run(c, k, c.s.chance(1, 24));
    }});
    ck.subs.push_back({"mutated", 80000, 1500000, [](Ctx &c) {
        gen::Cfg cfg; Case k = base(c, cfg); Any a{c.s, cfg, k.d};
        cfg.annotations = true;
        k.schema = gen::schema(c.s, cfg, c.s.range(1, 3));
        for (int n = c.s.range(1, 2); n > 0; n--) a.mutate(k.schema);
        web(c.s, a, k);
        for (int n = c.s.range(1, 3); n > 0; n--) k.docs.push_back(a.document(k.schema, 3));
        run(c, k, c.s.chance(1, 24));
    }});
    ck.subs.push_back({"documents", 64000, 1000000, [](Ctx &c) {
        gen::Cfg cfg; Case k = base(c, cfg); Any a{c.s, cfg, k.d};
        k.schema = gen::schema(c.s, cfg, 2);
        if (!k.schema.isObj()) k.schema = J::obj();
        if (c.s.coin()) k.schema.set("format", J(c.s.pick(std::vector<std::string>{"date", "time", "date-time", "ipv4"})));
        if (c.s.chance(1, 4)) k.schema.set(k.d == Draft::D3 ? "divisibleBy" : "multipleOf", c.s.pick(std::vector<J>{J(1), J(0.1), J(5e-324), J(1e308), J((long long)INT64_MAX), J(0.01), J(3)}));
        if (c.s.chance(1, 4)) k.schema.set("uniqueItems", J(true));
        for (int n = c.s.range(2, 5); n > 0; n--) {
            switch (c.s.weighted({3, 2, 2, 2, 1})) {
            case 0: k.docs.push_back(a.document(k.schema, 3)); break;
            case 1: k.docs.push_back(a.number()); break;
            case 2: k.docs.push_back(J(a.text())); break;
            case 3: { J l = J::arr(); for (int q = c.s.range(0, 6); q > 0; q--) l.push(c.s.coin() ? a.number() : a.value(1)); k.docs.push_back(l); break; }
            default: { std::string t = a.text(); std::string o; while (o.size() < 200 && !t.empty() && o.size() + t.size() < 300) o += t; k.docs.push_back(J(o)); break; }
            }
        }
        run(c, k, c.s.chance(1, 24));
    }});
    ck.subs.push_back({"deep", 6000, 60000, [](Ctx &c) {
        gen::Cfg cfg; Case k = base(c, cfg); Any a{c.s, cfg, k.d};
        int n = c.s.range(5, 60);
        bool rec = c.s.chance(1, 3);
        auto wrapSchema = [&](J in) -> J {
            switch (c.s.below(7)) {
            case 0: return J::obj({{"properties", J::obj({{"a", in}})}});
            case 1: return J::obj({{"items", in}});
            case 2: return J::obj({{"items", J::arr({in})}});
            case 3: return J::obj({{k.d == Draft::D3 ? "extends" : "not", in}});
            case 4: return J::obj({{k.d == Draft::D3 ? "additionalItems" : "allOf", J::arr({in})}});
            case 5: return J::obj({{"additionalProperties", in}});
            default: return J::obj({{"dependencies", J::obj({{"a", in}})}});
            }
        };
        J in = gen::schema(c.s, cfg, 1);
        if (!in.isObj() && k.d != Draft::D7) in = J::obj();
        if (rec) in = J::obj({{"properties", J::obj({{"a", J::obj({{"$ref", "#"}})}})}, {"items", J::obj({{"$ref", "#"}})}});
        for (int i = 0; i < (rec ? 0 : n); i++) in = wrapSchema(in);
        k.schema = in;
        for (int q = 0; q < 2; q++) {
            J x = gen::value(c.s, cfg, 1);
            for (int i = c.s.range(0, n); i > 0; i--) x = c.s.coin() ? J::arr({x}) : J::obj({{"a", x}});
            k.docs.push_back(x);
        }
        run(c, k, c.s.chance(1, 24));
    }});
    ck.known["root-ref-cycle"] = [] {
        Parsed p = tryParse(libRapid(), Draft::D7, jparse("{\"$ref\":\"#/foo\",\"foo\":{\"$ref\":\"#/bar\"},\"bar\":{\"$ref\":\"#/foo\"}}"));
        if (p) throw Fail{"a root-level reference cycle was accepted"};
    };
    return runMain(argc, argv, ck);
}
