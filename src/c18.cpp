// Purity: history independence of validators and parsers, nothing modified,
// concurrent use of one schema. Built under ThreadSanitizer.
#include <atomic>
#include <thread>
#include <valijson/adapters/rapidjson_adapter.hpp>
#include <valijson/schema_parser.hpp>
#include "build.hpp"
using valijson::ValidationResults;
void *cAlloc(size_t n) { return malloc(n); }
void cFree(void *p) { free(p); }
Quiet::Quiet() {}
Quiet::~Quiet() {}

// Everything a schema holds, as text; subschemas are numbered in the order met.
static std::string dumpSchema(const Schema &s) {
    Names n; n.s = &s;
    std::vector<const Subschema *> todo{s.root()};
    std::string out;
    struct V : Dump {
        using Dump::Dump;
    };
    std::set<const Subschema *> seen{s.root()};
    // subschemas referred to by a constraint, found by asking for names
    n.grow = [&](const Subschema *p) { if (seen.insert(p).second) { int k = (int)n.ids.size(); n.ids[p] = k; todo.push_back(p); } };
    for (size_t i = 0; i < todo.size(); i++) {
        const Subschema *p = todo[i];
        out += "[" + n(p) + (p->getAlwaysInvalid() ? " never" : "");
        if (p->hasTitle()) out += " t=" + q(p->getTitle());
        if (p->hasDescription()) out += " d=" + q(p->getDescription());
        if (p->hasId()) out += " i=" + q(p->getId());
        Subschema::ApplyFunction f = [&](const vjc::Constraint &c) {
            V d(n);
            c.accept(d);
            out += " " + d.r.text;
            for (auto *z : d.r.frozen) { if (!z) { out += " null"; continue; } Rec e; out += z->equalTo(*adPico().blank(), true) ? " ~" : " ."; }
            return true;
        };
        p->applyStrict(f);
        out += "]\n";
    }
    return out;
}
static std::string show(const ValidationResults::Error &e) {
    std::string s;
    for (auto &x : e.context) s += x + "|";
    return s + " " + e.jsonPointer + " " + e.description;
}
struct Verdict {
    int v = -1; // -1: threw
    std::string what;
    std::vector<std::string> errors;
    bool operator==(const Verdict &o) const { return v == o.v && what == o.what && errors == o.errors; }
    std::string text() const { std::string t = v < 0 ? "threw '" + what + "'" : word(v); for (auto &e : errors) t += "\n      " + e; return t; }
};
static Verdict ask(IVal &v, const Schema &s, const void *d, bool results) {
    Verdict r;
    ValidationResults res;
    try { r.v = v.validate(s, d, results ? &res : nullptr); } catch (std::exception &e) { r.what = e.what(); }
    for (auto &e : res) r.errors.push_back(show(e));
    return r;
}
static const std::vector<const Lib *> &libs() { static const std::vector<const Lib *> v{&libRapid(), &libNlohmann(), &libPico(), &libBoostJson(), &libPtree()}; return v; }
static const AdLib &adOf(const Lib &l) {
    for (auto *a : {&adRapid(), &adNlohmann(), &adPico(), &adBoostJson(), &adPtree()}) if (std::string(a->name) == l.name) return *a;
    throw Fail{"harness: no adapter library"};
}
struct Sch { Draft d; J j; Parsed p; const Lib *lib; };
struct Doc { J j; const Lib *lib; DocPtr d; std::string before; };
struct World { std::vector<Sch> schemas; std::vector<Doc> docs; std::vector<VOpts> modes; std::string text; };

static void seasoning(Src &s, J &j, const std::vector<std::string> &pats) { // patterns and formats that repeat between schemas
    if (!j.isObj()) return;
    if (!j.has("$ref")) {
        if (s.chance(1, 3)) j.set("pattern", J(s.pick(pats)));
        if (s.chance(1, 6)) j.set("format", J(s.pick(std::vector<std::string>{"date", "time", "date-time", "ipv4"})));
        if (s.chance(1, 4)) { J pp = j.has("patternProperties") ? *j.get("patternProperties") : J::obj(); if (!pp.isObj()) return; int n = s.range(1, 2); for (int i = 0; i < n; i++) pp.set(s.pick(pats), s.coin() ? J::obj({{"minimum", J(0)}}) : J::obj({{"pattern", J(s.pick(pats))}})); j.set("patternProperties", pp); }
    }
    for (auto &p : j.o) {
        if (p.first == "properties" && p.second.isObj()) for (auto &m : p.second.o) seasoning(s, m.second, pats);
        else if ((p.first == "items" || p.first == "not" || p.first == "if" || p.first == "additionalProperties") && p.second.isObj()) seasoning(s, p.second, pats);
        else if ((p.first == "allOf" || p.first == "anyOf" || p.first == "oneOf") && p.second.isArr()) for (auto &m : p.second.a) seasoning(s, m, pats);
    }
}
static World world(Src &s, int maxSchemas, bool manyPatterns) {
    World w;
    gen::Cfg cfg;
    std::vector<std::string> pats{"^a", "a$", "^[a-f]+$", "b", "^.{3}$", "[0-9]", "^x?y", "o{2}", "^(a|b)*$"};
    std::vector<std::string> pool;
    for (int i = s.range(1, 4); i > 0; i--) pool.push_back(s.pick(pats));
    if (s.chance(1, 4)) { // patterns that have a long part in common
        std::string common;
        for (int i = s.pick(std::vector<int>{3, 8, 16, 32, 64, 128}); i > 0; i--) common += s.coin() ? "q?" : "(?:z)*";
        for (int i = s.range(2, 3); i > 0; i--) { const std::string p = s.pick(std::vector<std::string>{"^a", "a$", "b", "[0-9]", "o{2}", "c"}); pool.push_back(s.chance(3, 4) ? common + p : p + common); }
    }
    if (s.chance(1, 6)) pool.push_back(s.coin() ? "(" : "a[");    // throws when it is first used
    int n = s.range(1, maxSchemas);
    for (int i = 0; i < n; i++) {
        Sch x;
        cfg.draft = x.d = s.pick({Draft::D7, Draft::D7, Draft::D4, Draft::D3});
        x.j = gen::schema(s, cfg, s.range(0, 2));
        seasoning(s, x.j, pool);
        if (manyPatterns && x.j.isObj() && !x.j.has("$ref")) {
            J pp = J::obj();
            int k = s.range(5, 70);
            for (int m = 0; m < k; m++) pp.set("^p" + std::to_string(m) + "$", m % 2 ? J::obj({{"type", "number"}}) : J::obj({{"pattern", J("^v" + std::to_string(m))}}));
            x.j.set("patternProperties", pp);
        }
        if (s.chance(1, 3) && x.j.isObj() && !x.j.has("$ref")) { J pr = x.j.has("properties") ? *x.j.get("properties") : J::obj(); if (pr.isObj()) { pr.set("self", J::obj({{"$ref", "#"}})); x.j.set("properties", pr); } }
        x.lib = s.pick(std::vector<const Lib *>{&libRapid(), &libNlohmann(), &libPico(), &libBoostJson()});
        x.p = mustParse(*x.lib, x.d, x.j);
        w.schemas.push_back(std::move(x));
    }
    int m = s.range(1, 5);
    for (int i = 0; i < m; i++) {
        const Sch &x = w.schemas[s.below(w.schemas.size())];
        cfg.draft = x.d;
        Doc d;
        d.j = documents(s, cfg, x.j, 1, 1)[0];
        if (s.chance(1, 4)) d.j = J::obj({{"self", d.j}, {"a", J(1)}});
        if (manyPatterns) { if (!d.j.isObj()) d.j = J::obj(); for (int k = s.range(1, 40); k > 0; k--) { int t = s.below(72); d.j.set("p" + std::to_string(t), s.coin() ? J(t) : J("v" + std::to_string(t))); } }
        if (s.chance(1, 5)) d.j = J(s.pick(std::vector<std::string>{"2020-02-30", "2020-02-29", "12:00:60Z", "2020-01-01T00:00:00Z", "2020-01-01 00:00:00Z", "1.2.3.4", "1.2.3.400", "aaa", "foo"}));
        for (auto &y : w.schemas) d.j = gen::tame(y.j, d.j); // any document can meet any schema
        d.lib = s.pick(libs());
        bool loose = d.lib == &libPtree();
        d.d = d.lib->load(loose ? "{\"w\":" + jdump(d.j) + "}" : jdump(d.j));
        if (!d.d) { d.lib = &libRapid(); d.d = d.lib->load(jdump(d.j)); }
        d.before = jdump(adToJ(*adOf(*d.lib).make(d.d.get())));
        w.docs.push_back(d);
    }
    for (int i = s.range(1, 3); i > 0; i--) w.modes.push_back({s.coin(), s.coin()});
    for (size_t i = 0; i < w.schemas.size(); i++) w.text += "\n    schema " + std::to_string(i) + " " + draftName(w.schemas[i].d) + " " + jdump(w.schemas[i].j);
    for (size_t i = 0; i < w.docs.size(); i++) w.text += "\n    document " + std::to_string(i) + " " + w.docs[i].lib->name + " " + jdump(w.docs[i].j);
    return w;
}
static std::string modeText(VOpts m) { return std::string(m.weak ? "weak" : "strong") + (m.permissive ? ",permissive" : ""); }
static bool loose(const Doc &d) { return d.lib == &libPtree(); }

static void history(Ctx &c, bool manyPatterns) {
    Src &s = c.s;
    World w = world(s, 4, manyPatterns);
    std::string steps;
    c.desc = "world:" + w.text;
    std::vector<std::string> sdump;
    for (auto &x : w.schemas) sdump.push_back(dumpSchema(*x.p.schema));
    struct Val { std::map<const Lib *, std::unique_ptr<IVal>> v; VOpts m; int used = 0; };
    std::vector<Val> vals;
    auto fresh = [&] { Val v; v.m = s.pick(w.modes); for (auto *l : libs()) v.v[l] = l->validator(v.m); return v; };
    vals.push_back(fresh());
    std::map<std::string, Verdict> known;
    int n = s.range(2, 14), reused = 0, copies = 0, yes = 0, no = 0, threw = 0;
    for (int i = 0; i < n; i++) {
        size_t k = s.weighted({8, 1, 2});
        if (k == 1) { if (vals.size() < 4) { vals.push_back(fresh()); steps += "\n    new validator v" + std::to_string(vals.size() - 1) + " " + modeText(vals.back().m); } continue; }
        size_t vi = s.below(vals.size());
        if (k == 2) {
            if (vals.size() >= 4) continue;
            Val x; x.m = vals[vi].m; x.used = vals[vi].used;
            for (auto &p : vals[vi].v) x.v[p.first] = p.second->copy();
            vals.push_back(std::move(x));
            copies++;
            steps += "\n    v" + std::to_string(vals.size() - 1) + " = copy of v" + std::to_string(vi);
            continue;
        }
        Val &v = vals[vi];
        size_t si = s.below(w.schemas.size()), di = s.below(w.docs.size());
        const Sch &x = w.schemas[si]; const Doc &d = w.docs[di];
        bool res = s.chance(2, 3);
        steps += "\n    v" + std::to_string(vi) + " " + modeText(v.m) + " schema " + std::to_string(si) + " document " + std::to_string(di) + (res ? " with results" : "");
        c.desc = "world:" + w.text + "\n  steps:" + steps;
        std::string key = std::to_string(si) + "/" + std::to_string(di) + modeText(v.m) + (res ? "r" : "");
        auto it = known.find(key);
        if (it == known.end()) { auto f = d.lib->validator(v.m); it = known.emplace(key, ask(*f, *x.p.schema, d.d.get(), res)).first; }
        Verdict got = ask(*v.v[d.lib], *x.p.schema, d.d.get(), res);
        if (!(got == it->second)) c.fail("a used validator gave " + got.text() + "\n    but a fresh one " + it->second.text() + " for schema " + std::to_string(si) + ", document " + std::to_string(di));
        if (v.used++) reused++;
        (got.v < 0 ? threw : got.v ? yes : no)++;
    }
    for (size_t i = 0; i < w.schemas.size(); i++) {
        std::string a = dumpSchema(*w.schemas[i].p.schema);
        if (a != sdump[i]) c.fail("schema " + std::to_string(i) + " was changed from\n" + sdump[i] + "to\n" + a);
    }
    for (auto &d : w.docs) { std::string a = jdump(adToJ(*adOf(*d.lib).make(d.d.get()))); if (a != d.before) c.fail("a document was changed from " + d.before + " to " + a); }
    // the same once more, against the schemas parsed afresh
    for (auto &k : known) {
        size_t si = atoi(k.first.c_str()), di = atoi(k.first.substr(k.first.find('/') + 1).c_str());
        if (!s.chance(1, 4)) continue;
        VOpts m{k.first.find("weak") != std::string::npos, k.first.find("permissive") != std::string::npos};
        Parsed p = mustParse(*w.schemas[si].lib, w.schemas[si].d, w.schemas[si].j); // the order of errors may depend on the library
        auto f = w.docs[di].lib->validator(m);
        Verdict got = ask(*f, *p.schema, w.docs[di].d.get(), k.first.back() == 'r');
        if (!(got == k.second)) c.fail("parsing schema " + std::to_string(si) + " again gives " + got.text() + " for document " + std::to_string(di) + "\n    instead of " + k.second.text());
    }
    c.desc = "world:" + w.text + "\n  steps:" + steps;
    if (copies) c.label("copied");
    if (threw) c.label("threw");
    if (yes && no) c.label("both-verdicts");
    if (w.schemas.size() > 1) c.label("several-schemas");
    c.nontrivial = reused >= 2 && (yes || threw) && no;
}
static void parsers(Ctx &c) { // one parser, many schemas
    Src &s = c.s;
    Draft d = s.pick({Draft::D7, Draft::D4, Draft::D3});
    using valijson::SchemaParser;
    auto ver = d == Draft::D3 ? SchemaParser::kDraft3 : d == Draft::D4 ? SchemaParser::kDraft4 : SchemaParser::kDraft7;
    SchemaParser one(ver);
    gen::Cfg cfg; cfg.draft = d;
    int n = s.range(2, 6), bad = 0, again = 0;
    std::vector<J> all;
    std::map<std::string, J> web;
    for (int i = 0; i < n; i++) {
        J j;
        if (!all.empty() && s.chance(1, 4)) { j = s.pick(all); again++; }
        else {
            j = gen::schema(s, cfg, s.range(0, 2));
            if (j.isObj() && !j.has("$ref")) {
                if (s.coin()) { J defs = J::obj({{"x", gen::schema(s, cfg, 1)}}); j.set("definitions", defs); J pr = j.has("properties") ? *j.get("properties") : J::obj(); if (pr.isObj()) { pr.set("x", J::obj({{"$ref", s.coin() ? "#/definitions/x" : "#"}})); if (s.coin()) pr.set("y", J::obj({{"$ref", "#/definitions/x"}})); if (s.coin()) { std::string u = "http://r.example/" + std::to_string(s.below(2)) + ".json"; pr.set("z", J::obj({{"$ref", J(u)}})); } j.set("properties", pr); } }
                if (s.chance(1, 5)) { j.set("properties", J(3)); }
                if (s.chance(1, 3)) { J k = J::obj({{d == Draft::D7 ? "$id" : "id", "http://r.example/" + std::to_string(s.below(2)) + ".json"}}); for (auto &m : j.o) k.set(m.first, m.second); j = k; }
                if (s.chance(1, 4)) { J k = J::obj({{"$schema", J(s.pick(std::vector<std::string>{"http://json-schema.org/draft-07/schema#", "http://json-schema.org/draft-04/schema#", "http://json-schema.org/draft-03/schema#"}))}}); for (auto &m : j.o) k.set(m.first, m.second); j = k; }
            }
            all.push_back(j);
        }
        web["http://r.example/0.json"] = J::obj({{"type", i % 2 ? "string" : "number"}});  // the web moves on between parses
        web["http://r.example/1.json"] = J::obj({{"minimum", J(i)}});
        c.desc += "\n    " + jdump(j);
        std::string t = jdump(j);
        DocPtr doc = libRapid().load(t);
        std::string out[2];
        for (int k = 0; k < 2; k++) {
            Schema sch;
            SchemaParser other(ver);
            SchemaParser &p = k ? other : one;
            std::vector<DocPtr> held;
            valijson::adapters::RapidJsonAdapter a(*static_cast<const rapidjson::Document *>(doc.get()));
            std::function<const rapidjson::Document *(const std::string &)> fetch = [&](const std::string &u) -> const rapidjson::Document * { auto it = web.find(u); if (it == web.end()) return nullptr; held.push_back(libRapid().load(jdump(it->second))); return static_cast<const rapidjson::Document *>(held.back().get()); };
            std::function<void(const rapidjson::Document *)> freed = [](const rapidjson::Document *) {};
            try { p.populateSchema(a, sch, fetch, freed); out[k] = dumpSchema(sch); } catch (std::exception &e) { out[k] = std::string("threw ") + e.what(); }
        }
        if (out[0] != out[1]) c.fail("a parser used before made of " + t + "\n" + out[0] + "but a fresh one\n" + out[1]);
        bad += out[0].substr(0, 5) == "threw";
    }
    if (bad) c.label("failed-before");
    if (again) c.label("same-schema-again");
    c.nontrivial = n - bad >= 2;
}
static void threads(Ctx &c) {
    Src &s = c.s;
    World w = world(s, 3, s.chance(1, 4));
    const int T = s.range(2, 4);
    struct Job { size_t si, di; VOpts m; bool res; Verdict want; };
    std::vector<std::vector<Job>> jobs(T);
    std::map<std::string, Verdict> known;
    std::string t;
    int yes = 0, no = 0, threw = 0;
    for (int i = 0; i < T; i++) {
        VOpts m = s.pick(w.modes);
        t += "\n    thread " + std::to_string(i) + " " + modeText(m) + ":";
        for (int k = s.range(1, 5); k > 0; k--) {
            Job j{(size_t)s.below(w.schemas.size()), (size_t)s.below(w.docs.size()), m, s.coin(), {}};
            jobs[i].push_back(j);
            t += " " + std::to_string(j.si) + "/" + std::to_string(j.di) + (j.res ? "r" : "");
        }
    }
    c.desc = "world:" + w.text + t;
    bool parseToo = s.coin(), first = s.coin(); // concurrent use before any sequential use
    auto sequential = [&] {
        for (auto &v : jobs) for (auto &j : v) {
            std::string key = std::to_string(j.si) + "/" + std::to_string(j.di) + modeText(j.m) + (j.res ? "r" : "");
            auto it = known.find(key);
            if (it == known.end()) { auto f = w.docs[j.di].lib->validator(j.m); it = known.emplace(key, ask(*f, *w.schemas[j.si].p.schema, w.docs[j.di].d.get(), j.res)).first; }
            j.want = it->second;
        }
    };
    if (!first) sequential();
    std::vector<std::vector<Verdict>> got(T);
    std::atomic<int> ready{0};
    std::vector<std::string> errs(T);
    std::vector<std::thread> th;
    for (int i = 0; i < T; i++) th.emplace_back([&, i] {
        try {
            std::map<const Lib *, std::unique_ptr<IVal>> v;
            for (auto &j : jobs[i]) if (!v[w.docs[j.di].lib]) v[w.docs[j.di].lib] = w.docs[j.di].lib->validator(j.m);
            ready++;
            while (ready.load() < T) {}
            for (auto &j : jobs[i]) {
                if (parseToo && i == 0) mustParse(libPico(), w.schemas[j.si].d, w.schemas[j.si].j); // other schemas come and go
                got[i].push_back(ask(*v[w.docs[j.di].lib], *w.schemas[j.si].p.schema, w.docs[j.di].d.get(), j.res));
            }
        } catch (Fail &f) { errs[i] = f.msg; }
    });
    for (auto &x : th) x.join();
    for (auto &e : errs) if (!e.empty()) c.fail(e);
    if (first) sequential();
    for (int i = 0; i < T; i++) for (size_t k = 0; k < jobs[i].size(); k++) {
        const Verdict &a = got[i][k], &b = jobs[i][k].want;
        if (!(a == b)) c.fail("in a thread: " + a.text() + "\n    sequentially: " + b.text() + " for schema " + std::to_string(jobs[i][k].si) + ", document " + std::to_string(jobs[i][k].di));
        (a.v < 0 ? threw : a.v ? yes : no)++;
    }
    for (auto &d : w.docs) { std::string a = jdump(adToJ(*adOf(*d.lib).make(d.d.get()))); if (a != d.before) c.fail("a document was changed from " + d.before + " to " + a); }
    if (parseToo) c.label("parsing-alongside");
    if (threw) c.label("threw");
    std::set<size_t> used;
    bool shared = false;
    for (int i = 0; i < T; i++) { std::set<size_t> mine; for (auto &j : jobs[i]) mine.insert(j.si); for (size_t x : mine) if (!used.insert(x).second) shared = true; }
    if (shared) c.label("schema-shared");
    c.nontrivial = shared && no && (yes || threw);
}
int main(int argc, char **argv) {
    { // libstdc++ fills these caches on first use, without synchronisation
        auto &ct = std::use_facet<std::ctype<char>>(std::locale());
        char b[256], o[256];
        for (int i = 0; i < 256; i++) { b[i] = (char)i; ct.narrow((char)i, 0); ct.widen((char)i); }
        ct.narrow(b, b + 256, 0, o);
        ct.widen(b, b + 256, o);
    }
    Check ck;
    ck.id = "C18";
    ck.rule = "history: up to 4 schemas (sharing patterns, formats, recursion, some with patterns that throw) and documents of 5 libraries, with validators made, copied and reused over up to 14 calls; each verdict and error list must equal that of a fresh validator and of a schema parsed afresh, and schemas and documents must be unchanged. many-patterns: the same with up to 70 patterns per schema. "
              "parsers: one parser over several good and bad schemas against fresh parsers. threads: 2-4 threads using shared schemas and documents under ThreadSanitizer, compared with sequential use. Non-trivial: reuse (or sharing between threads) with both verdicts; distinct by choice sequence.";
    ck.assumptions = {"shared libraries of the system are not instrumented by ThreadSanitizer", "the baseline of a history is a fresh validator, whose verdicts other properties judge"};
    ck.subs.push_back({"history", 12000, 300000, [](Ctx &c) { history(c, false); }});
    ck.subs.push_back({"many-patterns", 800, 20000, [](Ctx &c) { history(c, true); }, 120});
    ck.subs.push_back({"parsers", 8000, 200000, parsers});
    ck.subs.push_back({"threads", 5000, 200000, threads, 20, true});
    return runMain(argc, argv, ck);
}
