// Schemas assembled through the API against the same schemas as JSON.
#include "build.hpp"

static long blocks = 0; // live blocks of the custom allocator
void *cAlloc(size_t n) { blocks++; return malloc(n); }
void cFree(void *p) { if (p) blocks--; free(p); }
Quiet::Quiet() {}
Quiet::~Quiet() {}

static void compare(Ctx &c, const Names &n, const Subschema *p, const std::vector<Rec> &want, const std::vector<const AdLib *> &) {
    std::vector<Rec> got; std::string err;
    int budget = -1, seen = 0;
    Subschema::ApplyFunction f = [&](const vjc::Constraint &k) { Dump d(n); if (!k.accept(d)) err = "accept returned false"; if (d.twice || d.r.text.empty()) err = "a constraint visited " + std::string(d.twice ? "twice" : "no visitor method"); got.push_back(d.r); seen++; return budget < 0 || seen <= budget; };
    c.require(p->apply(f), "apply returned false although every call returned true");
    c.require(err.empty(), err);
    auto sorted = [](const std::vector<Rec> &v) { std::vector<std::string> t; for (auto &r : v) t.push_back(r.text); std::sort(t.begin(), t.end()); return t; };
    auto a = sorted(want), b = sorted(got);
    if (a != b) { std::string x, y; for (auto &t : a) x += t + "; "; for (auto &t : b) y += t + "; "; c.fail("subschema " + n(p) + " holds {" + y + "} but {" + x + "} was added"); }
    // frozen values: each 'enum'/'const' added must be found
    std::vector<char> used(got.size(), 0);
    for (auto &w : want) if (w.text == "enum" || w.text == "const") {
        bool found = false;
        for (size_t i = 0; i < got.size() && !found; i++) if (!used[i] && got[i].text == w.text && got[i].frozen.size() == w.vals.size()) {
            bool all = true;
            for (size_t k = 0; k < w.vals.size() && all; k++) {
                DocPtr t = adRapid().load(jdump(w.vals[k]));
                auto ad = adRapid().make(t.get());
                bool m = false;
                for (auto fz : got[i].frozen) m = m || (fz && fz->equalTo(*ad, true));
                all = m;
            }
            if (all) { used[i] = 1; found = true; }
        }
        if (!found) { std::string t; for (auto &v : w.vals) t += jdump(v) + ","; c.fail("subschema " + n(p) + " lost the " + w.text + " of " + t); }
    }
    // early stop
    size_t total = got.size();
    if (total) {
        budget = (int)c.s.below(total); seen = 0;
        got.clear();
        c.require(!p->apply(f), "apply returned true although a call returned false");
        c.require((size_t)seen == total, "apply stopped early");
        seen = 0;
        c.require(!p->applyStrict(f), "applyStrict returned true although a call returned false");
        c.require(seen == budget + 1, "applyStrict did not stop at the first false");
        budget = -1; seen = 0;
        c.require(p->applyStrict(f) && (size_t)seen == total, "applyStrict did not visit everything");
    }
}

static void putRefs(Src &s, J &j, const std::vector<std::string> &targets, int depth) {
    auto place = [&](J &x) { if (s.chance(1, 4)) x = J::obj({{"$ref", J(s.pick(targets))}}); else putRefs(s, x, targets, depth + 1); };
    if (!j.isObj()) return;
    for (auto &p : j.o) {
        if ((p.first == "properties" || p.first == "patternProperties") && p.second.isObj()) for (auto &m : p.second.o) place(m.second);
        else if (p.first == "items") { if (p.second.isArr()) for (auto &m : p.second.a) place(m); else place(p.second); }
        else if ((p.first == "additionalProperties" || p.first == "additionalItems" || p.first == "contains") && p.second.isObj()) place(p.second);
        else if (p.first == "allOf" || p.first == "anyOf" || p.first == "oneOf") for (auto &m : p.second.a) putRefs(s, m, targets, depth + 1);
    }
}
static void putFormats(Src &s, J &j) {
    if (!j.isObj()) return;
    if (!j.has("$ref") && s.chance(1, 2)) j.set("format", J(s.pick(std::vector<std::string>{"date", "time", "date-time", "ipv4", "unknown", "a"})));
    for (auto &p : j.o) {
        if (p.first == "properties" && p.second.isObj()) for (auto &m : p.second.o) putFormats(s, m.second);
        else if (p.first == "items" && p.second.isObj()) putFormats(s, p.second);
        else if (p.first == "allOf" || p.first == "anyOf" || p.first == "oneOf") for (auto &m : p.second.a) putFormats(s, m);
    }
}
static void stringsToFormats(Src &s, J &j) {
    if (j.isStr() && s.chance(2, 3)) j.s = s.pick(std::vector<std::string>{"2020-02-29", "2021-02-29", "12:00:00Z", "24:00:00Z", "2020-01-01T00:00:00Z", "127.0.0.1", "256.1.1.1", "x"});
    for (auto &x : j.a) stringsToFormats(s, x);
    for (auto &x : j.o) stringsToFormats(s, x.second);
}

static void one(Ctx &c, int mode) { // 0 plain, 1 shared and cyclic, 2 formats
    Src &s = c.s;
    gen::Cfg cfg;
    cfg.draft = s.pick(std::vector<Draft>{Draft::D7, Draft::D4, Draft::D3});
    J schema = gen::schema(s, cfg, s.range(0, 3));
    if (mode == 1) {
        if (!schema.isObj()) schema = J::obj();
        int n = s.range(1, 3);
        J defs = J::obj(); std::vector<std::string> t{"#"};
        for (int i = 0; i < n; i++) { t.push_back("#/definitions/d" + std::to_string(i)); defs.set("d" + std::to_string(i), gen::schema(s, cfg, s.range(0, 2))); }
        if (!schema.has("properties") || s.coin()) { J pr = schema.has("properties") ? *schema.get("properties") : J::obj(); for (auto k : {"a", "b"}) if (!pr.has(k)) pr.set(k, J::obj({{"$ref", J(s.pick(t))}})); schema.set("properties", pr); }
        for (auto &d : defs.o) putRefs(s, d.second, t, 0);
        putRefs(s, schema, t, 0);
        schema.set("definitions", defs);
    }
    if (mode == 2) putFormats(s, schema);
    auto docs = documents(s, cfg, schema, 1, 4);
    if (mode == 2) for (auto &d : docs) stringsToFormats(s, d);
    c.desc = std::string(draftName(cfg.draft)) + " schema " + jdump(schema) + "  documents " + docsText(docs);
    long before = blocks;
    {
        std::unique_ptr<Schema> spare(new Schema);      // a different owner
        std::unique_ptr<Schema> sp(s.chance(1, 4) ? new Schema(cAlloc, cFree) : new Schema);
        Schema &sch = *sp;
        Build b{s, schema, sch, cfg.draft, {&adRapid(), &adNlohmann(), &adJsonCpp(), &adBoostJson(), &adPico()}};
        b.names.s = &sch;
        b.want[sch.root()];
        b.fill(schema, sch.root());
        // foreign targets, with content of their own
        const Subschema *foreign = spare->createSubschema();
        { vjc::MinLengthConstraint m; m.setMinLength(3); spare->addConstraintToSubschema(m, foreign); spare->addConstraint(m); }
        Names fn; fn.s = spare.get(); fn.ids[foreign] = 0;
        Rec frec; frec.text = "minLength 3";
        // annotations
        struct Ann { std::string t, d, i; bool ht = false, hd = false, hi = false; };
        std::map<const Subschema *, Ann> ann;
        std::vector<const Subschema *> all;
        for (auto &w : b.want) all.push_back(w.first);
        std::sort(all.begin(), all.end(), [&](auto x, auto y) { return b.names(x).size() != b.names(y).size() ? b.names(x).size() < b.names(y).size() : b.names(x) < b.names(y); });
        int extra = s.range(0, 4), misuse = s.range(0, 3), rejected = 0;
        std::vector<std::function<void()>> ops = b.ops;
        for (int i = 0; i < extra; i++) {
            const Subschema *p = s.pick(all);
            std::string v = gen::str(s, cfg);
            int k = s.below(3);
            ops.push_back([&, p, v, k] {
                auto &a = ann[p];
                if (k == 0) { sch.setSubschemaTitle(p, v); a.t = v; a.ht = true; }
                else if (k == 1) { sch.setSubschemaDescription(p, v); a.d = v; a.hd = true; }
                else { sch.setSubschemaId(p, v); a.i = v; a.hi = true; }
            });
        }
        for (int i = 0; i < misuse; i++) {
            const Subschema *p = nullptr;
            switch (s.below(5)) { case 0: p = foreign; break; case 1: p = spare->root(); break; case 2: p = sch.emptySubschema(); break; case 3: p = spare->emptySubschema(); break; default: break; }
            int k = s.below(5);
            bool null = p == nullptr;
            ops.push_back([&, p, k, null] {
                vjc::TypeConstraint t; t.addNamedType(TypeConstraint::kNull);
                try {
                    switch (k) {
                    case 0: sch.addConstraintToSubschema(t, p); break;
                    case 1: sch.setAlwaysInvalid(p, true); break;
                    case 2: sch.setSubschemaTitle(p, "x"); break;
                    case 3: sch.setSubschemaDescription(p, "x"); break;
                    default: sch.setSubschemaId(p, "x");
                    }
                } catch (std::runtime_error &) { rejected++; return; }
                throw Fail{std::string("a change to ") + (null ? "a null subschema" : p == sch.emptySubschema() ? "the shared empty subschema" : "a subschema of another schema") + " was accepted (operation " + std::to_string(k) + ")"};
            });
        }
        for (size_t i = ops.size(); i > 1; i--) std::swap(ops[i - 1], ops[i - 1 - s.below(i)]);
        for (auto &f : ops) f();
        c.require(rejected == misuse, "harness: misuse not run");
        ops.clear(); b.ops.clear();
        if (s.coin()) b.pool.clear();
        // contents
        for (auto &p : all) {
            compare(c, b.names, p, b.want[p], b.libs);
            c.require(p->getAlwaysInvalid() == (b.never.count(p) > 0), "getAlwaysInvalid of " + b.names(p) + " is not what was set");
            auto &a = ann[p];
            auto same = [&](bool has, const std::string &v, bool h, std::function<std::string()> get, const char *w) {
                c.require(h == has, std::string("has-") + w + " of " + b.names(p) + " is wrong");
                if (has) c.require(get() == v, std::string(w) + " of " + b.names(p) + " is " + q(get()) + " but " + q(v) + " was set");
                else { bool threw = false; try { get(); } catch (std::runtime_error &) { threw = true; } c.require(threw, std::string("reading an unset ") + w + " did not throw"); }
            };
            same(a.ht, a.t, p->hasTitle(), [&] { return p->getTitle(); }, "title");
            same(a.hd, a.d, p->hasDescription(), [&] { return p->getDescription(); }, "description");
            same(a.hi, a.i, p->hasId(), [&] { return p->getId(); }, "id");
        }
        compare(c, b.names, sch.emptySubschema(), {}, b.libs);
        c.require(!sch.emptySubschema()->hasTitle() && !sch.emptySubschema()->hasId() && !sch.emptySubschema()->hasDescription() && !sch.emptySubschema()->getAlwaysInvalid(), "the shared empty subschema was changed");
        for (auto p : {(const Subschema *)foreign, spare->root()}) {
            compare(c, fn, p, {frec}, b.libs);
            c.require(!p->hasTitle() && !p->hasId() && !p->hasDescription() && !p->getAlwaysInvalid(), "a subschema of another schema was changed");
        }
        if (s.coin()) spare.reset();
        // verdicts
        const Lib &lib = libRapid();
        Parsed ps = mustParse(lib, cfg.draft, schema);
        auto v = lib.validator({});
        bool T = false, F = false;
        for (auto &d : docs) {
            int ref = -1;
            if (mode != 2) {
                try { RefVal r(cfg.draft, schema); ref = r.valid(schema, d); } catch (Ambiguous &) {} catch (RefVal::TooDeep &) { c.label("bottomless"); continue; }
            }
            valijson::ValidationResults res;
            bool built = validate(lib, *v, sch, d), built2 = validate(lib, *v, sch, d, &res), parsed = validate(lib, *v, *ps.schema, d);
            if (built != parsed) c.fail(std::string("built schema says ") + word(built) + ", parsed schema says " + word(parsed) + " for " + jdump(d));
            if (built2 != built) c.fail(std::string("built schema says ") + word(built2) + " with results and " + word(built) + " without for " + jdump(d));
            if ((res.numErrors() == 0) != built) c.fail("errors and verdict disagree for " + jdump(d));
            if (ref >= 0 && ref != (int)built) c.fail(std::string("built schema says ") + word(built) + ", the specification says " + word(ref) + " for " + jdump(d));
            (built ? T : F) = true;
        }
        if (T && F) c.label("both-verdicts");
        for (auto &w : b.want) for (auto &r : w.second) c.label("c:" + r.text.substr(0, r.text.find(' ')));
        if (b.shared) c.label("shared-subschema");
        if (b.copies) c.label("copied-constraint");
        if (b.inlined) c.label("inlined");
        if (b.split) c.label("split");
        if (misuse) c.label("misuse");
        if (!b.never.empty()) c.label("always-invalid");
        size_t cons = 0; for (auto &w : b.want) cons += w.second.size();
        c.nontrivial = cons >= 3 && (F || mode == 1) && b.want.size() >= 2;
        c.key = c.desc;
    }
    c.require(blocks == before, "blocks of the custom allocator left: " + std::to_string(blocks - before));
}

int main(int argc, char **argv) {
    Check ck;
    ck.id = "C16";
    ck.rule = "A generated schema (drafts 3, 4 and 7) is compiled into calls of the constraint and subschema interface, in random order, with constraint objects made by either constructor, copied, cloned or assigned, spoiled, kept or destroyed after adding, subschemas shared and cyclic, "
              "keyword groups split over several constraints, and misuse in between; contents are compared with what was added and verdicts with the parsed schema and the reference validator. Non-trivial: at least 3 constraints over 2 subschemas, and an invalid document or references; distinct by case.";
    ck.assumptions = {"validation uses the RapidJSON adapter; enum and const values are frozen from five libraries", "subschema pointers are null only where the library documents it (additional items and properties, items, not, then, else)"};
    ck.subs.push_back({"plain", 60000, 3000000, [](Ctx &c) { one(c, 0); }});
    ck.subs.push_back({"shared", 60000, 3000000, [](Ctx &c) { one(c, 1); }});
    ck.subs.push_back({"formats", 20000, 600000, [](Ctx &c) { one(c, 2); }});
    return runMain(argc, argv, ck);
}
