// User-defined constraints: builders are called for exactly the schema objects
// that carry their keyword, with its value; what they build is consulted like a
// built-in assertion, and owned, copied and released exactly once.
#include "common.hpp"
#include "libs.hpp"
#include <valijson/constraint_builder.hpp>
#include <valijson/schema_parser.hpp>
#include <valijson/validator.hpp>
using namespace vc;
namespace vjk = valijson::constraints;
using valijson::adapters::Adapter;

struct Boom { int what; };
static J canon(const J &j) {
    switch (j.t) {
    case J::Dbl: return j.isIntegral() && std::fabs(j.d) < 9007199254740992.0 ? J((long long)j.d) : j;
    case J::Arr: { J r = J::arr(); for (auto &x : j.a) r.push(canon(x)); return r; }
    case J::Obj: { std::map<std::string, J> m; for (auto &x : j.o) m.emplace(x.first, canon(x.second)); J r = J::obj(); for (auto &x : m) r.set(x.first, x.second); return r; }
    default: return j;
    }
}
static std::string key(const J &j) { return jdump(canon(j)); }
static J read(const Adapter &a) {
    if (a.isNull()) return J();
    if (a.isBool()) return J(a.getBool());
    if (a.isString()) return J(a.getString());
    if (a.isArray()) { J r = J::arr(); a.applyToArray([&](const Adapter &x) { r.push(read(x)); return true; }); return r; }
    if (a.isObject()) { J r = J::obj(); a.applyToObject([&](const std::string &k, const Adapter &x) { r.set(k, read(x)); return true; }); return r; }
    int64_t i;
    if (a.isInteger() && a.getInteger(i)) return J((long long)i);
    return J(a.asDouble());
}

struct Kw { std::string key; int id, kind; u64 salt; };
struct Consult { int id; std::string param, inst, loc; bool operator<(const Consult &o) const { return std::tie(id, param, inst, loc) < std::tie(o.id, o.param, o.inst, o.loc); } };
struct World {
    std::vector<Kw> kws;
    int builders = 0, live = 0;
    std::vector<std::pair<int, std::string>> made;
    std::set<Consult> asked;
    bool sawResults = false;
    std::string bad;
    long throwMake = -1, throwCopy = -1, throwValidate = -1;
    bool boom(long &n) { return n >= 0 && n-- == 0; }
};
static World *W = nullptr;
// the arbitrary assertion, and the message that it leaves
static bool verdict(const Kw &k, const std::string &param, const std::string &inst) { return (mix(hashStr(param) ^ k.salt) ^ mix(hashStr(inst))) % 8 < (k.salt % 7) + 1; }
static std::string message(int id, const std::string &param, const std::string &inst) { return "custom " + std::to_string(id) + " " + param + " rejects " + inst; }
// built-in constraints made by a builder, and the schema that they stand for
static J alias(const Kw &k, const std::string &param) {
    u64 h = mix(hashStr(param) ^ k.salt);
    int n = (int)((h >> 8) % 4);
    switch (h % 5) {
    case 0: return J::obj({{"minLength", J(n)}});
    case 1: return J::obj({{"maximum", J(n - 1)}});
    case 2: return J::obj({{"maxItems", J(n)}});
    case 3: return J::obj({{"required", J::arr({J("a")})}});
    default: return J::obj({{"type", J(std::vector<const char *>{"string", "object", "array", "integer"}[n])}});
    }
}
static vjk::Constraint *aliasConstraint(const J &a) {
    auto &m = a.o[0];
    if (m.first == "minLength") { auto *c = new vjk::MinLengthConstraint; c->setMinLength((uint64_t)m.second.i); return c; }
    if (m.first == "maximum") { auto *c = new vjk::MaximumConstraint; c->setMaximum((double)m.second.i); return c; }
    if (m.first == "maxItems") { auto *c = new vjk::MaxItemsConstraint; c->setMaxItems((uint64_t)m.second.i); return c; }
    if (m.first == "required") { auto *c = new vjk::RequiredConstraint; c->addRequiredProperty(std::string("a")); return c; }
    auto *c = new vjk::TypeConstraint; c->addNamedType(vjk::TypeConstraint::jsonTypeFromString(m.second.s)); return c;
}

template <size_t Pad> struct Custom : vjk::PolyConstraint {
    int id;
    std::string param;
    std::unique_ptr<std::string> owned;
    unsigned char pad[Pad];
    Custom(int i, const std::string &p) : id(i), param(p), owned(new std::string(p)) { W->live++; memset(pad, (int)(Pad & 0xff), Pad); }
    Custom(const Custom &o) : PolyConstraint(o), id(o.id), param(o.param), owned(new std::string(*o.owned)) { if (W->boom(W->throwCopy)) throw Boom{2}; W->live++; memcpy(pad, o.pad, Pad); }
    ~Custom() override { W->live--; }
    bool validate(const Adapter &target, const valijson::ValidationResults::Path &path, valijson::ValidationResults *results) const override {
        for (unsigned char x : pad) if (x != (Pad & 0xff)) W->bad = "a copied constraint is damaged";
        if (*owned != param) W->bad = "a copied constraint is damaged";
        Consult q;
        q.id = id; q.param = param; q.inst = key(read(target));
        for (auto &e : path) {
            q.loc += "/" + ptrEsc(e.name);
            if (e.kind == valijson::ValidationResults::kArray && (e.name.empty() || e.name.find_first_not_of("0123456789") != e.name.npos)) W->bad = "the path element '" + e.name + "' is no array index";
        }
        W->asked.insert(q);
        W->sawResults = W->sawResults || results;
        if (W->boom(W->throwValidate)) throw Boom{3};
        if (verdict(W->kws[id], param, q.inst)) return true;
        if (results) results->pushError(path, message(id, param, q.inst));
        return false;
    }
private:
    vjk::Constraint *cloneInto(void *p) const override { return new (p) Custom(*this); }
    size_t sizeOf() const override { return sizeof(Custom); }
};
struct Builder : valijson::ConstraintBuilder {
    int id;
    bool *gone;
    explicit Builder(int i) : id(i) { W->builders++; }
    ~Builder() override { W->builders--; }
    vjk::Constraint *make(const Adapter &a) const override {
        std::string p = key(read(a));
        if (W->boom(W->throwMake)) throw Boom{1};
        W->made.push_back({id, p});
        switch (W->kws[id].kind) {
        case 0: return new Custom<1>(id, p);
        case 1: return new Custom<8>(id, p);
        case 2: return new Custom<200>(id, p);
        default: return aliasConstraint(alias(W->kws[id], p));
        }
    }
};
static std::vector<const Lib *> &fourLibs() { static std::vector<const Lib *> v{&libRapid(), &libNlohmann(), &libPico(), &libBoostJson()}; return v; }
template <class F> static void onAdapter(const Lib &lib, const void *doc, F f) {
    if (&lib == &libRapid()) f(L_Rapid::Ad(*static_cast<const L_Rapid::Doc *>(doc)));
    else if (&lib == &libNlohmann()) f(L_Nlohmann::Ad(*static_cast<const L_Nlohmann::Doc *>(doc)));
    else if (&lib == &libPico()) f(L_Pico::Ad(*static_cast<const L_Pico::Doc *>(doc)));
    else f(L_BoostJson::Ad(*static_cast<const L_BoostJson::Doc *>(doc)));
}
// every schema object that is reached without following a reference
static void walk(const J &s, Draft d, const std::function<void(const J &)> &f) {
    if (!s.isObj() || s.has("$ref")) return;
    f(s);
    auto one = [&](const char *k) { if (const J *x = s.get(k)) walk(*x, d, f); };
    auto each = [&](const char *k) { if (const J *x = s.get(k)) { for (auto &y : x->a) walk(y, d, f); for (auto &m : x->o) walk(m.second, d, f); } };
    each("properties"); each("patternProperties"); each("dependencies");
    one("additionalProperties");
    if (const J *x = s.get("items")) { if (x->isArr()) { each("items"); one("additionalItems"); } else one("items"); }
    if (d == Draft::D3) {
        if (const J *x = s.get("type")) { if (x->isArr()) for (auto &y : x->a) walk(y, d, f); else walk(*x, d, f); }
        if (const J *x = s.get("extends")) { if (x->isArr()) for (auto &y : x->a) walk(y, d, f); else walk(*x, d, f); }
    } else { each("allOf"); each("anyOf"); each("oneOf"); one("not"); }
    if (d == Draft::D7) { one("contains"); one("propertyNames"); if (s.has("if")) { one("if"); one("then"); one("else"); } }
}
struct Item { Draft d; J schema; const Lib *lib; std::unique_ptr<valijson::Schema> s; std::vector<J> docs; };

static J nested(const std::string &k) { J o = J::obj({{"properties", J::obj({{"a", J::obj({{k, J(2)}})}})}}); o.set(k, J(1)); return o; }
static void history(Ctx &c, bool faults) {
    Src &s = c.s;
    World w;
    W = &w;
    static const std::vector<std::string> names{"x-even", "X", "custom", "a/b", "~0", "", "\xC3\xA9", std::string("a\0b", 3), "title", "description", "default", "examples", "definitions", "type", "maxLength", "properties", "items", "enum", "required", "$comment", "then"};
    for (int n = s.range(1, 4); n > 0; n--) w.kws.push_back({!w.kws.empty() && s.chance(1, 5) ? w.kws[0].key : s.chance(2, 3) ? names[s.below(8)] : s.pick(names), (int)w.kws.size(), (int)s.below(4), s.below(100000)});
    std::vector<Item> items;
    auto eval = [&](const Item &it, const J &doc, std::set<Consult> *applied, std::set<std::string> *must) {
        RefVal r(it.d, it.schema);
        r.track = true;
        r.custom = [&](const J &sc, const J &inst, const std::string &loc, bool conj) {
            bool ok = true;
            for (auto &k : w.kws) if (const J *p = sc.get(k.key)) {
                std::string pk = key(*p), ik = key(inst);
                if (k.kind == 3) { J a = alias(k, pk); RefVal q(Draft::D7, a); ok = q.valid(a, inst) && ok; continue; }
                if (applied) applied->insert({k.id, pk, ik, loc});
                if (!verdict(k, pk, ik)) { ok = false; if (conj && must) must->insert(message(k.id, pk, ik)); }
            }
            return ok;
        };
        return r.valid(it.schema, doc);
    };
    for (int n = s.range(1, 2); n > 0; n--) {
        Item it;
        gen::Cfg cfg;
        it.lib = s.pick(fourLibs());
        cfg.draft = it.d = s.pick({Draft::D7, Draft::D7, Draft::D4, Draft::D3});
        if (it.lib == &libPico()) cfg.integralDoubles = false;
        cfg.extra = [&](Src &q, J &o) {
            if (!q.chance(2, 3)) return false;
            for (int m = q.range(1, 2); m > 0; m--) {
                auto &k = q.pick(w.kws);
                if (std::find(names.begin() + 8, names.end(), k.key) != names.end() && k.key != "title" && k.key != "description" && k.key != "default" && k.key != "examples" && k.key != "$comment") continue; // keywords with a meaning arise by themselves
                if (k.key == "title" || k.key == "description") o.set(k.key, J(gen::str(q, cfg)));
                else o.set(k.key, q.chance(1, 4) ? nested(w.kws[0].key) : gen::value(q, cfg, 1));
            }
            return q.chance(1, 3);
        };
        it.schema = gen::schema(s, cfg, s.range(0, 3));
        if (!it.schema.isObj()) it.schema = J::obj();
        cfg.extra = nullptr;
        if (s.chance(1, 3) && !it.schema.has("$ref")) {
            const bool d3 = it.d == Draft::D3;
            const J target = J::obj({{"$ref", s.chance(2, 3) ? "#/definitions/d" : "#"}});
            const int where = s.below(3);
            J def = gen::schema(s, cfg, 1);
            if (!def.isObj()) def = J::obj();
            for (auto &k : w.kws) if (std::find(names.begin(), names.begin() + 8, k.key) != names.begin() + 8 && s.coin()) def.set(k.key, gen::value(s, cfg, 1));
            J defs = J::obj({{"d", def}});
            it.schema.set("definitions", defs);
            J pr = it.schema.has("properties") ? *it.schema.get("properties") : J::obj();
            if (where == 0 || target.get("$ref")->s == "#") { pr.set("self", target); it.schema.set("properties", pr); if (s.coin()) { pr.set("too", target); it.schema.set("properties", pr); } }
            else if (where == 1 && !d3) it.schema.set("allOf", J::arr({target, target}));
            else if (d3) it.schema.set("extends", target);
            else it.schema.set("not", target);
        }
        it.docs = documents(s, cfg, it.schema, 1, 3);
        for (auto &d : it.docs) if (s.chance(1, 6)) d = J::obj({{"self", d}});
        items.push_back(std::move(it));
    }
    c.desc = "builders";
    for (auto &k : w.kws) c.desc += " " + jdump(J(k.key)) + ":" + std::to_string(k.kind) + ":" + std::to_string(k.salt);
    for (auto &it : items) c.desc += std::string("\n    ") + it.lib->name + " " + draftName(it.d) + " " + jdump(it.schema) + " docs " + docsText(it.docs);
    c.key = c.desc;

    int booms = 0, consulted = 0;
    {
        std::map<int, std::vector<std::unique_ptr<valijson::SchemaParser>>> parsers; // per draft; the last one is used
        auto version = [](Draft d) { return d == Draft::D7 ? valijson::SchemaParser::kDraft7 : d == Draft::D4 ? valijson::SchemaParser::kDraft4 : valijson::SchemaParser::kDraft3; };
        auto fresh = [&](Draft d) { auto *p = new valijson::SchemaParser(version(d)); for (auto &k : w.kws) p->addConstraintBuilder(k.key, new Builder(k.id)); return p; };
        for (auto &it : items) {
            auto &ps = parsers[(int)it.d];
            if (ps.empty() || s.coin()) ps.emplace_back(fresh(it.d));
            if (s.chance(1, 4)) { // a copy takes over
                ps.emplace_back(new valijson::SchemaParser(*ps.back()));
                if (s.coin()) ps.erase(ps.end() - 2);
                c.label("parser-copied");
            }
            if (s.chance(1, 8)) { valijson::SchemaParser other(version(it.d)); other = *ps.back(); c.label("parser-assigned"); }
            std::string t = jdump(it.schema);
            DocPtr doc = it.lib->load(t);
            if (!doc) c.discard();
            for (int attempt = 0; attempt < 2; attempt++) {
                it.s.reset(new valijson::Schema);
                w.made.clear();
                bool fault = faults && attempt == 0;
                if (fault) (s.coin() ? w.throwMake : w.throwCopy) = s.range(0, 4);
                const int before = w.live;
                bool boom = false;
                try { onAdapter(*it.lib, doc.get(), [&](const auto &a) { ps.back()->populateSchema(a, *it.s); }); }
                catch (Boom &) { boom = true; }
                catch (std::exception &e) { c.fail(std::string("parsing threw '") + e.what() + "' for " + t); }
                bool fired = fault && w.throwMake < 0 && w.throwCopy < 0;
                w.throwMake = w.throwCopy = -1;
                if (boom != fired) c.fail(std::string("an exception of a builder was ") + (boom ? "made up" : "swallowed") + " while parsing " + t);
                if (boom) { booms++; it.s.reset(); if (w.live != before) c.fail("a failed parse leaves " + std::to_string(w.live - before) + " constraints behind for " + t); continue; }
                // builders were called for exactly the objects that carry their keyword
                std::map<std::pair<int, std::string>, int> want, most, got;
                auto add = [&](const J &o, std::map<std::pair<int, std::string>, int> &m) { for (auto &k : w.kws) if (const J *p = o.get(k.key)) m[{k.id, key(*p)}]++; };
                walk(it.schema, it.d, [&](const J &o) { add(o, want); });
                if (t.find("\"#/definitions/d\"") != t.npos) walk(*it.schema.get("definitions")->get("d"), it.d, [&](const J &o) { add(o, want); });
                most = want;
                if (t.find("\"#\"") != t.npos) add(it.schema, most); // the root is compiled once more as the target of "#"
                for (auto &m : w.made) got[m]++;
                for (auto &m : most) if (got[m.first] < want[m.first] || got[m.first] > m.second) c.fail("builder " + std::to_string(m.first.first) + " was called " + std::to_string(got[m.first]) + " times for the value " + m.first.second + ", which occurs " + std::to_string(m.second) + " times in " + t);
                for (auto &m : got) if (!most.count(m.first)) c.fail("builder " + std::to_string(m.first.first) + " was called for the value " + m.first.second + ", which belongs to no schema in " + t);
                if (!fault && s.chance(3, 4)) break;
            }
            if (!it.s) c.fail("harness: no schema");
        }
        if (s.coin()) parsers.clear(); // schemas do not need the parser any more
        if (w.kws.size() && parsers.empty() && w.builders) c.fail(std::to_string(w.builders) + " builders outlive their parsers");
        if (!w.bad.empty()) c.fail(w.bad);
        for (int n = s.range(1, 5); n > 0; n--) {
            auto &it = s.pick(items);
            auto &doc = s.pick(it.docs);
            std::set<Consult> applied;
            std::set<std::string> must;
            int want = -1;
            try { want = eval(it, doc, &applied, &must); } catch (Ambiguous &) {} catch (RefVal::TooDeep &) {}
            if (want < 0) { c.label("open"); continue; }
            const Lib &dl = *s.pick(fourLibs());
            std::string t = jdump(doc);
            DocPtr d = dl.load(t);
            if (!d) continue;
            bool collect = s.coin(), boom = false, got = false;
            valijson::ValidationResults results;
            w.asked.clear();
            w.sawResults = false;
            bool fault = faults && s.coin();
            if (fault) w.throwValidate = s.range(0, 6);
            const int before = w.live;
            valijson::Validator v;
            try { onAdapter(dl, d.get(), [&](const auto &a) { got = v.validate(*it.s, a, collect ? &results : nullptr); }); }
            catch (Boom &) { boom = true; }
            catch (std::exception &e) { c.fail(std::string("validation threw '") + e.what() + "' for " + t + " against " + jdump(it.schema)); }
            bool fired = fault && w.throwValidate < 0;
            w.throwValidate = -1;
            if (boom != fired) c.fail(std::string("an exception of a constraint was ") + (boom ? "made up" : "swallowed") + " for " + t + " against " + jdump(it.schema));
            if (w.live != before) c.fail("validation changes the number of constraints");
            if (!w.bad.empty()) c.fail(w.bad);
            if (w.sawResults && !collect) c.fail("a constraint was given results that the caller did not ask for");
            consulted += (int)w.asked.size();
            // the items that 'contains' looks at are reported with the path of the array, or with their own
            const bool openLoc = jdump(it.schema).find("\"contains\"") != std::string::npos;
            if (openLoc) { std::set<Consult> any; for (auto q : applied) { q.loc.clear(); any.insert(q); } applied.swap(any); }
            for (auto q : w.asked) if (openLoc ? (q.loc.clear(), !applied.count(q)) : !applied.count(q)) c.fail("constraint " + std::to_string(q.id) + " " + q.param + " was consulted about " + q.inst + " at '" + q.loc + "', where it does not apply, for " + t + " against " + jdump(it.schema));
            if (boom) { booms++; continue; }
            if (got != (bool)want) c.fail(std::string("verdict ") + word(got) + " but the assertions give " + word(want) + " for " + t + " against " + jdump(it.schema));
            c.label(got ? "valid" : "invalid");
            if (collect) {
                std::set<std::string> texts;
                for (auto &e : results) texts.insert(e.description);
                for (auto &m : must) if (!texts.count(m)) c.fail("the error '" + m + "' is lost for " + t + " against " + jdump(it.schema));
                if (!must.empty()) c.label("must-report");
            }
        }
        for (auto &k : w.kws) if (k.kind == 3) { c.label("alias"); break; }
    }
    items.clear();
    if (w.builders) c.fail(std::to_string(w.builders) + " builders were not destroyed");
    if (w.live) c.fail(std::to_string(w.live) + " constraints were not destroyed");
    if (booms) c.label("threw");
    c.nontrivial = consulted > 0 || booms > 0;
}
// Constraints that are added to schemas directly
static void direct(Ctx &c) {
    Src &s = c.s;
    World w;
    W = &w;
    for (int n = s.range(1, 3); n > 0; n--) w.kws.push_back({"k", (int)w.kws.size(), 0, s.below(100000)});
    gen::Cfg cfg;
    J doc = gen::value(s, cfg, s.range(0, 2));
    std::string t = jdump(doc), dk = key(doc);
    bool want = true;
    {
        valijson::Schema schema;
        std::vector<std::string> log;
        std::set<std::string> must;
        const valijson::Subschema *child = nullptr;
        bool childWant = true;
        for (int n = s.range(1, 5); n > 0; n--) {
            int id = (int)s.below(w.kws.size());
            std::string p = key(gen::scalar(s, cfg));
            Custom<16> x(id, p);
            bool inChild = s.chance(1, 3);
            if (inChild && !child) { child = schema.createSubschema(); vjk::AllOfConstraint a; a.addSubschema(child); schema.addConstraint(a); }
            bool ok = verdict(w.kws[id], p, dk);
            if (s.chance(1, 6)) {
                w.throwCopy = 0;
                bool boom = false;
                try { inChild ? schema.addConstraintToSubschema(x, child) : schema.addConstraint(x); } catch (Boom &) { boom = true; }
                if (!boom) c.fail("an exception of a copied constraint was swallowed");
                w.throwCopy = -1;
                c.label("threw");
                continue;
            }
            if (inChild) { schema.addConstraintToSubschema(x, child); childWant = childWant && ok; }
            else if (s.coin()) { schema.addConstraint(x); want = want && ok; }
            else { schema.addConstraintToSubschema(x, schema.root()); want = want && ok; }
            x.param = "changed"; // the schema has its own copy
            log.push_back(std::to_string(id) + p + (inChild ? "c" : ""));
            if (!ok) must.insert(message(id, p, dk));
        }
        want = want && childWant;
        for (auto &l : log) c.desc += l + " ";
        c.desc += "on " + t + " salt " + std::to_string(w.kws[0].salt);
        c.key = c.desc;
        for (auto *lib : fourLibs()) {
            DocPtr d = lib->load(t);
            if (!d) continue;
            for (bool collect : {false, true}) {
                valijson::ValidationResults r;
                valijson::Validator v;
                bool got = false;
                onAdapter(*lib, d.get(), [&](const auto &a) { got = v.validate(schema, a, collect ? &r : nullptr); });
                if (!w.bad.empty()) c.fail(w.bad);
                if (got != want) c.fail(std::string("verdict ") + word(got) + " but the constraints say " + word(want) + " for " + t);
                std::set<std::string> texts;
                for (auto &e : r) texts.insert(e.description);
                if (collect) for (auto &m : must) if (!texts.count(m)) c.fail("the error '" + m + "' is lost for " + t);
            }
        }
        c.nontrivial = !log.empty();
    }
    if (w.live) c.fail(std::to_string(w.live) + " constraints were not destroyed");
}
int main(int argc, char **argv) {
    Check ck;
    ck.id = "C23";
    ck.rule = "Parsers with 1..4 ConstraintBuilders (several per keyword; keywords that are empty, contain NUL, '/' or '~', or coincide with built-in keywords and annotations) parse 1..2 random schemas that carry these keywords at any depth, also in data and beside references. The builders make PolyConstraints with an arbitrary verdict function of (value of the keyword, instance), or built-in constraints; every call, copy and consultation is recorded. Oracles: calls = schema objects that carry the keyword; consultations only where the reference validator applies the schema, with the value and path found there; verdict = reference validator with the same function; errors of conjunctive positions reported; constructions and destructions balance. 'faults': builders, copies and constraints throw a type that is not std::exception. 'direct': constraints added to schemas by code. "
              "Non-trivial: a custom constraint was consulted or threw; distinct by builders, schemas and documents.";
    ck.assumptions = {"trusts src/refval.hpp", "PolyConstraint is the first base class", "make() does not return null"};
    ck.subs.push_back({"builders", 60000, 2000000, [](Ctx &c) { history(c, false); }});
    ck.subs.push_back({"faults", 30000, 1000000, [](Ctx &c) { history(c, true); }});
    ck.subs.push_back({"direct", 20000, 300000, direct});
    return runMain(argc, argv, ck);
}
