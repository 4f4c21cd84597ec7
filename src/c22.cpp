// A user-supplied regular expression engine decides every pattern: it is given
// exactly the pattern texts and subjects, once per text, and may throw.
#include "common.hpp"
#include "libs.hpp"
#include <valijson/validator.hpp>
using namespace vc;

// What the engines do is decided per case.
struct Boom { int what; };
struct World {
    int kind = 0;               // notion of matching
    u64 salt = 0;
    std::map<std::string, int> made;   // successful constructions per text (of the current validator)
    std::set<std::pair<std::string, std::string>> asked;
    int searches = 0, live = 0;
    long throwMake = -1, throwSearch = -1; // count down to an exception
    std::string bad;
};
static World *W = nullptr;
static bool matches(const std::string &p, const std::string &t) {
    switch (W->kind) {
    case 0: return t.find(p) != std::string::npos;                 // literal substring
    case 1: return t == p;                                         // equality
    case 2: return (mix(hashStr(p) ^ W->salt) ^ hashStr(t)) & 1;   // arbitrary
    case 3: return t.size() == p.size();
    case 4: return true;
    default: return false;
    }
}
// Neither copyable nor assignable: all the library may do is construct and move
struct Engine {
    std::unique_ptr<std::string> text;
    explicit Engine(const std::string &p) {
        if (W->throwMake >= 0 && W->throwMake-- == 0) throw Boom{1};
        text.reset(new std::string(p));
        W->made[p]++;
        W->live++;
    }
    Engine(Engine &&e) noexcept : text(std::move(e.text)) {}
    Engine(const Engine &) = delete;
    Engine &operator=(const Engine &) = delete;
    Engine &operator=(Engine &&) = delete;
    ~Engine() { if (text) W->live--; }
    static bool search(const std::string &t, const Engine &e) {
        if (!e.text) { W->bad = "a moved-from engine was asked"; return false; }
        W->searches++;
        W->asked.insert({*e.text, t});
        if (W->throwSearch >= 0 && W->throwSearch-- == 0) throw Boom{2};
        return matches(*e.text, t);
    }
};
// A copyable engine, for validators that are copied
struct CEngine {
    std::string text;
    CEngine(const std::string &p) : text(p) { W->made[p]++; }
    static bool search(const std::string &t, const CEngine &e) { W->searches++; W->asked.insert({e.text, t}); return matches(e.text, t); }
};
template <class E> static bool runOn(valijson::ValidatorT<E> &v, const Lib &lib, const valijson::Schema &s, const void *doc, valijson::ValidationResults *r) {
    if (&lib == &libRapid()) { L_Rapid::Ad a(*static_cast<const L_Rapid::Doc *>(doc)); return v.validate(s, a, r); }
    if (&lib == &libNlohmann()) { L_Nlohmann::Ad a(*static_cast<const L_Nlohmann::Doc *>(doc)); return v.validate(s, a, r); }
    L_Pico::Ad a(*static_cast<const L_Pico::Doc *>(doc)); return v.validate(s, a, r);
}

static std::string patText(Src &s, const gen::Cfg &cfg) {
    switch (s.weighted({5, 4, 3, 1, 1})) {
    case 0: return gen::str(s, cfg);
    case 1: return s.pick(gen::plainKeys());
    case 2: return s.pick(std::vector<std::string>{"(", ")", "[", "*", "a{", "\\", "^a", "b$", "(?<x>", "", ".", std::string("a\0b", 3), std::string("a\0c", 3), "a", std::string("\0", 1), "\xC3\xA9", "a\nb", "/", "~1", "%"});
    case 3: return std::string((size_t)s.range(1, 2000), 'x');
    default: return gen::pattern(s);
    }
}
static void collect(const J &j, std::set<std::string> &strings) { if (j.isStr()) strings.insert(j.s); for (auto &x : j.a) collect(x, strings); for (auto &m : j.o) { strings.insert(m.first); collect(m.second, strings); } }
static void patterns(const J &j, std::set<std::string> &out) {
    if (j.isObj()) for (auto &m : j.o) { if (m.first == "pattern" && m.second.isStr()) out.insert(m.second.s); if (m.first == "patternProperties") for (auto &x : m.second.o) out.insert(x.first); }
    for (auto &x : j.a) patterns(x, out);
    for (auto &m : j.o) patterns(m.second, out);
}
struct Item { J schema; Parsed p; std::vector<J> docs; Draft d; std::set<std::string> pats; };
static bool pick3(Src &s, const Lib *&lib) { lib = s.pick(std::vector<const Lib *>{&libRapid(), &libNlohmann(), &libPico()}); return true; }

template <class E> static void history(Ctx &c, bool faults, bool copies) {
    Src &s = c.s;
    World w;
    W = &w;
    w.kind = (int)s.weighted({3, 2, 6, 2, 1, 1});
    w.salt = s.below(1000);
    const Lib *lib; pick3(s, lib);
    std::vector<Item> items;
    std::vector<std::string> shared;
    for (int n = s.range(1, 3); n > 0; n--) {
        gen::Cfg cfg;
        cfg.draft = s.pick({Draft::D7, Draft::D7, Draft::D4, Draft::D3});
        cfg.oddKeyPct = 25;
        if (lib == &libPico()) cfg.integralDoubles = false;
        auto text = [&](Src &q) { if (!shared.empty() && q.chance(1, 3)) return q.pick(shared); std::string t = patText(q, cfg); shared.push_back(t); return t; };
        cfg.extra = [&](Src &q, J &o) {
            if (!q.chance(3, 5)) return false;
            if (q.coin()) o.set("pattern", J(text(q)));
            else {
                J m = J::obj();
                gen::Cfg inner = cfg; inner.extra = nullptr;
                for (int k = q.range(1, 3); k > 0; k--) m.set(text(q), q.chance(1, 4) ? J::obj({{"pattern", J(text(q))}}) : gen::schema(q, inner, 1));
                o.set("patternProperties", m);
                if (q.coin()) o.set("additionalProperties", J(false));
            }
            for (int k = q.range(0, 2); k > 0; k--) { gen::Cfg inner = cfg; inner.extra = nullptr; inner.patterns = false; gen::addKeyword(q, inner, 1, o); }
            return true;
        };
        Item it;
        it.d = cfg.draft;
        it.schema = gen::schema(s, cfg, s.range(1, 3));
        if (!it.schema.isObj()) it.schema = J::obj({{"pattern", J(text(s))}});
        cfg.extra = nullptr;
        for (int k = s.range(1, 3); k > 0; k--) {
            if (s.chance(1, 3)) { // names and strings that are pattern texts themselves
                J o = J::obj();
                for (int q = s.range(0, 4); q > 0; q--) o.set(shared.empty() || s.coin() ? gen::key(s, cfg) : s.pick(shared), shared.empty() || s.coin() ? gen::value(s, cfg, 1) : J(s.pick(shared)));
                it.docs.push_back(o);
            } else { gen::InstGen g(s, cfg, it.schema); it.docs.push_back(g.gen(&it.schema, 3)); }
        }
        patterns(it.schema, it.pats);
        it.p = mustParse(*lib, it.d, it.schema);
        items.push_back(std::move(it));
    }
    c.desc = std::string(lib->name) + " kind " + std::to_string(w.kind) + "/" + std::to_string(w.salt);
    for (auto &it : items) c.desc += std::string(" ") + draftName(it.d) + " " + jdump(it.schema) + " docs " + docsText(it.docs);
    c.key = c.desc;
    {
        valijson::ValidatorT<E> v;
        std::unique_ptr<valijson::ValidatorT<E>> copy;
        valijson::ValidatorT<E> *use = &v;
        int steps = s.range(2, 8), threw = 0, total = 0;
        for (int n = 0; n < steps; n++) {
            auto &it = s.pick(items);
            auto &doc = s.pick(it.docs);
            bool res = s.coin();
            std::string t = jdump(doc);
            DocPtr d = lib->load(t);
            if (!d) throw Fail{"harness: rejected " + t};
            w.asked.clear();
            auto before = w.made;
            if (faults && s.chance(1, 3)) { if (s.coin()) w.throwMake = s.range(0, 3); else w.throwSearch = s.range(0, 5); }
            bool fault = w.throwMake >= 0 || w.throwSearch >= 0;
            valijson::ValidationResults r;
            bool got = false, boom = false;
            try { got = runOn(*use, *lib, *it.p.schema, d.get(), res ? &r : nullptr); }
            catch (Boom &b) { boom = true; threw++; if (!fault) c.fail("harness: unexpected exception"); if (b.what == 1 && w.throwMake >= 0) c.fail("harness: armed"); }
            catch (std::exception &e) { c.fail(std::string("validation threw '") + e.what() + "' for " + t); }
            bool fired = fault && !(w.throwMake >= 0 || w.throwSearch >= 0);
            if (fired && !boom) c.fail("an exception of the engine was swallowed for " + t + " against " + jdump(it.schema));
            w.throwMake = w.throwSearch = -1;
            if (!w.bad.empty()) c.fail(w.bad);
            std::set<std::string> strings;
            collect(doc, strings);
            for (auto &a : w.asked) {
                if (!it.pats.count(a.first)) c.fail("an engine for " + jdump(J(a.first)) + " was consulted, which is no pattern of " + jdump(it.schema));
                if (!strings.count(a.second)) c.fail("the engine was asked about " + jdump(J(a.second)) + ", which is not in " + t);
            }
            for (auto &m : w.made) {
                if (m.second > 1) c.fail("the engine for " + jdump(J(m.first)) + " was constructed " + std::to_string(m.second) + " times by one validator");
                if (!before.count(m.first) && !it.pats.count(m.first)) c.fail("an engine was constructed for " + jdump(J(m.first)) + ", which is no pattern of " + jdump(it.schema));
            }
            total += (int)w.asked.size();
            if (!boom) {
                int want = -1;
                try {
                    RefVal ref(it.d, it.schema);
                    ref.regex = [](const std::string &p, const std::string &x) { return matches(p, x); };
                    want = ref.valid(it.schema, doc);
                } catch (Ambiguous &) {} catch (RefVal::TooDeep &) {}
                if (want >= 0 && got != (bool)want) c.fail(std::string("verdict ") + word(got) + " but with this engine the specification says " + word(want) + " for " + t + " against " + jdump(it.schema));
                if (want >= 0) c.label(got ? "valid" : "invalid");
            }
            if constexpr (std::is_copy_constructible<E>::value) if (copies && s.chance(1, 4)) { copy.reset(new valijson::ValidatorT<E>(*use)); use = copy.get(); break; }
        }
        if (threw) c.label("threw");
        c.label("kind" + std::to_string(w.kind));
        c.nontrivial = total >= 2 || threw > 0;
        if constexpr (std::is_copy_constructible<E>::value) if (copy) { // the copy keeps what was compiled, and works on its own
            for (int n = s.range(1, 4); n > 0; n--) {
                auto &it = s.pick(items);
                auto &doc = s.pick(it.docs);
                DocPtr d = lib->load(jdump(doc));
                int want = -1;
                try { RefVal ref(it.d, it.schema); ref.regex = [](const std::string &p, const std::string &x) { return matches(p, x); }; want = ref.valid(it.schema, doc); }
                catch (Ambiguous &) { continue; } catch (RefVal::TooDeep &) { continue; }
                bool a = runOn(*copy, *lib, *it.p.schema, d.get(), nullptr), b = runOn(v, *lib, *it.p.schema, d.get(), nullptr);
                if (a != (bool)want || b != (bool)want) c.fail("a copied validator and its original give " + std::string(word(a)) + " and " + word(b) + ", the specification " + word(want) + " for " + jdump(doc) + " against " + jdump(it.schema));
            }
            c.label("copied");
        }
    }
    if (w.live != 0 && std::is_same<E, Engine>::value) c.fail(std::to_string(w.live) + " engines were not destroyed with their validator");
}
int main(int argc, char **argv) {
    Check ck;
    ck.id = "C22";
    ck.rule = "Histories of validations by one ValidatorT<Engine> over 1..3 schemas full of patterns (arbitrary texts: NUL, non-ASCII, invalid as ECMAScript, long, shared between schemas) and documents whose names and strings are often such texts. The engine records every construction and search and decides matches by an arbitrary function of (text, subject) chosen per case; the reference validator uses the same function. 'faults': constructions and searches throw a type that is not std::exception; 'copies': the validator is copied half way. "
              "Non-trivial: at least two searches, or an exception of the engine; distinct by schemas, documents and matching function.";
    ck.assumptions = {"trusts src/refval.hpp", "strong typing"};
    ck.subs.push_back({"faithful", 240000, 3000000, [](Ctx &c) { history<Engine>(c, false, false); }});
    ck.subs.push_back({"faults", 160000, 2000000, [](Ctx &c) { history<Engine>(c, true, false); }});
    ck.subs.push_back({"copies", 80000, 1000000, [](Ctx &c) { history<CEngine>(c, false, true); }});
    return runMain(argc, argv, ck);
}
