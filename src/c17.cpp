// Memory: custom allocation functions, moves, failed parsing and failing
// allocations over histories of schemas.
#include <new>
#include "build.hpp"

// ---- every allocation is counted, and may be made to fail
static long liveNew = 0, seenNew = 0, seenCustom = 0, failNew = 0, failCustom = 0;
static bool armed = false, fired = false;
static int hushed = 0;
Quiet::Quiet() { hushed++; }
Quiet::~Quiet() { hushed--; }
static bool failing(long &seen, long &at) {
    if (!armed || hushed) return false;
    seen++;
    if (at > 0 && --at == 0) { fired = true; return true; }
    return false;
}
static void *take(size_t n) { void *p = malloc(n ? n : 1); if (p) liveNew++; return p; }
void *operator new(size_t n) { if (failing(seenNew, failNew)) throw std::bad_alloc(); void *p = take(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return failing(seenNew, failNew) ? nullptr : take(n); }
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p) noexcept { if (p) { liveNew--; free(p); } }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { operator delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { operator delete(p); }

// ---- two families of allocation functions
struct Head { uint64_t magic, size; };
static long liveFam[2];
static const char *famError = nullptr;
static void *famAlloc(int f, size_t n) {
    if (failing(seenCustom, failCustom)) return nullptr;
    Head *h = (Head *)malloc(sizeof(Head) + n);
    h->magic = 0xFA111CE0 + f; h->size = n;
    memset(h + 1, 0xA5, n);
    liveFam[f]++;
    return h + 1;
}
static void famFree(int f, void *p) {
    if (!p) return;
    Head *h = (Head *)p - 1;
    if (h->magic != 0xFA111CE0u + f) { famError = h->magic == 0xFA111CE0u + !f ? "a block of one schema's allocation function was given to another's free function" : "the free function was given a block its allocation function did not make"; return; }
    memset(p, 0x5A, h->size);
    h->magic = 0;
    liveFam[f]--;
    free(h);
}
void *cAlloc(size_t n) { return famAlloc(0, n); }
void cFree(void *p) { famFree(0, p); }
static void *bAlloc(size_t n) { return famAlloc(1, n); }
static void bFree(void *p) { famFree(1, p); }

// ---- plans
struct Source { Draft d; J doc; std::map<std::string, J> remote; bool bad = false; J meaning; };
struct Op {
    enum K { Create, Parse, Assemble, MoveNew, MoveAssign, Validate, Destroy, Objects } k;
    int slot = 0, other = 0, kind = 0;
    Source src;
    u64 seed = 0;
    std::vector<J> docs;
    bool results = false;
    const Lib *lib = nullptr;
    std::string word() const {
        static const char *n[] = {"create", "parse", "assemble", "move-construct", "move-assign", "validate", "destroy", "objects"};
        std::string t = std::string(n[k]) + " s" + std::to_string(slot);
        if (k == MoveNew || k == MoveAssign) t += " from s" + std::to_string(other);
        if (k == Create) t += kind == 0 ? " (default)" : kind == 1 ? " (A)" : " (B)";
        if (k == Parse || k == Assemble) { t += std::string(" ") + draftName(src.d) + " " + jdump(src.doc); for (auto &r : src.remote) t += " with " + r.first + " = " + jdump(r.second); }
        if (k == Parse || k == Validate) t += std::string(" by ") + lib->name;
        if (k == Validate) t += (results ? " with results " : " ") + docsText(docs);
        if (k == Objects) t += " seed " + std::to_string(seed);
        return t;
    }
};
struct Plan { std::vector<Op> ops; };
static const int S = 3;

static J breakIt(Src &s, J j) { // an ill-formed keyword somewhere inside, in draft 4 and 7
    J bad = s.pick(std::vector<J>{J::obj({{"type", "nosuch"}}), J::obj({{"properties", J(3)}}), J::obj({{"minLength", J(-1)}}), J::obj({{"pattern", J(3)}}), J::obj({{"anyOf", J::arr({J::obj(), J(1)})}}), J::obj({{"$ref", "#/nowhere"}}), J::obj({{"enum", J(1)}}), J::obj({{"multipleOf", J(0)}}), J::obj({{"maxItems", "x"}})});
    if (!j.isObj()) j = J::obj();
    int n = s.range(0, 2);
    for (int i = 0; i < n; i++) bad = s.coin() ? J::obj({{"properties", J::obj({{"a", J::obj()}, {"z", bad}})}}) : J::obj({{"allOf", J::arr({J::obj({{"maxLength", J(3)}}), bad})}});
    std::string k = s.pick(std::vector<std::string>{"not", "items", "additionalProperties"});
    if (k == "items") j.erase("additionalItems");
    j.set(k, bad);
    return j;
}
static Source source(Src &s, const gen::Cfg &base, bool remotes) {
    Source r;
    gen::Cfg cfg = base;
    r.d = cfg.draft = s.pick(std::vector<Draft>{Draft::D7, Draft::D4, Draft::D3});
    r.doc = gen::schema(s, cfg, s.range(0, 3));
    r.meaning = r.doc;
    if (r.d != Draft::D3 && s.chance(1, 4)) { r.bad = true; r.doc = breakIt(s, r.doc); }
    else if (s.chance(1, 3)) { // recursion
        if (!r.doc.isObj()) r.doc = J::obj();
        J pr = r.doc.has("properties") ? *r.doc.get("properties") : J::obj();
        pr.set("self", J::obj({{"$ref", "#"}}));
        r.doc.set("properties", pr);
        if (s.coin()) { J d = J::obj(); d.set("x", gen::schema(s, cfg, 1)); r.doc.set("definitions", d); pr.set("x", J::obj({{"$ref", "#/definitions/x"}})); pr.set("y", J::obj({{"$ref", "#/definitions/x"}})); r.doc.set("properties", pr); }
        if (s.chance(1, 3)) { J d = J::obj(); for (auto &m : r.doc.o) d.set(m.first, m.second); d.set(r.d == Draft::D7 ? "$id" : "id", "http://h.example/root.json"); r.doc = d; }
        r.meaning = r.doc;
    } else if (remotes && s.coin() && r.doc.isObj()) {
        J pr = r.doc.has("properties") ? *r.doc.get("properties") : J::obj(), mp = pr;
        int n = s.range(1, 2);
        for (int i = 0; i < n; i++) {
            std::string u = "http://r.example/" + std::to_string(i) + ".json", k = s.pick(gen::plainKeys());
            J t = gen::schema(s, cfg, 1);
            if (t.t == J::Bool || t.has("required")) t = J::obj({{"type", "string"}});
            r.remote[u] = t;
            pr.set(k, J::obj({{"$ref", J(u)}}));
            mp.set(k, t);
        }
        r.doc.set("properties", pr);
        r.meaning = r.doc;
        r.meaning.set("properties", mp);
        if (s.chance(1, 5)) { r.bad = true; r.remote.erase(r.remote.begin()); bool used = false; for (auto &p : pr.o) if (p.second.isObj()) if (const J *x = p.second.get("$ref")) used = used || (x->isStr() && !r.remote.count(x->s)); if (!used) r.bad = false; }
    }
    return r;
}
static Plan plan(Src &s, const gen::Cfg &cfg) {
    Plan p;
    int n = s.range(2, 8);
    std::vector<const Source *> known;
    std::vector<std::shared_ptr<Source>> all;
    auto lib = [&] { return s.coin() ? &libBoostJson() : &libPico(); };
    std::vector<Source> srcs;
    for (int i = 0; i < n; i++) {
        Op o;
        o.slot = s.below(S); o.other = s.below(S); o.lib = lib();
        size_t k = s.weighted({3, 5, 3, 2, 2, 4, 1, 2});
        o.k = i == 0 ? Op::Create : (Op::K)k;
        o.kind = s.below(3);
        if (o.k == Op::Parse || o.k == Op::Assemble) {
            o.src = source(s, cfg, o.k == Op::Parse);
            if (o.k == Op::Assemble) { o.src.remote.clear(); if (o.src.bad) { o.src.bad = false; o.src.doc = o.src.meaning; } if (o.src.doc.isObj()) { for (auto x : {"$id", "id"}) o.src.doc.erase(x); } o.src.meaning = o.src.doc; }
            srcs.push_back(o.src);
        }
        o.seed = s.below(1ull << 32);
        if (o.k == Op::Validate) {
            gen::Cfg c2 = cfg;
            J sc = srcs.empty() ? J::obj() : s.pick(srcs).meaning;
            c2.draft = srcs.empty() ? Draft::D7 : srcs.back().d;
            o.docs = documents(s, c2, sc, 1, 3);
            for (auto &d : o.docs) if (s.chance(1, 4)) d = J::obj({{"self", d}, {"a", J(1)}});
            o.results = s.coin();
        }
        p.ops.push_back(o);
    }
    return p;
}

// ---- execution
struct Outcome { int done = 0, threw = 0, moved = 0, verdicts = 0, broken = 0; bool mixed = false, discard = false; };
struct Region { explicit Region(bool on = true) { armed = on; } ~Region() { armed = false; } };
// How an operation ended.
enum End { Fine, Threw, Odd };
template <class F> static End guarded(F f, std::string &what) {
    try { Region r; f(); return Fine; }
    catch (Discard &) { armed = false; throw; }
    catch (Fail &) { armed = false; throw; }
    catch (std::exception &e) { armed = false; what = e.what(); return Threw; }
    catch (...) { armed = false; return Odd; }
}
static void objects(u64 seed) { // constraint objects of mixed allocators, copied and assigned
    Src s(seed);
    auto str = [&](size_t n) { return std::string(n, 'p'); };
    auto names = [&] { std::vector<std::string> v; int n = s.range(0, 5); for (int i = 0; i < n; i++) v.push_back(str(s.range(0, 40)) + std::to_string(i)); return v; };
    Schema a(cAlloc, cFree), b(bAlloc, bFree), c;
    Schema *sc[] = {&a, &b, &c};
    auto host = [&]() -> Schema & { return *sc[s.below(3)]; };
    int n = s.range(1, 4);
    for (int i = 0; i < n; i++) {
        Schema &h = host();
        const Subschema *p = s.coin() ? h.root() : h.createSubschema();
        auto alloc = [&] { return s.coin() ? cAlloc : bAlloc; };
        auto al = alloc(); auto fr = al == cAlloc ? cFree : bFree;
        switch (s.below(8)) {
        case 0: { vjc::PropertiesConstraint x(al, fr); for (auto &m : names()) x.addPropertySubschema(m, h.emptySubschema()); for (auto &m : names()) x.addPatternPropertySubschema(m.c_str(), p); vjc::PropertiesConstraint y(x); y.addPropertySubschema(str(60), p); h.addConstraintToSubschema(y, p); h.addConstraint(x); break; }
        case 1: { vjc::RequiredConstraint x(al, fr); for (auto &m : names()) x.addRequiredProperty(m); vjc::RequiredConstraint y(x); y.addRequiredProperty("q"); h.addConstraintToSubschema(y, p); break; }
        case 2: { vjc::DependenciesConstraint x(al, fr); for (auto &m : names()) x.addPropertyDependencies(m, names()); for (auto &m : names()) x.addSchemaDependency(m, p); h.addConstraintToSubschema(x, p); vjc::DependenciesConstraint y(x); h.addConstraint(y); break; }
        case 3: {
            std::unique_ptr<Quiet> q(new Quiet);
            DocPtr d = libPico().load("[\"" + str(40) + "\",{\"a\":[1,2,{\"b\":null}]},3]");
            auto root = adPico().make(d.get());
            q.reset();
            vjc::EnumConstraint x(al, fr);
            root->applyToArray([&](const AnyAdapter &e) { x.addValue(e); return true; });
            vjc::EnumConstraint y(x), z(bAlloc, bFree);
            z.addValue(*root);
            z = y;
            z = z;
            h.addConstraintToSubschema(z, p);
            h.addConstraint(y);
            y = vjc::EnumConstraint();
            q.reset(new Quiet);
            break;
        }
        case 4: { vjc::TypeConstraint x(al, fr); for (int t = s.range(0, 7); t > 0; t--) x.addNamedType((TypeConstraint::JsonType)t); for (auto &m : names()) { (void)m; x.addSchemaType(p); } vjc::TypeConstraint y(x); h.addConstraintToSubschema(y, p); break; }
        case 5: { vjc::PatternConstraint x(al, fr); x.setPattern(str(s.range(0, 50))); vjc::PatternConstraint y(x); y.setPattern(str(70)); h.addConstraintToSubschema(y, p); h.addConstraint(x); break; }
        case 6: { vjc::AnyOfConstraint x(al, fr); for (auto &m : names()) { (void)m; x.addSubschema(p); } vjc::AnyOfConstraint y(x); h.addConstraintToSubschema(x, p); y.addSubschema(h.root()); auto k = y.clone(al, fr); h.addConstraint(y); break; }
        default: {
            std::unique_ptr<Quiet> q(new Quiet);
            DocPtr d = libBoostJson().load("{\"k\":[\"" + str(30) + "\"]}");
            auto root = adBoostJson().make(d.get());
            q.reset();
            vjc::ConstConstraint x(al, fr); x.setValue(*root); x.setValue(*root); vjc::ConstConstraint y(x); h.addConstraintToSubschema(y, p); auto k = x.clone(cAlloc, cFree);
            h.setSubschemaTitle(p, str(50)); h.setSubschemaDescription(p, str(50)); h.setSubschemaId(p, str(50));
            q.reset(new Quiet);
        }
        }
    }
    if (s.coin()) { Schema d(std::move(a)); if (s.coin()) b = std::move(d); }
}
static Outcome run(const Plan &p) {
    Outcome out;
    struct Slot { std::unique_ptr<Schema> s; enum { Empty, Live, Broken, Moved } st = Empty; int kind = 0; std::vector<Source> content; std::vector<std::shared_ptr<void>> keep; };
    std::vector<Slot> sl(S);
    for (size_t n = 0; n < p.ops.size(); n++) {
        const Op &o = p.ops[n];
        Slot &a = sl[o.slot], &b = sl[o.other];
        std::string what;
        bool before = fired;
        End e = Fine;
        auto made = [&](int kind) { return kind == 0 ? new Schema : kind == 1 ? new Schema(cAlloc, cFree) : new Schema(bAlloc, bFree); };
        auto judge = [&](bool mayThrow) {
            if (e == Odd) throw Fail{o.word() + " threw something that is not a std::exception"};
            if (e == Threw && fired == before && !mayThrow) throw Fail{o.word() + " threw '" + what + "' although no allocation failed"};
            if (e == Threw) out.threw++;
        };
        if (a.st == Slot::Empty && o.k != Op::MoveNew && o.k != Op::Objects) { // start one
            e = guarded([&] { a.s.reset(made(o.kind)); }, what);
            judge(false);
            if (e == Threw) continue;
            a.st = Slot::Live; a.kind = o.kind;
            if (o.k == Op::Create) { out.done++; continue; }
        }
        before = fired;
        switch (o.k) {
        case Op::Create: {
            std::unique_ptr<Schema> x;
            e = guarded([&] { x.reset(made(o.kind)); }, what);
            judge(false);
            if (e == Fine) { { Region r; a.s = std::move(x); } a.st = Slot::Live; a.kind = o.kind; a.content.clear(); }
            break;
        }
        case Op::Parse: {
            if (a.st != Slot::Live) continue;
            DocPtr doc = o.lib->load(jdump(o.src.doc));
            if (!doc) throw Fail{"harness: " + std::string(o.lib->name) + " rejected " + jdump(o.src.doc)};
            std::map<const void *, int> out_;
            std::vector<DocPtr> held;
            FetchCb cb;
            cb.fetch = [&](const std::string &u) { Quiet q; auto it = o.src.remote.find(u); if (it == o.src.remote.end()) return DocPtr(); DocPtr d = o.lib->load(jdump(it->second)); held.push_back(d); out_[d.get()]++; return d; };
            cb.freed = [&](const void *x) { Quiet q; out_[x]--; };
            bool remote = !o.src.remote.empty() || o.src.bad;
            e = guarded([&] { if (remote) o.lib->parseFetch(doc.get(), o.src.d, *a.s, cb); else o.lib->parse(doc.get(), o.src.d, *a.s); }, what);
            for (auto &x : out_) if (x.second) throw Fail{o.word() + (x.second > 0 ? " did not free a fetched document" : " freed a document twice")};
            judge(o.src.bad);
            if (e == Fine && o.src.bad) throw Fail{o.word() + " accepted an ill-formed schema"};
            if (e == Fine) a.content.push_back(o.src); else { a.st = Slot::Broken; out.broken++; }
            break;
        }
        case Op::Assemble: {
            if (a.st != Slot::Live) continue;
            a.keep.clear();
            Src s(o.seed);
            bool selfRef = false;
            e = guarded([&] {
                Build bl{s, o.src.doc, *a.s, o.src.d, {&adPico(), &adBoostJson()}};
                bl.names.s = a.s.get();
                bl.fill(o.src.doc, a.s->root());
                for (auto &f : bl.ops) f();
                if (s.coin()) for (auto &x : bl.pool) a.keep.push_back(x);
            }, what);
            std::string t = jdump(o.src.doc);
            selfRef = t.find("\"$ref\"") != std::string::npos;
            judge(false);
            if (e == Fine && selfRef) a.st = Slot::Broken; // tied to the object's address: never moved, only destroyed
            if (e == Fine) a.content.push_back(o.src); else { a.st = Slot::Broken; out.broken++; }
            break;
        }
        case Op::MoveNew:
        case Op::MoveAssign: {
            if (o.slot == o.other || !b.s || !(b.st == Slot::Live || b.st == Slot::Broken)) continue;
            bool fresh = o.k == Op::MoveNew;
            if (!fresh && !a.s) continue;
            if (fresh) { Region r; a.s.reset(); a.st = Slot::Empty; a.content.clear(); }
            std::unique_ptr<Schema> x;
            e = guarded([&] { if (fresh) x.reset(new Schema(std::move(*b.s))); else *a.s = std::move(*b.s); }, what);
            judge(false);
            if (e == Threw) break;
            if (fresh) a.s = std::move(x);
            a.st = b.st; a.content = b.content;
            for (auto &k : b.keep) a.keep.push_back(k);
            b.st = Slot::Moved; b.content.clear();
            out.moved++;
            break;
        }
        case Op::Validate: {
            if (a.st != Slot::Live) continue;
            for (auto &d : o.docs) {
                DocPtr doc = o.lib->load(jdump(d));
                if (!doc) continue;
                int exp = 1;
                for (auto &c : a.content) {
                    int r = -1;
                    try { RefVal rv(c.d, c.meaning); r = rv.valid(c.meaning, d); } catch (Ambiguous &) {} catch (RefVal::TooDeep &) { r = -2; }
                    if (r < 0) { exp = r == -2 ? -2 : exp == -2 ? -2 : -1; } else if (r == 0 && exp >= 0) exp = 0;
                }
                if (exp == -2) continue;
                bool got = false;
                e = guarded([&] { valijson::ValidationResults res; auto v = o.lib->validator({}); got = v->validate(*a.s, doc.get(), o.results ? &res : nullptr); }, what);
                judge(false);
                if (e == Threw) continue;
                out.verdicts++;
                if (fired && !before) continue; // a failure was absorbed
                if (exp >= 0 && got != (bool)exp) throw Fail{o.word() + ": verdict " + word(got) + " but the specification says " + word(exp) + " for " + jdump(d)};
                (got ? out.done : out.verdicts)++;
            }
            break;
        }
        case Op::Destroy: { Region r; a.s.reset(); a.st = Slot::Empty; a.content.clear(); break; }
        case Op::Objects: e = guarded([&] { objects(o.seed); }, what); judge(false); break;
        }
        out.done++;
        if (famError) throw Fail{std::string(famError) + " in " + o.word()};
    }
    { Region r; for (auto &x : sl) x.s.reset(); }
    if (famError) throw Fail{std::string(famError) + " when destroying"};
    return out;
}
struct Totals { long newLeft, fam[2]; };
static Outcome measured(const Plan &p, long fn, long fc, Totals &t) {
    seenNew = seenCustom = 0; failNew = fn; failCustom = fc; fired = false; famError = nullptr;
    long n = liveNew, f0 = liveFam[0], f1 = liveFam[1];
    Outcome o;
    try { o = run(p); } catch (...) { failNew = failCustom = 0; armed = false; throw; }
    failNew = failCustom = 0;
    t = {liveNew - n, {liveFam[0] - f0, liveFam[1] - f1}};
    return o;
}
static void check(const Plan &p, long fn, long fc, const std::string &how) {
    Totals t{};
    for (int tries = 0; tries < 3; tries++) { // the first time something is used it may fill a cache
        measured(p, fn, fc, t);
        for (int f = 0; f < 2; f++) if (t.fam[f]) throw Fail{std::to_string(t.fam[f]) + " blocks of a custom allocation function were not freed" + how};
        if (t.newLeft == 0) return;
    }
    throw Fail{std::to_string(t.newLeft) + " allocations were not freed" + how};
}
static void history(Ctx &c, bool small, bool every) {
    Src &s = c.s;
    gen::Cfg cfg;
    cfg.maxDepth = 2;
    Plan p;
    if (small) {
        Op cr; cr.k = Op::Create; cr.kind = s.below(3);
        Op b; b.k = s.chance(1, 4) ? Op::Objects : s.coin() ? Op::Parse : Op::Assemble; b.lib = s.coin() ? &libBoostJson() : &libPico(); b.kind = cr.kind; b.seed = s.below(1ull << 32);
        b.src = source(s, cfg, b.k == Op::Parse);
        if (b.k == Op::Assemble) { b.src.remote.clear(); if (b.src.doc.isObj()) for (auto x : {"$id", "id"}) b.src.doc.erase(x); if (b.src.bad) b.src.doc = J::obj({{"type", "string"}, {"pattern", "^a[bc]*$"}}); b.src.bad = false; b.src.meaning = b.src.doc; }
        p.ops = {cr, b};
        if (s.coin()) { Op v; v.k = Op::Validate; v.lib = b.lib; v.docs = documents(s, cfg, b.src.meaning, 1, 2); v.results = s.coin(); p.ops.push_back(v); }
    } else p = plan(s, cfg);
    std::string t;
    for (auto &o : p.ops) t += "\n    " + o.word();
    c.desc = "history:" + t;
    c.key = t;
    Totals tot{};
    Outcome o = measured(p, 0, 0, tot);
    long nNew = seenNew, nCus = seenCustom;
    check(p, 0, 0, "");
    int faults = 0, hit = 0;
    std::vector<std::pair<long, long>> at;
    if (every) {
        long lim = c.thorough ? 4000 : 250;
        for (long k = 1; k <= nNew && (long)at.size() < lim; k++) at.push_back({k, 0});
        if (nNew > lim) { at.clear(); for (long k = 0; k < lim; k++) at.push_back({1 + (long)s.below(nNew), 0}); }
        for (long k = 1; k <= nCus && k <= lim; k++) at.push_back({0, k});
    } else {
        int k = s.range(0, 6);
        for (int i = 0; i < k; i++) { if (nCus && s.coin()) at.push_back({0, 1 + (long)s.below(nCus)}); else if (nNew) at.push_back({1 + (long)s.below(nNew), 0}); }
    }
    for (auto &x : at) {
        std::string how = x.first ? " when allocation " + std::to_string(x.first) + " of " + std::to_string(nNew) + " by operator new fails" : " when allocation " + std::to_string(x.second) + " of " + std::to_string(nCus) + " by the custom function fails";
        c.desc = "history:" + t + "\n   " + how;
        try { check(p, x.first, x.second, how); } catch (Fail &f) { if (f.msg.find("fails") == std::string::npos) f.msg += how; throw; }
        faults++; hit += fired;
    }
    if (o.threw) c.label("parse-failure");
    if (o.moved) c.label("moved");
    if (o.verdicts) c.label("validated");
    if (nCus) c.label("custom-allocations");
    if (hit) c.label("allocation-failed");
    for (auto &op : p.ops) if (!op.src.remote.empty()) { c.label("remote"); break; }
    c.nontrivial = o.done >= 2 && (o.threw || o.moved || hit) && (nCus || nNew > 20);
}

int main(int argc, char **argv) {
    Check ck;
    ck.id = "C17";
    ck.rule = "Histories over three schemas (default or one of two custom allocation families): parsing well-formed, ill-formed and remote schemas, assembling through the interface, moving, validating, destroying, and mixing constraint objects of different allocators; "
              "each history is repeated with a chosen (or, in 'every', each) allocation of operator new or of the custom functions failing. Every block must return to its own family exactly once, operator new must balance, and later verdicts must be those of the specification. "
              "Non-trivial: at least two operations, with a failure or a move, and allocations made; distinct by history.";
    ck.assumptions = {"constraints that refer to the root of their own schema through the interface are not moved (they hold the address of the object)", "documents are loaded by Boost.JSON and PicoJSON, whose own code copes with failing allocations with failures off"};
    ck.subs.push_back({"histories", 50000, 1500000, [](Ctx &c) { history(c, false, false); }});
    ck.subs.push_back({"every", 6000, 80000, [](Ctx &c) { history(c, true, true); }, 120});
    return runMain(argc, argv, ck);
}
