// Compiles a JSON schema into calls of the constraint and subschema interface.
#pragma once
#include <memory>
#include <valijson/constraints/concrete_constraints.hpp>
#include <valijson/constraints/constraint_visitor.hpp>
#include "ad.hpp"
#include "common.hpp"
using namespace vc;
namespace vjc = valijson::constraints;
using valijson::Schema;
using valijson::Subschema;
using vjc::TypeConstraint;

// provided by the check
void *cAlloc(size_t n);
void cFree(void *p);
struct Quiet { Quiet(); ~Quiet(); }; // no injected failures while one is alive

using CStr = std::basic_string<char, std::char_traits<char>, valijson::internal::CustomAllocator<char>>;

struct Names { // readable identities of subschemas
    const Schema *s = nullptr;
    mutable std::map<const Subschema *, int> ids;
    std::function<void(const Subschema *)> grow; // called with identities not met before
    std::string operator()(const Subschema *p) const {
        if (!p) return "null";
        if (p == s->root()) return "root";
        if (p == s->emptySubschema()) return "empty";
        if (grow && !ids.count(p)) grow(p);
        auto it = ids.find(p);
        return it == ids.end() ? "?" : "#" + std::to_string(it->second);
    }
};
static std::string q(const std::string &t) { std::string o; jquote(o, t); return o; }
template <class S> static std::string str(const S &s) { return std::string(s.data(), s.size()); }
// Content of a constraint as text; frozen values are kept apart.
struct Rec {
    std::string text;
    std::vector<J> vals;                     // expected
    std::vector<const AnyFrozen *> frozen;   // found
};
struct Dump : vjc::ConstraintVisitor {
    const Names &n; Rec r; bool twice = false;
    explicit Dump(const Names &nn) : n(nn) {}
    bool put(const std::string &t) { if (!r.text.empty()) twice = true; r.text = t; return true; }
    // visits through fn-style iteration, also checking that a false return stops it
    template <class F> static void counted(F walk, size_t n) {
        for (size_t stop = 0; stop < n; stop++) {
            size_t seen = 0;
            walk([&]() { return seen++ != stop; });
            if (seen != stop + 1) throw Fail{"an iteration told to stop after " + std::to_string(stop + 1) + " went on to " + std::to_string(seen)};
        }
    }
    template <class C> bool list(const char *k, const C &c) {
        std::string t = k; unsigned want = 0; size_t m = 0;
        c.applyToSubschemas([&](unsigned i, const Subschema *p) { t += (i == want++ ? " " : " misnumbered ") + n(p); m++; return true; });
        counted([&](auto f) { c.applyToSubschemas([&](unsigned, const Subschema *) { return f(); }); }, m);
        return put(t);
    }
    bool visit(const AllOfConstraint &c) override { return list("allOf", c); }
    bool visit(const AnyOfConstraint &c) override { return list("anyOf", c); }
    bool visit(const OneOfConstraint &c) override { return list("oneOf", c); }
    bool visit(const ConditionalConstraint &c) override { return put("if " + n(c.getIfSubschema()) + " " + n(c.getThenSubschema()) + " " + n(c.getElseSubschema())); }
    bool visit(const ConstConstraint &c) override { r.frozen.push_back(c.getValue()); return put("const"); }
    bool visit(const ContainsConstraint &c) override { return put("contains " + n(c.getSubschema())); }
    bool visit(const DependenciesConstraint &c) override {
        std::set<std::string> a; size_t m = 0, k = 0;
        c.applyToPropertyDependencies([&](const auto &name, const auto &deps) { std::set<std::string> d; for (auto &x : deps) d.insert(q(str(x))); std::string t = q(str(name)) + "->"; for (auto &x : d) t += x + ","; a.insert(t); m++; return true; });
        c.applyToSchemaDependencies([&](const auto &name, const Subschema *p) { a.insert(q(str(name)) + "=>" + n(p)); k++; return true; });
        counted([&](auto f) { c.applyToPropertyDependencies([&](const auto &, const auto &) { return f(); }); }, m);
        counted([&](auto f) { c.applyToSchemaDependencies([&](const auto &, const Subschema *) { return f(); }); }, k);
        std::string t = "dependencies";
        for (auto &x : a) t += " " + x;
        if (a.size() != m + k) t += " (repeated)";
        return put(t);
    }
    bool visit(const EnumConstraint &c) override {
        c.applyToValues([&](const AnyFrozen &f) { r.frozen.push_back(&f); return true; });
        counted([&](auto f) { c.applyToValues([&](const AnyFrozen &) { return f(); }); }, r.frozen.size());
        return put("enum");
    }
    bool visit(const FormatConstraint &c) override { return put("format " + q(c.getFormat())); }
    bool visit(const LinearItemsConstraint &c) override {
        std::string t = "items"; unsigned want = 0; size_t m = 0;
        c.applyToItemSubschemas([&](unsigned i, const Subschema *p) { t += (i == want++ ? " " : " misnumbered ") + n(p); m++; return true; });
        counted([&](auto f) { c.applyToItemSubschemas([&](unsigned, const Subschema *) { return f(); }); }, m);
        if (c.getItemSubschemaCount() != m) t += " miscounted";
        return put(t + " then " + n(c.getAdditionalItemsSubschema()));
    }
    static std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
    bool visit(const MaximumConstraint &c) override { return put(std::string("max") + (c.getExclusiveMaximum() ? "< " : " ") + num(c.getMaximum())); }
    bool visit(const MinimumConstraint &c) override { return put(std::string("min") + (c.getExclusiveMinimum() ? "> " : " ") + num(c.getMinimum())); }
    bool visit(const MaxItemsConstraint &c) override { return put("maxItems " + std::to_string(c.getMaxItems())); }
    bool visit(const MaxLengthConstraint &c) override { return put("maxLength " + std::to_string(c.getMaxLength())); }
    bool visit(const MaxPropertiesConstraint &c) override { return put("maxProperties " + std::to_string(c.getMaxProperties())); }
    bool visit(const MinItemsConstraint &c) override { return put("minItems " + std::to_string(c.getMinItems())); }
    bool visit(const MinLengthConstraint &c) override { return put("minLength " + std::to_string(c.getMinLength())); }
    bool visit(const MinPropertiesConstraint &c) override { return put("minProperties " + std::to_string(c.getMinProperties())); }
    bool visit(const MultipleOfDoubleConstraint &c) override { return put("multipleOfD " + num(c.getDivisor())); }
    bool visit(const MultipleOfIntConstraint &c) override { return put("multipleOfI " + std::to_string(c.getDivisor())); }
    bool visit(const NotConstraint &c) override { return put("not " + n(c.getSubschema())); }
    bool visit(const PatternConstraint &c) override {
        std::string a = c.getPattern<std::string::allocator_type>(), b;
        c.getPattern(b);
        return put("pattern " + q(a) + (a == b ? "" : " differs"));
    }
    bool visit(const PolyConstraint &) override { return put("poly"); }
    bool visit(const PropertiesConstraint &c) override {
        std::set<std::string> a; size_t m = 0, k = 0;
        c.applyToProperties([&](const auto &name, const Subschema *p) { a.insert(q(str(name)) + ":" + n(p)); m++; return true; });
        c.applyToPatternProperties([&](const auto &name, const Subschema *p) { a.insert("/" + q(str(name)) + ":" + n(p)); k++; return true; });
        counted([&](auto f) { c.applyToProperties([&](const auto &, const Subschema *) { return f(); }); }, m);
        counted([&](auto f) { c.applyToPatternProperties([&](const auto &, const Subschema *) { return f(); }); }, k);
        std::string t = "properties";
        for (auto &x : a) t += " " + x;
        if (a.size() != m + k) t += " (repeated)";
        return put(t + " else " + n(c.getAdditionalPropertiesSubschema()));
    }
    bool visit(const PropertyNamesConstraint &c) override { return put("propertyNames " + n(c.getSubschema())); }
    bool visit(const RequiredConstraint &c) override {
        std::set<std::string> a; size_t m = 0;
        c.applyToRequiredProperties([&](const auto &name) { a.insert(q(str(name))); m++; return true; });
        counted([&](auto f) { c.applyToRequiredProperties([&](const auto &) { return f(); }); }, m);
        std::string t = "required";
        for (auto &x : a) t += " " + x;
        if (a.size() != m) t += " (repeated)";
        return put(t);
    }
    bool visit(const SingularItemsConstraint &c) override { return put("items* " + n(c.getItemsSubschema())); }
    bool visit(const TypeConstraint &c) override {
        std::set<int> a; size_t m = 0, k = 0; std::string sc; unsigned want = 0;
        c.applyToNamedTypes([&](TypeConstraint::JsonType t) { a.insert((int)t); m++; return true; });
        c.applyToSchemaTypes([&](unsigned i, const Subschema *p) { sc += (i == want++ ? " " : " misnumbered ") + n(p); k++; return true; });
        counted([&](auto f) { c.applyToNamedTypes([&](TypeConstraint::JsonType) { return f(); }); }, m);
        counted([&](auto f) { c.applyToSchemaTypes([&](unsigned, const Subschema *) { return f(); }); }, k);
        std::string t = "type";
        for (int x : a) t += " " + std::to_string(x);
        if (a.size() != m) t += " (repeated)";
        return put(t + sc);
    }
    bool visit(const UniqueItemsConstraint &) override { return put("uniqueItems"); }
};

struct Build {
    Src &s; const J &root; Schema &sch; Draft d;
    std::vector<const AdLib *> libs;
    static bool open(const J &k) { return (k.isObj() && k.o.empty()) || (k.t == J::Bool && k.b); } // accepts everything, as no subschema does where the library allows that
    Names names{};
    std::map<std::string, std::vector<const Subschema *>> interned; // by text
    std::map<std::string, const Subschema *> refs;                  // by reference
    std::vector<std::function<void()>> ops;
    std::vector<std::shared_ptr<void>> pool;                        // constraint objects kept for later
    std::map<const Subschema *, std::vector<Rec>> want;
    std::map<const Subschema *, bool> never;
    int next = 0, copies = 0, shared = 0, inlined = 0, split = 0;

    bool odds(unsigned n, unsigned den) { return s.chance(n, den); }
    const Subschema *fresh() { auto p = sch.createSubschema(); names.ids[p] = next++; want[p]; return p; }
    const Subschema *junk() { return odds(1, 2) ? sch.emptySubschema() : fresh(); }
    const Subschema *sub(const J &j) {
        if (j.isObj() && j.has("$ref")) return ref(j.get("$ref")->s);
        bool any = (j.t == J::Bool && j.b) || (j.isObj() && j.o.empty());
        if (any && odds(1, 2)) return sch.emptySubschema();
        std::string k = jdump(j);
        auto &known = interned[k];
        if (!known.empty() && odds(1, 2)) { shared++; return known[s.below(known.size())]; }
        auto p = fresh();
        interned[k].push_back(p);
        fill(j, p);
        return p;
    }
    const Subschema *ref(const std::string &r) {
        if (r == "#") return sch.root();
        auto it = refs.find(r);
        if (it != refs.end()) return it->second;
        const J *t = RefVal::pointer(root, r.substr(1), true);
        if (t->isObj() && t->has("$ref")) { // straight to what it refers to
            std::set<std::string> seen;
            while (t->isObj() && t->has("$ref") && t->get("$ref")->s != "#") { if (!seen.insert(t->get("$ref")->s).second) throw Discard{}; t = RefVal::pointer(root, t->get("$ref")->s.substr(1), true); }
            if (t->isObj() && t->has("$ref")) return refs[r] = sch.root();
        }
        auto p = fresh();
        refs[r] = p;
        fill(*t, p);
        return p;
    }
    // A new constraint object, made either way.
    template <class C> std::shared_ptr<C> obj() { return obj_<C>(0); }
    template <class C> auto obj_(int) -> decltype(C(cAlloc, cFree), std::shared_ptr<C>()) { return odds(1, 4) ? std::make_shared<C>(cAlloc, cFree) : std::make_shared<C>(); }
    template <class C> std::shared_ptr<C> obj_(long) { return std::make_shared<C>(); }
    // Queues: fill the object, perhaps copy it, add it, then spoil it.
    template <class C> void add(const Subschema *p, const Rec &rec, std::function<void(C &)> fillIn, std::function<void(C &)> spoil) {
        auto c = obj<C>();
        bool early = odds(1, 3);
        if (early) fillIn(*c); // before the other objects exist
        int how = s.below(4), fate = s.below(3);
        bool copyFirst = odds(1, 3), again = odds(1, 8);
        if (odds(1, 6)) { auto e = std::make_shared<C>(*c); spoil(*c); c = e; copies++; if (odds(1, 2)) { vjc::Constraint::OwningPointer k = std::make_shared<C>()->clone(cAlloc, cFree); } }
        want[p].push_back(rec);
        ops.push_back([=, this]() mutable {
            if (!early) fillIn(*c);
            std::shared_ptr<C> x = c;
            if (copyFirst) { x = std::make_shared<C>(*c); spoil(*c); copies++; }
            if (again) { vjc::Constraint::OwningPointer k = x->clone(how & 1 ? cAlloc : [](size_t n) { return ::operator new(n, std::nothrow); }, how & 1 ? cFree : static_cast<void (*)(void *)>(::operator delete)); put(*k, p, how); copies++; }
            else put(*x, p, how);
            if (fate == 0) spoil(*x);
            if (fate == 1) { pool.push_back(x); }
            if (fate == 2) { spoil(*x); pool.push_back(x); }
            x.reset();
            c.reset();
        });
    }
    void put(const vjc::Constraint &c, const Subschema *p, int how) {
        if (p == sch.root() && how < 2) sch.addConstraint(c);
        else sch.addConstraintToSubschema(c, p);
    }
    // name in one of the string types the interface takes
    template <class F> auto name(const std::string &n, F f) {
        bool nul = n.find('\0') != std::string::npos;
        switch (s.below(nul ? 2 : 3)) {
        case 0: return f(n);
        case 1: return f(CStr(n.data(), n.size(), valijson::internal::CustomAllocator<char>(cAlloc, cFree)));
        default: return f(n.c_str());
        }
    }
    void frozen(std::function<void(const AnyAdapter &)> f, const J &v) {
        std::unique_ptr<Quiet> quiet(new Quiet);
        for (int tries = 0; tries < 4; tries++) {
            const AdLib &l = *s.pick(libs);
            DocPtr doc = l.load("[" + jdump(v) + "]"); // some libraries take only arrays and objects at the root
            if (!doc) continue;
            bool done = false;
            auto a = l.make(doc.get());
            if (!jeq(adToJ(*a), J::arr({v}))) continue;
            a->applyToArray([&](const AnyAdapter &e) { quiet.reset(); f(e); quiet.reset(new Quiet); done = true; return true; });
            if (done) { auto scr = l.scribble; if (odds(1, 2)) { a.reset(); scr(doc.get()); } return; }
        }
        throw Discard{};
    }
    void fill(const J &j, const Subschema *p) {
        if (j.t == J::Bool) { if (!j.b) { never[p] = true; bool flip = odds(1, 3); ops.push_back([=, this] { if (flip) { sch.setAlwaysInvalid(p, true); sch.setAlwaysInvalid(p, false); } sch.setAlwaysInvalid(p, true); }); } return; }
        const bool d7 = d == Draft::D7, d3 = d == Draft::D3;
        auto J_ = [&](const char *k) { return j.get(k); };
        auto cnt = [&](const J *k) { return (uint64_t)(long double)k->num(); };
        // several subschemas in a list constraint
        if (const J *k = J_("type")) {
            std::vector<J> parts = k->isArr() ? k->a : std::vector<J>{*k};
            std::vector<TypeConstraint::JsonType> nt; std::vector<const Subschema *> st; std::set<int> ns; Rec r; std::string sc;
            for (auto &x : parts) if (x.isStr()) { auto t = TypeConstraint::jsonTypeFromString(x.s); nt.push_back(t); ns.insert((int)t); } else { st.push_back(sub(x)); sc += " " + names(st.back()); }
            r.text = "type";
            for (int x : ns) r.text += " " + std::to_string(x);
            r.text += sc;
            if (!nt.empty() && odds(1, 3)) nt.push_back(nt[0]);
            add<TypeConstraint>(p, r, [=](TypeConstraint &c) { for (auto t : nt) c.addNamedType(t); for (auto x : st) c.addSchemaType(x); }, [=](TypeConstraint &c) { for (int t = 0; t < 8; t++) c.addNamedType((TypeConstraint::JsonType)t); });
        }
        if (const J *k = J_("enum")) {
            Rec r; r.text = "enum"; r.vals = k->a;
            auto src = std::make_shared<vjc::EnumConstraint>();
            for (auto &v : k->a) frozen([&](const AnyAdapter &a) { if (odds(1, 2)) src->addValue(a); else { std::unique_ptr<AnyFrozen> f(a.freeze()); src->addValue(*f); } }, v);
            bool viaAssign = odds(1, 4);
            add<vjc::EnumConstraint>(p, r, [=](vjc::EnumConstraint &c) { if (viaAssign) c = *src; else src->applyToValues([&](const AnyFrozen &f) { c.addValue(f); return true; }); },
                                     [=](vjc::EnumConstraint &c) { std::vector<std::unique_ptr<AnyFrozen>> all; src->applyToValues([&](const AnyFrozen &f) { std::unique_ptr<AnyFrozen> own(f.clone()); all.push_back(std::move(own)); return true; }); for (auto &f : all) c.addValue(*f); });
        }
        if (d7) if (const J *k = J_("const")) {
            Rec r; r.text = "const"; r.vals = {*k};
            auto src = std::make_shared<vjc::ConstConstraint>();
            auto c2 = std::make_shared<std::function<void(vjc::ConstConstraint &)>>();
            J v = *k;
            const AdLib *lib = nullptr;
            frozen([&](const AnyAdapter &) {}, v);
            { Quiet hush; for (auto l : libs) { DocPtr t = l->load("[" + jdump(v) + "]"); if (t && jeq(adToJ(*l->make(t.get())), J::arr({v})) && (!lib || odds(1, 3))) lib = l; } }
            if (!lib) throw Discard{};
            auto setTo = [lib](vjc::ConstConstraint &c, const J &x) { std::unique_ptr<Quiet> hush(new Quiet); DocPtr t = lib->load("[" + jdump(x) + "]"); lib->make(t.get())->applyToArray([&](const AnyAdapter &a) { hush.reset(); c.setValue(a); hush.reset(new Quiet); return true; }); };
            bool other = odds(1, 3);
            add<vjc::ConstConstraint>(p, r, [=](vjc::ConstConstraint &c) { if (other) setTo(c, J("other")); setTo(c, v); }, [=](vjc::ConstConstraint &c) { setTo(c, J("spoilt")); });
        }
        auto bound = [&](bool mn, const J *k, bool ex) {
            double v = (double)k->num(); Rec r;
            r.text = std::string(mn ? "min" : "max") + (ex ? mn ? "> " : "< " : " ") + Dump::num(v);
            bool order = odds(1, 2), toggle = odds(1, 4);
            if (mn) add<vjc::MinimumConstraint>(p, r, [=](vjc::MinimumConstraint &c) { if (toggle) c.setExclusiveMinimum(!ex); if (order) c.setMinimum(v); if (ex || toggle) c.setExclusiveMinimum(ex); if (!order) c.setMinimum(v); }, [=](vjc::MinimumConstraint &c) { c.setMinimum(1e9); c.setExclusiveMinimum(!ex); });
            else add<vjc::MaximumConstraint>(p, r, [=](vjc::MaximumConstraint &c) { if (toggle) c.setExclusiveMaximum(!ex); if (order) c.setMaximum(v); if (ex || toggle) c.setExclusiveMaximum(ex); if (!order) c.setMaximum(v); }, [=](vjc::MaximumConstraint &c) { c.setMaximum(-1e9); c.setExclusiveMaximum(!ex); });
        };
        if (d7) {
            for (bool mn : {true, false}) {
                if (const J *k = J_(mn ? "minimum" : "maximum")) bound(mn, k, false);
                if (const J *k = J_(mn ? "exclusiveMinimum" : "exclusiveMaximum")) bound(mn, k, true);
            }
        } else for (bool mn : {true, false}) if (const J *k = J_(mn ? "minimum" : "maximum")) { const J *x = J_(mn ? "exclusiveMinimum" : "exclusiveMaximum"); bound(mn, k, x && x->b); }
        if (const J *k = J_(d3 ? "divisibleBy" : "multipleOf")) {
            Rec r;
            if (k->t == J::Int) { int64_t v = k->i; r.text = "multipleOfI " + std::to_string(v); add<vjc::MultipleOfIntConstraint>(p, r, [=](vjc::MultipleOfIntConstraint &c) { c.setDivisor(v); for (int64_t bad : {(int64_t)0, (int64_t)-1, INT64_MIN}) { try { c.setDivisor(bad); } catch (std::runtime_error &) { continue; } throw Fail{"divisor " + std::to_string(bad) + " accepted"}; } }, [](vjc::MultipleOfIntConstraint &c) { c.setDivisor(1000003); }); }
            else { double v = k->d; r.text = "multipleOfD " + Dump::num(v); add<vjc::MultipleOfDoubleConstraint>(p, r, [=](vjc::MultipleOfDoubleConstraint &c) { c.setDivisor(v); for (double bad : {0.0, -0.0, -0.5, (double)INFINITY, (double)NAN}) { try { c.setDivisor(bad); } catch (std::runtime_error &) { continue; } throw Fail{"divisor " + std::to_string(bad) + " accepted"}; } }, [](vjc::MultipleOfDoubleConstraint &c) { c.setDivisor(1000003.5); }); }
        }
#define COUNT(key, C, set, junkv) if (const J *k = J_(key)) { uint64_t v = cnt(k); Rec r; r.text = std::string(key) + " " + std::to_string(v); add<vjc::C>(p, r, [=](vjc::C &c) { c.set(v); }, [](vjc::C &c) { c.set(junkv); }); }
        COUNT("minLength", MinLengthConstraint, setMinLength, 1000) COUNT("maxLength", MaxLengthConstraint, setMaxLength, 0)
        COUNT("minItems", MinItemsConstraint, setMinItems, 1000) COUNT("maxItems", MaxItemsConstraint, setMaxItems, 0)
        if (!d3) { COUNT("minProperties", MinPropertiesConstraint, setMinProperties, 1000) COUNT("maxProperties", MaxPropertiesConstraint, setMaxProperties, 0) }
        if (const J *k = J_("pattern")) {
            Rec r; r.text = "pattern " + q(k->s); std::string t = k->s; bool cs = odds(1, 3);
            add<vjc::PatternConstraint>(p, r, [=](vjc::PatternConstraint &c) { if (cs) c.setPattern(CStr(t.data(), t.size(), valijson::internal::CustomAllocator<char>(cAlloc, cFree))); else c.setPattern(t); }, [](vjc::PatternConstraint &c) { c.setPattern(std::string("^spoilt pattern, long enough to be on the heap$")); });
        }
        if (const J *k = J_("format")) { Rec r; r.text = "format " + q(k->s); std::string t = k->s; add<vjc::FormatConstraint>(p, r, [=](vjc::FormatConstraint &c) { c.setFormat(t); }, [](vjc::FormatConstraint &c) { c.setFormat("time"); }); }
        if (const J *k = J_("uniqueItems")) if (k->b) { Rec r; r.text = "uniqueItems"; add<vjc::UniqueItemsConstraint>(p, r, [](vjc::UniqueItemsConstraint &) {}, [](vjc::UniqueItemsConstraint &) {}); }
        if (const J *k = J_("items")) {
            if (k->isArr()) {
                std::vector<const Subschema *> v; Rec r; r.text = "items";
                for (auto &x : k->a) { v.push_back(sub(x)); r.text += " " + names(v.back()); }
                const J *ad = J_("additionalItems");
                const Subschema *rest = !ad ? sch.emptySubschema() : ad->t == J::Bool && !ad->b && odds(3, 4) ? nullptr : ad->t == J::Bool && !d7 ? (ad->b ? sch.emptySubschema() : nullptr) : sub(*ad);
                r.text += " then " + names(rest);
                bool first = odds(1, 2); auto jk = junk();
                add<vjc::LinearItemsConstraint>(p, r, [=](vjc::LinearItemsConstraint &c) { if (first) c.setAdditionalItemsSubschema(rest); for (auto x : v) c.addItemSubschema(x); if (!first) { c.setAdditionalItemsSubschema(jk); c.setAdditionalItemsSubschema(rest); } }, [=](vjc::LinearItemsConstraint &c) { c.addItemSubschema(jk); c.setAdditionalItemsSubschema(jk); });
            } else {
                auto x = open(*k) && odds(1, 2) ? nullptr : sub(*k); Rec r; r.text = "items* " + names(x); auto jk = junk();
                add<vjc::SingularItemsConstraint>(p, r, [=](vjc::SingularItemsConstraint &c) { c.setItemsSubschema(jk); c.setItemsSubschema(x); }, [=](vjc::SingularItemsConstraint &c) { c.setItemsSubschema(jk); });
            }
        }
        auto single = [&](auto tag, const char *word, const J &k) {
            using C = typename decltype(tag)::type;
            auto x = std::is_same<C, vjc::NotConstraint>::value && open(k) && odds(1, 2) ? nullptr : sub(k); Rec r; r.text = std::string(word) + " " + names(x); auto jk = junk();
            add<C>(p, r, [=](C &c) { c.setSubschema(jk); c.setSubschema(x); }, [=](C &c) { c.setSubschema(jk); });
        };
        if (d7) if (const J *k = J_("contains")) single(std::common_type<vjc::ContainsConstraint>(), "contains", *k);
        if (d7) if (const J *k = J_("propertyNames")) single(std::common_type<vjc::PropertyNamesConstraint>(), "propertyNames", *k);
        if (!d3) if (const J *k = J_("not")) single(std::common_type<vjc::NotConstraint>(), "not", *k);
        // properties: together, or what does not depend on the rest on its own
        {
            const J *pr = J_("properties"), *pp = J_("patternProperties"), *ap = J_("additionalProperties");
            if (pr || pp || ap) {
                struct Part { std::vector<std::pair<std::string, const Subschema *>> pr, pp; const Subschema *rest; };
                std::vector<Part> parts(1);
                const bool open = !ap || (ap->t == J::Bool && ap->b);
                parts[0].rest = open ? sch.emptySubschema() : ap->t == J::Bool && (!d7 || odds(3, 4)) ? nullptr : sub(*ap);
                auto place = [&]() -> Part & { if (open && odds(1, 4)) { split++; parts.emplace_back(); parts.back().rest = sch.emptySubschema(); return parts.back(); } return parts[open ? s.below(parts.size()) : 0]; };
                if (pr) for (auto &x : pr->o) { auto y = sub(x.second); place().pr.emplace_back(x.first, y); }
                if (pp) for (auto &x : pp->o) { auto y = sub(x.second); place().pp.emplace_back(x.first, y); }
                for (auto &part : parts) {
                    Rec r; r.text = "properties"; std::set<std::string> a;
                    for (auto &x : part.pr) a.insert(q(x.first) + ":" + names(x.second));
                    for (auto &x : part.pp) a.insert("/" + q(x.first) + ":" + names(x.second));
                    for (auto &x : a) r.text += " " + x;
                    r.text += " else " + names(part.rest);
                    auto jk = junk(); bool first = odds(1, 2), dup = odds(1, 3), back = odds(1, 2);
                    int form = s.below(3);
                    auto put = [form](auto fn, const std::string &n) { bool nul = n.find('\0') != std::string::npos; if (form == 1) return fn(CStr(n.data(), n.size(), valijson::internal::CustomAllocator<char>(cAlloc, cFree))); if (form == 2 && !nul) return fn(n.c_str()); return fn(n); };
                    add<vjc::PropertiesConstraint>(p, r, [=](vjc::PropertiesConstraint &c) {
                        if (first) c.setAdditionalPropertiesSubschema(part.rest);
                        auto l = part.pr; if (back) std::reverse(l.begin(), l.end());
                        auto addP = [&](auto &list, bool pat) {
                            for (auto &x : list) {
                                auto go = [&](const auto &n, const Subschema *y) { return pat ? c.addPatternPropertySubschema(n, y) : c.addPropertySubschema(n, y); };
                                if (!put([&](const auto &n) { return go(n, x.second); }, x.first)) throw Fail{"a new property name was reported as present: " + q(x.first)};
                                if (dup && put([&](const auto &n) { return go(n, jk); }, x.first)) throw Fail{"a property name was accepted twice: " + q(x.first)};
                            }
                        };
                        addP(l, false); addP(part.pp, true);
                        if (!first) { c.setAdditionalPropertiesSubschema(jk); c.setAdditionalPropertiesSubschema(part.rest); }
                    }, [=](vjc::PropertiesConstraint &c) { c.addPropertySubschema("a", nullptr); c.addPatternPropertySubschema("(", nullptr); c.setAdditionalPropertiesSubschema(nullptr); });
                }
                if (d3 && pr) for (auto &x : pr->o) if (const J *rq = x.second.get("required")) if (rq->t == J::Bool && rq->b && !x.second.has("$ref")) required({x.first}, p);
            }
        }
        if (!d3) if (const J *k = J_("required")) {
            std::vector<std::vector<std::string>> parts(1);
            for (auto &x : k->a) { if (!parts.back().empty() && odds(1, 3)) { parts.emplace_back(); split++; } parts.back().push_back(x.s); }
            for (auto &x : parts) required(x, p);
        }
        if (const J *k = J_("dependencies")) {
            struct Dep { std::string n; std::vector<std::string> names; const Subschema *sc; };
            std::vector<std::vector<Dep>> parts(1);
            for (auto &x : k->o) {
                if (!parts.back().empty() && odds(1, 4)) { parts.emplace_back(); split++; }
                Dep dp{x.first, {}, nullptr};
                if (x.second.isArr()) for (auto &y : x.second.a) dp.names.push_back(y.s);
                else if (x.second.isStr()) dp.names.push_back(x.second.s);
                else dp.sc = sub(x.second);
                parts.back().push_back(dp);
            }
            for (auto &part : parts) {
                Rec r; r.text = "dependencies"; std::set<std::string> a;
                std::vector<int> forms;
                for (auto &x : part) {
                    forms.push_back((int)s.below(4));
                    if (x.sc) { a.insert(q(x.n) + "=>" + names(x.sc)); continue; }
                    if (x.names.empty()) forms.back() = 1;
                    std::set<std::string> e; for (auto &y : x.names) e.insert(q(y));
                    std::string t = q(x.n) + "->"; for (auto &y : e) t += y + ",";
                    a.insert(t);
                }
                for (auto &x : a) r.text += " " + x;
                auto jk = junk(); bool dup = odds(1, 3);
                add<vjc::DependenciesConstraint>(p, r, [=](vjc::DependenciesConstraint &c) {
                    size_t z = 0;
                    for (auto &x : part) {
                        int f = forms[z++];
                        if (x.sc) {
                            c.addSchemaDependency(x.n, x.sc);
                            if (dup) { bool threw = false; try { c.addSchemaDependency(x.n, jk); } catch (std::runtime_error &) { threw = true; } if (!threw) throw Fail{"a second dependent schema for the same property was accepted"}; }
                        } else if (f > 1) { // in two portions
                            std::vector<std::string> l(x.names.begin(), x.names.begin() + (long)(x.names.size() / 2)), m(x.names.begin() + (long)(x.names.size() / 2), x.names.end());
                            if (f == 2) c.addPropertyDependencies(x.n, l);
                            else for (auto &y : l) c.addPropertyDependency(x.n, y);
                            c.addPropertyDependencies(x.n, m);
                        } else if (f) { if (dup && !x.names.empty()) c.addPropertyDependency(x.n, x.names[0]); c.addPropertyDependencies(x.n, x.names); }
                        else for (auto &y : x.names) c.addPropertyDependency(x.n, y);
                    }
                }, [=](vjc::DependenciesConstraint &c) { c.addPropertyDependency(std::string("a"), std::string("nowhere")); c.addPropertyDependency(std::string("b"), std::string("nowhere")); });
            }
        }
        auto listOf = [&](auto tag, const char *word, const std::vector<J> &k) {
            using C = typename decltype(tag)::type;
            std::vector<const Subschema *> v; Rec r; r.text = word;
            for (auto &x : k) { v.push_back(sub(x)); r.text += " " + names(v.back()); }
            auto jk = junk();
            add<C>(p, r, [=](C &c) { for (auto x : v) c.addSubschema(x); }, [=](C &c) { c.addSubschema(jk); });
        };
        auto conj = [&](const std::vector<J> &k) { // members may as well be put on this subschema directly
            std::vector<J> rest;
            for (auto &x : k) {
                bool hasRq = d3 && x.isObj() && x.has("required");
                if (!(x.isObj() && x.has("$ref")) && !hasRq && odds(1, 3)) { inlined++; fill(x, p); } else rest.push_back(x);
            }
            if (!rest.empty()) {
                size_t cut = rest.size() > 1 && odds(1, 4) ? 1 + s.below(rest.size() - 1) : 0;
                if (cut) { split++; listOf(std::common_type<vjc::AllOfConstraint>(), "allOf", std::vector<J>(rest.begin(), rest.begin() + cut)); }
                listOf(std::common_type<vjc::AllOfConstraint>(), "allOf", std::vector<J>(rest.begin() + cut, rest.end()));
            }
        };
        if (!d3) {
            if (const J *k = J_("allOf")) conj(k->a);
            if (const J *k = J_("anyOf")) listOf(std::common_type<vjc::AnyOfConstraint>(), "anyOf", k->a);
            if (const J *k = J_("oneOf")) listOf(std::common_type<vjc::OneOfConstraint>(), "oneOf", k->a);
        } else if (const J *k = J_("extends")) conj(k->isArr() ? k->a : std::vector<J>{*k});
        if (d7) if (const J *k = J_("if")) {
            const J *t = J_("then"), *e = J_("else");
            auto a = sub(*k), b = t ? sub(*t) : nullptr, c_ = e ? sub(*e) : nullptr;
            Rec r; r.text = "if " + names(a) + " " + names(b) + " " + names(c_);
            auto jk = junk();
            add<vjc::ConditionalConstraint>(p, r, [=](vjc::ConditionalConstraint &c) { c.setElseSubschema(jk); c.setIfSubschema(a); c.setThenSubschema(b); c.setElseSubschema(c_); }, [=](vjc::ConditionalConstraint &c) { c.setIfSubschema(jk); c.setThenSubschema(jk); c.setElseSubschema(jk); });
        }
    }
    void required(const std::vector<std::string> &v, const Subschema *p) {
        Rec r; r.text = "required"; std::set<std::string> a;
        for (auto &x : v) a.insert(q(x));
        for (auto &x : a) r.text += " " + x;
        bool dup = odds(1, 3); int form = s.below(3);
        auto put = [form](vjc::RequiredConstraint &c, const std::string &n) { bool nul = n.find('\0') != std::string::npos; if (form == 1) return c.addRequiredProperty(CStr(n.data(), n.size(), valijson::internal::CustomAllocator<char>(cAlloc, cFree))); if (form == 2 && !nul) return c.addRequiredProperty(n.c_str()); return c.addRequiredProperty(n); };
        add<vjc::RequiredConstraint>(p, r, [=](vjc::RequiredConstraint &c) {
            for (auto &x : v) { if (!put(c, x)) throw Fail{"a new required name was reported as present"}; if (dup && put(c, x)) throw Fail{"a required name was accepted twice"}; }
        }, [](vjc::RequiredConstraint &c) { c.addRequiredProperty("nowhere"); });
    }
};

