// C11: JSON equality is value equality, across libraries and snapshots.
#include "ad.hpp"
#include "common.hpp"
#include <valijson/adapters/std_string_adapter.hpp>
using namespace pbt;
using namespace vc;

static const std::vector<const AdLib *> &libs() {
    static const std::vector<const AdLib *> l{&adRapid(), &adRapidCrt(), &adNlohmann(), &adJsonCpp(), &adPico(), &adBoostJson(), &adPoco(), &adQtJson(), &adQVariant()};
    return l;
}
static const std::vector<const AdLib *> &looseLibs() {
    static const std::vector<const AdLib *> l{&adPtree(), &adYaml()};
    return l;
}
static const std::vector<const Lib *> &vlibs() {
    static const std::vector<const Lib *> l{&libRapid(), &libRapidCrt(), &libNlohmann(), &libJsonCpp(), &libPico(), &libBoostJson(), &libPoco(), &libQtJson(), &libQVariant()};
    return l;
}
static gen::Cfg cfg() {
    gen::Cfg c;
    c.oddKeyPct = 25;
    return c;
}
static J number(Src &s) {
    static const std::vector<long long> e{0, 1, -1, 2, 3, 127, 128, 65536, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 9007199254740991LL, 9007199254740992LL, 9007199254740993LL, 9007199254740994LL, 9007199254740995LL,
                                          1152921504606846976LL, 1152921504606846977LL, 9223372036854775807LL, 9223372036854775806LL, 9223372036854775295LL, 9223372036854774784LL, -9223372036854775807LL - 1};
    switch (s.weighted({5, 3, 2})) {
    case 0: { long long v = s.pick(e); return J(v > 0 && s.chance(1, 4) ? -v : v); }
    case 1: return J((double)s.pick(e));
    default: return J(s.pick(std::vector<double>{0.5, 1.5, 0.1, -0.0, 1e20, 9223372036854775808.0, 18446744073709551616.0, 1e300, 5e-324, 2.0, 3.0}));
    }
}
// Poco keeps neither names with NUL nor numbers its parser cannot hold: they are built natively instead.
static J val(Src &s) {
    gen::Cfg c = cfg();
    J j = gen::value(s, c, s.range(0, 3));
    std::function<void(J &)> edge = [&](J &x) {
        for (auto &e : x.a) edge(e);
        for (auto &p : x.o) edge(p.second);
        if (x.isNum() && s.chance(1, 3)) x = number(s);
    };
    edge(j);
    return j;
}
// Another value, equal or nearly so.
static void related(Src &s, J &j) {
    if (j.isObj() && s.coin()) for (size_t i = j.o.size(); i > 1; i--) std::swap(j.o[i - 1], j.o[s.below(i)]);
    for (auto &x : j.a) if (s.coin()) related(s, x);
    for (auto &p : j.o) if (s.coin()) related(s, p.second);
    if (j.t == J::Int && s.chance(1, 2) && j.i < 9223372036854774784LL && (long long)(double)j.i == j.i) j = J((double)j.i);
    else if (j.t == J::Dbl && j.isIntegral() && std::fabs(j.d) < 9e18 && s.chance(1, 2)) j = J((long long)j.d);
}
static void nudge(Src &s, J &j) {
    std::vector<J *> all;
    std::function<void(J &)> walk = [&](J &x) { all.push_back(&x); for (auto &e : x.a) walk(e); for (auto &p : x.o) walk(p.second); };
    walk(j);
    J &x = *all[s.below(all.size())];
    gen::Cfg c = cfg();
    switch (s.below(6)) {
    case 0: x = gen::value(s, c, 1); return;
    case 1: // another type with a similar text
        switch (x.t) {
        case J::Null: x = s.pick(std::vector<J>{J(""), J("null"), J(false), J(0), J::arr(), J::obj()}); return;
        case J::Bool: x = s.coin() ? J(x.b ? "true" : "false") : J(x.b ? 1 : 0); return;
        case J::Int: case J::Dbl: x = x.num() == 0 && s.coin() ? J(false) : J(jdump(x)); return;
        case J::Str: x = x.s.empty() ? s.pick(std::vector<J>{J(), J::arr(), J::obj(), J(false)}) : J::arr({x}); return;
        case J::Arr: { if (x.a.empty()) { x = s.coin() ? J::obj() : J(""); return; } J o = J::obj(); for (size_t i = 0; i < x.a.size(); i++) o.set(std::to_string(i), x.a[i]); x = o; return; }
        default: { if (x.o.empty()) { x = s.coin() ? J::arr() : J(""); return; } J a = J::arr(); for (auto &p : x.o) a.push(p.second); x = a; return; }
        }
    case 2: // next to it
        if (x.t == J::Int) { if (x.i < 9223372036854775807LL) x.i++; return; }
        if (x.t == J::Dbl) { x = J(std::nextafter(x.d, 1e308)); return; }
        if (x.isStr()) { x.s += s.pick(std::vector<std::string>{"x", " ", std::string("\0", 1), "0"}); return; }
        if (x.isArr() && x.a.size() > 1) { std::swap(x.a[0], x.a.back()); return; }
        return;
    case 3:
        if (x.isArr() && !x.a.empty()) { x.a.erase(x.a.begin() + s.below(x.a.size())); return; }
        if (x.isObj() && !x.o.empty()) { x.o.erase(x.o.begin() + s.below(x.o.size())); return; }
        return;
    case 4:
        if (x.isArr()) { J e = !x.a.empty() && s.coin() ? x.a[s.below(x.a.size())] : gen::value(s, c, 1); x.a.insert(x.a.begin() + s.below(x.a.size() + 1), e); return; }
        if (x.isObj()) { x.set(gen::key(s, c), gen::value(s, c, 1)); return; }
        return;
    default: // rename a member, or swap the values of two
        if (x.isObj() && x.o.size() > 1 && s.coin()) { std::swap(x.o[0].second, x.o[1].second); return; }
        if (x.isObj() && !x.o.empty()) { std::string k = x.o[0].first + "x"; if (!x.has(k)) x.o[0].first = k; return; }
        return;
    }
}
static J other(Src &s, const J &x) {
    switch (s.weighted({4, 5, 1})) {
    case 0: { J y = x; related(s, y); return y; }
    case 1: { J y = x; if (s.coin()) related(s, y); int n = s.range(1, 2); for (int i = 0; i < n; i++) nudge(s, y); return y; }
    default: return val(s);
    }
}
static DocPtr docOf(Src &s, const AdLib &l, const J &j) {
    if (s.coin()) if (DocPtr d = l.build(j, s)) return d;
    DocPtr d = l.load(jdump(j));
    if (!d || !jeq(adToJ(*l.make(d.get())), j)) return l.build(j, s); // what the text parser cannot hold
    return d;
}
// What the library holds may round (integers beyond its types): the property is about the held value.
static void pairs(Ctx &c) {
    Src &s = c.s;
    J x = val(s), y = other(s, x);
    const AdLib &la = *s.pick(libs()), &lb = *s.pick(libs());
    c.desc = std::string(la.name) + " " + jdump(x) + "  vs  " + lb.name + " " + jdump(y);
    c.key = c.desc;
    DocPtr da = docOf(s, la, x), db = docOf(s, lb, y);
    std::unique_ptr<AnyAdapter> a = la.make(da.get()), b = lb.make(db.get());
    bool want = jeq(x, y);
    c.label(want ? "equal" : "different");
    c.nontrivial = want || x.t == y.t;
    auto word = [](bool e) { return e ? "equal" : "different"; };
    if (a->equalTo(*b, true) != want) c.fail(std::string("strict comparison says ") + word(!want));
    if (b->equalTo(*a, true) != want) c.fail(std::string("strict comparison, the other way round, says ") + word(!want));
    if (!a->equalTo(*a, true)) c.fail("a value differs from itself");
    bool weak = a->equalTo(*b, false), weakBack = b->equalTo(*a, false);
    if (want && (!weak || !weakBack)) c.fail("non-strict comparison rejects strictly equal values");
    bool scalars = !x.isArr() && !x.isObj() && !y.isArr() && !y.isObj();
    if (scalars && weak != weakBack) c.fail("non-strict comparison of scalars is not symmetric");
    // snapshots
    std::unique_ptr<AnyFrozen> f(a->freeze()), g(f->clone()), h(g->clone());
    if (f->equalTo(*b, true) != want) c.fail(std::string("the frozen first value is ") + word(!want));
    if (f->equalTo(*b, false) != weak) c.fail("non-strict comparison differs between live and frozen");
    if (!f->equalTo(*a, true)) c.fail("a frozen value differs from its source");
    g.reset();
    a.reset();
    if (s.coin()) la.scribble(da.get());
    da.reset();
    if (f->equalTo(*b, true) != want) c.fail("the frozen value changes when the document it was taken from does");
    f.reset();
    if (h->equalTo(*b, true) != want) c.fail("a clone of a clone of a frozen value changes when its original goes away");
    if (h->equalTo(*b, false) != weak) c.fail("a clone of a frozen value compares differently (non-strict)");
    // property names are compared as plain strings
    std::string t = x.isStr() ? x.s : y.isStr() ? y.s : "a";
    valijson::adapters::StdStringAdapter sa(t);
    bool ws = y.isStr() && y.s == t;
    if (sa.equalTo(*b, true) != ws || b->equalTo(sa, true) != ws) c.fail("comparison with a property name");
    std::unique_ptr<AnyFrozen> fs(sa.freeze());
    if (fs->equalTo(*b, true) != ws) c.fail("comparison with a frozen property name");
}
// Loosely typed libraries: comparison is that of what they hold (strings).
static void loose(Ctx &c) {
    Src &s = c.s;
    gen::Cfg g = cfg();
    g.nul = g.controls = false;
    J x = gen::value(s, g, s.range(0, 2)), y = s.coin() ? other(s, x) : x;
    const AdLib &la = *s.pick(looseLibs()), &lb = s.coin() ? la : s.coin() ? *s.pick(libs()) : *s.pick(looseLibs());
    c.desc = std::string(la.name) + " " + jdump(x) + "  vs  " + lb.name + " " + jdump(y);
    c.key = c.desc;
    DocPtr da = la.load(jdump(x)), db = lb.load(jdump(y));
    if (!da || !db) c.discard();
    std::unique_ptr<AnyAdapter> a = la.make(da.get()), b = lb.make(db.get());
    J hx = adToJ(*a), hy = adToJ(*b);
    auto dup = [](const J &j, auto &&self) -> bool { // property trees may hold a name twice
        std::set<std::string> k;
        for (auto &p : j.o) if (!k.insert(p.first).second || self(p.second, self)) return true;
        for (auto &e : j.a) if (self(e, self)) return true;
        return false;
    };
    if (dup(hx, dup) || dup(hy, dup)) c.discard();
    bool want = jeq(hx, hy);
    c.nontrivial = true;
    c.label(want ? "equal" : "different");
    if (a->equalTo(*b, true) != want || b->equalTo(*a, true) != want) c.fail(std::string("strict comparison says ") + (want ? "different" : "equal"));
    bool weak = a->equalTo(*b, false), weakBack = b->equalTo(*a, false);
    if (want && !(weak && weakBack)) c.fail("non-strict comparison rejects strictly equal values");
    bool scalars = !hx.isArr() && !hx.isObj() && !hy.isArr() && !hy.isObj();
    if (scalars && weak != weakBack) c.fail("non-strict comparison of scalars is not symmetric");
    std::unique_ptr<AnyFrozen> f(a->freeze()), h(f->clone());
    if (f->equalTo(*b, true) != want || f->equalTo(*b, false) != weak) c.fail("a frozen value compares differently");
    f.reset();
    a.reset();
    if (s.coin()) la.scribble(da.get());
    da.reset();
    if (h->equalTo(*b, true) != want || h->equalTo(*b, false) != weak) c.fail("a frozen value changes with its document");
}
// enum, const and uniqueItems use the same relation
static void keywords(Ctx &c) {
    Src &s = c.s;
    int n = s.range(1, 4);
    std::vector<J> vals;
    for (int i = 0; i < n; i++) vals.push_back(i && s.coin() ? other(s, vals[s.below(vals.size())]) : val(s));
    J doc = other(s, vals[s.below(vals.size())]);
    size_t is = s.below(vlibs().size()), id = s.below(vlibs().size());
    const Lib &ls = *vlibs()[is], &ld = *vlibs()[id];
    std::string text;
    J schema, inst = doc;
    bool want = false;
    switch (s.below(3)) {
    case 0: schema = J::obj({{"enum", J::arr(vals)}}); for (auto &v : vals) want = want || jeq(v, doc); c.label("enum"); break;
    case 1: schema = J::obj({{"const", vals[0]}}); want = jeq(vals[0], doc); c.label("const"); break;
    default: {
        schema = J::obj({{"uniqueItems", J(true)}});
        vals.push_back(doc);
        inst = J::arr(vals);
        want = true;
        for (size_t i = 0; i < vals.size(); i++) for (size_t k = 0; k < i; k++) if (jeq(vals[i], vals[k])) want = false;
        c.label("uniqueItems");
    }
    }
    c.desc = std::string("schema (") + ls.name + ") " + jdump(schema) + "  document (" + ld.name + ") " + jdump(inst);
    c.key = c.desc;
    c.nontrivial = true;
    // some text parsers round or cut what they cannot hold
    for (auto &p : {std::make_pair(is, &schema), std::make_pair(id, &inst)}) {
        DocPtr t = libs()[p.first]->load(jdump(*p.second));
        if (!t || !jeq(adToJ(*libs()[p.first]->make(t.get())), *p.second)) c.discard();
    }
    std::unique_ptr<valijson::Schema> sc(new valijson::Schema);
    {
        DocPtr p = ls.load(jdump(schema));
        if (!p) c.discard();
        try { ls.parse(p.get(), Draft::D7, *sc); } catch (std::exception &e) { c.fail(std::string("schema rejected: ") + e.what()); }
    } // the schema document is gone by now
    auto v = ld.validator({});
    DocPtr p = ld.load(jdump(inst));
    if (!p) c.discard();
    bool got = v->validate(*sc, p.get(), nullptr);
    if (got != want) c.fail(std::string("judged ") + word(got) + " but by value equality it is " + word(want));
}
int main(int argc, char **argv) {
    Check ck;
    ck.id = "C11";
    ck.rule = "Pairs of random JSON values - equal up to member order and integer/floating representation, one or two small edits apart (neighbouring numbers, other types of similar text, swapped or renamed members), or independent - held by two random libraries (text-loaded or built with random storage types). Strict comparison both ways must be value equality (exact numbers); "
              "frozen copies, clones of clones, also after the source document was overwritten or destroyed, compare like the live value; non-strict accepts whatever strict accepts and is symmetric on scalars. 'keywords': enum, const and uniqueItems verdicts, schema and document in different libraries. Non-trivial: equal, or of the same type; distinct by pair and libraries.";
    ck.assumptions = {"numbers are int64 or double values as the library holds them", "property trees with repeated names are excluded"};
    ck.subs.push_back({"pairs", 500000, 9000000, pairs});
    ck.subs.push_back({"loose", 120000, 2500000, loose});
    ck.subs.push_back({"keywords", 240000, 5000000, keywords});
    return runMain(argc, argv, ck);
}
