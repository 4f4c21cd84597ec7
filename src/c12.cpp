#include <valijson/adapters/std_string_adapter.hpp>
#include "ad.hpp"
#include "wrap.hpp"
using namespace vc;

static const std::vector<const Lib *> &typed() {
    static const std::vector<const Lib *> v{&libRapid(), &libRapidCrt(), &libNlohmann(), &libJsonCpp(), &libPico(), &libBoostJson(), &libPoco(), &libQtJson(), &libQVariant()};
    return v;
}
static const std::vector<const Lib *> &allLibs() {
    static const std::vector<const Lib *> v = [] { auto x = typed(); x.push_back(&libPtree()); x.push_back(&libYaml()); return x; }();
    return v;
}
static const std::vector<const AdLib *> &ads() {
    static const std::vector<const AdLib *> v{&adRapid(), &adRapidCrt(), &adNlohmann(), &adJsonCpp(), &adPico(), &adBoostJson(), &adPoco(), &adQtJson(), &adQVariant(), &adPtree(), &adYaml()};
    return v;
}
static std::string asText(const J &j) { return j.t == J::Bool ? (j.b ? "true" : "false") : jdump(j); }
// turns scalars into their text (all of them, or a random choice)
static void stringly(Src *s, J &j, int &n) {
    if (j.t == J::Arr) { for (auto &x : j.a) stringly(s, x, n); return; }
    if (j.t == J::Obj) { for (auto &p : j.o) stringly(s, p.second, n); return; }
    if (j.t == J::Str || (s && !s->chance(1, 2))) return;
    if (j.t == J::Null) { if (s) j = J(""); return; }
    j = J(asText(j));
    n++;
}
// and back
static void unstring(Src &s, J &j, int &n) {
    if (j.t == J::Arr) { for (auto &x : j.a) unstring(s, x, n); return; }
    if (j.t == J::Obj) { for (auto &p : j.o) unstring(s, p.second, n); return; }
    J v;
    if (j.t != J::Str || !s.chance(1, 2)) return;
    if (j.s == "true" || j.s == "false") { j = J(j.s == "true"); n++; return; }
    if (j.s.empty()) { j = J(); n++; return; }
    try { if (RefVal::numText(j.s, v)) { j = v; n++; } } catch (Ambiguous &) {}
}
static void constants(Src &s, J &schema, int &n) {
    if (schema.t == J::Arr) { for (auto &x : schema.a) constants(s, x, n); return; }
    if (schema.t != J::Obj) return;
    for (auto &p : schema.o) {
        if (p.first == "const" || p.first == "enum") { J w = p.second; if (s.coin()) stringly(&s, w, n); else unstring(s, w, n); p.second = w; }
        else constants(s, p.second, n);
    }
}
// documents with one part turned into something the casts care about
static void spice(Src &s, const gen::Cfg &cfg, J &j) {
    if (j.t == J::Arr && !j.a.empty() && s.chance(3, 4)) { spice(s, cfg, j.a[s.below(j.a.size())]); return; }
    if (j.t == J::Obj && !j.o.empty() && s.chance(3, 4)) { spice(s, cfg, j.o[s.below(j.o.size())].second); return; }
    switch (s.below(6)) {
    case 0: j = J::arr(); return;
    case 1: j = J::obj(); return;
    case 2: j = J(""); return;
    case 3: j = J(s.pick(std::vector<std::string>{"1", "-7", "2.5", "true", "false", "null", "1e2", "1x", " 1", "1 ", "0x10", "+1", "--1", "1.2.3", "tru", "TRUE", "nan", "inf", "-", "e5", "1e", "9223372036854775808", "12345678901234567890123"})); return;
    case 4: j = gen::scalar(s, cfg); return;
    default: j = J(s.coin()); return;
    }
}
static gen::Cfg config(Src &s) {
    gen::Cfg cfg;
    cfg.draft = s.pick({Draft::D7, Draft::D7, Draft::D4, Draft::D3});
    return cfg;
}
static bool loads(const Lib &l, const std::string &text) { return &l != &libPoco() || text.find("\\u0000") == text.npos; }

static void model(Ctx &c) {
    Src &s = c.s;
    gen::Cfg cfg = config(s);
    J schema = gen::schema(s, cfg, s.range(0, 2));
    int n = 0;
    if (s.coin()) constants(s, schema, n);
    auto docs = documents(s, cfg, schema, 1, 3);
    for (auto &d : docs) {
        int k = s.range(0, 2);
        if (s.coin()) stringly(&s, d, n); else if (s.coin()) unstring(s, d, n);
        while (k--) spice(s, cfg, d);
    }
    if (s.chance(1, 4)) { // the mode reaches every place of a schema
        Wrapped w = wrapped(s, cfg.draft, schema, docs[0]);
        schema = w.schema;
        docs = {w.doc};
        c.label("wrapped");
    }
    c.desc = std::string(draftName(cfg.draft)) + " schema " + jdump(schema) + "  documents " + docsText(docs);
    std::string st = jdump(schema);
    const Lib &pl = *s.pick(typed());
    if (!loads(pl, st)) c.discard();
    Parsed p = mustParse(pl, cfg.draft, schema);
    bool t = false, f = false, cast = false;
    for (auto &d : docs) {
        int exp, strong = -1;
        try { RefVal r(cfg.draft, schema); r.weak = true; exp = r.valid(schema, d); }
        catch (Ambiguous &) { exp = -1; }
        catch (RefVal::TooDeep &) { c.discard(); }
        strong = reference(cfg.draft, schema, d);
        const Lib &l = *s.pick(typed());
        if (!loads(l, jdump(d))) continue;
        auto v = l.validator({true, false});
        valijson::ValidationResults res;
        bool got = validate(l, *v, *p.schema, d, s.coin() ? &res : nullptr);
        if (exp < 0) { c.label("open"); continue; }
        if (got != (bool)exp) c.fail(std::string("under weak types ") + l.name + " says " + word(got) + " but the documented casts make it " + word(exp) + ": document " + jdump(d) + " schema " + st);
        (exp ? t : f) = true;
        if (strong != exp) cast = true;
    }
    if (t && f) c.label("both-verdicts");
    if (cast) c.label("cast-decides");
    c.nontrivial = schema.isObj() && !schema.o.empty() && (t || f);
}

// ---- the same document with every scalar spelled as a string
static void prune(J &j) { // types the two representations cannot share
    if (j.t == J::Obj) {
        auto &o = j.o;
        o.erase(std::remove_if(o.begin(), o.end(), [](auto &p) { return p.first == "uniqueItems" || p.first == "format"; }), o.end());
        for (auto &p : o) prune(p.second);
    }
    for (auto &x : j.a) prune(x);
    if (j.t == J::Str && j.s == "string") j.s = "number";
}
static void plain(Src &s, J &j) {
    switch (j.t) {
    case J::Null: j = J(s.range(0, 3)); return;
    case J::Str: if (j.s.empty()) j = J("a"); return;
    case J::Int: return;
    case J::Dbl: if (j.isIntegral() || jdouble(j.d).find_first_of("eE") != std::string::npos) j = J(2.5); return;
    case J::Arr: if (j.a.empty()) j = J("b"); for (auto &x : j.a) plain(s, x); return;
    case J::Obj: if (j.o.empty()) j = J(3); for (auto &p : j.o) plain(s, p.second); return;
    default: return;
    }
}
static bool emptyKey(const J &j) {
    for (auto &p : j.o) if (p.first.empty() || emptyKey(p.second)) return true;
    for (auto &x : j.a) if (emptyKey(x)) return true;
    return false;
}
static void same(Ctx &c) {
    Src &s = c.s;
    gen::Cfg cfg = config(s);
    cfg.nul = false;
    cfg.controls = false;
    J schema = gen::schema(s, cfg, s.range(0, 2));
    prune(schema);
    J doc = documents(s, cfg, schema, 1, 1)[0];
    int k = s.range(0, 1), n = 0;
    while (k--) spice(s, cfg, doc);
    plain(s, doc);
    J str = doc;
    stringly(nullptr, str, n);
    std::string st = jdump(schema), dt = jdump(doc);
    c.desc = std::string(draftName(cfg.draft)) + " schema " + st + "  document " + dt + "  as strings " + jdump(str);
    Parsed p = mustParse(*s.pick(typed()), cfg.draft, schema);
    const Lib &a = *s.pick(typed()), &b = *s.pick(typed());
    bool va = validate(a, *a.validator({true, false}), *p.schema, doc);
    bool vb = validate(b, *b.validator({true, false}), *p.schema, str);
    if (va != vb) c.fail(std::string("under weak types ") + a.name + " says " + word(va) + " for " + dt + " but " + b.name + " says " + word(vb) + " for " + jdump(str) + ": schema " + st);
    for (const Lib *l : {&libPtree(), &libYaml()}) {
        if (l == &libPtree() && (emptyKey(doc) || !(doc.isArr() || doc.isObj()))) { c.label("not-in-a-property-tree"); continue; }
        const J &d = s.coin() ? doc : str;
        bool vl = validate(*l, *l->validator({true, false}), *p.schema, d);
        if (vl != va) c.fail(std::string("under weak types ") + a.name + " says " + word(va) + " but " + l->name + " says " + word(vl) + " for the same document " + jdump(d) + ": schema " + st);
    }
    c.label(va ? "valid" : "invalid");
    c.nontrivial = n > 0 && schema.isObj() && !schema.o.empty();
}

// ---- strong implies weak, for one assertion
static void implied(Ctx &c) {
    Src &s = c.s;
    gen::Cfg cfg = config(s);
    J schema = J::obj(), base = gen::value(s, cfg, 2);
    std::vector<J> docs;
    switch (s.below(3)) {
    case 0: {
        static const std::vector<std::string> ts{"null", "boolean", "integer", "number", "string", "array", "object"};
        if (s.coin()) schema.set("type", J(s.pick(ts)));
        else { J a = J::arr(); std::set<std::string> seen; int n = s.range(1, 3); for (int i = 0; i < n; i++) { auto t = s.pick(ts); if (seen.insert(t).second) a.push(J(t)); } schema.set("type", a); }
        break;
    }
    case 1: if (cfg.draft == Draft::D7) { schema.set("const", base); docs.push_back(base); break; } // fall through
    default: { J e = J::arr(); e.push(base); int n = s.range(0, 2); for (int i = 0; i < n; i++) { J v = gen::value(s, cfg, 1); bool dup = false; for (auto &x : e.a) dup = dup || jeq(x, v); if (!dup) e.push(v); } docs.push_back(e.a[s.below(e.a.size())]); schema.set("enum", e); }
    }
    gen::InstGen g(s, cfg, schema);
    docs.push_back(g.gen(&schema, 2));
    docs.push_back(gen::value(s, cfg, 1));
    spice(s, cfg, docs.back());
    for (auto &d : docs) d = gen::tame(schema, d);
    std::string st = jdump(schema);
    c.desc = std::string(draftName(cfg.draft)) + " schema " + st + "  documents " + docsText(docs);
    const Lib &pl = *s.pick(typed());
    if (!loads(pl, st)) c.discard();
    Parsed p = mustParse(pl, cfg.draft, schema);
    bool hit = false;
    for (auto &d : docs) {
        const Lib &l = *s.pick(allLibs());
        std::string dt = jdump(d);
        if (!loads(l, dt)) continue;
        DocPtr dd = l.load(dt);
        if (!dd) { c.label(std::string("cannot-load:") + l.name); continue; }
        try {
            bool strong = l.validator({})->validate(*p.schema, dd.get(), nullptr);
            bool weak = l.validator({true, false})->validate(*p.schema, dd.get(), nullptr);
            if (strong && !weak) c.fail(std::string(l.name) + ": valid under strong types but invalid under weak types: document " + dt + " schema " + st);
            if (strong) hit = true;
        } catch (std::exception &e) { c.fail(std::string(l.name) + ": validation threw '" + e.what() + "' for document " + dt + " schema " + st); }
    }
    c.nontrivial = hit;
}

// ---- the casts themselves
static std::string show(const J &j) { return jdump(j); }
template <class T, class F, class G> static int attempt(Ctx &c, const std::string &what, T &out, F into, G direct) {
    T r{}, q{};
    bool ok = into(r), threw = false;
    try { q = direct(); } catch (std::exception &) { threw = true; }
    if (ok == threw) c.fail(what + ": the two overloads disagree (one " + (ok ? "converts" : "refuses") + ")");
    if (ok && !(r == q)) c.fail(what + ": the two overloads return different values");
    out = r;
    return ok;
}
static void conversions(Ctx &c, const std::string &who, const AnyAdapter &a, const J &v) {
    std::string w = who + " " + show(v) + " ";
    RefVal m(Draft::D7, v);
    m.weak = true;
    bool b; double d; int64_t i; std::string t;
    auto expect = [&](const char *what, bool got, bool want) { if (got != want) c.fail(w + what + (want ? " refuses" : " accepts") + " although the documentation says otherwise"); };
    J tmp, n;
    int hasB = attempt<bool>(c, w + "asBool", b, [&](bool &r) { return a.asBool(r); }, [&] { return a.asBool(); });
    bool wantB = v.t == J::Bool || (v.t == J::Str && (v.s == "true" || v.s == "false"));
    expect("asBool", hasB, wantB);
    expect("maybeBool", a.maybeBool(), wantB);
    if (hasB && b != (v.t == J::Bool ? v.b : v.s == "true")) c.fail(w + "asBool yields the wrong value");
    int hasD = attempt<double>(c, w + "asDouble", d, [&](double &r) { return a.asDouble(r); }, [&] { return a.asDouble(); });
    int hasI = attempt<int64_t>(c, w + "asInteger", i, [&](int64_t &r) { return a.asInteger(r); }, [&] { return a.asInteger(); });
    if ((bool)hasD != a.maybeDouble()) c.fail(w + "asDouble and maybeDouble disagree");
    if ((bool)hasI != a.maybeInteger()) c.fail(w + "asInteger and maybeInteger disagree");
    try {
        const J *x = m.asNum(v, n);
        expect("asDouble", hasD, x != nullptr);
        if (hasD && d != (double)x->num()) c.fail(w + "asDouble yields " + show(J(d)));
        bool open = x && x->t == J::Dbl && x->isIntegral() && (v.t == J::Str || std::fabs(x->d) >= 9223372036854775808.0);
        if (!open) {
            bool wantI = x && x->isIntegral();
            expect("asInteger", hasI, wantI);
            if (hasI && i != (x->t == J::Int ? x->i : (int64_t)x->d)) c.fail(w + "asInteger yields " + std::to_string(i));
        }
    } catch (Ambiguous &) { c.label("open-number"); }
    int hasS = attempt<std::string>(c, w + "asString", t, [&](std::string &r) { return a.asString(r); }, [&] { return a.asString(); });
    if (a.maybeString() && !hasS) c.fail(w + "maybeString holds but asString refuses");
    try {
        const J *x = m.asStr(v, tmp);
        expect("maybeString", a.maybeString(), x != nullptr);
        if (x && t != x->s) c.fail(w + "asString yields '" + t + "'");
        if (v.t == J::Null && hasS && !t.empty()) c.fail(w + "asString yields '" + t + "'");
    } catch (Ambiguous &) { // a number whose spelling is open: it must denote the number
        J back;
        int ok = 0;
        try { ok = RefVal::numText(t, back); } catch (Ambiguous &) { ok = -1; }
        if (!ok || (ok > 0 && (double)back.num() != v.d)) c.fail(w + "asString yields '" + t + "', which does not denote the number");
    }
    expect("maybeNull", a.maybeNull(), v.t == J::Null || (v.t == J::Str && v.s.empty()));
    try { expect("maybeArray", a.maybeArray(), m.asArr(v, tmp) != nullptr); } catch (Ambiguous &) {}
    try { expect("maybeObject", a.maybeObject(), m.asObj(v, tmp) != nullptr); } catch (Ambiguous &) {}
}
static void casts(Ctx &c) {
    Src &s = c.s;
    gen::Cfg cfg;
    J v = s.chance(1, 4) ? J(s.pick(std::vector<long long>{9007199254740993LL, 9223372036854775807LL, -9223372036854775807LL - 1, 1234567890123456789LL})) : s.chance(1, 5) ? gen::value(s, cfg, 1) : gen::scalar(s, cfg);
    if (s.coin()) spice(s, cfg, v);
    int n = 0;
    if (v.t != J::Arr && v.t != J::Obj && s.chance(1, 3)) stringly(&s, v, n);
    c.desc = show(v);
    if (v.t == J::Str && s.chance(1, 4)) {
        valijson::adapters::StdStringAdapter a(v.s);
        conversions(c, "StdString", a, v);
        J o = gen::scalar(s, cfg);
        if (s.coin()) spice(s, cfg, o);
        else { o = v; unstring(s, o, n); }
        c.desc += " vs " + show(o);
        const AdLib &l = *s.pick(ads());
        if (!l.strictTypes || (&l == &adPoco() && show(o).find("\\u0000") != std::string::npos)) c.discard();
        DocPtr d = l.load(show(o));
        auto other = l.make(d.get());
        RefVal m(Draft::D7, v);
        m.weak = true;
        bool strict = s.coin(), got, back;
        try { got = a.equalTo(*other, strict); back = other->equalTo(a, strict); }
        catch (std::exception &e) { c.fail("comparing the name " + show(v) + " with " + show(o) + " threw " + e.what()); }
        int want;
        try { want = strict ? jeq(v, o) : m.equal(v, o); } catch (Ambiguous &) { want = -1; }
        if (want >= 0 && (got != want || back != want)) c.fail(std::string(strict ? "strict" : "weak") + " comparison of the name " + show(v) + " with the " + l.name + " value " + show(o) + " yields " + (got ? "true" : "false") + "/" + (back ? "true" : "false"));
        c.label("name");
    } else {
        const AdLib &l = *s.pick(ads());
        std::string text = show(v);
        if (&l == &adPoco() && text.find("\\u0000") != text.npos) c.discard();
        DocPtr d = l.load(text);
        if (!d) c.discard();
        auto a = l.make(d.get());
        conversions(c, l.name, *a, l.strictTypes ? v : adToJ(*a));
        c.label(l.name);
    }
    static const char *tn[] = {"null", "bool", "int", "double", "string", "array", "object"};
    c.label(tn[v.t]);
    c.nontrivial = true;
}

int main(int argc, char **argv) {
    Check ck;
    ck.id = "C12";
    ck.rule = "'model' compares weak verdicts with a reference validator extended by the documented casts, over schemas of all drafts and documents whose scalars are randomly turned into text and back; 'same' compares a typed document with its all-strings form and with property tree and YAML documents; "
              "'implied' checks strong => weak for one type/enum/const assertion in 11 libraries; 'casts' checks every as*/maybe* function. Non-trivial: model/same: the schema has a keyword and a verdict was compared (same: a scalar was respelled); implied: some document is valid under strong types; casts: always.";
    ck.assumptions = {"the empty string as an array or object, text of integral doubles, decimal forms JSON does not have and numbers that over- or underflow are open", "uniqueItems compares strictly"};
    ck.subs.push_back({"model", 600000, 9000000, model});
    ck.subs.push_back({"same", 300000, 4000000, same});
    ck.subs.push_back({"implied", 300000, 3000000, implied});
    ck.subs.push_back({"casts", 600000, 5000000, casts});
    return runMain(argc, argv, ck);
}
