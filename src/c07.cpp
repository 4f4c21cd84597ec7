// C07: remote references, and the life of every fetched document.
#include "refs.hpp"
using namespace pbt;
using namespace vc;

static gen::Cfg cfgFor(Draft d) {
    gen::Cfg c;
    c.draft = d;
    c.oddKeyPct = 15;
    c.maxDepth = 2;
    c.nul = false;
    c.bigNumbers = false;
    return c;
}
struct Odd {}; // not a std::exception
struct Injected : std::runtime_error { Injected() : std::runtime_error("injected") {} };

// The fetch/free callbacks of one parse, with their history. A document is
// destroyed the moment it is freed, so AddressSanitizer sees any later use.
struct Web {
    enum Fault { None, Null, Throw, ThrowOdd, Scalar, Malformed, Empty };
    const Lib &lib;
    std::function<const J *(const std::string &)> serve;
    Fault fault = None;
    int faultAt = -1;
    int fetches = 0, frees = 0, faulted = 0;
    std::map<const void *, DocPtr> live;
    std::map<std::string, int> count;
    std::string bad, log;
    bool lenient = false; // other URIs may be requested too
    explicit Web(const Lib &l) : lib(l) {}
    DocPtr hand(const J &j) {
        DocPtr p = lib.load(jdump(j));
        if (!p) throw Fail{"harness: cannot load " + jdump(j)};
        live[p.get()] = p;
        return p;
    }
    FetchCb callbacks() {
        FetchCb cb;
        cb.fetch = [this](const std::string &u) -> DocPtr {
            log += " fetch " + u;
            if (count[u]++ && bad.empty()) bad = "the document " + u + " was fetched more than once";
            int k = fetches++;
            if (k == faultAt) {
                faulted++;
                switch (fault) {
                case Null: return nullptr;
                case Throw: throw Injected();
                case ThrowOdd: throw Odd();
                case Scalar: return hand(J(5));
                case Malformed: return hand(J::obj({{"type", J(5)}}));
                default: return hand(J::arr());
                }
            }
            const J *j = serve(u);
            if (!j) { if (bad.empty() && !lenient) bad = "the URI '" + u + "' was requested, which no reference designates"; return nullptr; }
            return hand(*j);
        };
        cb.freed = [this](const void *p) {
            log += " free";
            auto it = live.find(p);
            if (it == live.end()) { if (bad.empty()) bad = "a document was freed that was not (or no longer) live"; return; }
            frees++;
            live.erase(it);
        };
        return cb;
    }
    void finish() {
        if (bad.empty() && !live.empty()) bad = std::to_string(live.size()) + " fetched document(s) never freed";
        if (!bad.empty()) throw Fail{bad + "; history:" + log};
    }
};

static const Lib &pickLib(Src &s) { return s.chance(1, 3) ? libNlohmann() : libRapid(); }

static bool makeCase(Ctx &c, Draft &d, gen::Cfg &cfg, refs::Canon &cn, refs::Dressed &dr) {
    static const Draft ds[] = {Draft::D7, Draft::D4, Draft::D3};
    d = ds[c.s.weighted({5, 2, 1})];
    cfg = cfgFor(d);
    cn = refs::canon(c.s, cfg, 5, true, c.s.chance(3, 4));
    refs::DressCfg dc;
    dc.draft = d;
    dc.ids = c.s.chance(1, 2);
    dc.decoys = dc.ids;
    dc.remotes = true;
    return refs::dress(c.s, cn, dc, dr);
}
static std::function<const J *(const std::string &)> serverOf(const refs::Dressed &dr) {
    return [&dr](const std::string &u) -> const J * {
        auto it = dr.served.find(u);
        return it == dr.served.end() ? nullptr : &dr.docs[it->second];
    };
}

static void graph(Ctx &c) {
    Draft d;
    gen::Cfg cfg;
    refs::Canon cn;
    refs::Dressed dr;
    if (!makeCase(c, d, cfg, cn, dr)) c.discard();
    const Lib &lib = pickLib(c.s);
    auto docs = refs::documents(c.s, cfg, cn.doc);
    c.desc = std::string(draftName(d)) + " " + lib.name + " schema " + dr.text() + "\n  documents " + docsText(docs);
    std::vector<int> exp;
    for (auto &x : docs) exp.push_back(refs::reference(d, cn.doc, x));
    Web web(lib);
    web.serve = serverOf(dr);
    FetchCb cb = web.callbacks();
    valijson::Schema schema;
    {
        DocPtr main = lib.load(jdump(dr.docs[0]));
        try { lib.parseFetch(main.get(), d, schema, cb); }
        catch (std::exception &e) { web.finish(); c.fail(std::string("well-formed schema rejected: ") + e.what() + "; schema " + dr.text() + " history:" + web.log); }
    }
    web.finish();
    auto v = lib.validator({});
    bool f = false;
    for (size_t i = 0; i < docs.size(); i++) {
        if (exp[i] < 0) continue;
        bool got = validate(lib, *v, schema, docs[i]);
        if (got != (exp[i] == 1)) c.fail(std::string("verdict ") + word(got) + " but the schema the references designate gives " + word(exp[i]) + " for document " + jdump(docs[i]) + " schema " + dr.text() + " meaning " + jdump(cn.doc));
        f = f || !exp[i];
    }
    c.nontrivial = web.fetches > 0;
    c.label(web.fetches == 0 ? "no-fetch" : web.fetches == 1 ? "one-fetch" : "many-fetches");
    if (dr.served.size() > dr.docs.size() - 1 + (dr.served.count(dr.uris[0]) ? 1 : 0)) c.label("alias-uris");
    if (cn.recursive) c.label("recursive");
    if (dr.ids) c.label("ids");
    if (f) c.label("some-invalid");
}

static void faults(Ctx &c) {
    Draft d;
    gen::Cfg cfg;
    refs::Canon cn;
    refs::Dressed dr;
    if (!makeCase(c, d, cfg, cn, dr)) c.discard();
    const Lib &lib = pickLib(c.s);
    Web web(lib);
    web.serve = serverOf(dr);
    static const char *names[] = {"none", "null", "throw", "throw-odd", "scalar", "malformed", "empty-array"};
    // The first parse counts the fetches; every later one fails at another.
    {
        FetchCb cb = web.callbacks();
        valijson::Schema s;
        DocPtr main = lib.load(jdump(dr.docs[0]));
        try { lib.parseFetch(main.get(), d, s, cb); } catch (std::exception &) {}
        web.finish();
    }
    int total = web.fetches;
    c.desc = std::string(draftName(d)) + " " + lib.name + " " + std::to_string(total) + " fetches, a fault at each; schema " + dr.text();
    for (int k = 0; k < total; k++) for (int fl = Web::Null; fl <= Web::Empty; fl++) {
        Web w(lib);
        w.serve = serverOf(dr);
        w.fault = (Web::Fault)fl;
        w.faultAt = k;
        FetchCb cb = w.callbacks();
        bool threw = false, own = false;
        valijson::Schema s;
        DocPtr main = lib.load(jdump(dr.docs[0]));
        try { lib.parseFetch(main.get(), d, s, cb); }
        catch (Injected &) { threw = true; own = fl == Web::Throw; }
        catch (Odd &) { threw = true; own = fl == Web::ThrowOdd; }
        catch (std::exception &) { threw = true; }
        std::string what = std::string(" (fetch ") + std::to_string(k) + " " + names[fl] + ")";
        try { w.finish(); } catch (Fail &f) { c.fail(f.msg + what + " schema " + dr.text()); }
        if (w.faulted && !threw) c.fail("a schema was accepted although a document it needs could not be had" + what + "; schema " + dr.text());
        if (w.faulted && (fl == Web::Throw || fl == Web::ThrowOdd) && !own) c.fail("the exception of the fetch callback was replaced by another" + what);
        c.label(names[fl]);
    }
    // failures after good fetches: a corrupt keyword somewhere
    if (c.s.coin()) {
        refs::Dressed br = dr;
        size_t i = c.s.below(br.docs.size());
        J bad = J::obj({{"type", J(5)}});
        if (br.docs[i].isObj() && !br.docs[i].has("$ref")) {
            if (c.s.coin()) br.docs[i].set("allOf", J::arr({bad})); else { br.docs[i].erase("properties"); br.docs[i].set("properties", J::obj({{"zzz", bad}})); }
            Web w(lib);
            w.serve = serverOf(br);
            w.lenient = true; // the corruption may remove an identifier
            FetchCb cb = w.callbacks();
            valijson::Schema s;
            DocPtr main = lib.load(jdump(br.docs[0]));
            bool threw = false;
            try { lib.parseFetch(main.get(), d, s, cb); } catch (std::exception &) { threw = true; }
            w.finish();
            if (i == 0 && !threw && d != Draft::D3) c.fail("malformed schema accepted: " + br.text());
            c.label(threw ? "malformed-part" : "malformed-unreached");
        }
    }
    // without callbacks, or with one of them
    for (int m = 0; m < 3; m++) {
        Web w(lib);
        w.serve = serverOf(dr);
        FetchCb cb = w.callbacks();
        cb.haveFetch = m == 1;
        cb.haveFree = m == 2;
        valijson::Schema s;
        DocPtr main = lib.load(jdump(dr.docs[0]));
        bool threw = false;
        try { lib.parseFetch(main.get(), d, s, cb); } catch (std::exception &) { threw = true; }
        if (w.fetches || w.frees) c.fail("callbacks used although only one was given");
        if (m > 0 && !threw) c.fail("a call with only one of the two callbacks was not rejected");
        if (m == 0 && total > 0 && !threw) c.fail("a reference to another document was accepted without callbacks: " + dr.text());
        if (m == 0 && total == 0 && threw) c.fail("rejected without callbacks although no document is needed: " + dr.text());
    }
    c.nontrivial = total > 0;
    c.label(total == 0 ? "0 fetches" : total == 1 ? "1 fetch" : "2+ fetches");
}

int main(int argc, char **argv) {
    Check ck;
    ck.id = "C07";
    ck.rule = "A canonical single-document schema gives the meaning (reference validator); its definitions are moved into up to three other documents, with $id at random places and references written as any equivalent URI reference (relative, absolute, pointer, name), including references back and recursion across documents. "
              "The fetch callback serves exactly the designated URIs; history oracle: no URI fetched twice, no other URI requested, each document freed exactly once and destroyed at that moment (AddressSanitizer sees later use). "
              "'faults' repeats each graph with a fault (null, exception, scalar, malformed, array) at every fetch, a corrupt keyword in some document, and missing callbacks. Non-trivial: at least one fetch; distinct by case text.";
    ck.assumptions = {"unfolding of in-place references is finite", "the free callback does not throw"};
    ck.subs.push_back({"graph", 60000, 3000000, graph});
    ck.subs.push_back({"faults", 16000, 600000, faults});
    return runMain(argc, argv, ck);
}
