// C06: local references mean the schema they point at.
#include "refs.hpp"
using namespace pbt;
using namespace vc;

static gen::Cfg cfgFor(Draft d) {
    gen::Cfg c;
    c.draft = d;
    c.oddKeyPct = 25;
    c.maxDepth = 2;
    c.nul = false;
    c.bigNumbers = false;
    return c;
}
static void judge(Ctx &c, Draft d, const refs::Canon &cn, const refs::Dressed &dr, const gen::Cfg &cfg) {
    auto docs = refs::documents(c.s, cfg, cn.doc);
    c.desc = std::string(draftName(d)) + " schema " + dr.text() + "\n  documents " + docsText(docs);
    std::vector<int> exp;
    for (auto &x : docs) exp.push_back(refs::reference(d, cn.doc, x));
    Parsed p = mustParse(libRapid(), d, dr.docs[0]);
    auto v = libRapid().validator({});
    bool f = false;
    for (size_t i = 0; i < docs.size(); i++) {
        if (exp[i] < 0) continue;
        bool got = validate(libRapid(), *v, *p.schema, docs[i]);
        if (got != (exp[i] == 1)) c.fail(std::string("verdict ") + word(got) + " but the schema the references designate gives " + word(exp[i]) + " for document " + jdump(docs[i]) + " schema " + dr.text() + " meaning " + jdump(cn.doc));
        f = f || !exp[i];
    }
    c.nontrivial = cn.nrefs >= 1;
    if (cn.recursive) c.label("recursive");
    if (cn.chain) c.label("chain");
    if (dr.ids) c.label("ids");
    if (dr.names) c.label("names");
    if (f) c.label("some-invalid");
    if (cn.doc.has("$ref")) c.label("root-ref");
}
static void dressed(Ctx &c, bool ids) {
    static const Draft ds[] = {Draft::D7, Draft::D4, Draft::D3};
    Draft d = ds[c.s.weighted({5, 2, 1})];
    gen::Cfg cfg = cfgFor(d);
    refs::Canon cn = refs::canon(c.s, cfg);
    refs::DressCfg dc;
    dc.draft = d;
    dc.ids = ids;
    dc.decoys = ids;
    refs::Dressed dr;
    if (!refs::dress(c.s, cn, dc, dr)) c.discard();
    judge(c, d, cn, dr, cfg);
}
// One reference of an otherwise good schema goes nowhere.
static void dangling(Ctx &c) {
    Src &s = c.s;
    Draft d = s.coin() ? Draft::D4 : Draft::D7;
    gen::Cfg cfg = cfgFor(d);
    refs::Canon cn = refs::canon(s, cfg, 3, false);
    J root = cn.doc;
    std::string ptr;
    switch (s.weighted({4, 3, 3, 2, 2})) {
    case 0: { // mutate a good pointer
        ptr = s.pick(cn.defs);
        int n = s.range(1, 2);
        for (int i = 0; i < n; i++) switch (s.below(6)) {
        case 0: ptr += "/" + s.pick(gen::plainKeys()); break;
        case 1: ptr += "/" + std::to_string(s.below(4)); break;
        case 2: if (!ptr.empty()) ptr.pop_back(); break;
        case 3: ptr += "/-"; break;
        case 4: if (!ptr.empty()) ptr.insert(s.below(ptr.size() + 1), s.pick(std::vector<std::string>{"x", "~", "~2", "0", "%", "%2", "%zz", "%4", "+", " "})); break;
        default: ptr += "/"; break;
        }
        break;
    }
    case 1: ptr = "/definitions/" + s.pick(gen::oddKeys()) + "/nope"; break;
    case 2: ptr = "/list/" + s.pick(std::vector<std::string>{"0", "00", "01", "+0", "-1", "0x0", "1e0", " 0", "0 ", "", "99", "4294967296", "18446744073709551616", "0.0", "-"}); break;
    case 3: ptr = s.pick(std::vector<std::string>{"/properties", "/allOf", "/list", "/x%zz", "/%", "/definitions/%+1", "/definitions/%0x", "noname", "no/name"}); break;
    default: { // a value that is no schema
        root.set("v", J::obj({{"n", gen::scalar(s, cfg)}, {"a", J::arr({J(1)})}}));
        ptr = s.coin() ? "/v/n" : s.coin() ? "/v/a" : "/v/a/0";
    }
    }
    bool bad;
    {
        // independent meaning of the fragment
        bool malformed = false;
        std::string dec;
        for (size_t i = 0; i < ptr.size(); i++) {
            if (ptr[i] == '%') {
                if (i + 2 < ptr.size() && isxdigit((unsigned char)ptr[i + 1]) && isxdigit((unsigned char)ptr[i + 2])) {
                    dec += (char)strtol(ptr.substr(i + 1, 2).c_str(), nullptr, 16);
                    i += 2;
                } else { malformed = true; break; }
            } else dec += ptr[i];
        }
        const J *t = malformed ? nullptr : RefVal::pointer(root, dec, false);
        bad = !t || !(t->isObj() || (d == Draft::D7 && t->t == J::Bool));
        if (ptr == "/") bad = false; // documented: denotes the root
        // strings the library's weak casts take for booleans
        if (t && t->isStr()) bad = d == Draft::D7 ? !(t->s == "true" || t->s == "false") : true;
        // '~' not followed by 0 or 1 has no defined meaning
        for (size_t i = 0; i < dec.size(); i++) if (dec[i] == '~' && (i + 1 >= dec.size() || (dec[i + 1] != '0' && dec[i + 1] != '1'))) c.discard();
        if (t && t->isObj() && t->o.empty()) bad = false;
    }
    J use = J::obj({{"$ref", J("#" + ptr)}});
    switch (s.below(4)) {
    case 0: root.set("properties", J::obj({{"zz", use}})); break;
    case 1: root.set("allOf", J::arr({use})); break;
    case 2: root.set("definitions2", J::obj({{"q", use}})); root.set("not", J::obj({{"$ref", J("#/definitions2/q")}})); break;
    default: root.set("items", use); root.erase("additionalItems"); break;
    }
    // replacing keywords above may have changed what the pointer means
    if (RefVal::pointer(root, ptr, true) != nullptr && bad) {
        const J *t = RefVal::pointer(root, ptr, true);
        if (t->isObj() || (d == Draft::D7 && t->t == J::Bool)) c.discard();
    }
    if (!bad) { c.label("resolves"); c.key = jdump(root); return; }
    c.desc = std::string(draftName(d)) + " schema " + jdump(root) + " with a reference to a missing or unusable location: #" + ptr;
    Parsed p = tryParse(libRapid(), d, root);
    c.require(!p, "a reference to a missing or unusable location was accepted: #" + ptr + " in schema " + jdump(root));
    c.nontrivial = true;
    c.label("rejected");
}
// References that only lead to each other.
static void cycles(Ctx &c) {
    Src &s = c.s;
    int n = s.range(1, 4);
    J defs = J::obj();
    std::vector<std::string> nm;
    for (int i = 0; i < n; i++) { std::string k = s.pick(gen::oddKeys()); bool dup = false; for (auto &x : nm) dup = dup || x == k; nm.push_back(dup ? k + std::to_string(i) : k); }
    for (int i = 0; i < n; i++) defs.set(nm[i], J::obj({{"$ref", J("#/definitions/" + refs::spellPtr(s, ptrEsc(nm[(i + 1) % n])))}}));
    J root = J::obj({{"definitions", defs}});
    J use = J::obj({{"$ref", J("#/definitions/" + refs::spellPtr(s, ptrEsc(s.pick(nm))))}});
    switch (s.below(4)) {
    case 0: root.set("properties", J::obj({{"a", use}})); break;
    case 1: root.set("anyOf", J::arr({J::obj(), use})); break;
    case 2: root.set("items", J::arr({use})); break;
    default: root.set("not", use); break;
    }
    if (s.coin()) root.o.insert(root.o.begin(), {"$id", J("http://h.example/x.json")});
    c.desc = "schema " + jdump(root) + " whose references only lead to each other";
    Parsed p = tryParse(libRapid(), Draft::D7, root);
    c.require(!p, "a reference cycle without any schema was accepted: " + jdump(root));
    c.nontrivial = n >= 1;
}

// Draft 3's boolean 'required' belongs to every property whose schema says it,
// directly or through references, whatever has been parsed before.
static void required3(Ctx &c) {
    Src &s = c.s;
    static const std::vector<std::string> keys{"a", "b", "c", "d"};
    int nd = s.range(0, 3);
    std::vector<std::string> targets{"#"};
    for (int i = 0; i < nd; i++) targets.push_back("#/definitions/d" + std::to_string(i));
    for (auto &k : keys) targets.push_back("#/properties/" + k);
    std::function<J(int)> node = [&](int depth) {
        if (s.chance(1, 3)) return J::obj({{"$ref", J(s.pick(targets))}});
        J o = J::obj();
        auto rq = [&] { if (s.coin()) o.set("required", J(!s.chance(1, 4))); };
        bool first = s.coin();
        if (first) rq();
        if (s.chance(1, 4)) o.set("type", J(s.pick({"object", "any", "integer"})));
        if (depth > 0 && s.chance(2, 3)) { J p = J::obj(); int n = s.range(1, 3); for (int i = 0; i < n; i++) p.set(s.pick(keys), node(depth - 1)); o.set("properties", p); }
        if (!first) rq();
        return o;
    };
    J props = J::obj(), defs = J::obj();
    for (int i = 0; i < nd; i++) defs.set("d" + std::to_string(i), node(2));
    std::vector<std::string> order = keys;
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[i - 1 - s.below(i)]);
    for (auto &k : order) props.set(k, node(2));
    J root = J::obj({{"definitions", defs}, {"properties", props}});
    if (s.coin()) std::reverse(root.o.begin(), root.o.end());
    // no chain of references without an end
    std::function<bool(const J &)> ends = [&](const J &j) {
        const J *p = &j;
        for (int hops = 0; p && p->isObj() && p->has("$ref"); hops++) { if (hops > 20) return false; p = RefVal::pointer(root, p->get("$ref")->s.substr(1), true); }
        if (!p) return false;
        for (auto &m : j.o) if (m.first == "properties" || m.first == "definitions") for (auto &x : m.second.o) if (!ends(x.second)) return false;
        return true;
    };
    if (!ends(root)) c.discard();
    std::function<J(int)> doc = [&](int depth) { if (depth == 0 || s.chance(1, 6)) return J((int)s.range(0, 3)); J o = J::obj(); for (auto &k : keys) if (s.chance(2, 3)) o.set(k, doc(depth - 1)); return o; };
    Parsed p = mustParse(libRapid(), Draft::D3, root);
    auto v = libRapid().validator({});
    c.desc = "draft3 schema " + jdump(root);
    bool t = false, f = false;
    for (int i = 0; i < 6; i++) {
        J d = doc(3);
        int exp = reference(Draft::D3, root, d);
        if (exp < 0) continue;
        bool got = validate(libRapid(), *v, *p.schema, d);
        if (got != (bool)exp) c.fail(std::string("verdict ") + word(got) + " but draft 3 says " + word(exp) + " for " + jdump(d) + " against " + jdump(root));
        (exp ? t : f) = true;
    }
    if (t && f) c.label("both-verdicts");
    c.nontrivial = f;
}

int main(int argc, char **argv) {
    Check ck;
    ck.id = "C06";
    ck.rule = "A canonical schema whose references are plain pointers into itself (definitions in several kinds of containers, references between any subschemas, chains, recursion) gives the meaning through the reference validator; "
              "the library gets the same schema with pointers respelled (percent-encoding), ignored siblings added beside $ref, and in 'ids' also $id/id and location-independent names with references written as equivalent URI references. "
              "'dangling' and 'cycles' are schemas whose references designate nothing and must be rejected. Non-trivial: at least one reference is resolved; distinct by case text.";
    ck.assumptions = {"unfolding of in-place references is finite", "'~' in a pointer is always followed by 0 or 1", "'#/' denotes the root, as the library documents"};
    ck.subs.push_back({"pointers", 300000, 6000000, [](Ctx &c) { dressed(c, false); }});
    ck.subs.push_back({"ids", 300000, 6000000, [](Ctx &c) { dressed(c, true); }});
    ck.subs.push_back({"dangling", 100000, 2000000, dangling});
    ck.subs.push_back({"draft3-required", 60000, 1000000, required3});
    ck.subs.push_back({"cycles", 10000, 200000, cycles});
    ck.known["root-ref-cycle"] = [] {
        Parsed p = tryParse(libRapid(), Draft::D7, jparse("{\"$ref\":\"#/foo\",\"foo\":{\"$ref\":\"#/bar\"},\"bar\":{\"$ref\":\"#/foo\"}}"));
        if (p) throw Fail{"a root-level reference cycle was accepted"};
    };
    return runMain(argc, argv, ck);
}
