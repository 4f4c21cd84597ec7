// C10: every adapter presents its JSON document faithfully.
#include "ad.hpp"
#include "common.hpp"
using namespace pbt;
using namespace vc;

static const std::vector<const AdLib *> &libs() {
    static const std::vector<const AdLib *> l{&adRapid(), &adRapidCrt(), &adNlohmann(), &adJsonCpp(), &adPico(), &adBoostJson(), &adPoco(), &adQtJson(), &adQVariant(), &adPtree(), &adYaml()};
    return l;
}
static gen::Cfg cfg() {
    gen::Cfg c;
    c.oddKeyPct = 40;
    return c;
}
static J bigger(Src &s, const gen::Cfg &c) {
    switch (s.weighted({8, 1, 1})) {
    case 0: return gen::value(s, c, s.range(0, 3));
    case 1: { J a = J::arr(); int n = s.range(5, 24); for (int i = 0; i < n; i++) a.push(gen::value(s, c, s.chance(1, 6) ? 1 : 0)); return a; }
    default: {
        J o = J::obj();
        int n = s.range(5, 24);
        for (int i = 0; i < n; i++) o.set(s.chance(1, 3) ? gen::key(s, c) : gen::key(s, c) + std::to_string(s.below(60)), gen::value(s, c, s.chance(1, 6) ? 1 : 0));
        return o;
    }
    }
}
// Numbers at the edges of the storage types.
static void edgy(Src &s, J &j) {
    for (auto &x : j.a) edgy(s, x);
    for (auto &p : j.o) edgy(s, p.second);
    if (!j.isNum() || !s.chance(1, 3)) return;
    static const std::vector<long long> e{127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 9007199254740991LL, 9007199254740992LL};
    long long v = s.pick(e);
    j = s.coin() ? J(v) : J(-v);
    if (s.chance(1, 5)) j = J(s.pick(std::vector<double>{9223372036854775808.0, 18446744073709549568.0, 4611686018427387904.0, -9223372036854775808.0, 1e30, 0.1, -0.0, 3.4028234663852886e38, 1e-30}));
}
// what a loosely typed library holds for a document
static J asTree(const J &j) {
    switch (j.t) {
    case J::Str: return j.s.empty() ? J::arr() : j;
    case J::Arr: { J r = J::arr(); for (auto &x : j.a) r.push(asTree(x)); return r; }
    case J::Obj: { if (j.o.empty()) return J::arr(); J r = J::obj(); for (auto &p : j.o) r.o.emplace_back(p.first, asTree(p.second)); return r; }
    default: return J(jdump(j));
    }
}
static J asYaml(const J &j) {
    switch (j.t) {
    case J::Null: case J::Str: return j;
    case J::Arr: { J r = J::arr(); for (auto &x : j.a) r.push(asYaml(x)); return r; }
    case J::Obj: { J r = J::obj(); for (auto &p : j.o) r.o.emplace_back(p.first, asYaml(p.second)); return r; }
    default: return J(jdump(j));
    }
}
static bool anyName(const J &j, const std::function<bool(const std::string &)> &f) {
    for (auto &x : j.a) if (anyName(x, f)) return true;
    for (auto &p : j.o) if (f(p.first) || anyName(p.second, f)) return true;
    return false;
}
static bool anyString(const J &j, const std::function<bool(const std::string &)> &f) {
    if (j.isStr() && f(j.s)) return true;
    for (auto &x : j.a) if (anyString(x, f)) return true;
    for (auto &p : j.o) if (f(p.first) || anyString(p.second, f)) return true;
    return false;
}
static void whole(Ctx &c, bool native) {
    Src &s = c.s;
    gen::Cfg g = cfg();
    const AdLib &lib = *s.pick(libs());
    if (lib.name == std::string("yaml")) { g.nul = false; g.controls = false; }
    J v = bigger(s, g);
    edgy(s, v);
    std::string text = jdump(v), name = lib.name;
    c.desc = name + (native ? " built " : " loaded ") + text;
    c.key = c.desc;
    DocPtr d;
    J want = v;
    if (native && lib.strictTypes) d = lib.build(v, s);
    else {
        d = lib.load(text);
        if (!d) c.discard();
        if (name == "ptree") {
            if (anyName(v, [](const std::string &k) { return k.empty(); })) c.discard(); // an array, to a property tree
            want = asTree(v);
        } else if (name == "yaml") want = asYaml(v);
        else if (name == "poco" && anyName(v, [](const std::string &k) { return k.find('\0') != k.npos; })) c.discard(); // cut by the Poco parser
    }
    c.nontrivial = !v.a.empty() || !v.o.empty() || v.isNum() || v.isStr();
    c.label(name);
    lib.probe(d.get(), want, s);
    std::unique_ptr<AnyAdapter> any = lib.make(d.get());
    J got = adToJ(*any);
    if (!jeq(got, want)) c.fail(name + " presents " + jdump(got));
    // the virtual interface counts the same, and a default adapter is an empty object
    std::unique_ptr<AnyAdapter> blank = lib.blank();
    J empty = adToJ(*blank);
    if (!(empty.isObj() || (!lib.strictTypes && empty.isArr())) || !empty.o.empty()) c.fail(name + ": a default-constructed adapter presents " + jdump(empty));
    lib.probe(d.get(), want, s); // unchanged by being looked at
}
int main(int argc, char **argv) {
    Check ck;
    ck.id = "C10";
    ck.rule = "Random JSON values (all types, odd names, numbers at the edges of the storage types, wide arrays and objects), either loaded from text by the library or built through the library's own interface with a random choice of its storage types (int, unsigned, 64-bit, float, borrowed strings, ...); "
              "every accessor, iterator operation (walks of random steps, advance by any in-range distance, post-increment, begin/end comparison), lookup of every existing name and of near misses, and early-stopped applyTo* is compared with the generated value, recursively. Non-trivial: a container with elements, a number or a string; distinct by library and document.";
    ck.assumptions = {"names with NUL are not loaded through the Poco text parser, which cuts them", "property trees: empty name = array, empty container = empty array, scalars are text; YAML: scalars are text", "isInteger/isDouble of an integral number stored as floating point is left open", "iterators without operator-- (object members of PicoJSON, YAML) are only walked forward"};
    ck.subs.push_back({"loaded", 45000, 1500000, [](Ctx &c) { whole(c, false); }});
    ck.subs.push_back({"built", 45000, 1500000, [](Ctx &c) { whole(c, true); }});
    return runMain(argc, argv, ck);
}
