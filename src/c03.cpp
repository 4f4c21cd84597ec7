#include "common.hpp"
using namespace vc;

static const std::vector<const Lib *> &libs() {
    static const std::vector<const Lib *> v{&libRapid(), &libNlohmann(), &libJsonCpp(), &libPico(), &libBoostJson(), &libPoco(), &libQtJson(), &libQVariant(), &libRapidCrt()};
    return v;
}
// Other spellings of numbers, and integers beyond int64_t.
static void respell(Src &s, J &j) {
    if (j.t == J::Arr) { for (auto &x : j.a) respell(s, x); return; }
    if (j.t == J::Obj) { for (auto &p : j.o) respell(s, p.second); return; }
    if (!j.isNum() || !s.chance(1, 12)) return;
    if (j.t == J::Int && std::abs(j.i) < 1000000) {
        switch (s.below(4)) {
        case 0: j = J::raw(std::to_string(j.i) + ".0"); return;
        case 1: j = J::raw(std::to_string(j.i) + "e0"); return;
        case 2: j = J::raw(std::to_string(j.i) + "0E-1"); return;
        default: if (j.i) j = J::raw(std::to_string(j.i) + "E+2"); return;
        }
    }
    j = J::raw(s.pick({"9223372036854775808", "18446744073709549568", "9223372036854775807", "-9223372036854775808", "18446744073709551616", "123456789012345678901234567890", "-9223372036854777856", "1e18", "9.0", "1.0e2"}));
    if (j.s == "9223372036854775807") j = J(9.0); // not a double
}
// The Poco parser wraps plain integers that fit neither int64_t nor uint64_t and cuts names at NUL.
static bool representable(const Lib &l, const std::string &text) {
    return &l != &libPoco() || (text.find("18446744073709551616") == text.npos && text.find("123456789012345678901234567890") == text.npos && text.find("-9223372036854777856") == text.npos && text.find("\\u0000") == text.npos);
}
static void corrupt(Src &s, const gen::Cfg &cfg, J &j, int depth) {
    if (j.isObj() && !j.o.empty()) {
        size_t k = s.below(j.o.size());
        if (depth > 0 && (j.o[k].second.isObj() || j.o[k].second.isArr()) && s.chance(1, 2)) corrupt(s, cfg, j.o[k].second, depth - 1);
        else j.o[k].second = gen::value(s, cfg, 1);
    } else if (j.isArr() && !j.a.empty()) {
        size_t k = s.below(j.a.size());
        if (depth > 0 && s.coin()) corrupt(s, cfg, j.a[k], depth - 1); else j.a[k] = gen::value(s, cfg, 1);
    }
}

static const char *w3(int v) { return v == 2 ? "an exception" : word(v); }
static void one(Ctx &c, bool bad) {
    Src &s = c.s;
    gen::Cfg cfg;
    cfg.draft = s.pick({Draft::D7, Draft::D7, Draft::D4, Draft::D3});
    J schema = gen::schema(s, cfg, s.range(0, 2));
    auto docs = documents(s, cfg, schema, 1, 2);
    if (bad) corrupt(s, cfg, schema, 4);
    else { respell(s, schema); for (auto &d : docs) respell(s, d); }
    c.desc = std::string(draftName(cfg.draft)) + " schema " + jdump(schema) + "  documents " + docsText(docs);
    std::vector<Parsed> ps;
    std::vector<const Lib *> use;
    std::string text = jdump(schema);
    for (auto *l : libs()) {
        if (!representable(*l, text) || !l->load(text)) { c.label(std::string("cannot-load:") + l->name); continue; }
        ps.push_back(tryParse(*l, cfg.draft, schema));
        use.push_back(l);
        if ((bool)ps[0] != (bool)ps.back()) c.fail(std::string("schema ") + (ps[0] ? "accepted" : "rejected") + " through " + use[0]->name + " but " + (ps[0] ? "rejected: " + ps.back().error : "accepted") + " through " + l->name + ": " + text);
    }
    if (!ps[0]) { c.label("rejected"); c.nontrivial = true; return; }
    bool t = false, f = false;
    for (auto &d : docs) {
        std::string dt = jdump(d);
        int ref = 0; bool first = true;
        for (size_t k = 0; k < use.size(); k++) {
            DocPtr dd = representable(*use[k], dt) ? use[k]->load(dt) : nullptr;
            if (!dd) { c.label(std::string("cannot-load:") + use[k]->name); continue; }
            auto v = use[k]->validator({});
            for (size_t q = 0; q < ps.size(); q++) {
                if (!first && q != 0 && q != k && !s.chance(1, 4)) continue;
                int got;
                try { got = v->validate(*ps[q].schema, dd.get(), nullptr); }
                catch (std::exception &e) { got = 2; if (!bad) c.fail(std::string("validation of a ") + use[k]->name + " document threw '" + e.what() + "': document " + dt + " schema " + text); }
                if (first) { ref = got; first = false; }
                if (got != ref) c.fail(std::string("document held by ") + use[k]->name + ", schema by " + use[q]->name + ": " + w3(got) + ", but " + w3(ref) + " when both are held by " + use[0]->name + ": document " + dt + " schema " + text);
            }
        }
        (ref == 1 ? t : f) = true;
    }
    if (t && f) c.label("both-verdicts");
    c.nontrivial = !schema.isObj() ? false : !schema.o.empty();
}

int main(int argc, char **argv) {
    Check ck;
    ck.id = "C03";
    ck.rule = "Every schema is parsed from, and every document held in, each of nine library configurations; the verdicts of library pairs must all be equal. 'accept' corrupts one value of the schema and compares acceptance. "
              "Numbers are respelled (1.0, 10E-1, integers beyond int64). Non-trivial: the schema has a keyword.";
    ck.assumptions = {"numbers exactly representable as doubles", "unique keys", "valid UTF-8"};
    ck.subs.push_back({"pairs", 100000, 2000000, [](Ctx &c) { one(c, false); }});
    ck.subs.push_back({"accept", 80000, 1500000, [](Ctx &c) { one(c, true); }});
    return runMain(argc, argv, ck);
}
