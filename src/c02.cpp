#include "common.hpp"
using namespace vc;

static void one(Ctx &c, const Lib &lib, const gen::Cfg &cfg) {
    Src &s = c.s;
    J schema = gen::schema(s, cfg, s.range(0, cfg.maxDepth));
    auto docs = documents(s, cfg, schema, 1, 4);
    c.desc = std::string(draftName(cfg.draft)) + " schema " + jdump(schema) + "  documents " + docsText(docs);
    Parsed p = mustParse(lib, cfg.draft, schema);
    auto v = lib.validator({});
    bool t = false, f = false;
    for (auto &d : docs) {
        int exp = reference(cfg.draft, schema, d);
        if (exp < 0) { c.label("ambiguous"); continue; }
        bool got = validate(lib, *v, *p.schema, d);
        if (got != (bool)exp) c.fail(std::string("verdict ") + word(got) + " but " + draftName(cfg.draft) + " says " + word(exp) + " for document " + jdump(d) + " against " + jdump(schema));
        (exp ? t : f) = true;
    }
    if (t && f) c.label("both-verdicts");
    for (auto &k : schema.o) c.label("kw:" + k.first);
    c.nontrivial = !schema.o.empty() && (f || gen::depthOf(schema) >= 2);
}

// A form of another draft must be rejected or ignored.
static void foreign(Ctx &c, const Lib &lib) {
    Src &s = c.s;
    gen::Cfg cfg;
    cfg.draft = s.pick({Draft::D3, Draft::D4, Draft::D7});
    cfg.maxDepth = 1;
    J base = gen::schema(s, cfg, s.range(0, 1));
    if (!base.isObj()) base = J::obj();
    bool d3 = cfg.draft == Draft::D3, d7 = cfg.draft == Draft::D7;
    struct Form { std::string key; J val; bool mustReject; };
    std::vector<Form> forms;
    for (const char *k : {"Minimum", "Maximum"}) {
        std::string ex = std::string("exclusive") + k;
        if (d7) { forms.push_back({ex, J(true), true}); forms.push_back({ex, J(false), true}); }
        else forms.push_back({ex, gen::num(s, cfg), false});
    }
    if (d3) { forms.push_back({"multipleOf", J((int)s.range(2, 5)), false}); forms.push_back({"required", J::arr({J("a")}), false}); }
    else {
        forms.push_back({"divisibleBy", J((int)s.range(2, 5)), false});
        forms.push_back({"required", J(true), false});
        forms.push_back({"extends", J::obj({{"type", "string"}}), false});
        forms.push_back({"dependencies", J::obj({{"a", J("b")}}), false});
        forms.push_back({"type", J("any"), false});
        forms.push_back({"type", J::arr({J::obj({{"maximum", J(3)}})}), false});
    }
    if (!d7) { forms.push_back({"not", J(false), false}); forms.push_back({"items", J(false), false}); }
    Form f = s.pick(forms);
    bool withBound = s.coin();
    J schema = base;
    for (const char *k : {"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"}) schema.erase(k);
    if (withBound) { schema.set("minimum", J((int)s.range(-2, 5))); schema.set("maximum", J((int)s.range(3, 9))); }
    J without = schema;
    without.erase(f.key);
    schema = without;
    if (s.coin()) schema.set(f.key, f.val); else schema.o.insert(schema.o.begin(), {f.key, f.val});
    bool nested = s.coin();
    if (nested) { schema = J::obj({{"properties", J::obj({{"a", schema}})}}); without = J::obj({{"properties", J::obj({{"a", without}})}}); }
    c.desc = std::string(draftName(cfg.draft)) + " " + jdump(schema);
    c.label(std::string(draftName(cfg.draft)) + ":" + f.key);
    c.nontrivial = true;
    if (d3 && f.key == "required" && nested) { /* an array is no boolean: must be rejected or ignored all the same */ }
    Parsed p = tryParse(lib, cfg.draft, schema);
    if (!p) { c.label("rejected"); return; }
    c.label("accepted");
    if (f.mustReject) c.fail("boolean " + f.key + " accepted in draft 7: " + jdump(schema));
    auto v = lib.validator({});
    for (int i = 0; i < 4; i++) {
        gen::InstGen g(s, cfg, without);
        J d = i == 0 && nested ? J::obj({{"a", J((int)s.range(-3, 12))}}) : i == 0 ? J((int)s.range(-3, 12)) : g.gen(&without, 3);
        int exp = reference(cfg.draft, without, d);
        if (exp < 0) continue;
        bool got = validate(lib, *v, *p.schema, d);
        if (got != (bool)exp) c.fail("form of another draft was not ignored: verdict " + std::string(word(got)) + " for document " + jdump(d) + " against " + jdump(schema) + " in " + draftName(cfg.draft));
    }
}

int main(int argc, char **argv) {
    Check ck;
    ck.id = "C02";
    ck.rule = "Schemas from a Draft 3 / Draft 4 grammar (boolean exclusive bounds, divisibleBy, extends, boolean required, string dependencies, type unions with schemas) with boundary-biased documents, compared with an independent "
              "reference validator of that draft; 'foreign' plants one keyword form of another draft and demands rejection or no effect. Non-trivial: the schema has a keyword and nests or rejects a document.";
    ck.assumptions = {"Draft 3 'required' only in property schemas", "numbers exactly representable or with at most 15 significant decimal digits"};
    gen::Cfg d4; d4.draft = Draft::D4;
    gen::Cfg d3; d3.draft = Draft::D3;
    gen::Cfg d4f = d4; d4f.maxDepth = 1;
    gen::Cfg d3f = d3; d3f.maxDepth = 1;
    ck.subs.push_back({"draft4-flat", 300000, 10000000, [=](Ctx &c) { one(c, libRapid(), d4f); }});
    ck.subs.push_back({"draft4", 450000, 15000000, [=](Ctx &c) { one(c, libRapid(), d4); }});
    ck.subs.push_back({"draft3-flat", 300000, 10000000, [=](Ctx &c) { one(c, libRapid(), d3f); }});
    ck.subs.push_back({"draft3", 450000, 15000000, [=](Ctx &c) { one(c, libRapid(), d3); }});
    ck.subs.push_back({"foreign", 150000, 4000000, [=](Ctx &c) { foreign(c, libRapid()); }});
    return runMain(argc, argv, ck);
}
