#include "gen.hpp"
#include "glue.hpp"
using namespace pbt;

static void one(Ctx &c, const Lib &lib, const gen::Cfg &cfg) {
    Src &s = c.s;
    J schema = gen::schema(s, cfg, s.range(0, cfg.maxDepth));
    std::string st = jdump(schema);
    int n = s.range(1, 4);
    std::vector<J> insts;
    for (int i = 0; i < n; i++) { gen::InstGen g(s, cfg, schema); insts.push_back(g.gen(&schema, 3)); }
    std::string it;
    for (auto &i : insts) it += jdump(i) + "  ";
    c.desc = "schema " + st + "  documents " + it;
    valijson::Schema sch;
    DocPtr sd = lib.load(st);
    c.require(sd != nullptr, "harness: library rejected schema text");
    try { lib.parse(sd.get(), cfg.draft, sch); }
    catch (std::exception &e) { c.fail(std::string("well-formed schema rejected: ") + e.what() + " schema " + st); }
    bool sawT = false, sawF = false;
    auto val = lib.validator({});
    for (auto &i : insts) {
        RefVal rv(cfg.draft, schema);
        bool exp;
        try { exp = rv.valid(schema, i); } catch (RefVal::TooDeep &) { c.discard(); }
        catch (Ambiguous &) { c.label("ambiguous-multipleOf"); continue; }
        DocPtr d = lib.load(jdump(i));
        c.require(d != nullptr, "harness: library rejected document text " + jdump(i));
        bool got;
        try { got = val->validate(sch, d.get(), nullptr); }
        catch (std::exception &e) { c.fail(std::string("validation threw ") + e.what() + " for document " + jdump(i) + " schema " + st); }
        if (got != exp) c.fail(std::string("verdict ") + (got ? "valid" : "invalid") + " but specification says " + (exp ? "valid" : "invalid") + " for document " + jdump(i) + " against schema " + st);
        (exp ? sawT : sawF) = true;
    }
    if (sawT && sawF) c.label("both-verdicts");
    c.label(sawT ? "some-valid" : "all-invalid");
    int kw = schema.isObj() ? (int)schema.o.size() : 0;
    c.nontrivial = kw >= 1 && (sawF || gen::depthOf(schema) >= 2);
    for (auto &p : schema.o) c.label("kw:" + p.first);
}

int main(int argc, char **argv) {
    Check ck;
    ck.id = "C01";
    ck.rule = "Schema drawn from a Draft 7 grammar over all validation keywords (nesting up to 4), documents drawn from a generator biased to the schema's boundaries; "
              "the verdict is compared with an independent reference validator. Non-trivial: the root schema has a keyword and either nests or some document is invalid; distinct by schema and documents text.";
    ck.assumptions = {"numbers exactly representable as IEEE doubles", "regular expressions from a subset on which ECMAScript and byte-wise matching agree", "documents up to depth ~5"};
    gen::Cfg base;
    gen::Cfg flat = base;
    flat.maxDepth = 1;
    gen::Cfg deep = base;
    deep.maxDepth = 4;
    ck.subs.push_back({"flat", 900000, 30000000, [=](Ctx &c) { one(c, libRapid(), flat); }});
    ck.subs.push_back({"nested", 900000, 40000000, [=](Ctx &c) { one(c, libRapid(), deep); }});
    return runMain(argc, argv, ck);
}
