#include "common.hpp"
using namespace vc;
using valijson::ValidationResults;

static std::string show(const ValidationResults::Error &e) {
    std::string s;
    for (auto &x : e.context) s += x + "|";
    return s + " " + e.jsonPointer + " " + e.description;
}
static std::vector<std::string> list(const ValidationResults &r) {
    std::vector<std::string> v;
    for (auto &e : r) v.push_back(show(e));
    return v;
}
// -1: threw
static int run(IVal &v, const valijson::Schema &s, const void *d, ValidationResults *r) {
    try { return v.validate(s, d, r); } catch (std::exception &) { return -1; }
}
static void one(Ctx &c, const Lib &slib, const Lib &lib, VOpts vo) {
    Src &s = c.s;
    gen::Cfg cfg;
    cfg.draft = s.pick({Draft::D7, Draft::D7, Draft::D4, Draft::D3});
    bool ptree = !lib.strictTypes;
    J schema = gen::schema(s, cfg, s.range(0, 3));
    if (schema.isObj() && s.chance(1, 6)) schema.set("format", J(s.pick(std::vector<std::string>{"date", "time", "date-time", "ipv4"})));
    auto docs = documents(s, cfg, schema, 1, 4);
    c.desc = std::string(draftName(cfg.draft)) + (vo.weak ? " weak" : "") + " " + lib.name + " schema " + jdump(schema) + "  documents " + docsText(docs);
    Parsed p = mustParse(slib, cfg.draft, schema);
    auto v = lib.validator(vo);
    // a results object shared by the whole history, with errors of its own
    ValidationResults shared;
    std::vector<std::string> want;
    int pre = s.range(0, 2);
    for (int i = 0; i < pre; i++) {
        ValidationResults::Error e;
        e.context = {"<root>", "[\"x\"]"}; e.description = "earlier " + std::to_string(i); e.jsonPointer = "/x";
        shared.pushError(e);
        want.push_back(show(e));
    }
    bool t = false, f = false;
    for (auto &d : docs) {
        std::string dt = jdump(d);
        DocPtr dd = lib.load(ptree ? "{\"w\":" + dt + "}" : dt);
        if (!dd) { c.label("cannot-load"); continue; }
        std::string where = " for document " + dt + " against " + jdump(schema);
        int plain = run(*v, *p.schema, dd.get(), nullptr);
        ValidationResults fresh;
        int with = run(*v, *p.schema, dd.get(), &fresh);
        if (plain < 0 || with < 0) {
            if (!vo.weak) c.fail("validation threw" + where);
            // fail-fast may stop before the part that throws
            if (plain < 0 && with >= 0) c.fail("validation without results threw, with results it did not" + where);
            c.label("threw");
            c.fail("validation threw" + where);
        }
        if (plain != with) c.fail(std::string("verdict ") + word(plain) + " without results but " + word(with) + " with results" + where);
        auto L = list(fresh);
        if (L.size() != fresh.numErrors()) c.fail("numErrors() disagrees with iteration" + where);
        if (with && !L.empty()) c.fail("valid, yet errors were recorded: " + L[0] + where);
        if (!with && L.empty()) c.fail("invalid, yet no error was recorded" + where);
        int again = run(*v, *p.schema, dd.get(), &shared);
        if (again != with) c.fail("verdict changed with a results object that already held errors" + where);
        want.insert(want.end(), L.begin(), L.end());
        if (list(shared) != want) c.fail("results object holding errors did not get exactly the new errors appended" + where);
        // drain some from the front, between validations
        int take = s.range(0, 2);
        for (int i = 0; i < take; i++) {
            ValidationResults::Error e;
            bool got = shared.popError(e);
            if (got != !want.empty()) c.fail("popError() returned the wrong result" + where);
            if (!got) break;
            if (show(e) != want.front()) c.fail("popError() gave '" + show(e) + "' instead of '" + want.front() + "'" + where);
            want.erase(want.begin());
            if (shared.numErrors() != want.size()) c.fail("numErrors() after popError()" + where);
        }
        if (L.size() > 1) c.label("several-errors");
        (with ? t : f) = true;
    }
    ValidationResults::Error e;
    for (auto &w : want) if (!shared.popError(e) || show(e) != w) c.fail("draining gave errors out of order");
    if (shared.popError(e) || shared.numErrors() != 0) c.fail("popError() on an empty queue succeeded");
    if (t && f) c.label("both-verdicts");
    c.nontrivial = schema.isObj() && !schema.o.empty() && f;
}

int main(int argc, char **argv) {
    Check ck;
    ck.id = "C04";
    ck.rule = "Each generated (schema, document) pair is validated without results, with fresh results and with a results object that is reused and partly drained over the history; verdicts, error counts and order are compared. "
              "Non-trivial: the schema has a keyword and rejects at least one document.";
    VOpts strong, weak; weak.weak = true;
    ck.subs.push_back({"strong", 300000, 12000000, [=](Ctx &c) { one(c, libRapid(), libRapid(), strong); }});
    ck.subs.push_back({"weak", 200000, 8000000, [=](Ctx &c) { one(c, libRapid(), libRapid(), weak); }});
    ck.subs.push_back({"weak-untyped", 100000, 4000000, [=](Ctx &c) { one(c, libRapid(), libPtree(), weak); }});
    return runMain(argc, argv, ck);
}
