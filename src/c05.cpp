#include "common.hpp"
using namespace vc;
using valijson::ValidationResults;

// location -> legacy context, for every location of a document
static void walk(const J &d, const std::string &loc, const std::vector<std::string> &ctx, std::map<std::string, std::vector<std::string>> &out) {
    out[loc] = ctx;
    auto add = [&](const std::string &seg) { auto v = ctx; v.push_back(seg); return v; };
    if (d.isArr()) for (size_t i = 0; i < d.a.size(); i++) walk(d.a[i], loc + "/" + std::to_string(i), add("[" + std::to_string(i) + "]"), out);
    if (d.isObj()) for (auto &p : d.o) walk(p.second, loc + "/" + ptrEsc(p.first), add("[\"" + p.first + "\"]"), out);
}
static void one(Ctx &c, gen::Cfg cfg) {
    Src &s = c.s;
    cfg.draft = cfg.extra ? s.pick({Draft::D7, Draft::D4}) : s.pick({Draft::D7, Draft::D7, Draft::D4, Draft::D3});
    cfg.oddKeyPct = 40;
    J schema = gen::schema(s, cfg, s.range(0, cfg.maxDepth));
    auto docs = documents(s, cfg, schema, 1, 3);
    c.desc = std::string(draftName(cfg.draft)) + " schema " + jdump(schema) + "  documents " + docsText(docs);
    Parsed p = mustParse(libRapid(), cfg.draft, schema);
    auto v = libRapid().validator({});
    for (auto &d : docs) {
        RefVal r(cfg.draft, schema);
        r.track = true;
        bool exp;
        try { exp = r.valid(schema, d); } catch (Ambiguous &) { continue; } catch (RefVal::TooDeep &) { continue; }
        ValidationResults res;
        bool got = validate(libRapid(), *v, *p.schema, d, &res);
        std::string where = " for document " + jdump(d) + " against " + jdump(schema);
        if (got != exp) { c.label("verdict-differs"); continue; } // C01's business
        std::map<std::string, std::vector<std::string>> locs;
        walk(d, "", {"<root>"}, locs);
        std::set<std::string> seen;
        for (auto &e : res) {
            auto it = locs.find(e.jsonPointer);
            std::string ctx;
            for (auto &x : e.context) ctx += x + " ";
            if (it == locs.end()) c.fail("error at '" + e.jsonPointer + "' (" + e.description + "), which is no location of the document," + where);
            if (it->second != e.context) c.fail("error at '" + e.jsonPointer + "' carries context " + ctx + " (" + e.description + ")" + where);
            if (!r.failing.count(e.jsonPointer)) c.fail("error at '" + e.jsonPointer + "' (" + e.description + "), where no applied schema fails," + where);
            seen.insert(e.jsonPointer);
        }
        for (auto &m : r.must) if (!seen.count(m)) c.fail("failing location '" + m + "' is not reported" + where);
        if (r.must.size() > 2) c.label("several-locations");
        for (auto &m : r.must) if (m.find('~') != m.npos) c.label("escaped");
        for (auto &m : r.must) if (std::count(m.begin(), m.end(), '/') >= 2) c.label("deep");
        if (!r.must.empty() && (r.must.size() > 1 || !r.must.count(""))) c.nontrivial = true;
    }
}

int main(int argc, char **argv) {
    Check ck;
    ck.id = "C05";
    ck.rule = "Generated schemas and documents with property names full of '/', '~', quotes, digits and empty names. An independent validator computes the locations at which an applied schema fails and those which conjunctive application obliges the "
              "validator to report; the reported set must lie between the two, and contexts must denote the same location. Non-trivial: some location below the root must be reported.";
    gen::Cfg a;
    gen::Cfg b;
    b.maxDepth = 2;
    // conjunctive structure only, so that the obligation is long
    b.extra = [](Src &s, J &o) {
        if (!s.chance(1, 3)) return false;
        gen::Cfg k;
        k.oddKeyPct = 40;
        auto leaf = [&]() { switch (s.below(4)) { case 0: return J::obj({{"type", "string"}}); case 1: return J::obj({{"type", "integer"}, {"maximum", J(3)}}); case 2: return J::obj({{"items", J::obj({{"type", "null"}})}}); default: return J::obj({{"allOf", J::arr({J::obj({{"type", "boolean"}}), J::obj({{"minLength", J(2)}})})}}); } };
        switch (s.below(4)) {
        case 0: { J m = J::obj(); for (int i = s.range(1, 4); i > 0; i--) m.set(gen::key(s, k), leaf()); o.set("properties", m); o.set("additionalProperties", leaf()); break; }
        case 1: o.set("items", J::arr({leaf(), leaf()})); o.set("additionalItems", leaf()); break;
        case 2: { J m = J::obj(); m.set("^", leaf()); m.set(".", leaf()); o.set("patternProperties", m); break; }
        default: o.set("items", leaf()); break;
        }
        return true;
    };
    ck.subs.push_back({"mixed", 500000, 20000000, [=](Ctx &c) { one(c, a); }});
    ck.subs.push_back({"conjunctive", 300000, 12000000, [=](Ctx &c) { one(c, b); }});
    return runMain(argc, argv, ck);
}
