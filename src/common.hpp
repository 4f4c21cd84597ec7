// Helpers shared by the checks that compare verdicts.
#pragma once
#include "gen.hpp"
#include "glue.hpp"

namespace vc {
using namespace pbt;

// Parsed schema kept together with the document it came from.
struct Parsed {
    std::unique_ptr<valijson::Schema> schema;
    std::string error; // set when parsing threw
    explicit operator bool() const { return schema != nullptr; }
};
inline Parsed tryParse(const Lib &lib, Draft d, const J &schema) {
    Parsed p;
    std::string t = jdump(schema);
    DocPtr doc = lib.load(t);
    if (!doc) throw Fail{"harness: " + std::string(lib.name) + " rejected schema text " + t};
    std::unique_ptr<valijson::Schema> s(new valijson::Schema);
    try { lib.parse(doc.get(), d, *s); p.schema = std::move(s); }
    catch (std::exception &e) { p.error = e.what(); if (p.error.empty()) p.error = "(exception without a message)"; }
    return p;
}
inline Parsed mustParse(const Lib &lib, Draft d, const J &schema) {
    Parsed p = tryParse(lib, d, schema);
    if (!p) throw Fail{std::string("well-formed schema rejected: ") + p.error + " schema " + jdump(schema)};
    return p;
}
inline bool validate(const Lib &lib, IVal &v, const valijson::Schema &s, const J &doc, valijson::ValidationResults *r = nullptr) {
    std::string t = jdump(doc);
    DocPtr d = lib.load(t);
    if (!d) throw Fail{"harness: " + std::string(lib.name) + " rejected document text " + t};
    try { return v.validate(s, d.get(), r); }
    catch (Fail &) { throw; }
    catch (std::exception &e) { throw Fail{std::string("validation threw '") + e.what() + "' for document " + t}; }
}
// Verdict by the reference: 1 valid, 0 invalid, -1 the reference takes no side.
inline int reference(Draft d, const J &schema, const J &doc) {
    try { RefVal r(d, schema); return r.valid(schema, doc); }
    catch (Ambiguous &) { return -1; }
    catch (RefVal::TooDeep &) { return -1; }
}
inline const char *word(bool b) { return b ? "valid" : "invalid"; }
inline std::vector<J> documents(Src &s, const gen::Cfg &cfg, const J &schema, int lo, int hi) {
    std::vector<J> r;
    int n = s.range(lo, hi);
    for (int i = 0; i < n; i++) { gen::InstGen g(s, cfg, schema); r.push_back(g.gen(&schema, 3)); }
    return r;
}
inline std::string docsText(const std::vector<J> &v) {
    std::string t;
    for (auto &x : v) t += jdump(x) + "  ";
    return t;
}
} // namespace vc
