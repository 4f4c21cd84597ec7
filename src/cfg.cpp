// One build configuration of the library (see configs.py), as a shared object.
#ifdef VC_BUNDLE
#include VC_BUNDLE
#endif
#include "libs.hpp"
#ifndef VC_BUNDLE
#include <valijson/constraint_builder.hpp>
#include <valijson/schema_parser.hpp>
#include <valijson/validator.hpp>
#ifdef LIB_Rapid
#include <valijson/utils/rapidjson_utils.hpp>
#elif defined(LIB_Nlohmann)
#include <valijson/utils/nlohmann_json_utils.hpp>
#elif defined(LIB_Pico)
#include <valijson/utils/picojson_utils.hpp>
#elif defined(LIB_JsonCpp)
#include <valijson/utils/jsoncpp_utils.hpp>
#elif defined(LIB_BoostJson)
#include <valijson/utils/boost_json_utils.hpp>
#elif defined(LIB_Ptree)
#include <valijson/utils/property_tree_utils.hpp>
#endif
#endif
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <vector>
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#ifdef VC_SECOND
#define FN vc_second
#else
#define FN vc_run
#endif
#ifndef LIB_StdString
using L = CAT(L_, LIB);
#endif
static std::string field(const char *&p) {
    char *e;
    size_t n = strtoul(p, &e, 10);
    std::string r(e + 1, n);
    p = e + 1 + n;
    return r;
}
// input: fields draft, mode (bit 0: weak types, bit 1: permissive dates, bit 2: remote documents), number of documents, schema, documents, number of remote documents, pairs of URI and document
static std::string transcript(const char *p) {
#ifdef LIB_StdString
    // strings only; the schema is a pattern
    std::string out;
    field(p); field(p);
    int n = atoi(field(p).c_str());
    valijson::Schema schema;
    valijson::constraints::PatternConstraint pattern;
    pattern.setPattern(field(p));
    schema.addConstraint(pattern);
    for (; n > 0; n--) {
        std::string doc = field(p);
        valijson::adapters::StdStringAdapter a(doc);
        valijson::Validator v;
        valijson::ValidationResults r;
        bool ok = v.validate(schema, a, &r);
        out += (ok ? "valid" : "invalid") + std::string(" ") + std::to_string(r.numErrors()) + "\n";
    }
    return out;
#else
    int draft = atoi(field(p).c_str()), mode = atoi(field(p).c_str()), n = atoi(field(p).c_str());
    std::string st = field(p), out;
    std::vector<std::string> docs;
    for (; n > 0; n--) docs.push_back(field(p));
    std::map<std::string, std::string> remote;
    for (int k = atoi(field(p).c_str()); k > 0; k--) { std::string u = field(p); remote[u] = field(p); }
    L::Doc sd;
    if (!L::load(st, sd)) return "schema not loaded\n";
    valijson::Schema schema;
    valijson::SchemaParser parser(draft == 3 ? valijson::SchemaParser::kDraft3 : draft == 4 ? valijson::SchemaParser::kDraft4 : valijson::SchemaParser::kDraft7);
#ifndef VC_NOEXC
    try {
#endif
        L::Ad a(sd);
        if (mode & 4) {
            using DT = valijson::adapters::AdapterTraits<L::Ad>::DocumentType;
            std::map<std::string, L::Doc> held;
            std::set<const void *> live;
            parser.populateSchema(a, schema,
                [&](const std::string &uri) -> const DT * {
                    out += "fetch " + uri + "\n";
                    auto it = remote.find(uri);
                    if (it == remote.end() || held.count(uri)) return nullptr;
                    L::Doc &d = held[uri];
                    if (!L::load(it->second, d)) return nullptr;
                    live.insert(static_cast<const DT *>(&d));
                    return &d;
                },
                [&](const DT *d) { if (!live.erase(d)) out += "freed twice\n"; });
            if (!live.empty()) out += "not freed\n";
        } else parser.populateSchema(a, schema);
#ifndef VC_NOEXC
    } catch (std::exception &e) { return std::string("rejected: ") + e.what() + "\n"; }
#endif
    for (auto &t : docs) {
        L::Doc d;
        if (!L::load(t, d)) { out += "document not loaded\n"; continue; }
        for (int collect = 0; collect < 2; collect++) {
            valijson::Validator v(mode & 1 ? valijson::Validator::kWeakTypes : valijson::Validator::kStrongTypes, mode & 2 ? valijson::Validator::kPermissiveDateTime : valijson::Validator::kStrictDateTime);
            valijson::ValidationResults r;
#ifndef VC_NOEXC
            try {
#endif
                L::Ad a(d);
                out += v.validate(schema, a, collect ? &r : nullptr) ? "valid\n" : "invalid\n";
#ifndef VC_NOEXC
            } catch (std::exception &e) { out += "threw\n"; }
#endif
            for (auto &e : r) { for (auto &c : e.context) out += c + ";"; out += e.jsonPointer + "|" + e.description + "\n"; }
        }
    }
    return out;
#endif
}
extern "C" __attribute__((visibility("default"))) char *FN(const char *p) {
    std::string t = transcript(p);
    char *r = (char *)malloc(t.size() + 1);
    memcpy(r, t.data(), t.size());
    r[t.size()] = 0;
    return r;
}
