// Compiled once per library with -DLIB=<Name> -DLIB_<Name> and
// -DPART_PARSE or -DPART_VAL.
#include "libs.hpp"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
using L = CAT(L_, LIB);
#define PARSEFN CAT(gp_, LIB)
#define PARSEFETCHFN CAT(gpf_, LIB)
#define VALFN CAT(gv_, LIB)
void PARSEFN(const void *doc, Draft d, valijson::Schema &out);
void PARSEFETCHFN(const void *doc, Draft d, valijson::Schema &out, FetchCb &cb);
std::unique_ptr<IVal> VALFN(VOpts);

#ifdef PART_PARSE
#include <valijson/schema_parser.hpp>
static valijson::SchemaParser::Version ver(Draft d) {
    return d == Draft::D3 ? valijson::SchemaParser::kDraft3 : d == Draft::D4 ? valijson::SchemaParser::kDraft4 : valijson::SchemaParser::kDraft7;
}
void PARSEFN(const void *doc, Draft d, valijson::Schema &out) {
    valijson::SchemaParser p(ver(d));
    L::Ad a(*static_cast<const L::Doc *>(doc));
    p.populateSchema(a, out);
}
void PARSEFETCHFN(const void *doc, Draft d, valijson::Schema &out, FetchCb &cb) {
    using DT = valijson::adapters::AdapterTraits<L::Ad>::DocumentType;
    valijson::SchemaParser p(ver(d));
    L::Ad a(*static_cast<const L::Doc *>(doc));
    std::function<const DT *(const std::string &)> f;
    std::function<void(const DT *)> g;
    // Ownership stays with the harness' DocPtr; the callbacks hand out raw
    // pointers and report releases.
    if (cb.haveFetch) f = [&](const std::string &u) { return static_cast<const DT *>(cb.fetch(u).get()); };
    if (cb.haveFree) g = [&](const DT *q) { cb.freed(static_cast<const void *>(q)); };
    p.populateSchema(a, out, f, g);
}
#endif

#ifdef PART_VAL
#if defined(LIB_Ptree) || defined(LIB_Yaml)
#define STRICT false
#else
#define STRICT true
#endif
#include <valijson/validator.hpp>
static DocPtr doLoad(const std::string &t) {
    auto d = std::make_shared<L::Doc>();
    if (!L::load(t, *d)) return nullptr;
    return d;
}
namespace {
struct V : IVal {
    valijson::Validator v;
    V(VOpts o) : v(o.weak ? valijson::Validator::kWeakTypes : valijson::Validator::kStrongTypes, o.permissive ? valijson::Validator::kPermissiveDateTime : valijson::Validator::kStrictDateTime) {}
    bool validate(const valijson::Schema &s, const void *doc, valijson::ValidationResults *r) override {
        L::Ad a(*static_cast<const L::Doc *>(doc));
        return v.validate(s, a, r);
    }
    std::unique_ptr<IVal> copy() const override { return std::unique_ptr<IVal>(new V(*this)); }
};
}
std::unique_ptr<IVal> VALFN(VOpts o) { return std::unique_ptr<IVal>(new V(o)); }
const Lib &CAT(lib, LIB)() {
    static const Lib l{L::nm, STRICT, doLoad, PARSEFN, PARSEFETCHFN, VALFN};
    return l;
}
#endif

#ifdef PART_AD
#include "glue_ad.hpp"
#endif
