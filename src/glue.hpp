// Thin, uniform access to the library under test for one JSON library each.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <valijson/schema.hpp>
#include <valijson/validation_results.hpp>

enum class Draft { D3, D4, D7 };
inline const char *draftName(Draft d) { return d == Draft::D3 ? "draft3" : d == Draft::D4 ? "draft4" : "draft7"; }

struct VOpts { bool weak = false; bool permissive = false; };

// Opaque validator (so that one can be reused over a history of calls).
struct IVal {
    virtual ~IVal() = default;
    virtual bool validate(const valijson::Schema &s, const void *doc, valijson::ValidationResults *r) = 0;
    virtual std::unique_ptr<IVal> copy() const = 0;
};

using DocPtr = std::shared_ptr<const void>;
struct FetchCb {
    std::function<DocPtr(const std::string &uri)> fetch; // may throw / return null
    std::function<void(const void *)> freed;
    bool haveFetch = true, haveFree = true;
};

struct Lib {
    const char *name;
    bool strictTypes;
    // parses JSON text into the library's document; null if the library rejects it
    DocPtr (*load)(const std::string &text);
    void (*parse)(const void *doc, Draft d, valijson::Schema &out);
    void (*parseFetch)(const void *doc, Draft d, valijson::Schema &out, FetchCb &cb);
    std::unique_ptr<IVal> (*validator)(VOpts);
};
const Lib &libRapid();
const Lib &libRapidCrt();
const Lib &libNlohmann();
const Lib &libJsonCpp();
const Lib &libPico();
const Lib &libBoostJson();
const Lib &libPoco();
const Lib &libQtJson();
const Lib &libQVariant();
const Lib &libPtree();
const Lib &libYaml();
