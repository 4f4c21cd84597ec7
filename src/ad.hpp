// Uniform access to the adapters of each JSON library.
#pragma once
#include <memory>
#include <string>
#include "glue.hpp"
#include "json.hpp"
#include "pbt.hpp"
#include <valijson/internal/adapter.hpp>
#include <valijson/internal/frozen_value.hpp>

using AnyAdapter = valijson::adapters::Adapter;
using AnyFrozen = valijson::adapters::FrozenValue;

struct AdLib {
    const char *name;
    bool strictTypes;
    DocPtr (*load)(const std::string &text);
    std::unique_ptr<AnyAdapter> (*make)(const void *doc);
    std::unique_ptr<AnyAdapter> (*blank)();
    // the value in a document built through the library's own interface, with
    // storage types picked at random; null if this library has none
    DocPtr (*build)(const J &v, pbt::Src &s);
    // overwrites every part of a document (made by load or build) in place
    void (*scribble)(const void *doc);
    // resolves a JSON pointer; throws what the library throws
    std::unique_ptr<AnyAdapter> (*pointer)(const void *doc, const std::string &ptr, bool strict);
    // walks the document through the typed interface (iterators, find, ...)
    // comparing it with 'want'; throws pbt::Fail
    void (*probe)(const void *doc, const J &want, pbt::Src &s);
};
#define ADLIB(n) const AdLib &ad##n();
ADLIB(Rapid) ADLIB(RapidCrt) ADLIB(Nlohmann) ADLIB(JsonCpp) ADLIB(Pico) ADLIB(BoostJson) ADLIB(Poco) ADLIB(QtJson) ADLIB(QVariant) ADLIB(Ptree) ADLIB(Yaml)
#undef ADLIB

// The JSON value an adapter presents, through the virtual interface only.
inline J adToJ(const AnyAdapter &a) {
    using pbt::Fail;
    if (a.isNull()) return J();
    if (a.isBool()) return J(a.getBool());
    if (a.isInteger()) { int64_t i; return a.getInteger(i) ? J((long long)i) : J(a.getNumber()); }
    if (a.isDouble()) return J(a.getDouble());
    if (a.isString()) return J(a.getString());
    if (a.isArray()) {
        J r = J::arr();
        bool ok = a.applyToArray([&](const AnyAdapter &e) { r.push(adToJ(e)); return true; });
        if (!ok || r.a.size() != a.getArraySize()) throw Fail{"applyToArray visited " + std::to_string(r.a.size()) + " elements of an array of size " + std::to_string(a.getArraySize())};
        return r;
    }
    if (a.isObject()) {
        J r = J::obj();
        bool ok = a.applyToObject([&](const std::string &k, const AnyAdapter &e) { r.o.emplace_back(k, adToJ(e)); return true; });
        if (!ok || r.o.size() != a.getObjectSize()) throw Fail{"applyToObject visited " + std::to_string(r.o.size()) + " members of an object of size " + std::to_string(a.getObjectSize())};
        return r;
    }
    throw Fail{"a value of no type at all"};
}
