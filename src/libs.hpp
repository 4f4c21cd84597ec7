// Per-library document types and loaders (selected by LIB_xxx macros).
#pragma once
#include <memory>
#include <string>
#include <sstream>
#ifndef VC_BUNDLE
#include "glue.hpp"
#endif
#define LIBDEF_(n) L_##n
#ifdef LIB_Rapid
#ifndef VC_BUNDLE
#include <valijson/adapters/rapidjson_adapter.hpp>
#endif
struct L_Rapid {
    using Doc = rapidjson::Document; using Ad = valijson::adapters::RapidJsonAdapter;
    static constexpr const char *nm = "rapidjson";
    static bool load(const std::string &t, Doc &d) { d.Parse<rapidjson::kParseFullPrecisionFlag>(t.data(), t.size()); return !d.HasParseError(); }
};
#endif
#ifdef LIB_RapidCrt
#ifndef VC_BUNDLE
#include <valijson/adapters/rapidjson_adapter.hpp>
#endif
struct L_RapidCrt {
    using Doc = rapidjson::GenericDocument<rapidjson::UTF8<>, rapidjson::CrtAllocator>;
    using Ad = valijson::adapters::GenericRapidJsonAdapter<rapidjson::GenericValue<rapidjson::UTF8<>, rapidjson::CrtAllocator>>;
    static constexpr const char *nm = "rapidjson-crt";
    static bool load(const std::string &t, Doc &d) { d.Parse<rapidjson::kParseFullPrecisionFlag>(t.data(), t.size()); return !d.HasParseError(); }
};
#endif
#ifdef LIB_Nlohmann
#ifndef VC_BUNDLE
#include <valijson/adapters/nlohmann_json_adapter.hpp>
#endif
struct L_Nlohmann {
    using Doc = nlohmann::json; using Ad = valijson::adapters::NlohmannJsonAdapter;
    static constexpr const char *nm = "nlohmann";
    static bool load(const std::string &t, Doc &d) { d = nlohmann::json::parse(t, nullptr, false); return !d.is_discarded(); }
};
#endif
#ifdef LIB_JsonCpp
#ifndef VC_BUNDLE
#include <valijson/adapters/jsoncpp_adapter.hpp>
#endif
struct L_JsonCpp {
    using Doc = Json::Value; using Ad = valijson::adapters::JsonCppAdapter;
    static constexpr const char *nm = "jsoncpp";
    static bool load(const std::string &t, Doc &d) {
        Json::CharReaderBuilder b;
        b["collectComments"] = false;
        std::unique_ptr<Json::CharReader> r(b.newCharReader());
        std::string err;
        return r->parse(t.data(), t.data() + t.size(), &d, &err);
    }
};
#endif
#ifdef LIB_Pico
#ifndef VC_BUNDLE
#include <valijson/adapters/picojson_adapter.hpp>
#endif
struct L_Pico {
    using Doc = picojson::value; using Ad = valijson::adapters::PicoJsonAdapter;
    static constexpr const char *nm = "picojson";
    static bool load(const std::string &t, Doc &d) { return picojson::parse(d, t).empty(); }
};
#endif
#ifdef LIB_BoostJson
#include <boost/json.hpp>
#ifndef VC_BUNDLE
#include <valijson/adapters/boost_json_adapter.hpp>
#endif
struct L_BoostJson {
    using Doc = boost::json::value; using Ad = valijson::adapters::BoostJsonAdapter;
    static constexpr const char *nm = "boost.json";
    static bool load(const std::string &t, Doc &d) {
        boost::system::error_code ec;
        boost::json::parse_options o;
        o.max_depth = 200;
        o.numbers = boost::json::number_precision::precise;
        d = boost::json::parse(t, ec, {}, o);
        return !ec;
    }
};
#endif
#ifdef LIB_Poco
#include <Poco/JSON/Parser.h>
#ifndef VC_BUNDLE
#include <valijson/adapters/poco_json_adapter.hpp>
#endif
struct L_Poco {
    using Doc = Poco::Dynamic::Var; using Ad = valijson::adapters::PocoJsonAdapter;
    static constexpr const char *nm = "poco";
    static bool load(const std::string &t, Doc &d) {
        // the Poco parser only takes arrays and objects at the top level
        try { Poco::Dynamic::Var v = Poco::JSON::Parser().parse("[" + t + "]"); d = v.extract<Poco::JSON::Array::Ptr>()->get(0); return true; }
        catch (Poco::Exception &) { return false; }
    }
};
#endif
#ifdef LIB_QtJson
#include <QJsonDocument>
#include <QJsonArray>
#include <QJsonObject>
#ifndef VC_BUNDLE
#include <valijson/adapters/qtjson_adapter.hpp>
#endif
struct L_QtJson {
    using Doc = QJsonValue; using Ad = valijson::adapters::QtJsonAdapter;
    static constexpr const char *nm = "qtjson";
    static bool load(const std::string &t, Doc &d) {
        QJsonParseError e;
        QJsonDocument q = QJsonDocument::fromJson(QByteArray::fromStdString("[" + t + "]"), &e);
        if (e.error != QJsonParseError::NoError || !q.isArray() || q.array().size() != 1) return false;
        d = q.array()[0];
        return true;
    }
};
#endif
#ifdef LIB_QVariant
#include <QJsonDocument>
#include <QJsonArray>
#include <QVariant>
#ifndef VC_BUNDLE
#include <valijson/adapters/qvariant_adapter.hpp>
#endif
struct L_QVariant {
    using Doc = QVariant; using Ad = valijson::adapters::QtVariantAdapter;
    static constexpr const char *nm = "qvariant";
    static bool load(const std::string &t, Doc &d) {
        QJsonParseError e;
        QJsonDocument q = QJsonDocument::fromJson(QByteArray::fromStdString("[" + t + "]"), &e);
        if (e.error != QJsonParseError::NoError || !q.isArray() || q.array().size() != 1) return false;
        d = q.array()[0].toVariant();
        return true;
    }
};
#endif
#ifdef LIB_Ptree
#include <boost/property_tree/json_parser.hpp>
#ifndef VC_BUNDLE
#include <valijson/adapters/property_tree_adapter.hpp>
#endif
struct L_Ptree {
    using Doc = boost::property_tree::ptree; using Ad = valijson::adapters::PropertyTreeAdapter;
    static constexpr const char *nm = "ptree";
    static bool load(const std::string &t, Doc &d) {
#ifdef VC_NOEXC
        std::istringstream is(t); boost::property_tree::read_json(is, d); return true;
#else
        try { std::istringstream is(t); boost::property_tree::read_json(is, d); return true; }
        catch (std::exception &) { return false; }
#endif
    }
};
#endif
#ifdef LIB_Yaml
#include <yaml-cpp/yaml.h>
#ifndef VC_BUNDLE
#include <valijson/adapters/yaml_cpp_adapter.hpp>
#endif
struct L_Yaml {
    using Doc = YAML::Node; using Ad = valijson::adapters::YamlCppAdapter;
    static constexpr const char *nm = "yaml";
    static bool load(const std::string &t, Doc &d) {
        try { d.reset(YAML::Load(t)); return true; }
        catch (YAML::Exception &) { return false; }
    }
};
#endif
#ifdef LIB_StdString
#ifndef VC_BUNDLE
#include <valijson/adapters/std_string_adapter.hpp>
#endif
#endif
