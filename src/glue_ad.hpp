// Body of the adapter glue: included by glue_impl.cpp with PART_AD.
#include <iterator>
#include <set>
#include <typeinfo>
#include <valijson/internal/json_pointer.hpp>
#include "ad.hpp"

namespace {
using pbt::Fail;
using pbt::Src;
using Ad = L::Ad;
#if defined(LIB_Ptree) || defined(LIB_Yaml)
constexpr bool kStrict = false;
#else
constexpr bool kStrict = true;
#endif
const Ad adOf(const void *doc) { return Ad(*static_cast<const L::Doc *>(doc)); }
DocPtr adLoad(const std::string &t) {
    auto d = std::make_shared<L::Doc>();
    if (!L::load(t, *d)) return nullptr;
    return d;
}
std::unique_ptr<AnyAdapter> adMake(const void *doc) { return std::unique_ptr<AnyAdapter>(new Ad(adOf(doc))); }
std::unique_ptr<AnyAdapter> adBlank() { return std::unique_ptr<AnyAdapter>(new Ad()); }
std::unique_ptr<AnyAdapter> adPointer(const void *doc, const std::string &p, bool strict) {
    const Ad root = adOf(doc);
    if (strict) return std::unique_ptr<AnyAdapter>(new Ad(valijson::internal::json_pointer::resolveJsonPointerStrict(root, p)));
    return std::unique_ptr<AnyAdapter>(new Ad(valijson::internal::json_pointer::resolveJsonPointer(root, p)));
}


// ---- native documents: any of the storage types the library offers
template <class I> bool fits(int64_t v) { return v >= 0 ? (uint64_t)v <= (uint64_t)std::numeric_limits<I>::max() : (std::numeric_limits<I>::is_signed && v >= (int64_t)std::numeric_limits<I>::min()); }
#if defined(LIB_Rapid) || defined(LIB_RapidCrt)
#define HAVE_BUILD
template <class V, class A> void fill(V &v, const J &j, Src &s, A &al) {
    switch (j.t) {
    case J::Null: v.SetNull(); break;
    case J::Bool: v.SetBool(j.b); break;
    case J::Int:
        switch (s.below(4)) {
        case 0: v.SetInt64(j.i); break;
        case 1: if (fits<int>(j.i)) v.SetInt((int)j.i); else v.SetInt64(j.i); break;
        case 2: if (fits<unsigned>(j.i)) v.SetUint((unsigned)j.i); else v.SetInt64(j.i); break;
        default: if (j.i >= 0) v.SetUint64((uint64_t)j.i); else v.SetInt64(j.i); break;
        }
        break;
    case J::Dbl: v.SetDouble(j.d); break;
    case J::Str: if (s.coin()) v.SetString(j.s.data(), (rapidjson::SizeType)j.s.size(), al); else v = V(rapidjson::StringRef(j.s.data(), (rapidjson::SizeType)j.s.size())); break;
    case J::Arr: v.SetArray(); for (auto &x : j.a) { V e; fill(e, x, s, al); v.PushBack(e, al); } break;
    case J::Obj: v.SetObject(); for (auto &p : j.o) { V k, e; k.SetString(p.first.data(), (rapidjson::SizeType)p.first.size(), al); fill(e, p.second, s, al); v.AddMember(k, e, al); } break;
    }
}
DocPtr adBuild(const J &j, Src &s) {
    struct Kept { J j; L::Doc d; };
    auto k = std::make_shared<Kept>();
    k->j = j; // StringRef values point into it
    fill(static_cast<L::Doc::ValueType &>(k->d), k->j, s, k->d.GetAllocator());
    return DocPtr(k, &k->d);
}
#endif
#ifdef LIB_Nlohmann
#define HAVE_BUILD
nlohmann::json mk(const J &j, Src &s) {
    switch (j.t) {
    case J::Null: return nullptr;
    case J::Bool: return j.b;
    case J::Int: if (j.i >= 0 && s.coin()) return (uint64_t)j.i; return j.i;
    case J::Dbl: return j.d;
    case J::Str: return j.s;
    case J::Arr: { auto r = nlohmann::json::array(); for (auto &x : j.a) r.push_back(mk(x, s)); return r; }
    default: { auto r = nlohmann::json::object(); for (auto &p : j.o) r[p.first] = mk(p.second, s); return r; }
    }
}
#endif
#ifdef LIB_JsonCpp
#define HAVE_BUILD
Json::Value mk(const J &j, Src &s) {
    switch (j.t) {
    case J::Null: return Json::Value();
    case J::Bool: return Json::Value(j.b);
    case J::Int:
        switch (s.below(4)) {
        case 1: if (fits<int>(j.i)) return Json::Value((int)j.i); break;
        case 2: if (fits<unsigned>(j.i)) return Json::Value((unsigned)j.i); break;
        case 3: if (j.i >= 0) return Json::Value((Json::UInt64)j.i); break;
        }
        return Json::Value((Json::Int64)j.i);
    case J::Dbl: return Json::Value(j.d);
    case J::Str: return Json::Value(j.s.data(), j.s.data() + j.s.size());
    case J::Arr: { Json::Value r(Json::arrayValue); for (auto &x : j.a) r.append(mk(x, s)); return r; }
    default: { Json::Value r(Json::objectValue); for (auto &p : j.o) r[p.first] = mk(p.second, s); return r; }
    }
}
#endif
#ifdef LIB_Pico
#define HAVE_BUILD
picojson::value mk(const J &j, Src &s) {
    switch (j.t) {
    case J::Null: return picojson::value();
    case J::Bool: return picojson::value(j.b);
    case J::Int: return picojson::value((int64_t)j.i);
    case J::Dbl: return picojson::value(j.d);
    case J::Str: return picojson::value(j.s);
    case J::Arr: { picojson::array r; for (auto &x : j.a) r.push_back(mk(x, s)); return picojson::value(r); }
    default: { picojson::object r; for (auto &p : j.o) r[p.first] = mk(p.second, s); return picojson::value(r); }
    }
}
#endif
#ifdef LIB_BoostJson
#define HAVE_BUILD
boost::json::value mk(const J &j, Src &s) {
    switch (j.t) {
    case J::Null: return nullptr;
    case J::Bool: return j.b;
    case J::Int: if (j.i >= 0 && s.coin()) return (uint64_t)j.i; return (int64_t)j.i;
    case J::Dbl: return j.d;
    case J::Str: return boost::json::string(j.s.data(), j.s.size());
    case J::Arr: { boost::json::array r; for (auto &x : j.a) r.push_back(mk(x, s)); return r; }
    default: { boost::json::object r; for (auto &p : j.o) r[boost::json::string_view(p.first.data(), p.first.size())] = mk(p.second, s); return r; }
    }
}
#endif
#ifdef LIB_Poco
#define HAVE_BUILD
Poco::Dynamic::Var mk(const J &j, Src &s) {
    switch (j.t) {
    case J::Null: return Poco::Dynamic::Var();
    case J::Bool: return Poco::Dynamic::Var(j.b);
    case J::Int:
        switch (s.below(7)) {
        case 1: if (fits<int>(j.i)) return (int)j.i; break;
        case 2: if (fits<unsigned>(j.i)) return (unsigned)j.i; break;
        case 3: if (j.i >= 0) return (Poco::UInt64)j.i; break;
        case 4: if (fits<Poco::Int16>(j.i)) return (Poco::Int16)j.i; break;
        case 5: if (fits<Poco::UInt8>(j.i)) return (Poco::UInt8)j.i; break;
        case 6: if (fits<Poco::Int8>(j.i)) return (Poco::Int8)j.i; break;
        }
        return Poco::Dynamic::Var((Poco::Int64)j.i);
    case J::Dbl: if (s.coin() && (double)(float)j.d == j.d) return (float)j.d; return j.d;
    case J::Str: return j.s;
    case J::Arr: { Poco::JSON::Array::Ptr r = new Poco::JSON::Array; for (auto &x : j.a) r->add(mk(x, s)); return r; }
    default: { Poco::JSON::Object::Ptr r = new Poco::JSON::Object(s.coin() ? Poco::JSON_PRESERVE_KEY_ORDER : 0); for (auto &p : j.o) r->set(p.first, mk(p.second, s)); return r; }
    }
}
#endif
#ifdef LIB_QtJson
#define HAVE_BUILD
QString qs(const std::string &t) { return QString::fromStdString(t); }
QJsonValue mk(const J &j, Src &s) {
    switch (j.t) {
    case J::Null: return QJsonValue(QJsonValue::Null);
    case J::Bool: return QJsonValue(j.b);
    case J::Int: if (fits<int>(j.i) && s.coin()) return QJsonValue((int)j.i); return QJsonValue((qint64)j.i);
    case J::Dbl: return QJsonValue(j.d);
    case J::Str: return QJsonValue(qs(j.s));
    case J::Arr: { QJsonArray r; for (auto &x : j.a) r.append(mk(x, s)); return r; }
    default: { QJsonObject r; for (auto &p : j.o) r.insert(qs(p.first), mk(p.second, s)); return r; }
    }
}
#endif
#ifdef LIB_QVariant
#define HAVE_BUILD
QString qs(const std::string &t) { return QString::fromStdString(t); }
QVariant mk(const J &j, Src &s) {
    switch (j.t) {
    case J::Null: return s.coin() ? QVariant() : QVariant::fromValue(nullptr);
    case J::Bool: return QVariant(j.b);
    case J::Int:
        switch (s.below(8)) {
        case 1: if (fits<int>(j.i)) return QVariant((int)j.i); break;
        case 2: if (fits<unsigned>(j.i)) return QVariant((uint)j.i); break;
        case 3: if (j.i >= 0) return QVariant((qulonglong)j.i); break;
        case 4: if (fits<short>(j.i)) return QVariant::fromValue((short)j.i); break;
        case 5: if (fits<ushort>(j.i)) return QVariant::fromValue((ushort)j.i); break;
        case 6: return QVariant::fromValue((long)j.i);
        case 7: if (j.i >= 0) return QVariant::fromValue((ulong)j.i); break;
        }
        return QVariant((qlonglong)j.i);
    case J::Dbl: if (s.coin() && (double)(float)j.d == j.d) return QVariant((float)j.d); return QVariant(j.d);
    case J::Str: return QVariant(qs(j.s));
    case J::Arr: { QVariantList r; for (auto &x : j.a) r.append(mk(x, s)); return r; }
    default: { QVariantMap r; for (auto &p : j.o) r.insert(qs(p.first), mk(p.second, s)); return r; }
    }
}
#endif
#if defined(HAVE_BUILD) && !defined(LIB_Rapid) && !defined(LIB_RapidCrt)
DocPtr adBuild(const J &j, Src &s) { auto d = std::make_shared<L::Doc>(); *d = mk(j, s); return d; }
#elif !defined(HAVE_BUILD)
DocPtr adBuild(const J &, Src &) { return nullptr; }
#endif

// ---- destruction in place
#if defined(LIB_Rapid) || defined(LIB_RapidCrt)
template <class V> void wreck(V &v) { if (v.IsArray()) for (auto &x : v.GetArray()) wreck(x); if (v.IsObject()) for (auto &m : v.GetObject()) wreck(m.value); v.SetInt(4242); }
void adScribble(const void *p) { wreck(static_cast<L::Doc::ValueType &>(*static_cast<L::Doc *>(const_cast<void *>(p)))); }
#elif defined(LIB_Poco)
void wreck(Poco::Dynamic::Var &v) {
    if (v.type() == typeid(Poco::JSON::Array::Ptr)) { auto a = v.extract<Poco::JSON::Array::Ptr>(); for (size_t i = 0; i < a->size(); i++) { auto e = a->get(i); wreck(e); a->set(i, 4242); } a->add(7); }
    else if (v.type() == typeid(Poco::JSON::Object::Ptr)) { auto o = v.extract<Poco::JSON::Object::Ptr>(); for (auto &k : o->getNames()) { auto e = o->get(k); wreck(e); o->set(k, 4242); } o->set("wrecked", 7); }
    v = 4242;
}
void adScribble(const void *p) { wreck(*static_cast<L::Doc *>(const_cast<void *>(p))); }
#elif defined(LIB_Yaml)
void wreck(YAML::Node n) {
    if (n.IsMap()) { std::vector<std::string> ks; for (auto it = n.begin(); it != n.end(); ++it) { wreck(it->second); } n["wrecked"] = 7; }
    else if (n.IsSequence()) { for (size_t i = 0; i < n.size(); i++) wreck(n[i]); n.push_back(7); }
    else n = 4242;
}
void adScribble(const void *p) { wreck(*static_cast<L::Doc *>(const_cast<void *>(p))); }
#elif defined(LIB_Ptree)
void wreck(L::Doc &d) { for (auto &c : d) wreck(c.second); d.data() = "4242"; }
void adScribble(const void *p) { wreck(*static_cast<L::Doc *>(const_cast<void *>(p))); }
#elif defined(LIB_Nlohmann)
void wreck(L::Doc &d) { if (d.is_structured()) for (auto &x : d) wreck(x); d = 4242; }
void adScribble(const void *p) { wreck(*static_cast<L::Doc *>(const_cast<void *>(p))); }
#elif defined(LIB_JsonCpp)
void wreck(L::Doc &d) { if (d.isArray() || d.isObject()) for (auto &x : d) wreck(x); d = 4242; }
void adScribble(const void *p) { wreck(*static_cast<L::Doc *>(const_cast<void *>(p))); }
#else
void adScribble(const void *p) { *static_cast<L::Doc *>(const_cast<void *>(p)) = L::Doc(); }
#endif

void need(bool ok, const std::string &m, const J &at) { if (!ok) throw Fail{std::string(L::nm) + ": " + m + " (at value " + jdump(at).substr(0, 300) + ")"}; }
template <class F> bool throws(F f) { try { f(); } catch (std::exception &) { return true; } return false; }

template <class It> auto canStepBack(int) -> decltype(--std::declval<It &>(), std::true_type());
template <class It> std::false_type canStepBack(...);
template <class It> auto stepBack(It &it, int) -> decltype(--it, void()) { --it; }
template <class It> void stepBack(It &, ...) {}
template <class It> constexpr bool bidi() { return decltype(canStepBack<It>(0))::value; }

void probeAny(const Ad &a, const J &w, Src &s);

void probeArray(const Ad &a, const J &w, Src &s) {
    using Arr = typename Ad::Array;
    using It = typename Arr::const_iterator;
    need(a.getArraySize() == w.a.size(), "getArraySize gives " + std::to_string(a.getArraySize()), w);
    for (int way = 0; way < 2; way++) {
        const Arr arr = way ? a.asArray() : a.getArray();
        need(arr.size() == w.a.size(), "Array::size gives " + std::to_string(arr.size()), w);
        need((arr.begin() == arr.end()) == w.a.empty(), "begin()==end() disagrees with size", w);
        need((arr.begin() != arr.end()) == !w.a.empty(), "begin()!=end() disagrees with size", w);
        size_t i = 0;
        for (It it = arr.begin(); it != arr.end(); ++it, ++i) {
            need(i < w.a.size(), "iteration runs past the last element", w);
            need(jeq(adToJ(*it), w.a[i]), "element " + std::to_string(i) + " seen while iterating is " + jdump(adToJ(*it)), w);
            need(jeq(adToJ(*it.operator->().operator->()), w.a[i]), "operator-> gives another element", w);
        }
        need(i == w.a.size(), "iteration visits " + std::to_string(i) + " elements", w);
    }
    const Arr arr = a.asArray();
    size_t n = w.a.size();
    {
        It it = arr.begin();
        for (size_t i = 0; i < n; i++) {
            It was = it++;
            need(jeq(adToJ(*was), w.a[i]), "post-increment returned the wrong position", w);
        }
        need(it == arr.end(), "post-increment does not reach end()", w);
    }
    // a walk of random in-range steps against an index
    It it = arr.begin();
    size_t pos = 0;
    int steps = n ? s.range(2, 8) : 1;
    for (int k = 0; k < steps; k++) {
        switch (s.below(4)) {
        case 0: if (pos < n) { ++it; pos++; } break;
        case 1: if constexpr (bidi<It>()) { if (pos > 0) { stepBack(it, 0); pos--; } } break;
        case 2: { size_t to = pos + s.below(n - pos + 1); it.advance((std::ptrdiff_t)(to - pos)); pos = to; break; }
        default:
            if constexpr (bidi<It>()) { size_t to = s.below(pos + 1); it.advance(-(std::ptrdiff_t)(pos - to)); pos = to; }
            break;
        }
        need((it == arr.end()) == (pos == n), "position " + std::to_string(pos) + " of " + std::to_string(n) + ": comparison with end() is wrong", w);
        need((it == arr.begin()) == (pos == 0), "comparison with begin() is wrong after steps", w);
        if (pos < n) need(jeq(adToJ(*it), w.a[pos]), "after random steps position " + std::to_string(pos) + " holds " + jdump(adToJ(*it)), w);
        It c = it;
        if (pos < n) { ++c; need(c != it, "an iterator equals its successor", w); }
    }
    // early end of applyToArray
    if (n) {
        size_t stop = s.below(n), seen = 0;
        bool r = a.applyToArray([&](const AnyAdapter &e) { need(jeq(adToJ(e), w.a[seen]), "applyToArray order", w); return seen++ != stop; });
        need(!r && seen == stop + 1, "applyToArray does not stop when told", w);
    }
    for (size_t i = 0; i < n; i++) { It e = arr.begin(); e.advance((std::ptrdiff_t)i); probeAny(*e, w.a[i], s); }
}
void probeObject(const Ad &a, const J &w, Src &s) {
    using Obj = typename Ad::Object;
    using It = typename Obj::const_iterator;
    need(a.getObjectSize() == w.o.size(), "getObjectSize gives " + std::to_string(a.getObjectSize()), w);
    for (int way = 0; way < 2; way++) {
        const Obj ob = way ? a.asObject() : a.getObject();
        need(ob.size() == w.o.size(), "Object::size gives " + std::to_string(ob.size()), w);
        need((ob.begin() == ob.end()) == w.o.empty(), "begin()==end() disagrees with size", w);
        std::set<std::string> seen;
        for (It it = ob.begin(); it != ob.end(); ++it) {
            auto m = *it;
            std::string k = m.first;
            need(seen.insert(k).second, "member '" + k + "' seen twice", w);
            const J *x = w.get(k);
            need(x != nullptr, "iteration gives a member '" + k + "' that does not exist", w);
            need(jeq(adToJ(m.second), *x), "member '" + k + "' seen while iterating is " + jdump(adToJ(m.second)), w);
            need(it->first == k && jeq(adToJ(it->second), *x), "operator-> gives another member", w);
        }
        need(seen.size() == w.o.size(), "iteration visits " + std::to_string(seen.size()) + " members", w);
    }
    const Obj ob = a.asObject();
    size_t n = w.o.size();
    std::vector<std::string> order;
    for (It it = ob.begin(); it != ob.end();) { It was = it++; order.push_back((*was).first); need(w.has(order.back()), "post-increment returned the wrong member", w); }
    need(order.size() == n, "post-increment visits " + std::to_string(order.size()) + " members", w);
    if constexpr (bidi<It>()) {
        It it = ob.begin();
        size_t pos = 0;
        for (int k = 0; k < (n ? 6 : 0); k++) {
            if (s.coin()) { if (pos < n) { ++it; pos++; } } else if (pos > 0) { stepBack(it, 0); pos--; }
            need((it == ob.end()) == (pos == n), "member iterator: comparison with end() is wrong", w);
            if (pos < n) need((*it).first == order[pos], "member iterator is off after stepping back and forth", w);
        }
    }
    for (auto &p : w.o) {
        It it = ob.find(p.first);
        need(it != ob.end() && !(it == ob.end()), "find('" + p.first + "') finds nothing", w);
        need((*it).first == p.first && it->first == p.first, "find('" + p.first + "') gives member '" + (*it).first + "'", w);
        need(jeq(adToJ((*it).second), p.second), "find('" + p.first + "') gives " + jdump(adToJ(it->second)), w);
    }
    std::vector<std::string> miss{"", "nope", std::string("\0", 1), "0"};
    for (auto &p : w.o) {
        const std::string &k = p.first;
        miss.push_back(k + "x");
        miss.push_back("x" + k);
        miss.push_back(k + std::string("\0z", 2));
        miss.push_back(k + std::string("\0", 1));
        if (!k.empty()) { miss.push_back(k.substr(0, k.size() - 1)); std::string u = k; u[0] ^= 0x20; if (!((unsigned char)k[0] & 0x80)) miss.push_back(u); }
        size_t z = k.find('\0');
        if (z != std::string::npos) miss.push_back(k.substr(0, z));
    }
    for (auto &k : miss) {
        if (w.has(k) || (!k.empty() && ((unsigned char)k[0] & 0x80) && false)) continue;
        // not UTF-8 any more?
        bool utf8 = k.empty() || (k.back() & 0x80) == 0 || w.has(k);
        if (!utf8) continue;
        need(ob.find(k) == ob.end(), "find('" + k + "') finds a member that does not exist", w);
    }
    if (n) {
        size_t stop = s.below(n), seen = 0;
        bool r = a.applyToObject([&](const std::string &k, const AnyAdapter &e) { need(w.has(k) && jeq(adToJ(e), *w.get(k)), "applyToObject gives a wrong member", w); return seen++ != stop; });
        need(!r && seen == stop + 1, "applyToObject does not stop when told", w);
    }
    for (auto &p : w.o) probeAny((*ob.find(p.first)).second, p.second, s);
}
// The typed accessors of one value
void probeAny(const Ad &a, const J &w, Src &s) {
    bool b; double d; int64_t i; size_t z; std::string t;
    need(a.isNull() == (w.t == J::Null), "isNull", w);
    need(a.isArray() == w.isArr(), "isArray", w);
    need(a.isObject() == w.isObj(), "isObject", w);
    need(a.isString() == w.isStr(), "isString", w);
    need(a.isBool() == (w.t == J::Bool), "isBool", w);
    need(a.isNumber() == w.isNum(), "isNumber", w);
    need(a.isNumber() == (a.isInteger() || a.isDouble()) , "isNumber is not one of isInteger and isDouble", w);
    need(a.hasStrictTypes() == kStrict, "hasStrictTypes", w);
    if (kStrict) {
        if (w.t == J::Int) need(a.isInteger(), "an integer is not isInteger", w);
        if (w.t == J::Dbl && std::floor(w.d) != w.d) need(a.isDouble(), "a fractional number is not isDouble", w);
    }
    // accessors for the value's own type give the value, all others refuse
    if (kStrict) {
        need(a.getBool(b) == (w.t == J::Bool), "getBool(result) accepts/refuses wrongly", w);
        if (w.t == J::Bool) need(b == w.b && a.getBool() == w.b && a.asBool() == w.b, "boolean value", w); else need(throws([&] { a.getBool(); }), "getBool() does not throw", w);
        bool isI = a.isInteger(), isD = a.isDouble();
        bool gi = a.getInteger(i);
        if (!isI) need(!gi && throws([&] { a.getInteger(); }), "getInteger accepts a value that is not an integer", w);
        else if (gi) need((long double)i == w.num() && a.getInteger() == i && a.asInteger() == i, "getInteger gives " + std::to_string(i), w);
        bool gd = a.getDouble(d);
        if (!isD && !isI) need(!gd && throws([&] { a.getDouble(); }), "getDouble accepts a value that is not a number", w);
        if (isD && !isI) need(gd && (long double)d == w.num() && a.getDouble() == d, "getDouble", w);
        bool gn = a.getNumber(d);
        need(gn == w.isNum(), "getNumber(result) accepts/refuses wrongly", w);
        if (gn) need(d == (double)w.num() && a.getNumber() == d && a.asDouble() == d, "getNumber gives " + jdouble(d), w);
        else need(throws([&] { a.getNumber(); }), "getNumber() does not throw", w);
        if (w.isIntegral() && std::fabs((double)w.num()) < 9e18) need(a.asInteger(i) && (long double)i == w.num() && a.asInteger() == i && a.maybeInteger(), "asInteger of an integral number", w);
    }
    else {
        // loosely typed: scalars may be read as any type their text converts to
        bool scalar = w.isStr();
        bool gb = a.getBool(b), gi = a.getInteger(i), gd = a.getDouble(d), gn = a.getNumber(d);
        if (!scalar) need(!gb && !gi && !gd && !gn, "a getter made a scalar of a value that is none", w);
        if (!gb) need(throws([&] { a.getBool(); }), "getBool() does not throw although getBool(result) refuses", w);
        if (!gi) need(throws([&] { a.getInteger(); }), "getInteger() does not throw although getInteger(result) refuses", w);
        if (!gd) need(throws([&] { a.getDouble(); }), "getDouble() does not throw although getDouble(result) refuses", w);
        if (!gn) need(throws([&] { a.getNumber(); }), "getNumber() does not throw although getNumber(result) refuses", w);
        if (scalar && w.s.find_first_of("0123456789") == std::string::npos) {
            need(!gi, "getInteger made an integer of a string without digits", w);
            if (w.s.find_first_of("nN") == std::string::npos) need(!gd, "getDouble made a number of a string without digits", w);
        }
    }
    if (a.isString()) need(a.getString(t) && t == w.s && a.getString() == w.s && a.asString() == w.s, "string value is " + a.getString(), w);
    else need(!a.getString(t) && throws([&] { a.getString(); }), "getString accepts a value that is not a string", w);
    if (!w.isArr()) need(!a.getArraySize(z) && throws([&] { a.getArraySize(); }) && throws([&] { (void)a.getArray(); }), "array accessors accept a value that is not an array", w);
    else need(a.getArraySize(z) && z == w.a.size(), "getArraySize(result)", w);
    if (!w.isObj()) need(!a.getObjectSize(z) && throws([&] { a.getObjectSize(); }) && throws([&] { (void)a.getObject(); }), "object accessors accept a value that is not an object", w);
    else need(a.getObjectSize(z) && z == w.o.size(), "getObjectSize(result)", w);
    auto nothingA = [&](const AnyAdapter &) { throw Fail{std::string(L::nm) + ": applyToArray visits something in " + jdump(w)}; return true; };
    auto nothingO = [&](const std::string &, const AnyAdapter &) { throw Fail{std::string(L::nm) + ": applyToObject visits something in " + jdump(w)}; return true; };
    if (!w.isArr()) { bool ok = a.applyToArray(nothingA); need(ok == (w.isObj() && w.o.empty()), "applyToArray on something else than an array", w); }
    if (!w.isObj()) { bool ok = a.applyToObject(nothingO); need(ok == (w.isArr() && w.a.empty()), "applyToObject on something else than an object", w); }
    if (w.isArr()) probeArray(a, w, s);
    if (w.isObj()) probeObject(a, w, s);
}
void adProbe(const void *doc, const J &want, Src &s) {
    const Ad a = adOf(doc);
    const Ad copy(a);
    need(jeq(adToJ(copy), adToJ(a)), "a copy of the adapter differs", want);
    probeAny(a, want, s);
}
} // namespace
const AdLib &CAT(ad, LIB)() {
    static const AdLib l{L::nm, kStrict, adLoad, adMake, adBlank, adBuild, adScribble, adPointer, adProbe};
    return l;
}
