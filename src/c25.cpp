// loadDocument: exactly the file's JSON, or a clean failure.
#include "common.hpp"
#include "libs.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include <valijson/utils/boost_json_utils.hpp>
#include <valijson/utils/jsoncpp_utils.hpp>
#include <valijson/utils/nlohmann_json_utils.hpp>
#include <valijson/utils/picojson_utils.hpp>
#include <valijson/utils/poco_json_utils.hpp>
#include <valijson/utils/property_tree_utils.hpp>
#include <valijson/utils/qtjson_utils.hpp>
#include <valijson/utils/qvariant_utils.hpp>
#include <valijson/utils/rapidjson_utils.hpp>
#include <valijson/utils/yaml_cpp_utils.hpp>
using namespace vc;
using valijson::adapters::Adapter;

static J read(const Adapter &a) {
    if (a.isNull()) return J();
    if (a.isBool()) return J(a.getBool());
    if (a.isString()) return J(a.getString());
    if (a.isArray()) { J r = J::arr(); a.applyToArray([&](const Adapter &x) { r.push(read(x)); return true; }); return r; }
    if (a.isObject()) { J r = J::obj(); a.applyToObject([&](const std::string &k, const Adapter &x) { r.o.emplace_back(k, read(x)); return true; }); return r; }
    int64_t i;
    if (a.isInteger() && a.getInteger(i)) return J((long long)i);
    return J(a.asDouble());
}
struct Loader {
    const char *name;
    std::function<std::shared_ptr<void>()> make;
    std::function<bool(const std::string &, void *)> load;
    std::function<J(const void *)> read;
    bool scalars, names; // takes scalars at the top level; keeps names that contain NUL
};
template <class L> static Loader loader(bool scalars, bool names = true) {
    return {L::nm, [] { return std::shared_ptr<void>(std::make_shared<typename L::Doc>()); },
            [](const std::string &p, void *d) { return valijson::utils::loadDocument(p, *static_cast<typename L::Doc *>(d)); },
            [](const void *d) { typename L::Ad a(*static_cast<const typename L::Doc *>(d)); return ::read(a); }, scalars, names};
}
static const std::vector<Loader> &loaders() {
    static const std::vector<Loader> l{loader<L_Rapid>(true), loader<L_RapidCrt>(true), loader<L_Nlohmann>(true), loader<L_JsonCpp>(true), loader<L_Pico>(true), loader<L_BoostJson>(true), loader<L_Poco>(false, false), loader<L_QtJson>(false), loader<L_QVariant>(false), loader<L_Ptree>(false), loader<L_Yaml>(true)};
    return l;
}
static bool isYaml(const Loader &l) { return l.name == std::string("yaml"); }
static bool isTree(const Loader &l) { return l.name == std::string("ptree"); }
static J asTree(const J &j) {
    switch (j.t) {
    case J::Str: return j.s.empty() ? J::arr() : j;
    case J::Arr: { J r = J::arr(); for (auto &x : j.a) r.push(asTree(x)); return r; }
    case J::Obj: { if (j.o.empty()) return J::arr(); J r = J::obj(); for (auto &p : j.o) r.o.emplace_back(p.first, asTree(p.second)); return r; }
    default: return J(jdump(j));
    }
}
static J asYaml(const J &j) {
    switch (j.t) {
    case J::Null: case J::Str: return j;
    case J::Arr: { J r = J::arr(); for (auto &x : j.a) r.push(asYaml(x)); return r; }
    case J::Obj: { J r = J::obj(); for (auto &p : j.o) r.o.emplace_back(p.first, asYaml(p.second)); return r; }
    default: return J(jdump(j));
    }
}
// equal, but for the last digits of a number (RapidJSON does not parse with full precision unless asked)
static bool same(const J &x, const J &y) {
    if (x.isNum() && y.isNum()) { long double a = x.num(), b = y.num(); return a == b || std::fabs(a - b) <= 1e-13L * std::fabs(b); }
    if (x.t != y.t) return false;
    if (x.isArr()) { if (x.a.size() != y.a.size()) return false; for (size_t i = 0; i < x.a.size(); i++) if (!same(x.a[i], y.a[i])) return false; return true; }
    if (x.isObj()) { if (x.o.size() != y.o.size()) return false; for (auto &m : x.o) { const J *o = y.get(m.first); if (!o || !same(m.second, *o)) return false; } return true; }
    return jeq(x, y);
}
static bool anyName(const J &j, const std::function<bool(const std::string &)> &f) {
    for (auto &x : j.a) if (anyName(x, f)) return true;
    for (auto &p : j.o) if (f(p.first) || anyName(p.second, f)) return true;
    return false;
}
// ---- texts
static std::string space(Src &s, bool yaml) {
    if (s.chance(2, 3)) return "";
    static const std::vector<std::string> w{" ", "\n", "  ", "\r\n", "\t", "\n\n \t", "\r"};
    return w[s.below(yaml ? 1 : w.size())];
}
static void quoted(Src &s, std::string &o, const std::string &t, bool yaml) {
    std::string q;
    jquote(q, t);
    if (yaml || s.chance(2, 3)) { o += q; return; }
    char b[16];
    o += '"';
    for (size_t i = 0; i < t.size();) { // any code point may be escaped
        unsigned char c = t[i];
        size_t n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        unsigned cp = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
        for (size_t k = 1; k < n && i + k < t.size(); k++) cp = cp << 6 | ((unsigned char)t[i + k] & 63);
        bool esc = c < 0x20 || c == '"' || c == '\\' || s.chance(1, 3);
        if (!esc) o += t.substr(i, n);
        else if (c == '/' && s.coin()) o += "\\/";
        else if (cp < 0x10000) { snprintf(b, sizeof b, s.coin() ? "\\u%04x" : "\\u%04X", cp); o += b; }
        else { snprintf(b, sizeof b, "\\u%04x\\u%04X", 0xD800 + ((cp - 0x10000) >> 10), 0xDC00 + ((cp - 0x10000) & 1023)); o += b; }
        i += n;
    }
    o += '"';
}
static void render(Src &s, std::string &o, const J &j, bool yaml) {
    o += space(s, yaml);
    if (j.isArr()) {
        o += '[';
        for (size_t i = 0; i < j.a.size(); i++) { if (i) o += yaml ? ", " : ","; render(s, o, j.a[i], yaml); }
        o += space(s, yaml) + "]";
    } else if (j.isObj()) {
        o += '{';
        for (size_t i = 0; i < j.o.size(); i++) {
            if (i) o += yaml ? ", " : ",";
            o += space(s, yaml);
            quoted(s, o, j.o[i].first, yaml);
            o += space(s, yaml) + (yaml ? ": " : ":");
            render(s, o, j.o[i].second, yaml);
        }
        o += space(s, yaml) + "}";
    } else if (j.isStr()) quoted(s, o, j.s, yaml);
    else o += jdump(j);
    o += space(s, yaml);
}
static J document(Src &s, const Loader &l) {
    gen::Cfg g;
    g.oddKeyPct = 30;
    if (isYaml(l)) { g.nul = false; g.controls = false; }
    J v = gen::value(s, g, s.range(0, 3));
    if (s.chance(1, 20)) { // larger than the usual buffers
        static const std::vector<int> sizes{500, 1024, 4095, 4096, 4097, 8192, 16384, 65535, 65536, 100000, 400000};
        size_t n = (size_t)s.pick(sizes) + (size_t)s.below(3);
        J a = J::arr({v});
        if (s.coin()) a.push(J(std::string(n, 'x'))); else for (size_t i = 0; i < n / 16; i++) a.push(i % 7 ? J((int)i) : v);
        v = a;
    }
    if (!l.scalars && !v.isArr() && !v.isObj()) v = s.coin() ? J::arr({v}) : J::obj({{"a", v}});
    if (isTree(l) && anyName(v, [](const std::string &k) { return k.empty(); })) v = J::obj({{"a", J(1)}}); // an array, to a property tree
    if (!l.names && anyName(v, [](const std::string &k) { return k.find('\0') != k.npos; })) v = J::arr({J("x")}); // cut by the Poco parser
    return v;
}
// ---- files
struct File {
    std::string dir, path;
    explicit File(Src &s) {
        static const std::vector<std::string> names{"schema.json", "a b.json", "\xC3\xA9.json", "x#y?z=%20", ".hidden", "noext", "a'b\"c.json"};
        char t[] = "/tmp/vc25-XXXXXX";
        if (!mkdtemp(t)) throw Fail{"harness: no scratch directory"};
        dir = t;
        path = dir + "/" + s.pick(names);
        if (s.chance(1, 12)) path = dir + "/" + std::string(200, 'n') + ".json";
    }
    ~File() { unlink(path.c_str()); rmdir(path.c_str()); rmdir(dir.c_str()); }
    void put(const std::string &t) {
        FILE *f = fopen(path.c_str(), "wb");
        if (!f || fwrite(t.data(), 1, t.size(), f) != t.size()) throw Fail{"harness: cannot write " + path};
        fclose(f);
    }
};
struct Quiet { // diagnostics go nowhere
    std::ostringstream o;
    std::streambuf *e, *c;
    Quiet() : e(std::cerr.rdbuf(o.rdbuf())), c(std::cout.rdbuf(o.rdbuf())) {}
    ~Quiet() { std::cerr.rdbuf(e); std::cout.rdbuf(c); }
};
static bool load(Ctx &c, const Loader &l, const std::string &path, void *doc, const std::string &what) {
    Quiet q;
    try { return l.load(path, doc); }
    catch (std::exception &e) { c.fail(std::string(l.name) + ": loading " + what + " threw '" + e.what() + "'"); }
    catch (...) { c.fail(std::string(l.name) + ": loading " + what + " threw"); }
    return false;
}
static std::string brief(const std::string &t) { std::string o; jquote(o, t.size() > 300 ? t.substr(0, 300) + "..." : t); return o + " (" + std::to_string(t.size()) + " bytes)"; }

// a history of loads into the same document object, or fresh ones
static void history(Ctx &c) {
    Src &s = c.s;
    const Loader &l = s.pick(loaders());
    File f(s);
    std::shared_ptr<void> doc = l.make();
    c.desc = std::string(l.name) + ":";
    for (int n = s.range(1, 4); n > 0; n--) {
        if (s.chance(1, 4)) { doc = l.make(); c.desc += " fresh"; }
        J v = document(s, l);
        std::string t;
        render(s, t, v, isYaml(l));
        switch (s.weighted({12, 6, 4, 2, 2, 2, 1})) {
        case 0: { // well-formed
            f.put(t);
            c.desc += " load " + brief(t);
            if (!load(c, l, f.path, doc.get(), brief(t))) c.fail(std::string(l.name) + " refuses the well-formed document " + brief(t));
            J want = isTree(l) ? asTree(v) : isYaml(l) ? asYaml(v) : v, got = l.read(doc.get());
            if (!same(got, want)) c.fail(std::string(l.name) + " reads " + brief(jdump(got)) + " from " + brief(t));
            c.label("loaded"); c.label(l.name);
            if (t.size() > 400) c.label("large");
            if (v.a.size() + v.o.size() > 0) c.nontrivial = true;
            break;
        }
        case 1: { // cut short
            size_t b = t.find_first_not_of(" \t\r\n"), e = t.find_last_not_of(" \t\r\n");
            if (b == t.npos || (t[b] != '[' && t[b] != '{')) { t = "[" + t + "]"; b = 0; e = t.size() - 1; }
            size_t at = s.chance(1, 4) ? e : b + 1 + s.below(e - b);
            t = t.substr(0, at);
            f.put(t);
            c.desc += " cut " + brief(t);
            if (load(c, l, f.path, doc.get(), brief(t))) c.fail(std::string(l.name) + " accepts the truncated document " + brief(t));
            c.label("truncated"); c.nontrivial = true;
            break;
        }
        case 2: { // damaged in one place: whatever the library thinks of it, no exceptions
            size_t at = s.below(t.size());
            static const std::vector<std::string> junk{"\"", "{", "}", "[", "]", ",", ":", "\\", std::string(1, '\0'), "\xFF", "\xC0\x80", "\xED\xA0\x80", "1e999", "-", "0x", "nul", "\\u12", "'", "#", "//", "&a", "*a", "!", "|", "%", "NaN", "1e-999", "99999999999999999999999"};
            if (s.coin()) t.insert(at, s.pick(junk)); else if (s.coin()) t.replace(at, 1, s.pick(junk)); else t.erase(at, 1 + s.below(3));
            f.put(t);
            c.desc += " damaged " + brief(t);
            bool ok = load(c, l, f.path, doc.get(), brief(t));
            if (ok) { try { l.read(doc.get()); } catch (std::exception &) {} }
            c.label(ok ? "damaged-accepted" : "damaged-rejected"); c.nontrivial = true;
            break;
        }
        case 3: { // something follows the document
            size_t b = t.find_first_not_of(" \t\r\n");
            if (isYaml(l) || (t[b] != '[' && t[b] != '{')) break;
            static const std::vector<std::string> more{"{}", "[1]", "x", "}", "]", ",", "\"\"", "1", "{"};
            t += s.pick(more);
            f.put(t);
            c.desc += " followed " + brief(t);
            if (load(c, l, f.path, doc.get(), brief(t))) c.fail(std::string(l.name) + " loads only the beginning of " + brief(t));
            c.label("followed"); c.nontrivial = true;
            break;
        }
        case 4: { // nothing there
            std::string p = f.path;
            std::string what = "a missing file";
            switch (s.below(4)) {
            case 0: unlink(p.c_str()); break;
            case 1: p = ""; what = "an empty path"; break;
            case 2: p = f.dir; what = "a directory"; break;
            default: f.put("x"); p += "/x"; what = "a path below a file"; break;
            }
            c.desc += " " + what;
            if (load(c, l, p, doc.get(), what)) c.fail(std::string(l.name) + " succeeds for " + what);
            c.label("missing"); c.nontrivial = true;
            break;
        }
        case 6: { // deeper than a library may like
            int n = s.pick(std::vector<int>{20, 31, 32, 33, 99, 101, 499, 501, 1000, 1001, 1025, 3000});
            bool arr = s.coin(), cut = s.chance(1, 3);
            t.clear();
            for (int i = 0; i < n; i++) t += arr ? "[" : isYaml(l) ? "{a: " : "{\"a\":";
            t += "1";
            for (int i = 0; i < n; i++) t += arr ? "]" : "}";
            if (cut) t.pop_back();
            f.put(t);
            c.desc += " deep " + std::to_string(n) + (arr ? "[" : "{") + (cut ? " cut" : "");
            std::string what = std::to_string(n) + " nested containers";
            if (load(c, l, f.path, doc.get(), what)) {
                if (cut) c.fail(std::string(l.name) + " accepts " + what + " without the last bracket");
                J got = l.read(doc.get());
                const J *at = &got;
                for (int i = 0; i < n; i++) at = arr ? (at->isArr() && at->a.size() == 1 ? &at->a[0] : nullptr) : at->get("a"), at = at ? at : (c.fail(std::string(l.name) + " reads something else than " + what), at);
                c.label("deep-accepted");
            } else if (n <= 31 && !cut) c.fail(std::string(l.name) + " refuses " + what); else c.label("deep-rejected");
            c.nontrivial = true;
            break;
        }
        default: { // blank
            if (isYaml(l)) break; // null
            t = s.pick(std::vector<std::string>{"", " ", "\n", "\r\n\t ", std::string(1, '\0')});
            f.put(t);
            c.desc += " blank " + brief(t);
            if (load(c, l, f.path, doc.get(), "a blank file")) c.fail(std::string(l.name) + " succeeds for a blank file");
            c.label("blank"); c.nontrivial = true;
            break;
        }
        }
    }
    c.key = c.desc;
}
static void files(Ctx &c) {
    Src &s = c.s;
    File f(s);
    std::string t, dest = s.coin() ? "before" : "";
    size_t n = s.chance(1, 6) ? s.below(200000) : s.below(40);
    for (size_t i = 0; i < std::min<size_t>(n, 40); i++) t += s.pick(std::string("a\0\r\n\x1A\xFF\x00 {\t\xEF\xBB\xBF", 14));
    for (size_t i = t.size(); i < n; i++) t += (char)(i * 2654435761u >> 7);
    f.put(t);
    c.desc = "loadFile " + brief(t);
    c.key = c.desc;
    c.nontrivial = n > 0;
    if (!valijson::utils::loadFile(f.path, dest)) c.fail("loadFile fails for " + brief(t));
    if (dest != t) c.fail("loadFile yields " + brief(dest) + " for " + brief(t));
    if (valijson::utils::loadFile(f.path + "x", dest)) c.fail("loadFile succeeds for a missing file");
}
int main(int argc, char **argv) {
    Check ck;
    ck.id = "C25";
    ck.rule = "Histories of 1..4 loads with utils::loadDocument of 11 document types into the same document object or fresh ones, from files with odd names in a scratch directory: random JSON values rendered with random whitespace, line endings and escapes (up to 400 kB), all kinds of truncation, one-place damage, trailing content, deep nesting, blank files, missing paths, directories. Oracles: a well-formed document loads and reads back equal to the generated value whatever the object held before; truncated, followed, blank and missing ones return false; nothing throws or is flagged by AddressSanitizer. 'files': loadFile reproduces arbitrary bytes. "
              "Non-trivial: a container with elements, or a failing load; distinct by history.";
    ck.assumptions = {"Poco, Qt and property trees take arrays and objects at the top level only", "property trees and YAML keep scalars as text; names with NUL are cut by the Poco parser", "numbers may differ in the last digits", "YAML files are not JSON: blank files, several documents and most damage are acceptable there"};
    ck.subs.push_back({"history", 40000, 1500000, history});
    ck.subs.push_back({"files", 10000, 200000, files});
    return runMain(argc, argv, ck);
}
