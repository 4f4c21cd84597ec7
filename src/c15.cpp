#include <clocale>
#include <fstream>
#include <locale>
#include <unistd.h>
#include <valijson/adapters/std_string_adapter.hpp>
#include <valijson/internal/double_parser.hpp>
#include "ad.hpp"
#include "common.hpp"
using namespace vc;

bool parseDouble_chars(const std::string &, double &);
bool parseDouble_fast(const std::string &, double &);
bool parseDouble_stream(const std::string &, double &);

// ---- locales: a C locale made for the occasion, and C++ locales with their own facet
static bool haveC = false;
static const char *const kName = "vv_VV";
static void makeLocale() {
    char dir[] = "/tmp/vlocXXXXXX";
    if (!mkdtemp(dir)) return;
    std::string d = dir;
    std::ofstream(d + "/src") << "comment_char %\nescape_char /\nLC_IDENTIFICATION\ntitle \"t\"\nEND LC_IDENTIFICATION\nLC_NUMERIC\ndecimal_point \"<U002C>\"\nthousands_sep \"<U002E>\"\ngrouping 3;3\nEND LC_NUMERIC\nLC_CTYPE\nEND LC_CTYPE\n";
    std::ofstream(d + "/map") << "<code_set_name> ANSI_X3.4-1968\n<comment_char> %\n<escape_char> /\nCHARMAP\n<U002C> /x2c COMMA\n<U002E> /x2e FULL STOP\n<U0030> /x30 ZERO\n<U0031> /x31 ONE\nEND CHARMAP\n";
    std::string cmd = "localedef -c -i " + d + "/src -f " + d + "/map " + d + "/" + kName + " >/dev/null 2>&1";
    if (system(cmd.c_str())) {}
    setenv("LOCPATH", dir, 1);
    if (setlocale(LC_NUMERIC, kName)) { haveC = std::string(localeconv()->decimal_point) == ","; setlocale(LC_NUMERIC, "C"); }
    for (const char *f : {"/src", "/map"}) unlink((d + f).c_str());
    std::string l = d + "/" + kName;
    for (const char *f : {"LC_ADDRESS", "LC_COLLATE", "LC_CTYPE", "LC_IDENTIFICATION", "LC_MEASUREMENT", "LC_MESSAGES/SYS_LC_MESSAGES", "LC_MONETARY", "LC_NAME", "LC_NUMERIC", "LC_PAPER", "LC_TELEPHONE", "LC_TIME"}) unlink((l + "/" + f).c_str());
    rmdir((l + "/LC_MESSAGES").c_str());
    rmdir(l.c_str());
    rmdir(dir);
    // the locale is in memory by now and stays there
}
struct Punct : std::numpunct<char> {
    char dp, ts; std::string gr;
    Punct(char d, char t, std::string g) : dp(d), ts(t), gr(std::move(g)) {}
    char do_decimal_point() const override { return dp; }
    char do_thousands_sep() const override { return ts; }
    std::string do_grouping() const override { return gr; }
};
static const std::vector<std::locale> &locales() {
    static const std::vector<std::locale> v{std::locale::classic(), std::locale(std::locale::classic(), new Punct(',', '.', "\3")), std::locale(std::locale::classic(), new Punct('.', ',', "\3")), std::locale(std::locale::classic(), new Punct(',', ' ', "")), std::locale(std::locale::classic(), new Punct('.', '.', "\1"))};
    return v;
}
struct InLocale { // for the duration of a call into the library
    int k; bool c;
    InLocale(int kk, bool cc) : k(kk), c(cc && haveC) { std::locale::global(locales()[k]); if (c) setlocale(LC_NUMERIC, kName); }
    ~InLocale() { std::locale::global(std::locale::classic()); setlocale(LC_NUMERIC, "C"); }
};

// ---- texts
static std::string numberText(Src &s) {
    switch (s.weighted({3, 4, 3, 2, 2, 2})) {
    case 0: return std::to_string(s.range(-2000, 2000));
    case 1: { // decimal of random shape
        std::string t = s.chance(1, 3) ? "-" : "";
        int a = s.range(0, 18), b = s.range(0, 20);
        if (!a) t += "0"; else { t += (char)('1' + s.below(9)); for (int i = 1; i < a; i++) t += (char)('0' + s.below(10)); }
        if (b) { t += "."; for (int i = 0; i < b; i++) t += (char)('0' + s.below(10)); }
        if (s.chance(1, 3)) { t += s.coin() ? "e" : "E"; t += s.pick(std::vector<std::string>{"", "+", "-"}); int e = s.chance(1, 3) ? s.range(0, 330) : s.range(0, 25); t += std::to_string(e); }
        return t;
    }
    case 2: { // bits of a double, printed
        uint64_t u = s.below(~0ull);
        double d; memcpy(&d, &u, 8);
        if (!std::isfinite(d)) d = 1.7976931348623157e308;
        char b[64];
        snprintf(b, sizeof b, s.pick({"%.17g", "%.16g", "%.20g", "%.15g"}), d);
        std::string t = b;
        auto p = t.find("e+");
        if (p != t.npos && s.coin()) t.erase(p + 1, 1);
        return t;
    }
    case 3: { // half way between two doubles
        uint64_t m = (1ull << 52) + s.below(1ull << 52);
        int sh = s.range(0, 8);
        unsigned __int128 v = ((unsigned __int128)m * 2 + 1) << sh;
        std::string t;
        for (; v; v /= 10) t.insert(t.begin(), (char)('0' + (int)(v % 10)));
        switch (s.below(4)) { case 0: return t; case 1: return t + ".0000000000000000000000001"; case 2: return t + "e0"; default: return "-" + t; }
    }
    case 4: return s.pick(std::vector<std::string>{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "9007199254740993", "18446744073709551615", "0", "-0", "0.0", "-0.0", "0e0", "1e0", "1E+2", "4.9e-324", "2.2250738585072014e-308", "1.7976931348623157e308", "0.1", "0.30000000000000004", "123456789012345678901234567890", "1e22", "1e23", "8.5e-5", "100000", "1234567.5", "1.5"});
    default: return std::to_string((long long)s.below(~0ull));
    }
}
static std::string junk(Src &s) {
    if (s.coin()) return s.pick(std::vector<std::string>{"", "-", "+", ".", "e", "E5", "1e", "1e+", "1e-", "--1", "1-", "1 ", " 1", "1\n", "\t1", "0x10", "0x1p3", "1f", "1.5f", "1L", "1,5", "1.000,5", "1,000", "1 000", "1.2.3", "nan", "NaN", "inf", "-inf", "Infinity", "-infinity", "true", "null", "one", "1e5.5", "1_000", "+1", "+1.5", "+0", "-+1", "+-1", "\xC2\xA0" "1", "1\xC2\xA0", "\xD9\xA1", "\xE2\x88\x92" "1", "1e\xE2\x88\x92" "5", std::string("1\0", 2), std::string("\0" "1", 2), std::string("1.5\0x", 5), std::string("\0", 1), "1.5 2.5", "1/2", "(1)", "1;", "$1", "1%", "0b1", "1e5e5", "nan(1)", "snan", "1.5,", ",5", "1e1 ", "INF", "-nan"});
    std::string t = numberText(s);
    static const std::string bits = "0123456789+-.eE, x\0\n_fnaiLp'\"";
    for (int n = s.range(1, 2); n--;) {
        size_t at = s.below(t.size() + 1);
        std::string b(1, bits[s.below(bits.size())]);
        switch (s.below(3)) { case 0: t.insert(at, b); break; case 1: if (at < t.size()) t.erase(at, 1); break; default: if (at < t.size()) t[at] = b[0]; }
    }
    return t;
}
// 1 JSON number in range, 0 no number, -1 open
static int classify(const std::string &t, double &d) {
    J n;
    try { if (!RefVal::numText(t, n)) return 0; } catch (Ambiguous &) { return -1; }
    d = strtod(t.c_str(), nullptr);
    return 1;
}
static std::string q(const std::string &t) { return jdump(J(t)); }
static bool eq(double a, double b) { return a == b && std::signbit(a) == std::signbit(b); }

static void parser(Ctx &c) {
    Src &s = c.s;
    bool isJunk = s.chance(1, 2);
    std::string t = isJunk ? junk(s) : numberText(s);
    int k = (int)s.below(locales().size());
    bool cl = s.coin();
    c.desc = q(t) + " locale " + std::to_string(k) + (cl ? " and C" : "");
    double want = 0;
    int cls = classify(t, want);
    struct { const char *name; bool (*f)(const std::string &, double &); } impl[] = {{"std::from_chars", parseDouble_chars}, {"fast_float", parseDouble_fast}, {"istringstream", parseDouble_stream}, {"default", [](const std::string &x, double &d) { return valijson::internal::parseDouble(x, d); }}};
    for (auto &i : impl) {
        double got = 12345.5;
        bool ok, again, same; double got2 = 12345.5;
        { InLocale l(k, cl); ok = i.f(t, got); }
        again = i.f(t, got2);
        same = ok == again && (!ok || eq(got, got2));
        if (!same) c.fail(std::string("parseDouble (") + i.name + ") of " + q(t) + " depends on the locale");
        if (cls >= 0 && ok != (cls == 1)) c.fail(std::string("parseDouble (") + i.name + ") " + (ok ? "accepts " : "refuses ") + q(t));
        if (ok && !std::isfinite(got)) c.fail(std::string("parseDouble (") + i.name + ") of " + q(t) + " is not finite");
        if (cls == 1 && !eq(got, want)) c.fail(std::string("parseDouble (") + i.name + ") of " + q(t) + " is " + jdouble(got) + " instead of " + jdouble(want));
    }
    bool ok; int64_t v = 777;
    { InLocale l(k, cl); ok = valijson::internal::parseInteger(t, v); }
    size_t b = !t.empty() && t[0] == '-';
    bool digits = t.size() > b && t.find_first_not_of("0123456789", b) == t.npos;
    if (!digits) { if (ok) c.fail("parseInteger accepts " + q(t)); }
    else if (cls == 1) {
        errno = 0;
        long long w = strtoll(t.c_str(), nullptr, 10);
        if (ok != (errno == 0)) c.fail(std::string("parseInteger ") + (ok ? "accepts " : "refuses ") + q(t));
        if (ok && v != w) c.fail("parseInteger of " + q(t) + " is " + std::to_string(v));
    }
    c.label(cls == 1 ? "number" : cls == 0 ? "junk" : "open");
    c.nontrivial = !t.empty();
}
static void printer(Ctx &c) {
    Src &s = c.s;
    double d;
    if (s.coin()) d = s.range(-1000000, 1000000) / s.pick({1.0, 2.0, 8.0, 10.0, 100.0, 1000.0});
    else { uint64_t u = s.below(~0ull); memcpy(&d, &u, 8); if (!std::isfinite(d)) d = 0.1; }
    int k = (int)s.below(locales().size());
    bool cl = s.coin();
    c.desc = jdouble(d) + " locale " + std::to_string(k);
    const char *which = "";
    std::string text = "[" + jdouble(d) + "]", t;
    static const std::vector<const AdLib *> ads{&adNlohmann(), &adJsonCpp(), &adQtJson(), &adBoostJson(), &adPoco()};
    const AdLib &l = *s.pick(ads);
    DocPtr doc = l.load(text);
    auto a = l.make(doc.get());
    double held = 0;
    a->applyToArray([&](const AnyAdapter &e) { held = e.getNumber(); { InLocale in(k, cl); t = e.asString(); } return true; });
    double back = 0;
    int cls = classify(t, back);
    if (!cls || (cls > 0 && back != held)) c.fail(std::string(l.name) + ": asString of " + jdouble(held) + " is " + q(t) + which);
    c.nontrivial = std::floor(d) != d;
}
static void adapters(Ctx &c) {
    Src &s = c.s;
    std::string t = s.chance(1, 3) ? junk(s) : numberText(s);
    int k = (int)s.below(locales().size());
    bool cl = s.coin();
    c.desc = q(t) + " locale " + std::to_string(k);
    double want = 0;
    int cls = classify(t, want);
    if (cls < 0) c.discard();
    if (t.find('\0') != t.npos) c.discard(); // not every library keeps it
    static const std::vector<const AdLib *> ads{&adRapid(), &adNlohmann(), &adJsonCpp(), &adPico(), &adBoostJson(), &adPoco(), &adQtJson(), &adQVariant(), &adPtree(), &adYaml()};
    auto check = [&](const char *who, const AnyAdapter &e) {
        double d = 0; bool ok, maybe;
        { InLocale in(k, cl); ok = e.asDouble(d); maybe = e.maybeDouble(); }
        if (ok != (cls == 1) || maybe != ok) c.fail(std::string(who) + (ok ? " converts " : " does not convert ") + q(t));
        if (ok && d != want) c.fail(std::string(who) + " converts " + q(t) + " to " + jdouble(d) + " instead of " + jdouble(want));
    };
    for (int n = 0; n < 3; n++) {
        const AdLib &l = *s.pick(ads);
        // as a string everywhere; as a number where the library keeps the text
        bool bare = cls == 1 && !l.strictTypes && s.coin();
        DocPtr doc = l.load("[" + (bare ? t : q(t)) + "]");
        if (!doc) c.fail(std::string("harness: ") + l.name + " rejected " + q(t));
        auto a = l.make(doc.get());
        bool seen = false;
        a->applyToArray([&](const AnyAdapter &e) { seen = true; check(l.name, e); return true; });
        if (!seen) c.label("no-array");
        c.label(l.name);
    }
    valijson::adapters::StdStringAdapter e(t);
    check("StdString", e);
    c.nontrivial = true;
}
// Whole validations, in a hostile locale.
static void verdicts(Ctx &c) {
    Src &s = c.s;
    gen::Cfg cfg;
    cfg.draft = s.pick({Draft::D7, Draft::D4, Draft::D3});
    J schema = gen::schema(s, cfg, s.range(0, 2));
    auto docs = documents(s, cfg, schema, 1, 2);
    int k = (int)s.below(locales().size());
    bool cl = s.coin(), weak = s.coin();
    c.desc = std::string(draftName(cfg.draft)) + " schema " + jdump(schema) + "  documents " + docsText(docs) + (weak ? " weak" : "") + " locale " + std::to_string(k);
    static const std::vector<const Lib *> ls{&libRapid(), &libNlohmann(), &libYaml(), &libPtree()};
    const Lib &sl = *s.pick(std::vector<const Lib *>{&libRapid(), &libNlohmann()});
    const Lib &l = weak ? *s.pick(ls) : sl;
    std::string st = jdump(schema);
    DocPtr sd = sl.load(st);
    std::unique_ptr<valijson::Schema> a(new valijson::Schema), b(new valijson::Schema);
    sl.parse(sd.get(), cfg.draft, *a);
    { InLocale in(k, cl); sl.parse(sd.get(), cfg.draft, *b); }
    for (auto &d : docs) {
        DocPtr dd = l.load(jdump(d));
        if (!dd) { c.label("cannot-load"); continue; }
        valijson::ValidationResults ra, rb;
        bool va = l.validator({weak, false})->validate(*a, dd.get(), &ra), vb;
        { InLocale in(k, cl); vb = l.validator({weak, false})->validate(*b, dd.get(), &rb); }
        if (va != vb) c.fail(std::string(l.name) + " document is " + word(vb) + " in another locale but " + word(va) + " otherwise: " + jdump(d) + " schema " + st);
        if (ra.numErrors() != rb.numErrors()) c.fail("another number of errors in another locale: " + jdump(d) + " schema " + st);
        valijson::ValidationResults::Error x, y;
        while (ra.popError(x)) { rb.popError(y); if (x.jsonPointer != y.jsonPointer) c.fail("another error in another locale: '" + y.description + "' instead of '" + x.description + "' for " + jdump(d) + " schema " + st); }
        c.label(va ? "valid" : "invalid");
    }
    c.nontrivial = schema.isObj() && !schema.o.empty();
}

int main(int argc, char **argv) {
    makeLocale();
    Check ck;
    ck.id = "C15";
    ck.rule = "'parser' gives number texts (random decimals, printed doubles, half-way cases, integer limits) and near misses to all three implementations of parseDouble and to parseInteger, in the C locale and in C++/C locales with decimal comma and grouping; the oracle is the JSON number grammar and correctly rounded strtod. "
              "'printer' round-trips asString, 'adapters' compares asDouble of text in ten libraries, 'verdicts' compares whole validations across locales. Non-trivial: the text is not empty / the number is fractional / the schema has a keyword.";
    ck.assumptions = {"decimal forms JSON does not have (.5, 5., 007) and over- and underflow are open", haveC ? "a C locale with decimal comma was generated with localedef" : "no C locale with decimal comma could be made: C++ locales only"};
    ck.subs.push_back({"parser", 2000000, 15000000, parser});
    ck.subs.push_back({"printer", 400000, 4000000, printer});
    ck.subs.push_back({"adapters", 400000, 4000000, adapters});
    ck.subs.push_back({"verdicts", 250000, 2000000, verdicts});
    return runMain(argc, argv, ck);
}
