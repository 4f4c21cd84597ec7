#include <memory>
#include "common.hpp"
#include <valijson/utils/utf8_utils.hpp>
using namespace vc;

static const std::vector<const Lib *> &libs() {
    static const std::vector<const Lib *> v{&libRapid(), &libNlohmann(), &libJsonCpp(), &libPico(), &libBoostJson(), &libQtJson()};
    return v;
}
static unsigned cp(Src &s) {
    static const unsigned edge[] = {0x61, 0x00, 0x7F, 0x80, 0xE9, 0x7FF, 0x800, 0xFFF, 0x1000, 0x65E5, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF, 0x301, 0x200D};
    switch (s.weighted({4, 6, 2, 2, 2})) {
    case 0: return 'a' + s.below(26);
    case 1: return edge[s.below(24)];
    case 2: return 0x80 + s.below(0x800 - 0x80);
    case 3: { unsigned v = 0x800 + s.below(0x10000 - 0x800); return v >= 0xD800 && v <= 0xDFFF ? 0xD7FF : v; }
    default: return 0x10000 + s.below(0x100000);
    }
}
static std::string good(Src &s, int n) { std::string o; for (int i = 0; i < n; i++) JParser::utf8(o, cp(s)); return o; }
// Bytes that are not UTF-8: truncated, stray, overlong, surrogates, beyond the last plane, impossible.
static std::string bad(Src &s) {
    std::string o;
    int n = s.range(1, 6);
    for (int i = 0; i < n; i++)
        switch (s.below(6)) {
        case 0: { std::string t; JParser::utf8(t, 0x80 + (unsigned)s.below(0x10FF80)); o += t.substr(0, s.below(t.size()) + 1); break; }
        case 1: o += (char)(0x80 + s.below(64)); break;
        case 2: o += (char)(0xC0 + s.below(64)); break;
        case 3: o += s.pick(std::vector<std::string>{"\xC0\x80", "\xE0\x80\x80", "\xED\xA0\x80", "\xED\xBF\xBF", "\xF4\x90\x80\x80", "\xF8\x88\x80\x80\x80", "\xFC", "\xFE", "\xFF", "\xF0\x8F\xBF\xBF", "\xF5\x80\x80\x80", "\xFF\xFF\xFF\xFF"}); break;
        case 4: o += (char)s.below(256); break;
        default: JParser::utf8(o, cp(s));
        }
    return o;
}
static std::string hex(const std::string &t) { std::string o; char b[4]; for (unsigned char c : t) { snprintf(b, sizeof b, "%02X ", c); o += b; } return o; }
// counts in a heap block of exactly the right size, so that any overrun is seen
static uint64_t count(Ctx &c, const std::string &t) {
    std::unique_ptr<char[]> b(new char[t.size()]);
    memcpy(b.get(), t.data(), t.size());
    uint64_t n = valijson::utils::u8_strlen(b.get(), t.size());
    c.require(memcmp(b.get(), t.data(), t.size()) == 0, "u8_strlen changed its input");
    return n;
}

static void helper(Ctx &c) {
    Src &s = c.s;
    int n = s.range(0, 8), m = s.range(0, 4);
    std::string a = good(s, n), z = good(s, m);
    c.desc = hex(a);
    auto is = [&](const std::string &t, uint64_t want, const char *what) {
        uint64_t got = count(c, t);
        if (got != want) c.fail(std::string("u8_strlen counts ") + std::to_string(got) + " code points in " + what + " " + hex(t) + "- expected " + std::to_string(want));
    };
    is(a, n, "valid UTF-8");
    if (s.coin()) {
        std::string x = bad(s);
        c.desc += "| " + hex(x) + "| " + hex(z);
        uint64_t k = count(c, x), starts = 0;
        for (char ch : x) starts += ((unsigned char)ch & 0xC0) != 0x80;
        if (k > x.size() || k < starts || k == 0) c.fail("u8_strlen counts " + std::to_string(k) + " code points in " + std::to_string(x.size()) + " bytes of which " + std::to_string(starts) + " start a code point: " + hex(x));
        is(a + x, n + k, "valid and malformed UTF-8");
        is(x + z, k + m, "malformed UTF-8 before whole code points");
        c.label("malformed");
    } else is(a + z, n + m, "valid UTF-8");
    for (size_t i = 0; i <= a.size(); i++) count(c, a.substr(0, i)); // every truncation
    c.nontrivial = a.size() + z.size() > (size_t)(n + m) || c.desc.find('|') != std::string::npos;
}
static J bound(Src &s, long long n) {
    switch (s.weighted({6, 3, 2})) {
    case 0: return J(std::max(0LL, n + s.range(-1, 1)));
    case 1: return J((long long)s.below(n + 3));
    default: return J(n + s.pick(std::vector<long long>{255, 256, 65536, 2147483648LL, 4294967296LL, 4294967295LL, 281474976710656LL}));
    }
}
static void keyword(Ctx &c) {
    Src &s = c.s;
    int n = s.weighted({8, 1, 1}) ? s.pick({31, 32, 63, 64, 127, 128, 255, 256, 257, 1000, 4096}) : s.range(0, 8);
    std::string t = good(s, std::min(n, 8));
    if (n > 8) { std::string one = good(s, 1); while ((int)codePoints(t) < n) t += one; }
    bool lower = s.coin();
    J b = bound(s, n), in = J::obj(), schema = J::obj(), doc;
    in.set(lower ? "minLength" : "maxLength", b);
    bool want = lower ? n >= b.i : n <= b.i;
    switch (s.below(3)) {
    case 0: schema = in; doc = J(t); break;
    case 1: schema.set("items", in); doc = J::arr(); doc.push(J(t)); break;
    default: schema.set("propertyNames", in); doc = J::obj(); doc.set(t, J(1)); break;
    }
    c.desc = "schema " + jdump(schema) + "  document " + jdump(doc).substr(0, 200) + " (" + std::to_string(n) + " code points)";
    const Lib &l = *s.pick(libs());
    Parsed p = mustParse(l, Draft::D7, schema);
    valijson::ValidationResults r;
    bool got = validate(l, *l.validator({}), *p.schema, doc, s.coin() ? &r : nullptr);
    if (got != want) c.fail(std::string(l.name) + " says " + word(got) + " but " + std::to_string(n) + " code points are " + word(want));
    c.label(l.name);
    c.label(want ? "valid" : "invalid");
    c.nontrivial = t.size() != codePoints(t) || n > 8 || std::abs(b.i - n) <= 1;
}
// Malformed text in a document: one length, whichever way it is asked for.
static void malformed(Ctx &c) {
    Src &s = c.s;
    std::string x = bad(s), esc;
    for (char ch : x) { if ((unsigned char)ch < 0x20 || ch == '"' || ch == '\\' || ch == 0x7f) ch = 'a'; esc += ch; }
    x = esc;
    c.desc = hex(x);
    uint64_t n = count(c, x);
    DocPtr d = libRapid().load("\"" + x + "\"");
    if (!d) c.discard();
    auto v = libRapid().validator({});
    for (uint64_t m = 0; m <= x.size() + 1; m++)
        for (bool lower : {true, false}) {
            J schema = J::obj();
            schema.set(lower ? "minLength" : "maxLength", J((long long)m));
            Parsed p = mustParse(libRapid(), Draft::D7, schema);
            bool got;
            try { got = v->validate(*p.schema, d.get(), nullptr); } catch (std::exception &e) { c.fail(std::string("validation threw ") + e.what()); }
            if (got != (lower ? n >= m : n <= m)) c.fail(jdump(schema) + " is " + word(got) + " for malformed bytes " + hex(x) + "whose length is " + std::to_string(n));
        }
    c.nontrivial = true;
}

int main(int argc, char **argv) {
    Check ck;
    ck.id = "C14";
    ck.rule = "'helper' counts generated code point sequences (all planes, NUL, every truncation, malformed bytes before and after whole code points) in exactly sized heap blocks under AddressSanitizer; 'keyword' compares minLength/maxLength with the number of generated code points for strings, items and property names in six libraries; "
              "'malformed' asks for every bound of a malformed string. Non-trivial: some code point takes several bytes, the string is long or malformed, or the bound is within one of the length.";
    ck.assumptions = {"the length of malformed UTF-8 is only required to be between its number of start bytes and its number of bytes, and not to swallow neighbouring code points"};
    ck.subs.push_back({"helper", 300000, 20000000, helper});
    ck.subs.push_back({"keyword", 200000, 6000000, keyword});
    ck.subs.push_back({"malformed", 40000, 1500000, malformed});
    return runMain(argc, argv, ck);
}
