#include "wrap.hpp"
using namespace vc;

// ---- RFC 3339 and dotted quads, written from the grammar
static bool dig(char c) { return c >= '0' && c <= '9'; }
static int digits(const std::string &s, size_t at, int n) {
    if (at + n > s.size()) return -1;
    int v = 0;
    for (int i = 0; i < n; i++) { if (!dig(s[at + i])) return -1; v = v * 10 + (s[at + i] - '0'); }
    return v;
}
static bool fullDate(const std::string &s) {
    if (s.size() != 10 || s[4] != '-' || s[7] != '-') return false;
    int y = digits(s, 0, 4), m = digits(s, 5, 2), d = digits(s, 8, 2);
    if (y < 0 || m < 1 || m > 12 || d < 1) return false;
    static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    int lim = len[m - 1];
    if (m == 2 && ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0)) lim = 29;
    return d <= lim;
}
static bool fullTime(const std::string &s, bool permissive) {
    if (s.size() < 8 || s[2] != ':' || s[5] != ':') return false;
    int h = digits(s, 0, 2), m = digits(s, 3, 2), sec = digits(s, 6, 2);
    if (h < 0 || h > 23 || m < 0 || m > 59 || sec < 0 || sec > 60) return false;
    size_t i = 8;
    if (i < s.size() && s[i] == '.') {
        size_t b = ++i;
        while (i < s.size() && dig(s[i])) i++;
        if (i == b) return false;
    }
    int off = 0;
    if (i == s.size()) { if (!permissive) return false; }
    else if (s[i] == 'Z' || s[i] == 'z') { if (i + 1 != s.size()) return false; }
    else if (s[i] == '+' || s[i] == '-') {
        if (s.size() != i + 6 || s[i + 3] != ':') return false;
        int oh = digits(s, i + 1, 2), om = digits(s, i + 4, 2);
        if (oh < 0 || oh > 23 || om < 0 || om > 59) return false;
        off = (s[i] == '-' ? -1 : 1) * (oh * 60 + om);
    } else return false;
    if (sec == 60) { int u = h * 60 + m - off; while (u < 0) u += 1440; if (u % 1440 != 23 * 60 + 59) return false; }
    return true;
}
static bool dateTime(const std::string &s, bool permissive) {
    return s.size() > 11 && fullDate(s.substr(0, 10)) && (s[10] == 'T' || s[10] == 't') && fullTime(s.substr(11), permissive);
}
static bool ipv4(const std::string &s) {
    size_t i = 0;
    for (int k = 0; k < 4; k++) {
        if (k) { if (i >= s.size() || s[i] != '.') return false; i++; }
        size_t b = i;
        while (i < s.size() && dig(s[i])) i++;
        if (i == b || i - b > 3) return false;
        if (i - b > 1 && s[b] == '0') { // leading zeros are left open, but never make a value valid that is too large
            if (atoi(s.substr(b, i - b).c_str()) > 255) return false;
            throw Ambiguous{};
        }
        if (atoi(s.substr(b, i - b).c_str()) > 255) return false;
    }
    return i == s.size();
}
static bool formatOk(const std::string &f, const std::string &s, bool permissive) {
    if (f == "date") return fullDate(s);
    if (f == "time") return fullTime(s, permissive);
    if (f == "date-time") return dateTime(s, permissive);
    if (f == "ipv4") return ipv4(s);
    return true;
}

// ---- strings: mostly valid, with the interesting fields at their boundaries, then edited
static std::string pad(int v, int n) { char b[16]; snprintf(b, sizeof b, "%0*d", n, v); return b; }
static int field(Src &s, int lo, int hi) { // usually within, sometimes one outside
    switch (s.weighted({6, 2, 2, 1})) { case 0: return s.range(lo, hi); case 1: return hi; case 2: return lo; default: return s.coin() ? hi + 1 : std::max(0, lo - 1); }
}
static std::string dateStr(Src &s) {
    int y = s.coin() ? s.pick({0, 4, 100, 400, 1900, 1999, 2000, 2004, 2023, 2024, 2100, 2400, 9996, 9999, 1600, 1700}) : s.range(0, 9999);
    int m = field(s, 1, 12);
    if (s.chance(1, 3)) m = 2;
    int d = s.coin() ? s.pick({1, 28, 29, 30, 31, 27, 0, 32}) : s.range(1, 31);
    return pad(y, 4) + "-" + pad(m, 2) + "-" + pad(d, 2);
}
static bool longTexts = false; // std::regex itself recurses: no long text meets a "pattern"
static std::string timeStr(Src &s, Ctx &c) {
    int h = field(s, 0, 23), m = field(s, 0, 59), sec = field(s, 0, 59);
    int oh = 0, om = 0, sign = 1;
    int zone = (int)s.weighted({3, 4, 2}); // Z, numeric, none
    if (zone == 1) { sign = s.coin() ? 1 : -1; oh = s.coin() ? s.pick({0, 1, 12, 14, 23}) : field(s, 0, 23); om = s.coin() ? s.pick({0, 30, 45, 59, 15}) : field(s, 0, 59); }
    if (s.chance(1, 3)) { // leap second, at or next to 23:59 UTC
        sec = 60;
        if (s.chance(5, 6)) {
            int u = (1439 + sign * (oh * 60 + om) + (s.chance(1, 3) ? s.pick({1, -1, 60, -60, 720, 2 * (oh * 60 + om)}) : 0)) % 1440;
            if (u < 0) u += 1440;
            h = u / 60; m = u % 60;
        }
        c.label("leap-second");
    }
    std::string t = pad(h, 2) + ":" + pad(m, 2) + ":" + pad(sec, 2);
    switch (s.weighted({6, 3, 1})) {
    case 1: { t += "."; int n = s.range(0, 9); for (int i = 0; i < n; i++) t += (char)('0' + s.below(10)); break; }
    case 2: if (s.chance(1, 40) && longTexts) { t += "." + std::string(s.pick({1000, 5000, 30000, 30000, 4000000}), (char)('0' + s.below(10))); c.label("long"); } break;
    default: break;
    }
    if (zone == 0) t += s.chance(1, 4) ? "z" : "Z";
    if (zone == 1) t += (sign < 0 ? "-" : "+") + pad(oh, 2) + ":" + pad(om, 2);
    return t;
}
static std::string quad(Src &s) {
    std::string o;
    int n = s.chance(1, 8) ? s.pick({3, 5, 1, 2}) : 4;
    for (int i = 0; i < n; i++) {
        if (i) o += ".";
        int v = s.weighted({4, 3, 2, 1}) == 0 ? s.range(0, 255) : s.coin() ? s.pick({0, 1, 9, 10, 99, 100, 199, 200, 249, 250, 255}) : s.chance(1, 3) ? s.pick({256, 259, 260, 299, 300, 999, 1000}) : s.range(0, 99);
        o += s.chance(1, 25) ? "0" + std::to_string(v) : std::to_string(v);
    }
    return o;
}
static void edit(Src &s, std::string &t) {
    static const std::vector<std::string> bits{"0", "1", "9", "5", "-", ":", ".", "T", "t", "Z", "z", "+", " ", "\n", ",", "", std::string("\0", 1), "\xD9\xA1", "\xEF\xBC\x91", "x", "24", "60", "00", "/", "\t", "W", "e", "\xE2\x88\x92"};
    size_t at = s.below(t.size() + 1);
    switch (s.below(4)) {
    case 0: t.insert(at, s.pick(bits)); break;
    case 1: if (at < t.size()) t.erase(at, 1); break;
    case 2: if (at < t.size()) t = t.substr(0, at) + s.pick(bits) + t.substr(at + 1); break;
    default: switch (s.below(6)) {
        case 0: t += s.pick(bits); break;
        case 1: t = s.pick(bits) + t; break;
        case 2: t = t.substr(0, at); break;
        case 3: t = t.substr(at); break;
        case 4: t += t; break;
        default: if (at + 1 < t.size()) std::swap(t[at], t[at + 1]); // ASCII, or edited again into something else
    }
    }
    // keep it UTF-8: anything broken by a byte-wise edit becomes ASCII
    std::string o;
    for (size_t i = 0; i < t.size();) {
        unsigned char c = t[i];
        size_t n = c < 0x80 ? 1 : c >= 0xE0 ? 3 : 2;
        bool ok = c < 0x80 || c >= 0xC0;
        for (size_t k = 1; ok && k < n; k++) ok = i + k < t.size() && ((unsigned char)t[i + k] & 0xC0) == 0x80;
        if (!ok) { o += '?'; i++; } else { o += t.substr(i, n); i += n; }
    }
    t = o;
}
static const std::vector<std::string> &formats() {
    static const std::vector<std::string> f{"date", "time", "date-time", "ipv4"};
    return f;
}
static const std::vector<std::string> &others() {
    static const std::vector<std::string> f{"", "email", "ipv6", "uri", "regex", "hostname", "Date", "DATE-TIME", "datetime", "date_time", "ipv4 ", "ip-address", "time ", "utc-millisec", "color", "dat", "dates", "date-times", std::string("date\0x", 6)};
    return f;
}
static std::string text(Src &s, Ctx &c, const std::string &f) {
    std::string t;
    if (f == "date") t = dateStr(s);
    else if (f == "time") t = timeStr(s, c);
    else if (f == "date-time") t = dateStr(s) + (s.chance(1, 6) ? s.pick(std::vector<std::string>{"t", " ", "", "TT", "_"}) : "T") + timeStr(s, c);
    else if (f == "ipv4") t = quad(s);
    if (s.chance(1, 3)) { int n = s.range(1, 2); while (n--) edit(s, t); }
    return t;
}

static bool run(Ctx &c, const J &schema, const J &doc, bool permissive, Draft d = Draft::D7) {
    const Lib &l = libRapid();
    Parsed p = mustParse(l, d, schema);
    VOpts o;
    o.permissive = permissive;
    valijson::ValidationResults res;
    bool withRes = c.s.coin();
    bool ok = validate(l, *l.validator(o), *p.schema, doc, withRes ? &res : nullptr);
    if (withRes && ok != (res.numErrors() == 0)) c.fail(std::string(word(ok)) + " but " + std::to_string(res.numErrors()) + " errors for " + jdump(doc).substr(0, 300) + " schema " + jdump(schema));
    return ok;
}
static std::string cut(const std::string &s) { return s.size() > 200 ? s.substr(0, 100) + "...(" + std::to_string(s.size()) + " bytes)" : s; }

static void verdict(Ctx &c) {
    Src &s = c.s;
    longTexts = true;
    std::string f = s.pick(formats());
    // sometimes a text meant for another format
    std::string t = text(s, c, s.chance(1, 12) ? s.pick(formats()) : f);
    Draft d = s.pick({Draft::D7, Draft::D7, Draft::D4, Draft::D3});
    c.desc = f + " " + cut(jdump(J(t)));
    J schema = J::obj();
    schema.set("format", J(f));
    int strict, perm;
    try { strict = formatOk(f, t, false); perm = formatOk(f, t, true); } catch (Ambiguous &) { c.label("open"); c.discard(); }
    bool gs = run(c, schema, J(t), false, d), gp = run(c, schema, J(t), true, d);
    if (gs != strict) c.fail("format '" + f + "' says " + word(gs) + " but the definition says " + word(strict) + " for " + cut(jdump(J(t))));
    if (gp != perm) c.fail("format '" + f + "', permissive, says " + word(gp) + " but the definition says " + word(perm) + " for " + cut(jdump(J(t))));
    c.label(f + (strict ? "/valid" : perm ? "/permissive" : "/invalid"));
    c.nontrivial = t.size() >= 7;
}
// The mode reaches every place of a schema
static void wrappedFormats(Ctx &c) {
    Src &s = c.s;
    longTexts = false;
    std::string f = s.pick(formats()), t = text(s, c, f);
    Draft d = s.pick({Draft::D7, Draft::D7, Draft::D4, Draft::D3});
    Wrapped w = wrapped(s, d, J::obj({{"format", J(f)}}), J(t));
    c.desc = std::string(draftName(d)) + " schema " + jdump(w.schema) + " document " + cut(jdump(w.doc));
    int strict, perm;
    try { strict = formatOk(f, t, false); perm = formatOk(f, t, true); } catch (Ambiguous &) { c.discard(); }
    if (w.inverted) { strict = !strict; perm = !perm; }
    bool gs = run(c, w.schema, w.doc, false, d), gp = run(c, w.schema, w.doc, true, d);
    if (gs != strict) c.fail(std::string("verdict ") + word(gs) + " but the definition of the format makes it " + word(strict) + " for " + cut(jdump(w.doc)) + " schema " + jdump(w.schema));
    if (gp != perm) c.fail(std::string("verdict, permissive, ") + word(gp) + " but the definition of the format makes it " + word(perm) + " for " + cut(jdump(w.doc)) + " schema " + jdump(w.schema));
    c.label(strict == perm ? "same" : "differs");
    c.nontrivial = true;
}
// Every calendar day, every minute: the numbers are the case
static void calendar(Ctx &c) {
    Src &s = c.s;
    std::string y = pad((int)s.below(10000), 4);
    std::vector<std::string> ds;
    for (int m = 0; m <= 13; m++) for (int d : {0, 1, 28, 29, 30, 31, 32}) ds.push_back(y + "-" + pad(m, 2) + "-" + pad(d, 2));
    c.desc = "all month ends of " + y;
    J schema = J::obj(), it = J::obj(), doc = J::arr();
    bool dt = s.coin();
    it.set("format", J(dt ? "date-time" : "date"));
    Parsed p = mustParse(libRapid(), Draft::D7, it);
    auto v = libRapid().validator({});
    for (auto &d : ds) {
        J x(dt ? d + "T00:00:00Z" : d);
        bool got = validate(libRapid(), *v, *p.schema, x), want = fullDate(d);
        if (got != want) c.fail("format '" + it.get("format")->s + "' says " + word(got) + " but the calendar says " + word(want) + " for " + jdump(x));
    }
    c.nontrivial = true;
}
// In place: nested, combined with other keywords; non-strings and unknown formats pass
static void placed(Ctx &c) {
    Src &s = c.s;
    longTexts = false;
    bool permissive = s.coin();
    gen::Cfg cfg;
    cfg.draft = s.pick({Draft::D7, Draft::D7, Draft::D4, Draft::D3});
    cfg.extra = [](Src &q, J &o) { if (!q.chance(1, 3)) return false; o.set("format", J(q.chance(1, 4) ? q.pick(others()) : q.pick(formats()))); return q.coin(); };
    J schema = gen::schema(s, cfg, s.range(0, 2));
    if (!gen::mentions(schema, "format") && schema.isObj()) schema.set("format", J(s.pick(formats())));
    auto docs = documents(s, cfg, schema, 1, 2);
    std::function<void(J &)> fill = [&](J &j) { for (auto &x : j.a) fill(x); for (auto &p : j.o) fill(p.second); if (j.t == J::Str && s.coin()) j = J(text(s, c, s.pick(formats()))); };
    for (auto &d : docs) { fill(d); if (s.chance(1, 4)) d = s.chance(3, 4) ? J(text(s, c, s.pick(formats()))) : gen::scalar(s, cfg); }
    c.desc = std::string(permissive ? "permissive " : "strict ") + draftName(cfg.draft) + " schema " + jdump(schema) + "  documents " + cut(docsText(docs));
    for (auto &d : docs) {
        bool exp;
        try { RefVal r(cfg.draft, schema); r.format = [&](const std::string &f, const std::string &t) { return formatOk(f, t, permissive); }; exp = r.valid(schema, d); }
        catch (Ambiguous &) { c.label("open"); continue; }
        catch (RefVal::TooDeep &) { c.discard(); }
        bool got = run(c, schema, d, permissive, cfg.draft);
        if (got != exp) c.fail(std::string("verdict ") + word(got) + " but the definition of the formats makes it " + word(exp) + " for document " + cut(jdump(d)) + " schema " + jdump(schema));
        c.label(exp ? "valid" : "invalid");
        if (!exp) c.nontrivial = true;
    }
    if (schema.isObj() && schema.o.size() >= 2) c.nontrivial = true;
}

int main(int argc, char **argv) {
    Check ck;
    ck.id = "C13";
    ck.rule = "'verdict' draws date/time/date-time/ipv4 texts with fields at and next to their limits, leap seconds around 23:59 UTC at all offsets, fractions up to 4000000 digits, and character edits of them, and compares both modes with a recogniser written from RFC 3339; "
              "'calendar' checks every month end of a random year; 'wrapped' puts a format and a text below up to 4 applicators; 'placed' puts formats (known and unknown) into generated schemas against the reference validator. Non-trivial: verdict: at least 7 bytes; placed: two keywords or an invalid document.";
    ck.assumptions = {"octets with leading zeros are open", "a leap second is allowed on any day, as the table in RFC 3339 is open-ended"};
    ck.subs.push_back({"verdict", 500000, 20000000, verdict});
    ck.subs.push_back({"calendar", 10000, 100000, calendar});
    ck.subs.push_back({"wrapped", 300000, 6000000, wrappedFormats});
    ck.subs.push_back({"placed", 200000, 5000000, placed});
    return runMain(argc, argv, ck);
}
