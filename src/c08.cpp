// C08: JSON Pointers designate exactly the right value.
#include "ad.hpp"
#include "common.hpp"
using namespace pbt;
using namespace vc;

static const std::vector<const AdLib *> &libs() {
    static const std::vector<const AdLib *> l{&adRapid(), &adRapidCrt(), &adNlohmann(), &adJsonCpp(), &adPico(), &adBoostJson(), &adPoco(), &adQtJson(), &adQVariant()};
    return l;
}

// ---- documents: distinct leaves, names of any content
static std::string memberName(Src &s) {
    switch (s.weighted({4, 5, 3, 3})) {
    case 0: return s.pick(gen::plainKeys());
    case 1: return s.pick(gen::oddKeys());
    case 2: { // small strings over characters that matter to pointers
        std::string o;
        int n = s.range(0, 4);
        for (int i = 0; i < n; i++) o += s.pick(std::vector<std::string>{"~", "/", "%", "0", "1", "2", "F", "f", "7", "E", "e", "-", "+", " ", "a", "#", "?", "\xC3\xA9", ".", "~0", "~1", "%2F", "%7E1", "%25"});
        return o;
    }
    default: return s.pick(std::vector<std::string>{"0", "1", "2", "00", "01", "-", "-1", "+1", "1e0", "~", "~~", "~01", "~10", "//", "%", "%%", "%41", std::string("a\0b", 3), std::string("\0", 1), "a", "\n"});
    }
}
static int gLeaf;
static J doc(Src &s, int depth) {
    switch (depth <= 0 ? 0 : s.weighted({2, 4, 3})) {
    case 0:
        switch (s.weighted({6, 2, 1, 1, 1, 1})) {
        case 0: return J(++gLeaf);
        case 1: return J("s" + std::to_string(++gLeaf));
        case 2: return J::obj();
        case 3: return J::arr();
        case 4: return J();
        default: return s.coin() ? J("") : J(true);
        }
    case 1: {
        J o = J::obj();
        int n = s.range(1, 5);
        for (int i = 0; i < n; i++) { std::string k = memberName(s); if (!o.has(k)) o.set(k, doc(s, depth - 1)); }
        return o;
    }
    default: {
        J a = J::arr();
        int n = s.chance(1, 10) ? s.range(9, 14) : s.range(0, 4);
        for (int i = 0; i < n; i++) a.push(doc(s, depth - 1));
        return a;
    }
    }
}
static void nodes(const J &j, const std::vector<std::string> &path, std::vector<std::pair<std::vector<std::string>, const J *>> &out) {
    out.push_back({path, &j});
    auto down = [&](std::string t, const J &x) { auto p = path; p.push_back(std::move(t)); nodes(x, p, out); };
    for (auto &m : j.o) down(m.first, m.second);
    for (size_t i = 0; i < j.a.size(); i++) down(std::to_string(i), j.a[i]);
}
static std::string spellToken(Src &s, const std::string &t) {
    std::string o;
    unsigned pct = s.chance(1, 2) ? 0 : s.range(1, 9);
    auto put = [&](char c) {
        bool enc = c == '%' || (c != '/' && s.below(10) < pct);
        char b[8];
        if (enc) { snprintf(b, sizeof b, s.coin() ? "%%%02x" : "%%%02X", (unsigned char)c); o += b; } else o += c;
    };
    for (char c : t) {
        if (c == '~') { put('~'); put('0'); }
        else if (c == '/') { put('~'); put('1'); }
        else put(c);
    }
    return o;
}

// ---- model
struct Model { bool claim = true; const J *value = nullptr; };
static Model model(const J &root, const std::string &ptr, bool strict) {
    Model m;
    const J *cur = &root;
    if (ptr.empty()) { m.value = cur; return m; }
    if (ptr[0] != '/') return m;
    size_t i = 0;
    bool dead = false;
    while (i < ptr.size()) {
        size_t e = ptr.find('/', i + 1);
        if (e == std::string::npos) e = ptr.size();
        std::string raw = ptr.substr(i + 1, e - i - 1), dec, tok;
        i = e;
        if (!strict && raw.empty()) continue;
        bool bad = false;
        for (size_t k = 0; k < raw.size(); k++) {
            if (raw[k] != '%') { dec += raw[k]; continue; }
            auto hex = [&](size_t q) { return q < raw.size() && isxdigit((unsigned char)raw[q]); };
            if (!hex(k + 1) || !hex(k + 2)) { bad = true; break; }
            char c = (char)strtol(raw.substr(k + 1, 2).c_str(), nullptr, 16);
            if (c == '/') m.claim = false; // RFC 6901 section 6 and the documented splitting differ
            dec += c;
            k += 2;
        }
        if (bad) { dead = true; continue; }
        for (size_t k = 0; k < dec.size(); k++) {
            if (dec[k] != '~') { tok += dec[k]; continue; }
            if (k + 1 < dec.size() && (dec[k + 1] == '0' || dec[k + 1] == '1')) { tok += dec[k + 1] == '0' ? '~' : '/'; k++; }
            else { m.claim = false; tok += '~'; }
        }
        if (dead || !cur) continue;
        if (cur->isObj()) { cur = cur->get(tok); if (!cur) dead = true; }
        else if (cur->isArr()) {
            bool num = !tok.empty() && tok.find_first_not_of("0123456789") == std::string::npos && (tok.size() == 1 || tok[0] != '0') && tok.size() < 10;
            size_t ix = num ? strtoul(tok.c_str(), nullptr, 10) : 0;
            if (!num || ix >= cur->a.size()) dead = true; else cur = &cur->a[ix];
        } else dead = true;
    }
    m.value = dead ? nullptr : cur;
    return m;
}
static void mutate(Src &s, std::string &p) {
    int n = s.range(1, 3);
    for (int i = 0; i < n; i++) {
        static const std::vector<std::string> bits{"/", "//", "/-", "/0", "/00", "/01", "/1", "/ 1", "/1 ", "/+1", "/-1", "/0x1", "/1e0", "/99", "/4294967296", "/18446744073709551616", "/18446744073709551615", "/9223372036854775808", "/999999999999999999999999", "%", "%4", "%zz", "%2G", "%41", "% 1", "%+1", "%-1", "%0x", "~0", "~1", "0", "1", "a", "-", " ", "\t", "/%30", "/%31", "/%2D", "/%00", "%00", "/\xEF\xBC\x91", "/1.0", "/1%00", "/nope"};
        switch (s.below(4)) {
        case 0: p += s.pick(bits); break;
        case 1: p.insert(s.below(p.size() + 1), s.pick(bits)); break;
        case 2: if (!p.empty()) p.erase(s.below(p.size()), 1); break;
        default: if (!p.empty()) p.resize(s.below(p.size())); break;
        }
    }
}

static bool loadable(const J &j) { (void)j; return true; }

static void pointers(Ctx &c, bool mutated) {
    Src &s = c.s;
    gLeaf = 0;
    J d = doc(s, s.range(1, 4));
    if (!loadable(d)) c.discard();
    std::vector<std::pair<std::vector<std::string>, const J *>> all;
    nodes(d, {}, all);
    std::vector<std::string> ptrs;
    int n = s.range(1, 6);
    for (int i = 0; i < n; i++) {
        auto &nd = all[s.below(all.size())];
        std::string p;
        for (auto &t : nd.first) p += "/" + spellToken(s, t);
        if (mutated) mutate(s, p);
        ptrs.push_back(p);
    }
    const AdLib &lib = *s.pick(libs());
    std::string text = jdump(d);
    c.desc = std::string(lib.name) + " document " + text + " pointers";
    for (auto &p : ptrs) { c.desc += " "; jquote(c.desc, p); }
    DocPtr dp = lib.load(text);
    if (!dp) c.discard();
    if (!jeq(adToJ(*lib.make(dp.get())), d)) c.discard(); // the library's own value model loses names (property C10)
    bool found = false, missed = false;
    for (auto &p : ptrs) for (int strict = 0; strict < 2; strict++) {
        Model m = model(d, p, strict);
        if (!m.claim) continue;
        std::unique_ptr<AnyAdapter> r;
        std::string err;
        try { r = lib.pointer(dp.get(), p, strict); } catch (std::exception &e) { err = e.what(); }
        std::string q;
        jquote(q, p);
        std::string where = std::string(lib.name) + (strict ? " strict" : " lenient") + " pointer " + q + " in " + text;
        if (m.value) {
            found = true;
            if (!r) c.fail(where + " was rejected (" + err + ") but designates " + jdump(*m.value));
            J got = adToJ(*r);
            if (!jeq(got, *m.value)) c.fail(where + " gave " + jdump(got) + " but designates " + jdump(*m.value));
        } else {
            missed = true;
            if (r) c.fail(where + " gave " + jdump(adToJ(*r)) + " but designates nothing");
        }
    }
    c.nontrivial = found || missed;
    if (found) c.label("found");
    if (missed) c.label("rejected");
    c.label(lib.name);
}

int main(int argc, char **argv) {
    Check ck;
    ck.id = "C08";
    ck.rule = "Random documents with distinct leaves and member names built from characters that matter to pointers; 'valid': pointers of random nodes, spelled with random percent-encoding over the ~-escaped tokens; 'mutated': the same with one to three edits (index syntax, escapes, truncation). "
              "Oracle: a pointer model written from RFC 6901/3986 gives the designated value or nothing; the resolver (strict and lenient) must give an equal value or throw. Each case uses one of nine libraries. Non-trivial: at least one pointer judged; distinct by case text.";
    ck.assumptions = {"'%2F' inside a token and '~' not followed by 0 or 1 are excluded", "documents the JSON library itself does not represent faithfully are discarded"};
    ck.subs.push_back({"valid", 250000, 6000000, [](Ctx &c) { pointers(c, false); }});
    ck.subs.push_back({"mutated", 350000, 8000000, [](Ctx &c) { pointers(c, true); }});
    return runMain(argc, argv, ck);
}
