// Every build configuration of the library computes the same verdicts and errors.
#include "refs.hpp"
#include <dlfcn.h>
#include <fstream>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vc;

struct Config { std::string name, adapter, log; char *(*run)(const char *) = nullptr; char *(*second)(const char *) = nullptr; bool exceptions = true; };
static std::vector<Config> configs;
static std::map<std::string, std::vector<size_t>> byAdapter; // the first one uses the ordinary headers
static void loadConfigs() {
    const char *p = getenv("C24_CONFIGS");
    std::ifstream f(p ? p : "");
    std::string line;
    while (std::getline(f, line)) {
        J j = jparse(line);
        Config k;
        k.name = j.get("config")->s; k.adapter = j.get("adapter")->s; k.log = j.get("log")->s;
        if (const J *e = j.get("exceptions")) k.exceptions = e->b;
        if (j.get("so")->isStr()) {
            void *h = dlopen(j.get("so")->s.c_str(), RTLD_NOW | RTLD_LOCAL);
            if (!h) k.log = std::string("dlopen: ") + dlerror();
            else { k.run = (char *(*)(const char *))dlsym(h, "vc_run"); k.second = (char *(*)(const char *))dlsym(h, "vc_second"); }
            if (h && (!k.run || !k.second)) { k.log = "entry points missing"; k.run = nullptr; }
        }
        if (k.run) { auto &v = byAdapter[k.adapter]; if (k.name == "headers") v.insert(v.begin(), configs.size()); else v.push_back(configs.size()); }
        configs.push_back(k);
    }
    if (configs.empty()) { fprintf(stderr, "no configurations\n"); exit(2); }
}
static std::string call(char *(*f)(const char *), const std::string &in) { char *r = f(in.c_str()); std::string o = r; free(r); return o; }
static void put(std::string &o, const std::string &s) { o += std::to_string(s.size()) + ":" + s; }
// runs a build without exceptions on an input that it cannot survive
static void mustAbort(Ctx &c, const Config &k, const std::string &in, const std::string &message) {
    int fd[2];
    if (pipe(fd)) return;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { close(fd[0]); close(fd[1]); return; }
    if (pid == 0) {
        struct rlimit none = {0, 0};
        setrlimit(RLIMIT_CORE, &none);
        for (int s : {SIGABRT, SIGSEGV, SIGILL, SIGBUS, SIGFPE}) signal(s, SIG_DFL);
        dup2(fd[1], 2);
        close(fd[0]);
        call(k.run, in);
        _exit(0);
    }
    close(fd[1]);
    std::string err;
    char buf[4096];
    for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) err.append(buf, n);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st)) c.fail(k.name + " " + k.adapter + ": continues after an error that the build with exceptions reports as '" + message + "'");
    if (WTERMSIG(st) != SIGABRT) c.fail(k.name + " " + k.adapter + ": dies by signal " + std::to_string(WTERMSIG(st)) + " instead of aborting, where the build with exceptions reports '" + message + "'");
    std::string first = err.substr(0, err.find_last_not_of("\n") + 1);
    bool token = !first.empty() && message.find("; in token: ") != message.npos && message.find(first) != message.npos; // added where the first message is caught
    if (err.find(message) == err.npos && !token) c.fail(k.name + " " + k.adapter + ": aborts with the diagnostic '" + err + "' instead of '" + message + "'");
}
static void break_(Src &s, J &root) { // one malformed place
    std::vector<J *> all;
    std::function<void(J &)> walk = [&](J &j) { all.push_back(&j); for (auto &x : j.a) walk(x); for (auto &x : j.o) walk(x.second); };
    walk(root);
    J *at = s.pick(all);
    static const std::vector<J> wrong{J(-1), J("x"), J(true), J(), J(1.5), J::arr({J(1)}), J::obj({{"$ref", J("#/nowhere")}}), J::obj({{"type", J("nothing")}})};
    if (at == &root) root.set(s.pick(std::vector<std::string>{"maxLength", "type", "items", "required", "properties", "enum", "$ref"}), s.pick(wrong));
    else *at = s.pick(wrong);
}
static void differential(Ctx &c, const std::string &adapter) {
    Src &s = c.s;
    auto &ids = byAdapter[adapter];
    if (ids.size() < 2) c.discard();
    gen::Cfg cfg;
    Draft d = s.pick({Draft::D7, Draft::D7, Draft::D4, Draft::D3});
    cfg.draft = d;
    cfg.nul = false;
    J schema = gen::schema(s, cfg, s.range(0, 3));
    if (!schema.isObj()) schema = J::obj();
    if (s.chance(1, 4)) { schema.set("definitions", J::obj({{"d", gen::schema(s, cfg, 1)}})); J pr = schema.has("properties") ? *schema.get("properties") : J::obj(); pr.set("self", J::obj({{"$ref", s.coin() ? "#" : "#/definitions/d"}})); schema.set("properties", pr); }
    if (s.chance(1, 6)) schema.set("format", J(s.pick(std::vector<std::string>{"date", "time", "date-time", "ipv4", "unknown"})));
    std::vector<J> docs;
    refs::Dressed dr;
    bool dressed = adapter != "std_string" && s.chance(1, 3); // references of every kind, between documents too
    if (dressed) {
        refs::Canon cn = refs::canon(s, cfg, 3);
        refs::DressCfg dc;
        dc.draft = d;
        dc.ids = s.coin();
        dc.remotes = s.coin();
        if (!refs::dress(s, cn, dc, dr)) c.discard();
        docs = refs::documents(s, cfg, cn.doc);
        schema = dr.docs[0];
        c.label(dc.remotes ? "remote" : "references");
    }
    bool broken = s.chance(1, 4);
    if (broken) break_(s, dressed ? dr.docs[s.below(dr.docs.size())] : schema);
    if (dressed) schema = dr.docs[0];
    else docs = documents(s, cfg, schema, 1, 3);
    bool weak = s.coin() || adapter == "property_tree" || adapter == "yaml_cpp";
    if (weak || s.chance(1, 8)) { // numbers in strings
        static const std::vector<std::string> texts{"1", "-0", "1e2", "0.1", "+1", " 1", "1 ", "0x10", "1e400", "inf", "nan", "9007199254740993", "true", "false", "null", "1.", ".5", "1e", "", "1,5", "18446744073709551616"};
        std::function<void(J &)> walk = [&](J &j) { if (j.isNum() && s.coin()) j = s.coin() ? J(s.pick(texts)) : J(jdump(j)); for (auto &x : j.a) walk(x); for (auto &x : j.o) walk(x.second); };
        for (auto &x : docs) { walk(x); if (s.chance(1, 6)) x = J(s.pick(texts)); x = gen::tame(schema, x); }
    }
    if (s.chance(1, 10)) docs.push_back(J(s.pick(std::vector<std::string>{"2024-02-29", "2023-02-29", "12:30:60Z", "2020-01-01T00:00:00Z", "1.2.3.4", "256.1.1.1", "2020-01-01"})));
    int mode = (weak ? 1 : 0) | (s.chance(1, 4) ? 2 : 0) | (dr.docs.size() > 1 || s.chance(1, 8) ? 4 : 0);
    std::string in;
    put(in, d == Draft::D7 ? "7" : d == Draft::D4 ? "4" : "3");
    put(in, std::to_string(mode));
    put(in, std::to_string(docs.size()));
    const std::string re = adapter == "std_string" ? gen::pattern(s) : "";
    put(in, adapter == "std_string" ? re : jdump(schema));
    for (auto &x : docs) {
        std::string t = jdump(x);
        if (adapter == "std_string") { t = x.isStr() ? x.s : gen::str(s, cfg); if (gen::backtracks(re)) t = gen::shortened(t); }
        put(in, t);
    }
    size_t nr = 0;
    std::string remote;
    for (auto &sv : dr.served) { if (broken && s.chance(1, 4)) continue; nr++; put(remote, sv.first); put(remote, jdump(dr.docs[sv.second])); }
    put(in, std::to_string(nr));
    in += remote;
    c.desc = adapter + " " + draftName(d) + " mode " + std::to_string(mode) + " schema " + jdump(schema) + " docs " + docsText(docs);
    if (nr) c.desc += "\n   " + dr.text();
    if (adapter == "std_string") c.desc += " " + in;
    c.key = c.desc;
    std::string want = call(configs[ids[0]].run, in);
    bool rejected = want.compare(0, 10, "rejected: ") == 0, threw = want.find("threw\n") != want.npos;
    c.label(rejected ? "rejected" : threw ? "threw" : "accepted");
    c.label(want.find("invalid") != want.npos ? "invalid" : "all-valid");
    std::string message = rejected ? want.substr(10, want.size() - 11) : "";
    for (size_t q = 0; q < ids.size(); q++) {
        auto &k = configs[ids[q]];
        if ((rejected || threw) && !k.exceptions) {
            if (rejected && message.find("regex") == message.npos && s.chance(1, 8)) { mustAbort(c, k, in, message); c.label("aborts"); }
            continue;
        }
        std::string got = call(q == 0 || s.chance(1, 4) ? k.second : k.run, in);
        if (got == want) continue;
        if (rejected && got.compare(0, 10, "rejected: ") == 0 && message.find("regex") != message.npos) continue; // the text comes from the engine
        c.fail(k.name + " build for " + adapter + " computes\n" + got + "but the ordinary headers compute\n" + want);
    }
    c.nontrivial = schema.o.size() > 0;
}
int main(int argc, char **argv) {
    loadConfigs();
    Check ck;
    ck.id = "C24";
    std::string list, skipped = getenv("C24_SKIPPED") ? getenv("C24_SKIPPED") : "";
    for (auto &k : configs) list += k.name + "/" + k.adapter + " ";
    ck.rule = "Configurations, each built from /repo's current tree as a shared object of two translation units: " + list + (skipped.empty() ? "" : "(library not installed: " + skipped + ")") +
              ". Random schemas (three drafts, a third with references of every kind within and between documents served by a fetch callback, a quarter with one malformed place) and 1..4 documents, strict or weak types, date modes, numbers in strings: the transcript (rejection and message, verdict, every error with context and pointer) of every configuration must equal that of the ordinary headers with the same JSON library; builds without exceptions must abort with the same message on standard error where the others throw. 'compiles': every bundle and configuration compiles and links on its own. Non-trivial: the schema has a keyword; distinct by inputs.";
    ck.assumptions = {"patterns are limited to syntax that std::regex and Boost.Regex agree on", "json11 is not installed here"};
    ck.subs.push_back({"compiles", configs.size(), configs.size(), [](Ctx &c) {
        auto &k = configs[(size_t)c.s.below(configs.size())];
        c.desc = k.name + "/" + k.adapter;
        c.key = c.desc;
        c.nontrivial = true;
        for (auto &q : configs) if (!q.run) c.fail("configuration " + q.name + " for " + q.adapter + ": " + q.log);
    }});
    for (auto &a : byAdapter) {
        std::string n = a.first;
        u64 w = n == "rapidjson" ? 24000 : n == "nlohmann_json" || n == "property_tree" ? 6000 : 3000;
        ck.subs.push_back({"differs-" + n, w, w * 40, [n](Ctx &c) { differential(c, n); }});
    }
    return runMain(argc, argv, ck);
}
