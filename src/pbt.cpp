#include "pbt.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include "json.hpp"

extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:hard_rss_limit_mb=3500:allocator_may_return_null=0:handle_abort=1:symbolize=0:detect_stack_use_after_return=0:malloc_context_size=4:quarantine_size_mb=16:allow_addr2line=0";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1"; }
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:exitcode=66:symbolize=0:history_size=2:report_signal_unsafe=0:detect_deadlocks=0"; }

namespace pbt {

u64 Src::below(u64 n) {
    if (n == 0) n = 1;
    u64 v;
    if (in) {
        v = pos < in->size() ? (*in)[pos] : 0;
        pos++;
        if (v >= n) v = v % n;
    } else {
        st = st + 0x9E3779B97F4A7C15ull;
        v = mix(st) % n;
    }
    rec.push_back(v);
    return v;
}

long liveBytes() { return __sanitizer_get_current_allocated_bytes ? (long)__sanitizer_get_current_allocated_bytes() : 0; }

long leakOf(const std::function<void()> &f) {
    long d = 0;
    for (int n = 0; n < 4; n++) {
        long before = liveBytes();
        f();
        d = liveBytes() - before;
        if (d <= 0) return 0;
    }
    return d;
}

namespace {
struct Shared {
    std::atomic<int> stop;
    struct W { std::atomic<u64> sub, idx, done; std::atomic<int> state; } w[64];
};

struct Stats {
    u64 evals = 0, discarded = 0, nontrivial = 0;
    std::map<std::string, u64> labels;
    std::map<std::string, u64> perSub;
    std::unordered_set<u64> hashes;
    std::vector<std::string> samples;
};

// Outcome of running one case in this process.
// returns 0 pass, 1 fail, 2 discard
int runCase(const Sub &sub, Ctx &c, std::string &msg) {
    try {
        sub.fn(c);
        return 0;
    } catch (const Fail &f) {
        msg = f.msg;
        return 1;
    } catch (const Discard &) {
        return 2;
    } catch (const std::exception &e) {
        msg = std::string("unexpected exception: ") + e.what();
        return 1;
    } catch (...) {
        msg = "unexpected non-standard exception";
        return 1;
    }
}

void setCpuTimer(unsigned sec) {
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &it, nullptr);
    if (sec) it.it_value.tv_sec = sec * 5 + 60; // a deadlock uses no CPU
    setitimer(ITIMER_REAL, &it, nullptr);
}

std::string readFile(const std::string &p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

std::string crashSummary(const std::string &errText, int status) {
    std::string out;
    std::istringstream is(errText);
    std::string l;
    int n = 0;
    while (std::getline(is, l)) {
        if (l.find("ERROR:") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("SUMMARY") != std::string::npos || l.find("WARNING: ThreadSanitizer") != std::string::npos) {
            if (n++ < 3) out += l.substr(0, 300) + " | ";
        }
    }
    if (WIFSIGNALED(status)) {
        int sg = WTERMSIG(status);
        if (sg == SIGPROF) out += "hang: case exceeded its CPU limit";
        else if (sg == SIGALRM) out += "hang: case did not end";
        else out += std::string("killed by signal ") + strsignal(sg);
    } else if (WIFEXITED(status)) out += "process exit status " + std::to_string(WEXITSTATUS(status));
    return out;
}

struct Attempt { int kind; std::string msg, desc; std::vector<u64> rec; bool hang = false; }; // kind 0 pass,1 fail,2 discard,3 crash

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

// What a dying child leaves behind: its choices and its case description.
Src *gSrc = nullptr;
Ctx *gCtx = nullptr;
int gFd = -1;
void putFd(const void *p, size_t n) {
    const char *c = (const char *)p;
    while (n) { ssize_t k = syscall(SYS_write, gFd, c, n); if (k <= 0) return; c += k; n -= (size_t)k; }
}
void dumpState(const char *msg, size_t msgLen) {
    if (gFd < 0 || !gSrc) return;
    u64 n = gSrc->rec.size();
    putFd(&n, 8); putFd(gSrc->rec.data(), n * 8);
    n = msgLen; putFd(&n, 8); putFd(msg, n);
    n = gCtx->desc.size(); putFd(&n, 8); putFd(gCtx->desc.data(), n);
    syscall(SYS_close, gFd);
    gFd = -1;
}
void onDeath() { dumpState("", 0); }
void onProf(int) { dumpState("", 0); signal(SIGPROF, SIG_DFL); raise(SIGPROF); }

// Runs one choice sequence in a forked child.
Attempt attempt1(const Sub &sub, const std::vector<u64> *choices, u64 seed, bool thorough, const std::string &tmp, unsigned cpu) {
    std::string of = tmp + "/attempt.out", ef = tmp + "/attempt.err";
    unlink(of.c_str());
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 2);
        int fd1 = open("/dev/null", O_WRONLY);
        dup2(fd1, 1);
        gFd = open(of.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        Src s = choices ? Src(choices) : Src(seed);
        Ctx c{s, {}, {}, false, {}, thorough};
        s.rec.reserve(1 << 14);
        gSrc = &s;
        gCtx = &c;
        if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(onDeath);
        else for (int sg : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(sg, [](int n) { onDeath(); signal(n, SIG_DFL); raise(n); });
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = onProf;
        sigaction(SIGPROF, &sa, nullptr);
        setCpuTimer(cpu);
        std::string msg;
        int r = runCase(sub, c, msg);
        dumpState(msg.data(), msg.size());
        _exit(r == 0 ? 0 : r == 1 ? 41 : 42);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Attempt a;
    a.kind = 3;
    std::ifstream f(of, std::ios::binary);
    u64 n = 0;
    auto rd = [&]() { n = 0; f.read((char *)&n, 8); if (n > (1u << 28)) n = 0; };
    rd(); a.rec.resize(n); f.read((char *)a.rec.data(), n * 8);
    rd(); a.msg.resize(n); f.read(&a.msg[0], n);
    rd(); a.desc.resize(n); f.read(&a.desc[0], n);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 41 || WEXITSTATUS(st) == 42)) {
        a.kind = WEXITSTATUS(st) == 0 ? 0 : WEXITSTATUS(st) == 41 ? 1 : 2;
    } else {
        a.msg = crashSummary(readFile(ef), st);
        a.hang = WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM);
    }
    return a;
}
Attempt attempt(const Sub &sub, const std::vector<u64> *choices, u64 seed, bool thorough, const std::string &tmp, unsigned cpu) {
    Attempt a = attempt1(sub, choices, seed, thorough, tmp, cpu);
    for (int n = 0; sub.schedule && n < 11 && a.kind == 0; n++) a = attempt1(sub, choices, seed, thorough, tmp, cpu);
    return a;
}
// The evidence and the replay files are UTF-8.
std::string clean(const std::string &s) {
    std::string o;
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        size_t n = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
        bool ok = n && i + n <= s.size();
        for (size_t k = 1; ok && k < n; k++) ok = ((unsigned char)s[i + k] & 0xC0) == 0x80;
        if (ok && n == 3) { unsigned v = ((c & 15) << 12) | ((s[i + 1] & 63) << 6); ok = v >= 0x800 && !(v >= 0xD800 && v < 0xE000); }
        if (ok && n == 4) { unsigned v = ((c & 7) << 18) | ((s[i + 1] & 63) << 12); ok = v >= 0x10000 && v < 0x110000; }
        if (ok) { o.append(s, i, n); i += n; continue; }
        char b[8];
        snprintf(b, sizeof b, "<%02X>", c);
        o += b;
        i++;
    }
    return o;
}
} // namespace

struct Runner {
    explicit Runner(const Check &c) : ck(c) {}
    const Check &ck;
    std::string tier, outFile, replayDir, tmp, onlySub;
    u64 seed = 1;
    int workers = 8;
    double maxSeconds = 0;
    double scale = 1.0;
    bool thorough = false;
    Shared *sh = nullptr;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();

    double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
    u64 casesOf(const Sub &s) const {
        if (!onlySub.empty() && s.name != onlySub) return 0;
        double n = (double)(thorough ? s.thorough : s.quick) * scale;
        return (u64)std::max(n, 1.0);
    }
    u64 caseSeed(size_t sub, u64 idx) const { return mix(mix(seed * 0x9E3779B97F4A7C15ull + sub) ^ mix(idx + 0x1234567)); }

    void worker(int w) {
        std::string base = tmp + "/w" + std::to_string(w);
        int fd = open((base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 2);
        int fd1 = open("/dev/null", O_WRONLY);
        dup2(fd1, 1);
        Stats st;
        bool failed = false;
        for (size_t si = 0; si < ck.subs.size() && !failed; si++) {
            const Sub &sub = ck.subs[si];
            u64 n = casesOf(sub);
            for (u64 i = (u64)w; i < n; i += (u64)workers) {
                if (sh->stop.load(std::memory_order_relaxed)) break;
                if (maxSeconds > 0 && (i & 63) == (u64)w % 64 && elapsed() > maxSeconds) break;
                sh->w[w].sub = si;
                sh->w[w].idx = i;
                sh->w[w].state = 1;
                setCpuTimer(sub.caseCpuSeconds);
                Src s(caseSeed(si, i));
                Ctx c{s, {}, {}, false, {}, thorough};
                std::string msg;
                int r = runCase(sub, c, msg);
                sh->w[w].state = 0;
                sh->w[w].done.fetch_add(1, std::memory_order_relaxed);
                if (r == 2) { st.discarded++; continue; }
                st.evals++;
                st.perSub[sub.name]++;
                for (auto &l : c.labels) st.labels[sub.name + "/" + l]++;
                if (c.nontrivial) {
                    st.nontrivial++;
                    st.labels[sub.name + "/nontrivial"]++;
                    bool fresh = st.hashes.insert(hashStr(sub.name + "\n" + (c.key.empty() ? c.desc : c.key))).second;
                    if (fresh && c.desc.size() < 1200) {
                        // keep an early and some later samples per worker
                        if (st.samples.size() < 12 || (i / workers) % 97 == 0)
                            if (st.samples.size() < 64) st.samples.push_back(sub.name + ": " + c.desc);
                    }
                }
                if (r == 1) {
                    if (sub.schedule) { std::ofstream f(base + ".fail", std::ios::binary); f << msg << "\n" << c.desc; }
                    sh->w[w].state = 2;
                    sh->stop = 1;
                    failed = true;
                    break;
                }
            }
        }
        setCpuTimer(0);
        std::ofstream f(base + ".stats", std::ios::binary);
        auto put = [&](u64 v) { f.write((char *)&v, 8); };
        auto puts = [&](const std::string &s) { put(s.size()); f.write(s.data(), s.size()); };
        put(st.evals); put(st.discarded); put(st.nontrivial);
        put(st.labels.size());
        for (auto &l : st.labels) { puts(l.first); put(l.second); }
        put(st.perSub.size());
        for (auto &l : st.perSub) { puts(l.first); put(l.second); }
        put(st.hashes.size());
        for (u64 h : st.hashes) put(h);
        put(st.samples.size());
        for (auto &s : st.samples) puts(s);
        f.close();
        _exit(failed ? 41 : 0);
    }

    void readStats(int w, Stats &st) {
        std::ifstream f(tmp + "/w" + std::to_string(w) + ".stats", std::ios::binary);
        if (!f) return;
        auto get = [&]() { u64 v = 0; f.read((char *)&v, 8); return v; };
        auto gets = [&]() { u64 n = get(); std::string s(n, 0); f.read(&s[0], n); return s; };
        st.evals += get(); st.discarded += get(); st.nontrivial += get();
        for (u64 n = get(); n; n--) { auto k = gets(); st.labels[k] += get(); }
        for (u64 n = get(); n; n--) { auto k = gets(); st.perSub[k] += get(); }
        for (u64 n = get(); n; n--) st.hashes.insert(get());
        for (u64 n = get(); n; n--) st.samples.push_back(gets());
    }

    // seen: what was observed when it happened (schedule-dependent cases only)
    int report(const Sub &sub, u64 cs, bool crash, const std::string &seen) {
        Attempt first = attempt(sub, nullptr, cs, thorough, tmp, sub.caseCpuSeconds * (crash ? 2 : 1));
        if (first.kind != 1 && first.kind != 3 && !seen.empty()) { // observed once: still a violation
            first.msg = seen + " (did not happen again in 12 runs of the case)";
            return emit(sub, {}, cs, crash ? 3 : 1, first);
        }
        if (first.kind != 1 && first.kind != 3) {
            fprintf(stderr, "NOTE: failure did not reproduce on re-run (kind %d)\n", first.kind);
            return 0;
        }
        std::vector<u64> best = first.rec;
        Attempt cur = first;
        int kind = first.kind;
        auto tstart = std::chrono::steady_clock::now();
        int tries = 0;
        const int maxTries = first.hang ? 12 : 3000;
        const double maxT = first.hang ? 120 : 60;
        auto ok = [&](std::vector<u64> cand) {
            if (cand == best) return false;
            if (++tries > maxTries || std::chrono::duration<double>(std::chrono::steady_clock::now() - tstart).count() > maxT) return false;
            Attempt a = attempt(sub, &cand, 0, thorough, tmp, first.hang ? 10 : sub.caseCpuSeconds);
            if (a.kind != kind) return false;
            if (kind == 1) {
                if (a.rec.size() > best.size() || (a.rec.size() == best.size() && a.rec >= best)) return false;
                best = a.rec;
            } else best = a.rec.size() && a.rec.size() <= cand.size() ? a.rec : cand;
            cur = a;
            return true;
        };
        if (kind == 3 && !best.empty()) { // does the recorded sequence reproduce?
            Attempt a = attempt(sub, &best, 0, thorough, tmp, sub.caseCpuSeconds);
            if (a.kind != 3) best.clear();
        }
        bool progress = !best.empty();
        while (progress && tries <= maxTries) {
            progress = false;
            for (size_t len : {64, 32, 16, 8, 6, 5, 4, 3, 2, 1}) {
                for (size_t i = best.size(); i-- > 0;) {
                    if (i + len > best.size()) continue;
                    std::vector<u64> c = best;
                    c.erase(c.begin() + i, c.begin() + i + len);
                    if (ok(c)) { progress = true; if (i > best.size()) i = best.size(); }
                    if (tries > maxTries) break;
                }
            }
            for (size_t len : {16, 8, 4, 2, 1})
                for (size_t i = 0; i + len <= best.size(); i += len) {
                    std::vector<u64> c = best;
                    bool nz = false;
                    for (size_t k = 0; k < len; k++) { nz |= c[i + k] != 0; c[i + k] = 0; }
                    if (nz && ok(c)) progress = true;
                }
            for (size_t i = 0; i < best.size(); i++) {
                for (u64 lo = 0; i < best.size() && best[i] > 0 && lo < best[i];) {
                    u64 mid = lo + (best[i] - lo) / 2;
                    std::vector<u64> c = best;
                    c[i] = mid;
                    u64 old = best[i];
                    if (ok(c)) { progress = true; if (i >= best.size() || best[i] >= old) break; }
                    else lo = mid + 1;
                    if (tries > maxTries) break;
                }
            }
        }
        // confirm three times
        for (int n = 0; n < (first.hang ? 1 : 3); n++) {
            Attempt a = best.empty() ? attempt(sub, nullptr, cs, thorough, tmp, sub.caseCpuSeconds) : attempt(sub, &best, 0, thorough, tmp, sub.caseCpuSeconds);
            if (a.kind != kind) {
                if (sub.schedule) { best.clear(); break; }
                fprintf(stderr, "NOTE: shrunk failure did not reproduce; not reported\n");
                return 0;
            }
            cur = a;
        }
        return emit(sub, best, cs, kind, cur);
    }
    int emit(const Sub &sub, const std::vector<u64> &best, u64 cs, int kind, const Attempt &cur) {
        J rj = J::obj();
        rj.set("property", ck.id);
        rj.set("sub", sub.name);
        rj.set("tier", tier);
        rj.set("kind", kind == 3 ? "crash" : "assertion");
        rj.set("message", clean(cur.msg));
        rj.set("case", clean(cur.desc));
        J ch = J::arr();
        for (u64 v : best) ch.push(J(std::to_string(v)));
        rj.set("choices", ch);
        rj.set("case_seed", std::to_string(cs));
        mkdir(replayDir.c_str(), 0755);
        std::string path = replayDir + "/" + ck.id + "-" + sub.name + ".json";
        std::ofstream(path) << jdump(rj) << "\n";
        printf("sub-property: %s\nmessage: %s\n", sub.name.c_str(), cur.msg.substr(0, 3000).c_str());
        if (!cur.desc.empty()) printf("case: %s\n", cur.desc.substr(0, 3000).c_str());
        printf("VIOLATION property=%s replay=%s\n", ck.id.c_str(), path.c_str());
        fflush(stdout);
        return 1;
    }

    int run() {
        sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        new (sh) Shared();
        fflush(stdout);
        std::vector<pid_t> pids;
        for (int w = 0; w < workers; w++) {
            pid_t p = fork();
            if (p == 0) { worker(w); _exit(0); }
            pids.push_back(p);
        }
        int viol = 0;
        Stats tot;
        std::vector<std::pair<int, int>> bad;
        for (size_t left = pids.size(); left > 0; left--) {
            int st;
            pid_t p = wait(&st);
            int w = (int)(std::find(pids.begin(), pids.end(), p) - pids.begin());
            if (w >= workers) { left++; continue; }
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            bad.push_back({w, st});
            sh->stop = 1;
        }
        for (int w = 0; w < workers; w++) readStats(w, tot);
        std::sort(bad.begin(), bad.end());
        int note = 0;
        for (auto &b : bad) {
            int w = b.first;
            bool crash = !(WIFEXITED(b.second) && WEXITSTATUS(b.second) == 41);
            size_t si = sh->w[w].sub;
            u64 cs = caseSeed(si, sh->w[w].idx);
            if (crash) {
                fprintf(stderr, "worker %d died in %s: %s\n", w, ck.subs[si].name.c_str(), crashSummary(readFile(tmp + "/w" + std::to_string(w) + ".err"), b.second).c_str());
                tot.evals += sh->w[w].done;
            }
            if (sh->w[w].state == 0) { note++; continue; }
            std::string seen;
            if (ck.subs[si].schedule) seen = crash ? (WIFEXITED(b.second) && WEXITSTATUS(b.second) == 66 ? crashSummary(readFile(tmp + "/w" + std::to_string(w) + ".err"), b.second) : "") : readFile(tmp + "/w" + std::to_string(w) + ".fail");
            viol = report(ck.subs[si], cs, crash, seen);
            if (viol) break;
            note++;
        }
        writeEvidence(tot, viol);
        if (!viol && note) {
            fprintf(stderr, "ERROR: %d worker(s) failed without a reproducible case\n", note);
            return 2;
        }
        return viol;
    }

    void writeEvidence(const Stats &t, int viol) {
        J e = J::obj();
        e.set("property", ck.id);
        e.set("tier", tier);
        e.set("seed", J((long long)seed));
        e.set("level", "exploration");
        J c = J::obj();
        c.set("evaluations", J((long long)t.evals));
        c.set("distinct_nontrivial", J((long long)t.hashes.size()));
        c.set("nontrivial", J((long long)t.nontrivial));
        c.set("discarded", J((long long)t.discarded));
        c.set("rule", ck.rule);
        J ps = J::obj();
        for (auto &s : t.perSub) ps.set(s.first, J((long long)s.second));
        c.set("cases_per_subproperty", ps);
        J cl = J::obj();
        for (auto &s : t.labels) cl.set(s.first, J((long long)s.second));
        c.set("classes", cl);
        J sm = J::arr();
        // one spread selection over sub-properties
        std::map<std::string, int> per;
        size_t step = std::max<size_t>(1, t.samples.size() / 40);
        for (size_t n = 0; n < t.samples.size() && sm.a.size() < 14; n += step) {
            std::string sub = t.samples[n].substr(0, t.samples[n].find(':'));
            if (per[sub]++ < 4) sm.push(J(clean(t.samples[n])));
        }
        for (size_t n = 0; n < t.samples.size() && sm.a.size() < 24; n++) {
            std::string sub = t.samples[n].substr(0, t.samples[n].find(':'));
            if (per[sub] < 1) { per[sub]++; sm.push(J(clean(t.samples[n]))); }
        }
        c.set("samples", sm);
        e.set("coverage", c);
        J as = J::arr();
        for (auto &a : ck.assumptions) as.push(J(a));
        e.set("assumptions", as);
        e.set("wall_s", J(elapsed()));
        e.set("violations", J(viol));
        if (!outFile.empty()) std::ofstream(outFile) << jdump(e) << "\n";
        printf("%s %s seed=%llu: %llu cases, %llu distinct non-trivial, %llu discarded, %.1fs\n", ck.id.c_str(), tier.c_str(), (unsigned long long)seed, (unsigned long long)t.evals,
               (unsigned long long)t.hashes.size(), (unsigned long long)t.discarded, elapsed());
        if (getenv("PBT_VERBOSE")) {
            for (auto &s : t.labels) printf("  %-50s %llu\n", s.first.c_str(), (unsigned long long)s.second);
            for (auto &s : sm.a) printf("  sample %s\n", s.s.c_str());
        }
    }

    int replay(const std::string &file) {
        J r = jparse(readFile(file));
        std::string subName = r.get("sub")->s;
        std::vector<u64> ch;
        for (auto &v : r.get("choices")->a) ch.push_back(strtoull(v.s.c_str(), nullptr, 10));
        for (auto &sub : ck.subs)
            if (sub.name == subName) {
                Src s = ch.empty() && r.has("case_seed") ? Src(strtoull(r.get("case_seed")->s.c_str(), nullptr, 10)) : Src(&ch);
                Ctx c{s, {}, {}, false, {}, thorough};
                std::string msg;
                setCpuTimer(sub.caseCpuSeconds * 2);
                int k = runCase(sub, c, msg);
                printf("case: %s\n", c.desc.c_str());
                if (k == 1) {
                    printf("message: %s\nVIOLATION property=%s replay=%s\n", msg.c_str(), ck.id.c_str(), file.c_str());
                    return 1;
                }
                printf("replay: %s\n", k == 0 ? "property holds on this case" : "case discarded");
                return 0;
            }
        fprintf(stderr, "unknown sub-property %s\n", subName.c_str());
        return 2;
    }
};

int runMain(int argc, char **argv, const Check &ck) {
    Runner r(ck);
    std::string rp, known;
    r.tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
    if (getenv("VERIF_SEED")) r.seed = strtoull(getenv("VERIF_SEED"), nullptr, 10);
    r.replayDir = "replays";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") r.tier = nxt();
        else if (a == "--seed") r.seed = strtoull(nxt().c_str(), nullptr, 10);
        else if (a == "--workers") r.workers = atoi(nxt().c_str());
        else if (a == "--out") r.outFile = nxt();
        else if (a == "--replay-dir") r.replayDir = nxt();
        else if (a == "--replay") rp = nxt();
        else if (a == "--sub") r.onlySub = nxt();
        else if (a == "--max-seconds") r.maxSeconds = atof(nxt().c_str());
        else if (a == "--scale") r.scale = atof(nxt().c_str());
        else if (a == "--known") known = nxt();
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    r.thorough = r.tier == "thorough";
    if (r.workers > 64) r.workers = 64;
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    char tmpl[] = "/tmp/vpbtXXXXXX";
    const char *td = mkdtemp(tmpl);
    if (!td) { perror("mkdtemp"); return 2; }
    r.tmp = td;
    int rc;
    if (!known.empty()) {
        // exit 3: the recorded finding still fails; 0: it no longer fails
        auto it = ck.known.find(known);
        if (it == ck.known.end()) { fprintf(stderr, "unknown finding %s\n", known.c_str()); rc = 2; }
        else {
            pid_t p = fork();
            if (p == 0) {
                int fd1 = open("/dev/null", O_WRONLY);
                dup2(fd1, 1);
                dup2(fd1, 2);
                setCpuTimer(30);
                try { it->second(); } catch (...) { _exit(3); }
                _exit(0);
            }
            int st;
            waitpid(p, &st, 0);
            rc = (WIFEXITED(st) && WEXITSTATUS(st) == 0) ? 0 : 3;
        }
    } else if (!rp.empty()) rc = r.replay(rp);
    else rc = r.run();
    std::string cmd = "rm -rf '" + r.tmp + "'";
    if (system(cmd.c_str())) {}
    return rc;
}
} // namespace pbt
