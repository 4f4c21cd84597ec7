// Property-based testing engine: every random decision is drawn from one
// recorded choice sequence, so a case is a pure function of (VERIF_SEED,
// sub-property, case number), failures shrink by shrinking the sequence, and a
// saved sequence replays the case exactly. Cases run in forked workers, so a
// crash or a hang of the code under test is itself an observable failure.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace pbt {
using u64 = uint64_t;

inline u64 mix(u64 x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline u64 hashStr(const std::string &s) {
    u64 h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix(h);
}

struct Fail { std::string msg; };
struct Discard {};

// Source of choices. Value 0 is always the simplest choice.
class Src {
public:
    explicit Src(u64 seed) : st(seed) {}
    explicit Src(const std::vector<u64> *replay) : in(replay) {}
    u64 below(u64 n);                 // uniform in [0, n)
    bool coin() { return below(2) == 1; }
    bool chance(unsigned num, unsigned den) { u64 v = below(den); return v >= den - num; } // 0 -> false
    int range(int lo, int hi) { return lo + (int)below((u64)(hi - lo) + 1); }
    // index chosen with the given weights; index 0 is the simplest
    size_t weighted(std::initializer_list<unsigned> w) {
        u64 tot = 0;
        for (unsigned x : w) tot += x;
        u64 v = below(tot);
        size_t n = 0;
        for (unsigned x : w) { if (v < x) return n; v -= x; n++; }
        return 0;
    }
    template <class C> const typename C::value_type &pick(const C &c) { return *(c.begin() + below(c.size())); }
    template <class T> const T &pick(std::initializer_list<T> c) { return *(c.begin() + below(c.size())); }
    std::vector<u64> rec;
private:
    u64 st = 0;
    const std::vector<u64> *in = nullptr;
    size_t pos = 0;
};

struct Ctx {
    Src &s;
    std::string key;       // identifies the case for distinctness
    std::string desc;      // human readable case
    bool nontrivial = false;
    std::vector<std::string> labels;
    bool thorough = false;
    void label(std::string l) { labels.push_back(std::move(l)); }
    [[noreturn]] void fail(const std::string &m) { throw Fail{m}; }
    void require(bool ok, const std::string &m) { if (!ok) throw Fail{m}; }
    [[noreturn]] void discard() { throw Discard{}; }
};

using PropFn = std::function<void(Ctx &)>;
struct Sub {
    std::string name;
    u64 quick;      // number of cases, quick tier
    u64 thorough;   // number of cases, thorough tier
    PropFn fn;
    unsigned caseCpuSeconds = 30; // a case using more CPU than this is a hang
    bool schedule = false;        // the outcome may depend on the thread schedule
};
struct Check {
    std::string id;
    std::string rule;             // how cases are made / what is non-trivial
    std::vector<std::string> assumptions;
    std::vector<Sub> subs;
    std::map<std::string, std::function<void()>> known; // fixed inputs of recorded findings: throws Fail / crashes while still broken
};

int runMain(int argc, char **argv, const Check &check);

// Live-byte accounting (AddressSanitizer builds only; 0 otherwise).
long liveBytes();
// Runs f (which must destroy everything it creates) and returns the number of
// bytes it leaves allocated, after ruling out one-time caches; 0 = no leak.
long leakOf(const std::function<void()> &f);
} // namespace pbt
