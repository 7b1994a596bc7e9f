#pragma once
// Frame of the harnesses that carry their own oracle: seeded cases, batched observations, violations, last case on death.
#include "json.hpp"
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <sanitizer/common_interface_defs.h>
#include <string>
#include <unordered_set>
#include <vector>

namespace hv {

struct Rng {
    std::mt19937_64 g;
    explicit Rng(uint64_t s = 0) : g(s) { }
    uint64_t u() { return g(); }
    /** uniform in [lo, hi] */
    int64_t in(int64_t lo, int64_t hi) { return lo + int64_t(g() % (uint64_t(hi - lo) + 1)); }
    bool p(double x) { return double(g() >> 11) * 0x1p-53 < x; }
    double unit() { return double(g() >> 11) * 0x1p-53; }
    template<typename C> auto &pick(C &c) { return c[g() % c.size()]; }
    template<typename T> T of(std::initializer_list<T> l) { return l.begin()[g() % l.size()]; }
    template<typename C> void shuffle(C &c) { for (std::size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[g() % i]); }
};

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xbf58476d1ce4e5b9ull; return h ^ (h >> 31); }
inline uint64_t hash(std::string_view s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }

struct Nat {
    uint64_t seed = 1, shard = 0, n = 1;
    bool thorough = false;
    std::string mode;
    std::map<std::string, std::string> opt;
    std::map<std::string, uint64_t> counts;
    std::unordered_set<uint64_t> distinct;
    uint64_t evals = 0, samples = 0, fails = 0, fresh_from = 0;
    std::vector<uint64_t> fresh;
    char cur[4096] = {0};

    static Nat &get() { static Nat *n = new Nat; return *n; }
};

inline void flush_cases() {
    auto &N = Nat::get();
    std::string s = "{\"e\":\"cases\",\"n\":" + std::to_string(N.evals) + ",\"h\":[";
    for (std::size_t i = 0; i != N.fresh.size(); ++i) s += (i ? "," : "") + std::to_string(N.fresh[i] >> 12);
    emit(s + "]}");
    N.evals = 0; N.fresh.clear();
    for (auto &[k, v] : N.counts) emit("{\"e\":\"count\",\"k\":" + esc(k) + ",\"n\":" + std::to_string(v) + "}");
    N.counts.clear();
}
/** Announces the case about to run; reported if the process dies. */
inline void at(std::string_view s) {
    auto &N = Nat::get();
    std::size_t k = std::min(s.size(), sizeof(N.cur) - 1);
    memcpy(N.cur, s.data(), k); N.cur[k] = 0;
}
inline void ok(uint64_t h, bool nontrivial = true) {
    auto &N = Nat::get();
    ++N.evals;
    if (nontrivial and N.distinct.size() < 200000 and N.distinct.insert(h).second) N.fresh.push_back(h);
    if (N.evals >= 100000) flush_cases();
}
inline void count(const std::string &k, uint64_t n = 1) { Nat::get().counts[k] += n; }
inline void sample(const std::string &s) { auto &N = Nat::get(); if (N.samples++ < 3) emit("{\"e\":\"sample\",\"s\":" + esc(s) + "}"); }
inline void fail(const std::string &key, const std::string &what) {
    auto &N = Nat::get();
    emit("{\"e\":\"violation\",\"key\":" + esc(key) + ",\"what\":" + esc(what.substr(0, 4000)) + ",\"case\":" + esc(N.cur) + "}");
    if (++N.fails > 25) { flush_cases(); emit("{\"e\":\"done\"}"); _exit(0); }
}
/** A violation that may be a listed finding: reported once per process, and does not end the run. */
inline void finding(const std::string &key, const std::string &what) {
    static std::unordered_set<std::string> seen;
    count("finding " + key);
    if (seen.insert(key).second) emit("{\"e\":\"violation\",\"key\":" + esc(key) + ",\"what\":" + esc(what.substr(0, 4000)) + ",\"case\":" + esc(Nat::get().cur) + "}");
}
inline void inconclusive(const std::string &what) { emit("{\"e\":\"inconclusive\",\"what\":" + esc(what) + "}"); }
#define HV_CHECK(COND, KEY, WHAT) do { if (not (COND)) { std::ostringstream hv_ss; hv_ss << WHAT; hv::fail(KEY, hv_ss.str()); } } while (0)

inline void dying() {
    emit(std::string("{\"e\":\"dying\",\"case\":") + esc(Nat::get().cur) + "}");
}

/** Runs `fn(rng, i)` for the cases of this shard; a case depends on (seed, mode, shard, i) only. */
inline void cases(const std::function<void(Rng&, uint64_t)> &fn) {
    auto &N = Nat::get();
    uint64_t first = N.opt.count("only") ? std::stoull(N.opt["only"]) : 0;
    uint64_t last = N.opt.count("only") ? first + 1 : N.n;
    for (uint64_t i = first; i != last; ++i) {
        Rng r(mix(mix(mix(hash(N.mode), N.seed), N.shard), i));
        at("case " + std::to_string(i));
        fn(r, i);
    }
}

inline int nat_main(int argc, char **argv, const std::map<std::string, std::function<void()>> &modes) {
    auto &N = Nat::get();
    out_file();
    __sanitizer_set_death_callback(dying);
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto p = a.find('=');
        std::string k = a.substr(0, p), v = p == std::string::npos ? "" : a.substr(p + 1);
        if (k == "seed") N.seed = std::stoull(v);
        else if (k == "shard") N.shard = std::stoull(v);
        else if (k == "n") N.n = std::stoull(v);
        else if (k == "mode") N.mode = v;
        else if (k == "thorough") N.thorough = v == "1";
        else N.opt[k] = v;
    }
    auto it = modes.find(N.mode);
    if (it == modes.end()) { fprintf(stderr, "no mode %s\n", N.mode.c_str()); return 2; }
    try { it->second(); }
    catch (const std::exception &e) { fail(std::string("exception:") + e.what(), std::string("uncaught exception: ") + e.what()); }
    flush_cases();
    emit("{\"e\":\"done\"}");
    fflush(out_file());
    _exit(0);
}

}
