// Shared run-time monitoring framework: deterministic case runner, event
// counters, crash attribution, leak accounting and the reporting channel.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <cfloat>
#include <climits>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <random>
#include <limits>
#include <sstream>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <utility>

#if defined(__SANITIZE_ADDRESS__)
#define VERIF_ASAN 1
#else
#define VERIF_ASAN 0
#endif

namespace vh
{

// ---------------------------------------------------------------- random --
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // inclusive range
    int range(int lo, int hi)
    {
        if (hi < lo) return lo;
        return lo + (int)(next() % (uint64_t)((int64_t)hi - lo + 1));
    }
    bool chance(int num, int den) { return (int)(next() % (uint64_t)den) < num; }
    double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
    template <typename V> void shuffle(V& v)
    {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next() % i]);
    }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

inline uint64_t hash_mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}
inline uint64_t hash_str(const char* s)
{
    uint64_t h = 1469598103934665603ull;
    while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ull; }
    return h;
}

// ------------------------------------------------------------------ case --
struct CaseFail {};

struct Ctx
{
    Rng r;
    const char* fam;
    long idx;
    bool nontrivial;
    uint64_t sig;
    bool big;       // this case may use large sizes
    bool thorough;
    char sample[600];

    void mix(uint64_t v) { sig = hash_mix(sig, v); }
    void mixd(double v) { uint64_t b; std::memcpy(&b, &v, 8); mix(b); }
    void describe(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    // A size: usually small, sometimes zero/one, sometimes medium, on "big" cases large.
    int size(int lo = 0)
    {
        int v;
        int k = r.range(0, 99);
        if (k < 8) v = 0;
        else if (k < 18) v = 1;
        else if (k < 70) v = r.range(2, 7);
        else if (k < 94) v = r.range(8, 20);
        else v = r.range(21, 48);
        if (big && r.chance(1, 2)) v = r.range(60, 180);
        return v < lo ? lo + (int)(r.next() % 3) : v;
    }
};

typedef void (*CaseFn)(Ctx&);
struct Family { const char* name; CaseFn fn; int big_every; bool leak_check; };
std::vector<Family>& families();
struct Registrar
{
    Registrar(const char* name, CaseFn fn, int big_every = 25, bool leak_check = true)
    { Family f = {name, fn, big_every, leak_check}; families().push_back(f); }
};
#define FAMILY(id, name, ...) \
    static void fam_##id(vh::Ctx& c); \
    static vh::Registrar reg_##id(name, fam_##id, ##__VA_ARGS__); \
    static void fam_##id(vh::Ctx& c)

// event/step: labels where we are (for crash attribution) and counts what the monitor saw
void step(const char* label);
void count(const char* label, long n = 1);
#define STEP(label) vh::step(label)

void fail(const char* key, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
#define CHECK(cond, key, ...) do { if (!(cond)) vh::fail(key, __VA_ARGS__); } while (0)

const char* scratch_dir();   // private writable directory of this run
const char* current_step();
bool in_release();

// ---- boundary monitor hooks (see boundary.cpp) ----
void boundary_report(const char* what, const char* detail);
void boundary_flush();

// ---- death tests: run fn in a forked child ----
// The outcome of an out-of-contract call.
enum Death { D_STOPPED, D_THROWN, D_SILENT, D_SANITIZER, D_OTHER };
Death death(const std::function<void()>& fn, std::string* detail);

} // namespace vh
#endif
