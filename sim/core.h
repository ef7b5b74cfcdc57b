// Core of the simulator: seeded choices, event log, statistics, violations.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <memory>
#include <algorithm>

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef std::vector<u8> Bytes;

inline u64 mix64(u64 z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline u64 hash_str(const char *s, u64 h = 1469598103934665603ULL) {
    for (; *s; s++) h = (h ^ (u8)*s) * 1099511628211ULL;
    return h;
}
inline u64 hash_bytes(const void *p, size_t n, u64 h = 1469598103934665603ULL) {
    const u8 *b = (const u8 *)p;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ULL;
    return mix64(h ^ n);
}
struct Rng {
    u64 s = 0;
    explicit Rng(u64 seed = 0) : s(seed) {}
    u64 next() { s += 0x9e3779b97f4a7c15ULL; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    u32 below(u32 n) { return (u32)((next() >> 32) * (u64)n >> 32); }
    void fill(void *p, size_t n) { u8 *b = (u8 *)p; while (n) { u64 v = next(); size_t k = n < 8 ? n : 8; memcpy(b, &v, k); b += k; n -= k; } }
};

// Every decision of a run goes through here. In random mode the values come from the
// PRNG and are recorded; in replay mode they come from the recorded list, and past its
// end every choice is 0, which always means the plainest alternative (no fault, ...).
struct Chooser {
    bool replaying = false;
    std::vector<u32> in, rec;
    size_t pos = 0;
    Rng rng;
    u32 choose(u32 n) {
        u32 v;
        if (n <= 1) return 0;
        if (replaying) v = pos < in.size() ? in[pos] % n : 0;
        else v = rng.below(n);
        pos++;
        rec.push_back(v);
        return v;
    }
    bool flip(u32 num, u32 den) { // true with probability num/den; false is the plain alternative
        u32 v;
        if (!num) return false;
        if (replaying) v = pos < in.size() ? (in[pos] ? 1 : 0) : 0;
        else v = rng.below(den) < num ? 1 : 0;
        pos++;
        rec.push_back(v);
        return v;
    }
    u32 pick(std::initializer_list<u32> vals) { return vals.begin()[choose(vals.size())]; }
};

struct Stats {
    std::map<std::string, u64> faults, probes;
    u64 runs = 0, steps = 0, sim_ns = 0, choices = 0, calls = 0;
    std::set<u64> shapes;      // distinct event-log hashes
    std::set<u64> nontrivial;  // of those, the non-trivial ones
    std::vector<std::string> samples;
    std::map<std::string, u64> known; // known findings met
};

struct Violation { std::string kind, msg; };

struct RunStop {};      // thrown (scheduler context only) to end a run after a violation

struct Sim {
    Chooser ch;
    std::string prop;
    std::string tier = "quick";
    bool thorough = false;
    u64 run_index = 0;
    bool verbose = false;
    std::vector<std::string> trace;
    u64 loghash = 0;
    u64 nfaults = 0, nevents = 0;
    bool violated = false;
    Violation v;
    Stats *st = nullptr;
    std::string scenario; // one-line description of the run
    bool nontrivial = false;
};
extern Sim *S;

inline u32 choose(u32 n) { return S->ch.choose(n); }
inline bool flip(u32 a, u32 b) { return S->ch.flip(a, b); }
template <class T, size_t N> T pick(const T (&a)[N]) { return a[S->ch.choose(N)]; }

void logf_(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string sfmt(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void evh(u64 a) { S->loghash = mix64(S->loghash * 31 + a); S->nevents++; }
// event: hashed always, text only when a trace is wanted
#define EV(h, ...) do { evh((u64)(h)); if (S->verbose) logf_(__VA_ARGS__); } while (0)
inline void probe(const char *name, u64 n = 1) { S->st->probes[name] += n; }
inline void fault_fired(const char *name) { S->st->faults[name]++; S->nfaults++; evh(hash_str(name)); }
// records the violation; safe everywhere. Callers in scheduler context use fail().
void set_violation(const std::string &kind, const std::string &msg);
[[noreturn]] void fail(const std::string &kind, const std::string &msg);
std::string hex(const u8 *p, size_t n, size_t maxb = 24);

typedef void (*PropFn)();
struct Prop { const char *id; PropFn fn; u32 quick, thorough; };
extern const Prop PROPS[];
