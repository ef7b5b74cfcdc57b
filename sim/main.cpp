#include "os.h"
#include "keys.h"
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/personality.h>

Sim *S = nullptr;
std::string g_build_dir;
extern std::set<std::string> g_known;

void logf_(const char *fmt, ...) {
    if (S->trace.size() > 4000) return;
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    S->trace.push_back(b);
}
std::string sfmt(const char *fmt, ...) { char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
std::string hex(const u8 *p, size_t n, size_t maxb) { std::string s; for (size_t i = 0; i < n && i < maxb; i++) s += sfmt("%02x", p[i]); if (n > maxb) s += ".."; return s; }
void set_violation(const std::string &k, const std::string &m) { if (S->violated) return; S->violated = true; S->v = {k, m}; EV(hash_str(k.c_str()), "VIOLATION %s: %s", k.c_str(), m.c_str()); }
void fail(const std::string &k, const std::string &m) { set_violation(k, m); throw RunStop(); }

struct Result { bool violated = false; Violation v; u64 loghash = 0; std::vector<u32> choices; std::string scenario; std::vector<std::string> trace; bool nontrivial = false; u64 nchoices = 0; };
static u64 g_seed;
static Stats g_stats;
static std::string g_tier = "quick";

static Result run_one(const Prop &P, u64 idx, const std::vector<u32> *replay, bool verbose, Stats *st) {
    Sim sim;
    Sim *olds = S;
    S = &sim;
    sim.prop = P.id; sim.tier = g_tier; sim.thorough = g_tier == "thorough"; sim.run_index = idx; sim.verbose = verbose; sim.st = st;
    if (replay) { sim.ch.replaying = true; sim.ch.in = *replay; }
    else sim.ch.rng = Rng(mix64(g_seed * 1000003 + hash_str(P.id)) ^ mix64(idx + 0x51ed));
    g_scales.clear();
    try { P.fn(); } catch (RunStop &) {}
    W = nullptr;
    Result r;
    r.violated = sim.violated; r.v = sim.v; r.loghash = sim.loghash; r.choices = sim.ch.rec; r.scenario = sim.scenario; r.trace = std::move(sim.trace); r.nontrivial = sim.nontrivial;
    st->runs++; st->choices += sim.ch.rec.size();
    st->shapes.insert(sim.loghash);
    if (sim.nontrivial) st->nontrivial.insert(sim.loghash);
    S = olds;
    return r;
}
static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::vector<u32> shrink(const Prop &P, u64 idx, Result best, double budget) {
    Stats tmp;
    double end = now_s() + budget;
    std::string kind = best.v.kind;
    std::vector<u32> cur = best.choices;
    auto trim = [](std::vector<u32> &v) { while (!v.empty() && v.back() == 0) v.pop_back(); };
    trim(cur);
    auto bad = [&](std::vector<u32> c) -> bool {
        if (now_s() > end) return false;
        Result r = run_one(P, idx, &c, false, &tmp);
        if (!r.violated || r.v.kind != kind) return false;
        std::vector<u32> n = r.choices; trim(n);
        auto better = [](const std::vector<u32> &a, const std::vector<u32> &b) { if (a.size() != b.size()) return a.size() < b.size(); u64 x = 0, y = 0; for (u32 i : a) x += (i != 0); for (u32 i : b) y += (i != 0); if (x != y) return x < y; for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return a[i] < b[i]; return false; };
        if (better(n, cur)) { cur = n; return true; }
        if (better(c, cur)) { cur = c; return true; }
        return false;
    };
    bool progress = true;
    while (progress && now_s() < end) {
        progress = false;
        for (size_t len = cur.size(); len >= 1; len /= 2)
            for (size_t i = 0; i + len <= cur.size() && now_s() < end;) {
                auto c = cur; c.erase(c.begin() + i, c.begin() + i + len);
                if (bad(c)) { progress = true; continue; }
                c = cur; bool nz = false; for (size_t j = i; j < i + len; j++) { nz |= c[j] != 0; c[j] = 0; }
                if (nz && bad(c)) { progress = true; continue; }
                i += len;
            }
        for (size_t i = 0; i < cur.size() && now_s() < end; i++) {
            for (u32 v : {1u, cur[i] / 2, cur[i] > 16 ? cur[i] - 16 : 0, cur[i] ? cur[i] - 1 : 0}) { if (i < cur.size() && v < cur[i]) { auto c = cur; c[i] = v; if (bad(c)) progress = true; } }
        }
    }
    return cur;
}
static std::string js(const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((u8)c < 32) o += ' '; else o += c; } return o + "\""; }
static void put_result(FILE *f, const Result &r, u64 idx, const std::vector<u32> &choices) {
    fprintf(f, "{\"run\":%llu,\"violated\":%s,\"kind\":%s,\"message\":%s,\"log_hash\":\"%016llx\",\"scenario\":%s,\"choices\":[", (unsigned long long)idx, r.violated ? "true" : "false", js(r.v.kind).c_str(), js(r.v.msg).c_str(), (unsigned long long)r.loghash, js(r.scenario).c_str());
    for (size_t i = 0; i < choices.size(); i++) fprintf(f, "%s%u", i ? "," : "", choices[i]);
    fprintf(f, "],\"trace\":[");
    for (size_t i = 0; i < r.trace.size(); i++) fprintf(f, "%s\n%s", i ? "," : "", js(r.trace[i]).c_str());
    fprintf(f, "]}");
}
void tiny_selfcheck();

int main(int argc, char **argv) {
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR")) { // identical addresses in every process
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_ASLR", "tried", 1); execv("/proc/self/exe", argv); }
    }
    std::map<std::string, std::string> o;
    for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    std::string cmd = argc > 1 ? argv[1] : "";
    g_build_dir = argv[0];
    { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n < 0 ? 0 : n] = 0; g_build_dir = b; g_build_dir = g_build_dir.substr(0, g_build_dir.rfind('/')); }
    g_seed = strtoull(o["--seed"].c_str(), 0, 10);
    if (o.count("--tier")) g_tier = o["--tier"];
    { std::string k = o["--known"]; size_t p; while ((p = k.find(',')) != std::string::npos) { g_known.insert(k.substr(0, p)); k = k.substr(p + 1); } if (!k.empty()) g_known.insert(k); }
    const Prop *P = nullptr;
    for (const Prop *q = PROPS; q->id; q++) if (o["--prop"] == q->id) P = q;
    if (!P) { fprintf(stderr, "unknown property\n"); _exit(3); }
    os_init();
    { Sim boot; S = &boot; boot.st = &g_stats; tiny_selfcheck(); S = nullptr; g_stats = Stats(); }
    if (cmd == "info") { printf("%u %u\n", P->quick, P->thorough); fflush(stdout); _exit(0); }
    if (cmd == "replay") {
        std::vector<u32> ch;
        FILE *f = fopen(o["--choices"].c_str(), "r");
        unsigned v; while (f && fscanf(f, "%u", &v) == 1) ch.push_back(v);
        u64 idx = strtoull(o["--run"].c_str(), 0, 10);
        Result r = run_one(*P, idx, &ch, o.count("--verbose"), &g_stats);
        put_result(stdout, r, idx, ch);
        fflush(stdout);
        _exit(0);
    }
    if (cmd == "one") { // random run by index, with trace
        u64 idx = strtoull(o["--run"].c_str(), 0, 10);
        Result r = run_one(*P, idx, nullptr, true, &g_stats);
        put_result(stdout, r, idx, r.choices);
        fflush(stdout);
        _exit(0);
    }
    u64 runs = strtoull(o["--runs"].c_str(), 0, 10), w = strtoull(o["--worker"].c_str(), 0, 10), nw = std::max<u64>(1, strtoull(o["--workers"].c_str(), 0, 10));
    double t0 = now_s(), deadline = o.count("--deadline") ? atof(o["--deadline"].c_str()) : 1e9;
    int pf = o.count("--progress") ? open(o["--progress"].c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644) : -1;
    if (cmd == "det") {
        for (u64 i = w; i < runs; i += nw) { Result r = run_one(*P, i, nullptr, false, &g_stats); printf("%llu %016llx %zu %d\n", (unsigned long long)i, (unsigned long long)r.loghash, r.choices.size(), r.violated); }
        fflush(stdout); _exit(0);
    }
    if (cmd != "run") _exit(3);
    Result bad; u64 badidx = 0; bool found = false; bool capped = false;
    for (u64 i = w; i < runs; i += nw) {
        if (now_s() - t0 > deadline) { capped = true; break; }
        if (pf >= 0) pwrite(pf, &i, 8, 0);
        Result r = run_one(*P, i, nullptr, false, &g_stats);
        if ((g_stats.samples.size() < 3 && r.nontrivial) && !r.scenario.empty()) g_stats.samples.push_back(sfmt("run %llu: ", (unsigned long long)i) + r.scenario);
        if (r.violated) { bad = r; badidx = i; found = true; break; }
    }
    FILE *f = fopen(o["--out"].c_str(), "w");
    fprintf(f, "{\"runs\":%llu,\"steps\":%llu,\"sim_ns\":%llu,\"choices\":%llu,\"calls\":%llu,\"capped\":%s,\"wall\":%.3f,\"tiny\":%s", (unsigned long long)g_stats.runs, (unsigned long long)g_stats.steps, (unsigned long long)g_stats.sim_ns, (unsigned long long)g_stats.choices, (unsigned long long)g_stats.calls, capped ? "true" : "false", now_s() - t0, g_tiny_ok ? "true" : "false");
    auto mp = [&](const char *n, std::map<std::string, u64> &m) { fprintf(f, ",\n\"%s\":{", n); bool c = false; for (auto &x : m) { fprintf(f, "%s%s:%llu", c ? "," : "", js(x.first).c_str(), (unsigned long long)x.second); c = true; } fprintf(f, "}"); };
    mp("faults", g_stats.faults); mp("probes", g_stats.probes); mp("known", g_stats.known);
    auto hs = [&](const char *n, std::set<u64> &s) { fprintf(f, ",\n\"%s\":[", n); bool c = false; for (u64 x : s) { fprintf(f, "%s\"%llx\"", c ? "," : "", (unsigned long long)x); c = true; } fprintf(f, "]"); };
    hs("shapes", g_stats.shapes); hs("nontrivial", g_stats.nontrivial);
    fprintf(f, ",\n\"samples\":["); for (size_t i = 0; i < g_stats.samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", js(g_stats.samples[i]).c_str()); fprintf(f, "]");
    if (found) {
        // the file is complete before shrinking starts, in case shrinking dies
        fprintf(f, ",\n\"first\":"); Result b2 = bad; b2.trace.clear(); put_result(f, b2, badidx, bad.choices);
        fprintf(f, "\n"); fflush(f);
        long at = ftell(f);
        fprintf(f, "}\n"); fflush(f);
        std::vector<u32> c = shrink(*P, badidx, bad, 25);
        Stats tmp;
        Result r = run_one(*P, badidx, &c, true, &tmp);
        fseek(f, at, SEEK_SET);
        fprintf(f, ",\"minimal\":"); put_result(f, r, badidx, c);
    }
    fprintf(f, "}\n");
    fclose(f);
    _exit(0);
}
