// Properties decided on the command line tools: C01-C04, C06, C07, C10 (tool part), C19; and C05.
#include "os.h"
#include "signworld.h"
#include <fcntl.h>

// ------------------------------------------------------------------ C01
void prop_C01() {
    std::string v = choose_variant();
    MP p = choose_params(v, {});
    SignWorld s(v, p, choose(3), 40);
    if (!usable(s)) return;
    u32 nrun = 2 + choose(5);
    size_t st = s.choose_start(2);
    if (!s.start(st)) return;
    std::string log;
    // the other implementation's tool can be set on the longer key files of the fast one, too: what it
    // signs is valid, what follows may not be, but no index may come twice
    bool mixed = v == "fast" && choose(6) == 5;
    for (u32 i = 0; i < nrun; i++) {
        bool other = mixed && choose(2);
        Proc &pr = s.sign(choose_message(p.sig()), 0, other ? "ref" : nullptr);
        if (other) log += " (reference tool)";
        u32 kind = choose(8); // plain, kill, kill, kill inside a write, power loss, I/O faults, faults and kill, faults and power loss
        plan(pr, kind >= 5 ? PL_HARD | PL_SOFT : choose(3) == 2 ? PL_SOFT : 0);
        if (kind == 1 || kind == 2 || kind == 3 || kind == 6) { pr.kill_at = choose(36); pr.kill_mid = kind == 3; }
        if (kind == 4 || kind == 7) s.w.power_at = s.w.steps + 1 + choose(36);
        u64 f0 = S->nfaults;
        s.w.run_all();
        if (s.w.powered_off || s.w.power_at >= 0 && kind >= 4 && (kind == 4 || kind == 7) && choose(2)) s.w.power_loss();
        else if (choose(6) == 5) s.w.power_loss();
        s.w.power_at = -1; s.w.powered_off = false;
        if (S->nfaults > f0) S->nontrivial = true;
        log += sfmt("; run %u: %s, idx %lld, faults%s", i, outcome(pr).c_str(), (long long)s.released_index(pr), faults_of(pr).c_str());
    }
    sc(s, sfmt("start %zu", st) + log);
}
// ------------------------------------------------------------------ C02
// messages of 2 and 4 GiB: a text, then zeros
struct HugeRun {
    u64 mlen; Bytes head;
    HugeRun() { g_watchdog_s = 400; head = message(1000, choose(1000)); static const u64 over[] = {0, 1, 5000, 70001}; mlen = ((u64)1 << (31 + S->run_index % 2)) + pick(over); g_zero_tail = mlen - head.size(); S->nontrivial = true; }
    ~HugeRun() { g_watchdog_s = 30; g_zero_tail = 0; }
    void set(World &w, Proc &pr) { w.huge = true; w.step_cap = 1u << 31; pr.bufsize = 65536; pr.out_file = choose(2); if (choose(2)) { pr.allow[FK_SHORT] = 1; pr.max_faults = 3; pr.rate_num = 1; pr.rate_den = 4; } }
    static bool now(int n) { return S->run_index % 65536 / n == 31 / (u64)n; }
};
static void huge_sign() {
    HugeRun H;
    std::string v = choose_variant();
    bool mt = choose(2);
    MP p = make_params(F_SHA2, 32, 4, mt ? 2 : 1, mt, g_tiny_ok ? 4 : 0, 0);
    p.oid = pick_oid(mt, p.func, p.n).oid;
    g_scales = {p};
    SignWorld s(v, p, choose(3), 12);
    if (!usable(s)) return;
    size_t st = choose(3);
    if (!s.start(st)) return;
    s.check_reuse = false;
    Proc &pr = s.sign(H.head);
    s.w.dir["msg0"]->ztail = g_zero_tail;
    H.set(s.w, pr);
    pr.out_limit = p.sig() + H.head.size();
    s.w.run_all();
    std::string ctx = sfmt("%s, message of 2^%d+%llu bytes, faults:%s; %s %s", outcome(pr).c_str(), 31 + (int)(S->run_index % 2), (unsigned long long)(H.mlen & 0xfffff), faults_of(pr).c_str(), v.c_str(), p.str().c_str());
    sc(s, ctx);
    if (pr.st == Proc::CRASHED) fail("crash", "the signing tool crashed: " + ctx);
    if (!exit0(pr)) fail("failed-without-fault", "signing failed although nothing went wrong: " + ctx);
    if (pr.outbytes != s.expect(st, H.head) || pr.out_more != g_zero_tail || pr.out_nonzero) fail("false-success", sfmt("exit status 0 but the %llu bytes on stdout are not the signed message (%llu bytes): ", (unsigned long long)(pr.outbytes.size() + pr.out_more), (unsigned long long)(p.sig() + H.mlen)) + ctx);
    if (!s.key_durable() || (s.k->reach(st + 1) && s.cur_key() != s.k->file(st + 1))) fail("success-key-wrong", "the stored key is not the one that follows: " + ctx);
    probe("messages_beyond_2_31");
}
void prop_C02() {
    if (HugeRun::now(2)) { huge_sign(); return; }
    std::string v = choose_variant();
    MP p = choose_params(v, {});
    SignWorld s(v, p, choose(3), 40);
    if (!usable(s)) return;
    size_t st = s.choose_start();
    if (!s.start(st)) return;
    s.check_reuse = false;
    Bytes before = s.cur_key();
    Bytes m = choose_message(p.sig());
    bool many = choose(60) == 59; // one argument too many may be refused, but not half obeyed
    if (many) s.nargs = 3;
    Proc &pr = s.sign(m);
    u32 mode = choose(6);
    plan(pr, mode == 0 ? 0 : mode == 1 ? PL_SOFT : PL_HARD | PL_SOFT);
    s.w.run_all();
    std::string ctx = sfmt("%s, start index %zu, message of %zu bytes, faults:%s; %s %s", outcome(pr).c_str(), st, m.size(), faults_of(pr).c_str(), v.c_str(), p.str().c_str());
    sc(s, ctx);
    if (pr.hard + pr.soft) S->nontrivial = true;
    if (pr.st == Proc::CRASHED) fail("crash", "the signing tool crashed: " + ctx);
    if (pr.st == Proc::BLOCKED) fail("stuck", "the signing tool never ends: " + ctx);
    bool usable_idx = st < p.usable();
    if (exit0(pr)) {
        probe(pr.hard ? "success_despite_fault" : "success");
        if (!usable_idx) fail("success-exhausted", "exit status 0 from an exhausted key: " + ctx);
        if (pr.outbytes != s.expect(st, m)) fail("false-success", sfmt("exit status 0 but stdout accepted %zu bytes that are not the signed message (%zu bytes): ", pr.outbytes.size(), p.sig() + m.size()) + ctx);
        if (!s.key_durable()) fail("success-not-durable", "exit status 0 but the advanced key is not on stable storage: " + ctx);
        Bytes now = s.cur_key();
        if (now.size() != before.size()) fail("success-key-damaged", "exit status 0 but the key file changed size: " + ctx);
        u64 idx = rdbe(now.data() + s.k->idx_off(), p.idxb);
        if (idx <= st) fail("success-key-not-advanced", "exit status 0 but the stored index has not moved: " + ctx);
        if (s.k->reach(st + 1) && now != s.k->file(st + 1)) fail("success-key-wrong", "exit status 0 but the stored key is not the one that follows: " + ctx);
        if (choose(2)) { s.w.power_loss(); if (s.cur_key() != now) fail("success-not-durable", "key lost by a power loss after exit status 0: " + ctx); }
    } else {
        probe(pr.st == Proc::KILLED ? "killed" : "failure_reported");
        if (usable_idx && !many && !pr.hard && pr.st != Proc::KILLED) fail("failed-without-fault", "signing failed although nothing went wrong: " + ctx);
    }
}
// ------------------------------------------------------------------ C03
void prop_C03() {
    std::string v = choose_variant();
    MP p = choose_params(v, {});
    SignWorld s(v, p, choose(3), 40);
    if (!usable(s)) return;
    s.check_release = false; s.check_reuse = false;
    u32 rounds = 1 + choose(3);
    size_t st = s.choose_start(9);
    if (!s.start(st)) return;
    static const u32 dens[] = {2, 1, 3, 6, 20};
    static const u32 stalls[] = {3, 8, 20};
    std::string log;
    u64 avail = p.usable() - st;
    std::map<u64, std::string> seen;
    bool upset = false; // a process failed in the middle of a key update
    bool alias = choose(6) == 5; // the key file has two names
    if (alias) { s.w.dir["link"] = s.w.dir["key"]; log += " (two names)"; }
    for (u32 r = 0; r < rounds; r++) {
        size_t first = s.runs.size();
        u32 n = 2 + choose(2);
        bool hard = choose(6) == 5;
        for (u32 i = 0; i < n; i++) {
            Proc &pr = s.sign(choose_message(p.sig()), i, nullptr, alias && choose(2) ? "link" : "key");
            plan(pr, hard && choose(2) ? PL_HARD | PL_SOFT : choose(3) == 2 ? PL_SOFT : 0);
            if (choose(4) == 3) { pr.kill_at = choose(36); pr.kill_mid = choose(3) == 2; }
        }
        s.w.sched_den = pick(dens);
        s.w.stall_den = choose(4) == 3 ? pick(stalls) : 0;
        s.w.stalls = 0;
        s.w.run_all();
        for (size_t i = first; i < s.runs.size(); i++) if (s.runs[i].pr->hard && s.runs[i].pr->file_writes && !exit0(*s.runs[i].pr)) { upset = true; s.torn = true; }
        for (size_t i = first; i < s.runs.size(); i++) {
            Proc &pr = *s.runs[i].pr;
            int64_t idx = s.released_index(pr);
            std::string ctx = sfmt("%s in round %u: %s, start index %zu; %s %s", pr.name.c_str(), r, outcome(pr).c_str(), st, v.c_str(), p.str().c_str());
            log += sfmt("; %s %s idx %lld", pr.name.c_str(), outcome(pr).c_str(), (long long)idx);
            if (idx >= 0) {
                if (seen.count(idx)) { sc(s, log); fail("index-shared", sfmt("index %lld emitted by both %s and ", (long long)idx, seen[idx].c_str()) + ctx); }
                seen[idx] = pr.name;
            }
            if (pr.st == Proc::KILLED) continue;
            if (pr.st == Proc::BLOCKED) { sc(s, log); fail("stuck", "waits forever for " + pr.blocked_on + ": " + ctx); }
            if (s.torn && v == "fast" && !exit0(pr)) { probe("torn_update_seen"); continue; } // the business of C19
            if (pr.st == Proc::CRASHED) { sc(s, log); fail("crash", ctx); }
            if (!exit0(pr) && (pr.hard || upset || s.w.stalls)) { probe("failure_reported"); continue; } // a fault, or a wait that may have been cut short
            if (!exit0(pr)) { if (s.runs.size() <= avail) { sc(s, log); fail("failed-without-fault", ctx); } continue; }
            if (idx < 0) { sc(s, log); fail("bad-output", "exit status 0 without a signature: " + ctx); }
            Bytes want = s.expect(idx, s.runs[i].m);
            bool good = pr.outbytes == want;
            if (!good) {
                if (s.torn && v == "fast") { probe("torn_update_seen"); continue; } // the business of C19
                sc(s, log); fail("bad-signature", sfmt("output for index %lld does not verify: ", (long long)idx) + ctx);
            }
        }
        s.w.reap(*s.runs.back().pr);
    }
    S->nontrivial = true;
    sc(s, log);
}
// ------------------------------------------------------------------ C04
void prop_C04() {
    std::string v = choose_variant();
    MP p = choose_params(v, {});
    World w; W = &w;
    std_files(w);
    w.ent_seed = choose(1 << 16) + 5;
    std::string name;
    for (auto &r : OIDS) if (r.mt == p.mt && r.oid == p.oid) name = r.name;
    bool known = true;
    if (choose(8) == 7) {
        known = false;
        std::string was = name;
        u32 c = choose(14);
        if (c == 0) name = "";
        if (c == 1) name = name.substr(0, name.size() - 1);
        if (c == 2) name += " ";
        if (c == 3) { for (auto &r : OIDS) if (r.mt != p.mt) { name = r.name; break; } }
        if (c == 4) name = std::string(5000, 'A');
        if (c == 5) name[3] ^= 0x20;
        if (c == 6) name = " " + name;
        if (c == 7) for (auto &ch : name) if (ch >= 'A' && ch <= 'Z') ch += 32;
        if (c == 8) { static const char *x[] = {"_256", "x", "/", "0", "\n", "_512", "/2"}; name += pick(x); }
        if (c == 9) { u32 i = choose(name.size()); name[i] = "0123456789ABCDEFSHKMX_-/2"[choose(25)]; }
        if (c == 10) { std::vector<size_t> d; for (size_t i = 0; i < name.size(); i++) if (isdigit(name[i])) d.push_back(i); name[d[choose(d.size())]] = '0' + choose(10); }
        if (c == 11) name.erase(choose(name.size()), 1);
        if (c == 12) { name = name.substr(0, choose(name.size())); }
        if (c == 13) { name = name.substr(name.find('-') + 1); }
        for (auto &r : OIDS) if (r.mt == p.mt && r.name == name) name = was + "!";
    }
    std::vector<std::string> args = {"keypair", name};
    if (!known && choose(12) == 11) { args.resize(1); name = "(none given)"; probe("wrong_argument_counts"); }
    Proc &pr = tool(w, "keypair", image(sfmt("tool_keypair_%s_%s.0", p.mt ? "xmssmt" : "xmss", v.c_str())), args);
    u32 mode = choose(6);
    plan(pr, mode == 0 ? 0 : mode == 1 ? PL_SOFT | PL_ENT : mode == 2 ? PL_ENT : PL_HARD | PL_SOFT | PL_ENT);
    if (choose(12) == 11) pr.kill_at = choose(20);
    if (mode == 2 && choose(6) == 5) { static const u32 outage[] = {64, 200, 1100}; pr.ent_fails_left = pick(outage); pr.max_faults = 2000; pr.rate_num = pr.rate_den = 1; } // a long outage
    w.run_all();
    std::string ctx = sfmt("name '%.40s': %s, faults:%s; %s %s", name.c_str(), outcome(pr).c_str(), faults_of(pr).c_str(), v.c_str(), p.str().c_str());
    S->scenario = ctx;
    if (pr.hard + pr.soft || !known) S->nontrivial = true;
    if (pr.st == Proc::CRASHED) fail("crash", "the key generation tool crashed: " + ctx);
    if (pr.st == Proc::BLOCKED) fail("stuck", ctx);
    if (!known) {
        if (exit0(pr)) fail("unknown-name-accepted", ctx);
        if (!pr.outbytes.empty() && pr.st == Proc::DONE) fail("unknown-name-output", ctx);
        return;
    }
    if (!exit0(pr)) { if (!pr.hard && pr.st == Proc::DONE) fail("failed-without-fault", ctx); probe("failure_reported"); return; }
    probe("success");
    size_t skn = sk_size(v, p);
    if (pr.outbytes.size() != p.pk() + skn) fail("incomplete-output", sfmt("exit status 0 but stdout accepted %zu bytes instead of %zu: ", pr.outbytes.size(), p.pk() + skn) + ctx);
    const u8 *pk = pr.outbytes.data(), *sk = pk + p.pk();
    if (rdbe(pk, 4) != p.oid || rdbe(sk, 4) != p.oid) fail("wrong-identifier", ctx);
    if (rdbe(sk + 4, p.idxb) != 0) fail("index-not-zero", ctx);
    const u8 *q = sk + 4 + p.idxb;
    Bytes seed(q, q + p.n), prf(q + p.n, q + 2 * p.n), root(q + 2 * p.n, q + 3 * p.n), pub(q + 3 * p.n, q + 4 * p.n);
    std::vector<size_t> at;
    for (auto *b : {&seed, &prf, &pub}) {
        auto it = std::search(pr.entropy.begin(), pr.entropy.end(), b->begin(), b->end());
        if (it == pr.entropy.end()) fail("seed-not-from-entropy", sfmt("%s is not a piece of the entropy delivered: ", b == &seed ? "secret seed" : b == &prf ? "randomisation key" : "public seed") + ctx);
        at.push_back(it - pr.entropy.begin());
    }
    for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) if (std::max(at[i], at[j]) - std::min(at[i], at[j]) < (size_t)p.n) fail("entropy-shared", "two of the three seeds share entropy: " + ctx);
    ModelKey mk = model_key(p, seed, prf, pub);
    if (root != mk.root || memcmp(pk + 4, mk.root.data(), p.n) || memcmp(pk + 4 + p.n, pub.data(), p.n)) fail("parts-do-not-match", "root or public seed of the two parts differ or do not follow from the seeds: " + ctx);
    // the secret key signs for the public key
    Proc &h = w.spawn("host", image("lib_plain_" + v + ".0"), nullptr);
    LibApi a = api(h.img, p.mt);
    Bytes skc(sk, sk + skn), m = message(9, 1), sm;
    if (!guarded_sign(h, a, p, skc, m, sm) || sm != mk.sign(0, m)) fail("key-does-not-sign", "the generated secret key's first signature is not valid under the public key: " + ctx);
}
// ------------------------------------------------------------------ C05
void prop_C05() {
    World w; W = &w;
    std_files(w);
    w.ent_seed = choose(1 << 16) + 5;
    std::string v = choose_variant();
    Proc &h = w.spawn("host", image("lib_plain_" + v + ".0"), nullptr);
    auto rb = (void (*)(u8 *, unsigned long long))h.img->sym("randombytes");
    if (S->run_index % 16384 == 21 || (S->thorough && S->run_index % 4096 == 21)) { // lengths that need more than 31 or 32 bits
        static const u64 over[] = {1, 97, 4096, 1048577};
        size_t n = ((u64)1 << (31 + choose(2))) + pick(over);
        static Bytes text = message((1 << 20) + 4099, 77);
        w.ent_big = &text;
        h.allow.assign(FK_KINDS, 0);
        h.allow[FK_ENT_SHORT] = h.allow[FK_ENT_EIO] = h.allow[FK_ENT_EOF] = 1;
        h.max_faults = choose(4); h.rate_num = choose(2); h.rate_den = 500;
        w.step_cap = 1u << 30;
        struct Dog { Dog() { g_watchdog_s = 300; } ~Dog() { g_watchdog_s = 30; } } dog;
        HugeBuf b(n);
        std::string ctx = sfmt("request of %zu bytes", n);
        S->scenario = v + "; " + ctx; S->nontrivial = true;
        probe("requests_beyond_2_31");
        bool ret = call(h, [&] { rb(b.p, n); });
        if (S->violated) throw RunStop();
        if (!ret) fail("crash", h.crash + ": " + ctx);
        if (w.ent_big_count != n) fail(w.ent_big_count < n ? "not-filled" : "bytes-lost", sfmt("%llu bytes were delivered for ", (unsigned long long)w.ent_big_count) + ctx);
        // the first part and the last are real memory, what lies between is mapped repeatedly
        for (size_t i = 0; i < HugeBuf::REAL / 2; i++) if (b.p[i] != text[i % text.size()]) fail("wrong-bytes", sfmt("byte %zu is not the delivered one: ", i) + ctx);
        for (size_t i = n - 1; i >= b.last(); i--) if (b.p[i] != text[i % text.size()]) fail("wrong-bytes", sfmt("byte %zu is not the delivered one: ", i) + ctx);
        return;
    }
    u32 calls = 1 + choose(4);
    std::string log;
    for (u32 c = 0; c < calls; c++) {
        static const u32 sizes[] = {96, 0, 1, 2, 31, 4096, 65537, 1048575, 1048576, 1048577, 2097152, 2500000};
        u32 k = choose(24);
        size_t n = k < 8 ? sizes[k < 7 ? k : 6] : k < 12 ? choose(3000) : k < 13 ? sizes[7 + choose(5)] : choose(200);
        h.allow.assign(FK_KINDS, 0);
        h.max_faults = 1 + choose(30); h.hard = h.soft = 0;
        static const u32 dens[] = {4, 2, 1, 10};
        h.rate_num = choose(5) ? 1 : 0; h.rate_den = pick(dens);
        for (int f : ENT) h.allow[f] = flip(1, 2);
        h.allow[FK_ENT_SHORT] = flip(1, 2);
        h.ent_fails_left = choose(20);
        if (choose(20) == 19) { static const u32 outage[] = {64, 200, 1100}; h.ent_fails_left = pick(outage); h.max_faults = 2000; h.rate_num = h.rate_den = 1; } // a long outage
        u32 budget = h.ent_fails_left;
        h.fired.clear();
        size_t e0 = h.entropy.size(); u64 o0 = h.ent_ops, t0 = w.now;
        Buf b(n, choose(2));
        memset(b.p, 0x99, n);
        w.step_cap = w.steps + 20000;
        bool ret = call(h, [&] { rb(b.p, n); });
        std::string ctx = sfmt("request of %zu bytes, call %u, faults:%s", n, c, faults_of(h).c_str());
        log += "; " + ctx;
        S->scenario = v + log;
        if (h.hard + h.soft) S->nontrivial = true;
        if (S->violated) throw RunStop();
        if (!ret) fail(h.crash.find("progress") != std::string::npos || h.crash.find("hang") != std::string::npos ? "never-returns" : "crash", h.crash + ": " + ctx);
        Bytes got(h.entropy.begin() + e0, h.entropy.end());
        if (got.size() < n) fail("not-filled", sfmt("returned although only %zu bytes were delivered: ", got.size()) + ctx);
        if (got.size() > n) fail("bytes-lost", sfmt("%zu bytes were delivered for %zu requested: ", got.size(), n) + ctx);
        if (memcmp(got.data(), b.p, n)) { size_t i = 0; while (got[i] == b.p[i]) i++; fail("wrong-bytes", sfmt("byte %zu of the buffer is not the delivered one: ", i) + ctx); }
        if (!b.slack_ok()) fail("outside-buffer", "a byte outside the buffer was changed: " + ctx);
        if (h.ent_ops - o0 > (u64)budget + h.hard + h.soft + n / 4096 + 8) fail("too-many-attempts", sfmt("%llu attempts: ", (unsigned long long)(h.ent_ops - o0)) + ctx);
        if (h.hard && w.now == t0) fail("spin", ctx);
    }
}
// ------------------------------------------------------------------ C06
static const char *pick_name() { static const char *const x[] = {"key", "sm", "", "-", "nothing"}; return pick(x); }
static bool justified(const MP &scaled, bool mt, const Bytes &kf, const Bytes &sm) {
    if (kf.size() < 4) return false;
    u32 oid = rdbe(kf.data(), 4);
    MP p;
    bool ok = false;
    if (oid == scaled.oid) { p = scaled; ok = true; }
    else for (auto &r : OIDS) if (r.mt == mt && r.oid == oid) { p = oid_params(r); ok = true; }
    if (!ok || kf.size() < p.pk()) return false;
    return model_verify(p, kf, sm);
}
static void huge_open() {
    HugeRun H;
    std::string v = choose_variant();
    bool mt = choose(2);
    // real one-time signatures: a few chains alone would accept some damaged messages, and rightly so
    MP p = make_params(F_SHA2, 32, 4, mt ? 2 : 1, mt, 0, 0);
    p.oid = pick_oid(mt, p.func, p.n).oid;
    g_scales = {p};
    ModelKey *mk = get_model(p, choose(3));
    Bytes sm = mk->sign(choose(4), H.head), kf = mk->pk();
    std::string what;
    bool just = true;
    u32 c = S->run_index % 4 < 2 ? 0 : 1 + choose(2); // damaged: in the signature, in the length
    if (c == 1) { size_t i = choose(sm.size()); sm[i] ^= 1 << choose(8); just = false; what = sfmt(" bit error in byte %zu,", i); }
    if (c == 2) { g_zero_tail -= (u64)1 << 30; H.mlen -= (u64)1 << 30; just = false; what = " 2^30 bytes missing,"; } // at the end
    World w; W = &w;
    std_files(w);
    w.file("key", kf);
    w.file("sm", sm)->ztail = g_zero_tail;
    Proc &pr = tool(w, "open", image(sfmt("tool_open_%s_%s.0", mt ? "xmssmt" : "xmss", v.c_str())), {"open", "key", "sm"});
    H.set(w, pr);
    w.run_all();
    std::string ctx = sfmt("%s,%s message of %llu bytes, faults:%s; %s %s", outcome(pr).c_str(), what.c_str(), (unsigned long long)H.mlen, faults_of(pr).c_str(), v.c_str(), p.str().c_str());
    S->scenario = ctx;
    if (pr.st == Proc::CRASHED) fail("crash", "the verification tool crashed: " + ctx);
    if (exit0(pr) && !just) fail("accepted", "exit status 0 for files that do not verify: " + ctx);
    if (!exit0(pr) && just) fail("rejected", "valid files rejected: " + ctx);
    probe("messages_beyond_2_31");
}
void prop_C06() {
    if (HugeRun::now(4)) { huge_open(); return; }
    std::string v = choose_variant();
    MP p = choose_params(v, {});
    ModelKey *mk = get_model(p, choose(3));
    u64 idx = choose(std::min<u64>(p.usable(), 1000));
    Bytes m = choose_message(p.sig());
    Bytes sm = mk->sign(idx, m);
    Bytes kf = mk->pk();
    std::string what;
    if (choose(2)) { Bytes t = message(4 + choose(3000), choose(100)); kf.insert(kf.end(), t.begin(), t.end()); what += " key file holds more than the public key;"; }
    u32 mut = choose(10);
    auto damage = [&](Bytes &b, const char *nm, size_t lim) {
        u32 c = choose(6);
        if (b.empty()) return;
        if (c == 0) { size_t i = choose(std::min(lim, b.size())); b[i] ^= 1 << choose(8); what += sfmt(" bit error in %s byte %zu;", nm, i); }
        if (c == 1) { size_t n = choose(b.size()); b.resize(n); what += sfmt(" %s cut to %zu;", nm, n); }
        if (c == 2) { b.clear(); what += sfmt(" %s empty;", nm); }
        if (c == 3) { size_t n = std::min<size_t>(lim, b.size()); size_t cut = choose(4) == 0 ? n - 1 : choose(n); b.resize(cut); what += sfmt(" %s cut to %zu;", nm, cut); }
        if (c == 4) { size_t k = 1 + choose(600); Bytes t = message(k, k); b.insert(b.end(), t.begin(), t.end()); what += sfmt(" %zu bytes appended to %s;", k, nm); }
        if (c == 5) { size_t i = choose(std::min(lim, b.size())), k = std::min<size_t>(1 + choose(64), b.size() - i); for (size_t j = i; j < i + k; j++) b[j] = 0; what += sfmt(" %zu bytes of %s zeroed at %zu;", k, nm, i); }
    };
    if (mut >= 4 && mut <= 6) damage(sm, "signed message", p.sig() + 1);
    if (mut == 7) damage(kf, "key file", p.pk());
    if (mut == 8) { damage(sm, "signed message", p.sig() + 1); damage(kf, "key file", p.pk()); }
    bool nokey = false, nosm = false, dirm = false;
    if (mut == 9) { u32 c = choose(4); nokey = c == 0; nosm = c == 1; dirm = c == 2; if (c == 3) dirm = true; what += c == 0 ? " no key file;" : c == 1 ? " no signed message file;" : " a directory;"; }
    World w; W = &w;
    std_files(w);
    if (!nokey) w.file("key", kf);
    if (!nosm) { auto i = w.file("sm", sm); if (dirm) { if (choose(2)) i->dir = true; else { w.dir["key"]->dir = true; } } }
    std::vector<std::string> args = {"open", by_name("key"), by_name("sm")};
    bool few = false, many = false;
    if (choose(40) == 39) { // a wrong number of arguments: too few can verify nothing, what comes of too many is free as long as it is true
        u32 c = choose(4);
        if (c == 3) { args.push_back(pick_name()); many = true; } else { args.resize(1 + c % 2); few = true; }
        what += sfmt(" %zu arguments;", args.size() - 1);
        probe("wrong_argument_counts");
    }
    Proc &pr = tool(w, "open", image(sfmt("tool_open_%s_%s.0", p.mt ? "xmssmt" : "xmss", v.c_str())), args);
    u32 mode = choose(6);
    plan(pr, mode == 0 ? 0 : mode == 1 || mode == 2 ? PL_SOFT : PL_HARD | PL_SOFT);
    pr.allow[FK_SIGPIPE] = 0;
    w.run_all();
    bool just = !few && !nokey && !nosm && !dirm && justified(p, p.mt, kf, sm);
    std::string ctx = sfmt("%s;%s index %llu, message of %zu bytes, faults:%s; %s %s", outcome(pr).c_str(), what.c_str(), (unsigned long long)idx, m.size(), faults_of(pr).c_str(), v.c_str(), p.str().c_str());
    S->scenario = ctx;
    if (pr.hard + pr.soft || !just) S->nontrivial = true;
    if (pr.st == Proc::CRASHED) fail("crash", "the verification tool crashed: " + ctx);
    if (pr.st == Proc::BLOCKED) fail("stuck", ctx);
    std::string out(pr.outbytes.begin(), pr.outbytes.end());
    bool says = out.find("ucceeded") != std::string::npos;
    if (exit0(pr) && !just) fail("accepted", "exit status 0 for files that do not verify: " + ctx);
    if (says && !just) fail("success-message", "reports success for files that do not verify: " + ctx);
    if (says && !exit0(pr) && pr.st == Proc::DONE && !pr.hard) fail("mixed-verdict", "reports success but exits nonzero: " + ctx);
    if (just && !many && !pr.hard && !exit0(pr)) fail("rejected", "valid files rejected: " + ctx);
    if (!nokey && w.dir["key"]->data != kf) fail("modified", "the key file was modified: " + ctx);
    if (!nosm && w.dir["sm"]->data != sm) fail("modified", "the signed message file was modified: " + ctx);
    probe(just ? (exit0(pr) ? "valid_accepted" : "valid_faulted") : "invalid_rejected");
}
// ------------------------------------------------------------------ C07
void prop_C07() {
    std::string v = choose_variant();
    MP p = choose_params(v, {});
    SignWorld s(v, p, choose(3), 40);
    if (!usable(s)) return;
    s.check_release = s.check_reuse = false;
    size_t st = s.choose_start();
    if (!s.start(st)) return;
    Bytes m = choose_message(p.sig());
    std::string what;
    Bytes f = s.k->file(st);
    u32 c = choose(9);
    bool few = choose(40) == 39;
    if (few) { c = 9; s.nargs = choose(2); }
    bool damaged = true, msgbad = false;
    InodeP key = s.w.dir["key"];
    auto setkey = [&](const Bytes &b) { key->data = key->durable = b; };
    Proc &pr = s.sign(m);
    InodeP mi = s.w.dir["msg0"];
    u32 hardmask = 0;
    if (c == 0) { size_t n = f.size() - 1 - choose(f.size()); f.resize(n); setkey(f); what = sfmt("key file cut to %zu bytes", n); }
    else if (c == 1) { static const u32 bad[] = {0, 0xffffffff, 0x39, 0x16, 0x01000001, 0x00010000}; u32 o = pick(bad); bool known = false; for (auto &r : OIDS) if (r.mt == p.mt && r.oid == o) known = true; if (known) o = 0x7fffffff; Bytes ob = be(o, 4); u32 where = choose(3); if (where != 1) memcpy(&f[0], ob.data(), 4); if (where != 0) memcpy(&f[p.pk()], ob.data(), 4); setkey(f); what = sfmt("identifier %08x in %s", o, where == 0 ? "public key" : where == 1 ? "secret key" : "both parts"); }
    else if (c == 2) { f.clear(); setkey(f); what = "empty key file"; }
    else if (c == 3) { static const size_t cuts[] = {1, 3, 4}; size_t n; u32 k = choose(5); n = k < 3 ? cuts[k] : k == 3 ? p.pk() : p.pk() + 4; n += choose(3); n = std::min(n, f.size() - 1); f.resize(n); setkey(f); what = sfmt("key file cut to %zu bytes", n); }
    else if (c == 4) { damaged = false; msgbad = true; mi->dir = true; what = "message is a directory"; }
    else if (c == 5) { damaged = false; s.w.dir.erase("msg0"); msgbad = true; what = "no message file"; }
    else if (c == 6) { damaged = false; mi->fifo = true; mi->seekable = false; what = "message is a pipe"; }
    else if (c == 7) { damaged = false; what = "failing read"; }
    else if (c == 9) what = sfmt("%d arguments", s.nargs);
    else { s.w.dir.erase("key"); what = "no key file"; f.clear(); }
    plan(pr, choose(2) ? PL_SOFT : 0);
    bool rf = c == 7 || choose(6) == 5;
    if (rf) { // read faults only: reads, seeks, opens and allocations before the key is used
        pr.allow.assign(FK_KINDS, 0);
        pr.allow[FK_EIO] = 1; pr.allow[FK_EOF] = flip(1, 2); pr.allow[FK_EINTR] = flip(1, 2); pr.allow[FK_SEEK] = flip(1, 3); pr.allow[FK_OPEN] = flip(1, 4); pr.allow[FK_NOMEM] = flip(1, 4);
        pr.max_faults = 1; pr.rate_num = 1;
        static const u32 dens[] = {4, 2, 8};
        pr.rate_den = pick(dens);
    }
    s.w.run_all();
    std::string ctx = sfmt("%s: %s, start index %zu, message of %zu bytes, faults:%s; %s %s", what.c_str(), outcome(pr).c_str(), st, m.size(), faults_of(pr).c_str(), v.c_str(), p.str().c_str());
    S->scenario = ctx;
    S->nontrivial = true;
    if (pr.st == Proc::CRASHED) fail("crash", "the signing tool crashed: " + ctx);
    if (pr.st == Proc::BLOCKED) fail("stuck", ctx);
    bool readfault = false;
    for (auto &x : pr.fired) if (x.find("@read:") != std::string::npos) readfault = true;
    bool mustrefuse = damaged || msgbad || (readfault && c != 6);
    if (c == 6) { // either refuses cleanly or signs what the pipe delivers
        if (exit0(pr) && pr.outbytes != s.expect(st, m)) fail("signed-unreadable", ctx);
        if (exit0(pr)) return;
        mustrefuse = true;
    }
    if (!mustrefuse) return;
    if (exit0(pr)) {
        // a failed read that was repeated until the file was read completely is no damage
        if (!damaged && !msgbad && pr.outbytes == s.expect(st, m)) { probe("read_fault_survived"); return; }
        fail("not-refused", ctx);
    }
    // a write or sync failing later is another matter (C02); reads come before the signature
    bool later = false;
    for (auto &x : pr.fired) if (x.find("@write") != std::string::npos || x.find("@sync") != std::string::npos) later = true;
    if (!later && !pr.outbytes.empty()) fail("output", sfmt("%zu bytes were written to stdout: ", pr.outbytes.size()) + ctx);
    if (c != 8 && !later) {
        Bytes want = f;
        if (s.cur_key() != want) fail("key-modified", "the key file was changed: " + ctx);
    }
    if (c == 8 && s.w.dir.count("key")) fail("key-created", ctx);
    probe("refused");
}
// ------------------------------------------------------------------ C10 (tool part)
void prop_C10_tool() {
    std::string v = choose_variant();
    GeoOpts o; o.spare = choose(3) == 2;
    if (o.spare) o.mt = 1;
    MP p = choose_params(v, o);
    if (p.h > 8) { p = make_params(p.func, p.n, 8, 2, true, p.tiny ? p.w : 0, 0); p.oid = 0; for (auto &r : OIDS) if (r.mt && r.func == p.func && r.n == p.n) { p.oid = r.oid; break; } g_scales = {p}; }
    SignWorld s(v, p, choose(2), 300);
    if (!usable(s)) return;
    s.check_release = false;
    size_t last = p.usable() - 1;
    if (!s.k->reach(last)) { probe("setup_failed"); return; }
    size_t st = last - std::min<size_t>(last, choose(2));
    if (!s.start(st)) return;
    u32 n = 2 + choose(4);
    std::string log = sfmt("start %zu of %llu", st, (unsigned long long)p.usable());
    bool exhausted = false;
    u64 produced = st;
    bool faulty = choose(3) == 2;
    for (u32 i = 0; i < n; i++) {
        Proc &pr = s.sign(choose_message(p.sig()));
        u64 stored = rdbe(s.cur_key().data() + s.k->idx_off(), p.idxb);
        bool over = stored > last;
        plan(pr, faulty && choose(2) ? PL_HARD | PL_SOFT : 0);
        s.w.run_all();
        log += sfmt("; stored index %llu: %s, %zu bytes out, faults:%s", (unsigned long long)stored, outcome(pr).c_str(), pr.outbytes.size(), faults_of(pr).c_str());
        sc(s, log);
        S->nontrivial = true;
        if (pr.st == Proc::CRASHED) fail("crash", log);
        if (over) {
            if (exit0(pr)) fail("exhausted-success", "exit status 0 from an exhausted key: " + log);
            if (!pr.outbytes.empty()) fail("exhausted-output", "bytes on stdout from an exhausted key: " + log);
            Bytes now = s.cur_key();
            if (rdbe(now.data() + s.k->idx_off(), p.idxb) <= last) fail("index-came-back", "the stored index permits signing again: " + log);
            if (!pr.hard) {
                for (auto *b : {&s.k->mk.sk_seed, &s.k->mk.sk_prf})
                    if (std::search(now.begin(), now.end(), b->begin(), b->end()) != now.end()) fail("seed-left", "the refused key still holds a secret seed: " + log);
                if (!s.key_durable()) fail("erase-not-durable", "the erased key is not on stable storage: " + log);
            }
            probe("refused_exhausted");
        } else if (!pr.hard && !exit0(pr)) fail("failed-without-fault", log);
        if (choose(4) == 3) s.w.power_loss();
    }
}
// ------------------------------------------------------------------ C19
void prop_C19() {
    std::string v = choose_variant();
    MP p = choose_params(v, {});
    SignWorld s(v, p, choose(3), 40);
    if (!usable(s)) return;
    s.check_release = s.check_reuse = false;
    size_t st = s.choose_start(5);
    if (!s.start(st)) return;
    u32 crashes = 1 + choose(2);
    std::string log = sfmt("start %zu", st);
    size_t at = st;
    bool torn = false;
    for (u32 i = 0; i < crashes; i++) {
        Proc &pr = s.sign(choose_message(p.sig()));
        u32 kind = choose(3);
        plan(pr, choose(3) == 2 ? PL_SOFT : 0);
        if (kind < 2) { pr.kill_at = choose(40); pr.kill_mid = kind == 1; }
        else s.w.power_at = s.w.steps + 1 + choose(40);
        s.w.run_all();
        if (s.w.powered_off || (kind == 2 && choose(2)) || choose(5) == 4) s.w.power_loss();
        s.w.power_at = -1; s.w.powered_off = false;
        log += "; " + outcome(pr);
        Bytes now = s.cur_key();
        bool clean = false;
        for (size_t j = at; j <= at + 1 && s.k->reach(j); j++) if (now == s.k->file(j)) { at = j; clean = true; break; }
        if (!clean) {
            // the in-place update stopped half way: every byte is from before or after it (an earlier
            // update may not have been on stable storage yet)
            std::vector<Bytes> vs;
            for (size_t j = st; j <= at + 1 && s.k->reach(j); j++) vs.push_back(s.k->file(j));
            torn = now.size() == vs[0].size();
            for (size_t j = 0; torn && j < now.size(); j++) { bool any = false; for (auto &b : vs) any |= b[j] == now[j]; torn = any; }
            log += torn ? " (key file torn)" : " (key file changed otherwise)"; probe("torn_key_file");
            break;
        }
    }
    if (s.w.dir.count("key") == 0) { sc(s, log); fail("key-lost", "the key file is gone: " + log); }
    if (S->nfaults) S->nontrivial = true;
    Bytes m = choose_message(p.sig());
    u64 stored = s.cur_key().size() >= s.k->idx_off() + p.idxb ? rdbe(s.cur_key().data() + s.k->idx_off(), p.idxb) : 0;
    if (stored >= p.usable()) { probe("exhausted"); sc(s, log); return; }
    Proc &pr = s.sign(m);
    plan(pr, 0);
    s.w.run_all();
    log += sfmt("; undisturbed run: %s", outcome(pr).c_str());
    sc(s, log);
    std::string ctx = log + "; " + v + " " + p.str();
    const char *known = v == "fast" && torn ? "C19-fast-torn-key-update" : "none";
    if (!exit0(pr)) { report(known, torn ? "torn-refused" : "refused", "the next run on the key file failed: " + ctx); return; }
    // verifies under the public key in the file, and returns this message
    Bytes f = s.cur_key();
    if (pr.outbytes.size() != p.sig() + m.size() || memcmp(pr.outbytes.data() + p.sig(), m.data(), m.size()) || !model_verify(p, f, pr.outbytes) || (p.tiny && s.k->ok && !model_own_roots(s.k->mk, pr.outbytes))) { report(known, torn ? "torn-invalid" : "invalid", "the next signature does not verify: " + ctx); return; }
    probe(torn ? "valid_after_torn" : "valid_after_crash");
}
