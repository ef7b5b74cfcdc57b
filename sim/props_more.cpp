// C24-C29: guarantees about the key file, the tools and the process as a whole.
#include "signworld.h"
#include "libworld.h"

// one run of the signing tool gets one of: nothing, kill, kill inside a write, power loss, faults, faults and one of these
static void trouble(SignWorld &s, Proc &pr, bool power) {
    u32 kind = choose(8);
    plan(pr, kind >= 5 ? PL_HARD | PL_SOFT : choose(3) == 2 ? PL_SOFT : 0);
    if (kind == 1 || kind == 2 || kind == 3 || kind == 6) { pr.kill_at = choose(36); pr.kill_mid = kind == 3; }
    if (power && (kind == 4 || kind == 7)) s.w.power_at = s.w.steps + 1 + choose(36);
}
// ------------------------------------------------------------------ C24
void prop_C24() {
    std::string v = choose_variant();
    MP p = choose_params(v, {});
    SignWorld s(v, p, choose(3), 40);
    if (!usable(s)) return;
    s.check_release = s.check_reuse = false;
    size_t st = s.choose_start(2);
    if (choose(8) == 7) { s.tail = message(1 + choose(900), choose(9)); probe("key_files_with_more_in_them"); }
    if (!s.start(st)) return;
    const Bytes first = s.cur_key();
    const size_t io = s.k->idx_off(), so = io + p.idxb;
    u32 rounds = 2 + choose(5);
    u64 floor = st; // no run may find less than this
    u64 top = st;
    bool exempt_top = false;
    std::string log = sfmt("start %zu", st);
    auto index = [&](const Bytes &f) { return rdbe(f.data() + io, p.idxb); };
    auto same = [&](const char *when) {
        std::string ctx = log + "; " + v + " " + p.str();
        sc(s, log);
        if (!s.w.dir.count("key")) fail("key-lost", sfmt("the key file is gone %s: ", when) + ctx);
        Bytes f = s.cur_key();
        if (f.size() != first.size()) fail("size-changed", sfmt("the key file has %zu instead of %zu bytes %s: ", f.size(), first.size(), when) + ctx);
        if (memcmp(f.data(), first.data(), p.pk())) fail("public-key-changed", sfmt("the public key in the key file has changed %s: ", when) + ctx);
        if (memcmp(f.data() + f.size() - s.tail.size(), s.tail.data(), s.tail.size())) fail("tail-changed", sfmt("what follows the secret key has changed %s: ", when) + ctx);
        if (memcmp(f.data() + p.pk(), first.data() + p.pk(), 4)) fail("identifier-changed", sfmt("the secret key's identifier has changed %s: ", when) + ctx);
        if (index(f) < p.usable() && memcmp(f.data() + so, first.data() + so, 4 * p.n)) fail("seeds-changed", sfmt("seeds or root in the key file have changed %s although the key is not used up: ", when) + ctx);
        if (index(f) < floor) fail("index-went-back", sfmt("the stored index %llu is below %llu %s: ", (unsigned long long)index(f), (unsigned long long)floor, when) + ctx);
    };
    for (u32 r = 0; r < rounds; r++) {
        Bytes before = s.cur_key();
        u64 i0 = index(before);
        u32 n = choose(3) == 2 ? 2 + choose(2) : 1;
        size_t a = s.runs.size();
        bool power = choose(3) == 2;
        for (u32 j = 0; j < n; j++) trouble(s, s.sign(choose_message(p.sig()), j), power);
        static const u32 dens[] = {2, 1, 3, 6};
        s.w.sched_den = pick(dens);
        u64 f0 = S->nfaults;
        s.w.run_all();
        if (S->nfaults > f0 || n > 1) S->nontrivial = true;
        u64 keepfloor = floor;
        for (size_t j = a; j < s.runs.size(); j++) {
            Proc &pr = *s.runs[j].pr;
            int64_t idx = s.released_index(pr);
            log += sfmt("; %s: %s, idx %lld, faults%s", pr.name.c_str(), outcome(pr).c_str(), (long long)idx, faults_of(pr).c_str());
            if (!exit0(pr) && pr.st != Proc::DONE || pr.hard) exempt_top |= (i0 >> 8) != ((i0 + n) >> 8); // an index field rewritten half way
            if (exit0(pr) && idx >= 0) floor = std::max<u64>(floor, idx + 1);
        }
        u64 wantfloor = floor;
        if (!s.w.powered_off) { floor = std::max(floor, i0); same("after the runs"); floor = wantfloor; }
        Bytes now = s.cur_key();
        if (!s.w.powered_off && !exempt_top) {
            u64 lim = i0 + n; // every run uses at most one
            u64 i1 = index(now);
            if (i1 > lim && !(lim >= p.usable())) { sc(s, log); fail("index-jumped", sfmt("the stored index moved from %llu to %llu in %u runs: ", (unsigned long long)i0, (unsigned long long)i1, n) + log + "; " + v + " " + p.str()); }
            if (i1 < p.usable()) top = std::max(top, i1);
        }
        if (s.w.powered_off || choose(5) == 4) {
            s.w.power_loss();
            log += "; power loss";
            same("after a power loss");
        }
        (void)keepfloor;
        s.w.power_at = -1; s.w.powered_off = false;
        if (index(s.cur_key()) >= p.usable()) probe("used_up");
    }
    sc(s, log);
    probe("rounds", rounds);
}
// ------------------------------------------------------------------ C25
void prop_C25() {
    std::string v = choose_variant();
    MP p = choose_params(v, {});
    SignWorld s(v, p, choose(3), 40);
    if (!usable(s)) return;
    s.check_release = s.check_reuse = false;
    size_t st = s.choose_start(4);
    if (!s.start(st)) return;
    u32 ns = 1 + choose(2), nv = 1 + choose(3);
    static const char *vs[] = {"ref", "fast"};
    struct V { Proc *pr; bool valid; Bytes sm; std::string what; };
    std::vector<V> vers;
    bool trouble_signers = choose(2);
    u32 done_first = choose(3); // verifiers started after so many signers
    std::string log = sfmt("start %zu", st);
    auto verifier = [&](u32 j) {
        u64 idx = choose(std::min<u64>(p.usable(), 300));
        Bytes m = choose_message(p.sig()), sm = s.k->mk.sign(idx, m);
        std::string what = sfmt("signature %llu", (unsigned long long)idx);
        bool valid = choose(3) != 2;
        if (!valid) { size_t i = choose(sm.size()); sm[i] ^= 1 << choose(8); what += sfmt(" with an error in byte %zu", i); valid = model_verify(p, s.k->pk, sm); }
        std::string f = sfmt("sm%u", j);
        s.w.file(f, sm);
        Proc &pr = tool(s.w, sfmt("open%u", j), image(sfmt("tool_open_%s_%s.%d", p.mt ? "xmssmt" : "xmss", pick(vs), (int)(j % 3))), {"open", by_name("key"), by_name(f)});
        plan(pr, choose(3) == 2 ? PL_SOFT : 0);
        pr.allow[FK_SIGPIPE] = 0;
        vers.push_back({&pr, valid, sm, what});
    };
    // several verifiers must not share an image: copies 0..2
    std::vector<std::pair<std::string, int>> used;
    for (u32 j = 0; j < std::min(nv, done_first); j++) verifier(j);
    for (u32 j = 0; j < ns; j++) {
        Proc &pr = s.sign(choose_message(p.sig()), j);
        plan(pr, trouble_signers && choose(2) ? PL_HARD | PL_SOFT : choose(3) == 2 ? PL_SOFT : 0);
        if (trouble_signers && choose(2)) { pr.kill_at = choose(36); pr.kill_mid = choose(3) == 2; }
    }
    while (vers.size() < nv) verifier(vers.size());
    static const u32 dens[] = {2, 1, 3, 6, 12};
    s.w.sched_den = pick(dens);
    static const u32 stalls[] = {4, 12};
    s.w.stall_den = choose(4) == 3 ? pick(stalls) : 0;
    s.w.run_all();
    S->nontrivial = true;
    for (auto &r : s.runs) log += sfmt("; %s: %s, faults%s", r.pr->name.c_str(), outcome(*r.pr).c_str(), faults_of(*r.pr).c_str());
    for (auto &x : vers) log += sfmt("; %s of %s: %s", x.pr->name.c_str(), x.what.c_str(), outcome(*x.pr).c_str());
    log += "; " + v + " " + p.str();
    S->scenario = log;
    for (size_t j = 0; j < vers.size(); j++) {
        auto &x = vers[j];
        std::string out(x.pr->outbytes.begin(), x.pr->outbytes.end());
        if (x.pr->st == Proc::CRASHED) fail("crash", x.pr->name + " crashed: " + log);
        if (x.pr->st == Proc::BLOCKED) fail("stuck", x.pr->name + " waits forever for " + x.pr->blocked_on + ": " + log);
        if (x.valid && !exit0(*x.pr) && !s.w.stalls) fail("rejected", x.pr->name + " rejects a valid signature: " + log);
        if (x.valid && !exit0(*x.pr)) { probe("gave_up_waiting"); continue; }
        if (!x.valid && (exit0(*x.pr) || out.find("ucceeded") != std::string::npos)) fail("accepted", x.pr->name + " accepts an invalid signature: " + log);
        if (s.w.dir.count(sfmt("sm%zu", j)) == 0 || s.w.dir[sfmt("sm%zu", j)]->data != x.sm) fail("modified", "a signed message file was modified: " + log);
        probe(x.valid ? "valid_accepted" : "invalid_rejected");
    }
    // and the verifiers did not disturb the signers
    if (!trouble_signers && !s.w.stalls) {
        for (auto &r : s.runs) {
            if (!exit0(*r.pr)) fail("signer-disturbed", r.pr->name + " failed although nothing went wrong: " + log);
            int64_t idx = s.released_index(*r.pr);
            if (idx < 0 || r.pr->outbytes != s.expect(idx, r.m)) fail("signer-disturbed", r.pr->name + " made an invalid signature: " + log);
        }
        if (s.k->reach(st + ns) && s.cur_key() != s.k->file(st + ns)) fail("signer-disturbed", "the key file is not the one the signers leave: " + log);
    }
}
// ------------------------------------------------------------------ C26
void prop_C26() {
    std::string v = choose_variant();
    // a fixed set of operations, each done once to warm up, then many times
    std::vector<MP> scales;
    struct Op { int kind; Key *k; u64 i; Bytes sk, m, sm, pk; };
    std::vector<Op> ops;
    u32 nops = 1 + choose(5);
    LibWorld L(v);
    for (u32 j = 0; j < nops; j++) {
        MP p = choose_params(v, {.real_den = 100});
        for (auto &q : scales) if (q.oid == p.oid && q.mt == p.mt) p = q;
        bool have = false;
        for (auto &q : scales) if (q.oid == p.oid && q.mt == p.mt) have = true;
        if (!have) scales.push_back(p);
        Key *k = get_key(v, p, choose(2), 20);
        if (!keyready(k)) return;
        Op o; o.kind = choose(8); o.k = k; o.i = choose(std::min<u64>(k->limit(), 12));
        if (o.kind == 6) o.i = p.usable() <= 300 ? p.usable() : 0;
        if (!keyreach(k, o.i)) { o.i = 0; }
        o.sk = k->sks[o.i];
        o.m = message(choose(300), choose(100));
        o.pk = k->pk;
        o.sm = k->mk.sign(choose(std::min<u64>(p.usable(), 64)), o.m);
        if (o.kind == 3) o.sm[choose(o.sm.size())] ^= 1 << choose(8);
        if (o.kind == 4) o.sm.resize(choose(o.sm.size()));
        if (o.kind == 5) { Bytes b = be(0xfffffff0 + choose(8), 4); memcpy(&o.pk[0], b.data(), 4); memcpy(&o.sk[0], b.data(), 4); }
        ops.push_back(o);
    }
    g_scales = scales;
    MP p0 = scales[0];
    L.process(p0, 0);
    auto rnd = (void (*)(u8 *, unsigned long long))L.h->img->sym("randombytes");
    bool faults = choose(2);
    u64 calls = 0;
    std::string crashed;
    // per unit of work: kind 0 keygen, 1 sign, 2 verify, 3 damaged, 4 truncated, 5 unknown identifier, 6 exhausted key, 7 random bytes
    static const char *names[] = {"key generation", "signing", "verification", "verification of a damaged message", "verification of a truncated message", "calls with an unknown identifier", "signing with a used-up key", "random bytes"};
    auto work = [&](Op &o) {
        MP p = o.k->p;
        L.use(p);
        calls++;
        bool ok = true;
        if (o.kind == 0) { Buf bp(p.pk()), bs(sk_size(v, p)); ok = call(*L.h, [&] { L.a.keypair(bp.p, bs.p, p.oid); }); }
        else if (o.kind == 1 || o.kind == 6) { Bytes sk = o.sk; ok = do_sign(L, p, sk, o.m).ret; }
        else if (o.kind == 7) { Buf b(100); ok = call(*L.h, [&] { rnd(b.p, 100); }); }
        else if (o.kind == 5) { Bytes sk = o.sk; ok = do_open_(L, o.sm, o.pk).ret; if (ok) ok = do_sign(L, p, sk, o.m).ret; }
        else ok = do_open_(L, o.sm, o.pk).ret;
        if (!ok && crashed.empty()) crashed = sfmt("%s ended the process (%s)", names[o.kind], L.h->crash.c_str());
        return ok;
    };
    auto held = [&](int what) -> long { return what == 0 ? L.h->fds.size() : what == 1 ? L.h->heap.size() : what == 2 ? L.h->streams.size() : L.h->evp_live; };
    static const char *things[] = {"open descriptors", "heap blocks", "open streams", "digest contexts"};
    std::string ctx = v;
    for (auto &o : ops) ctx += sfmt("; %s %s", names[o.kind], o.k->p.str().c_str());
    if (faults) ctx += "; entropy device failing now and then";
    S->scenario = ctx;
    auto arm = [&] {
        if (!faults) return;
        for (int f : ENT) L.h->allow[f] = 1;
        L.h->allow[FK_ENT_SHORT] = 1;
        L.h->rate_num = 1; L.h->rate_den = 3; L.h->max_faults = 1u << 30; L.h->ent_fails_left = 3;
    };
    for (u32 w = 0; w < 2; w++) for (auto &o : ops) { arm(); if (!work(o)) fail("crash", crashed + ": " + ctx); }
    long base[4];
    for (int t = 0; t < 4; t++) base[t] = held(t);
    u32 rounds = 8 + choose(24);
    for (u32 r = 0; r < rounds; r++) {
        for (auto &o : ops) { arm(); if (!work(o)) fail("crash", crashed + ": " + ctx); }
        for (int t = 0; t < 4; t++) if (held(t) > base[t] + 4) fail("leak", sfmt("%ld instead of %ld %s after %llu calls: ", held(t), base[t], things[t], (unsigned long long)calls) + ctx);
    }
    EV(mix64(held(0) * 1000 + held(1)), "after %llu calls: %ld descriptors, %ld heap blocks", (unsigned long long)calls, held(0), held(1));
    S->nontrivial = true;
    probe("calls", calls);
}
// ------------------------------------------------------------------ C27
void prop_C27() {
    std::string v = choose_variant();
    MP p = choose_params(v, {});
    World w; W = &w;
    std_files(w);
    w.ent_seed = choose(1 << 16) + 5;
    const char *ty = p.mt ? "xmssmt" : "xmss";
    std::string name;
    for (auto &r : OIDS) if (r.mt == p.mt && r.oid == p.oid) name = r.name;
    std::string log, at_ = "; " + v + " " + p.str();
    Proc &kg = tool(w, "keypair", image(sfmt("tool_keypair_%s_%s.0", ty, v.c_str())), {"keypair", name});
    plan(kg, choose(3) ? PL_SOFT | PL_ENT : 0);
    w.run_all();
    if (!exit0(kg)) fail("no-key", "key generation failed: " + outcome(kg) + ", faults:" + faults_of(kg) + at_);
    Bytes kf = kg.outbytes;
    if (kf.size() < p.pk() + p.refsk()) fail("no-key", sfmt("key generation wrote %zu bytes", kf.size()) + at_);
    w.file("key", kf);
    Bytes pk(kf.begin(), kf.begin() + p.pk());
    w.file("pub", pk);
    struct Out { Bytes m, sm; std::string by; u64 idx; };
    std::vector<Out> outs;
    std::vector<std::pair<Proc *, Bytes>> all;
    u32 rounds = 1 + choose(4);
    bool torn = false; // fast only: a run ended in the middle of its key update (see C19)
    u64 maybe = 0;     // indices that may have been used up
    u32 nsign = 0, copies = 3;
    std::set<u64> seen;
    for (u32 r = 0; r < rounds; r++) {
        u32 n = choose(3) == 2 ? 2 : 1;
        std::vector<std::pair<Proc *, Bytes>> now;
        bool power = choose(5) == 4;
        for (u32 j = 0; j < n; j++) {
            Bytes m = choose_message(p.sig());
            std::string mf = sfmt("m%u", nsign);
            w.file(mf, m);
            Proc &pr = tool(w, sfmt("sign%u", nsign++), image(sfmt("tool_sign_%s_%s.%d", ty, v.c_str(), j)), {"sign", by_name("key"), by_name(mf)});
            u32 kind = choose(8);
            plan(pr, kind >= 6 ? PL_HARD | PL_SOFT : choose(3) == 2 ? PL_SOFT : 0);
            if (kind == 4 || kind == 5) { pr.kill_at = choose(36); pr.kill_mid = kind == 5; }
            now.push_back({&pr, m});
        }
        if (power) w.power_at = w.steps + 1 + choose(40);
        static const u32 dens[] = {2, 1, 3, 6};
        w.sched_den = pick(dens);
        w.run_all();
        bool lost = w.powered_off || (power && choose(2));
        maybe += n;
        for (auto &x : now) if (!exit0(*x.first) && x.first->file_writes) torn |= v == "fast"; // whichever of a round's runs came first
        for (auto &x : now) {
            Proc &pr = *x.first;
            log += sfmt("; %s: %s, faults%s", pr.name.c_str(), outcome(pr).c_str(), faults_of(pr).c_str());
            S->scenario = v + " " + p.str() + log;
            if (pr.st == Proc::BLOCKED) fail("stuck", pr.name + log + at_);
            if (pr.st == Proc::CRASHED && !torn) fail("crash", pr.name + " crashed (" + pr.crash + ")" + log + at_);
            if (exit0(pr)) {
                if (pr.outbytes.size() != p.sig() + x.second.size()) { if (torn) continue; fail("bad-output", pr.name + " exits 0 without a signed message" + log + at_); }
                if (memcmp(pr.outbytes.data() + p.sig(), x.second.data(), x.second.size())) { if (torn) continue; fail("bad-output", pr.name + " exits 0 with another message" + log + at_); }
                u64 idx = rdbe(pr.outbytes.data(), p.idxb);
                if (!seen.insert(idx).second) fail("index-reused", sfmt("index %llu was used twice", (unsigned long long)idx) + log + at_);
                if (torn) continue;
                outs.push_back({x.second, pr.outbytes, pr.name, idx});
            } else if (pr.st == Proc::DONE && !pr.hard && !torn && maybe <= p.usable()) {
                bool other = false; // another run's failure may have stopped this one
                for (auto &y : now) if (y.first->hard && y.first->file_writes) other = true;
                if (!other) fail("failed-without-fault", pr.name + log + at_);
            }
        }
        if (lost) { w.power_loss(); log += "; power loss"; }
        w.power_at = -1; w.powered_off = false;
    }
    S->nontrivial = true;
    S->scenario = v + " " + p.str() + log;
    // everything that was handed out is verified by the tools, with the key file as it is now and with the public key
    static const char *vs[] = {"ref", "fast"};
    u32 nv = 0;
    w.sched_den = 0;
    auto verify = [&](const Bytes &sm, const char *key, std::string vv) {
        std::string f = sfmt("o%u", nv);
        w.file(f, sm);
        Proc &pr = tool(w, sfmt("open%u", nv++), image(sfmt("tool_open_%s_%s.0", ty, vv.c_str())), {"open", by_name(key), by_name(f)});
        plan(pr, choose(3) == 2 ? PL_SOFT : 0);
        w.run_all();
        return outcome(pr);
    };
    for (auto &o : outs) {
        const char *key = choose(2) ? "pub" : "key";
        std::string vv = pick(vs);
        std::string r = verify(o.sm, key, vv);
        if (r != "exit status 0") fail("not-verified", sfmt("the output of %s (index %llu) is not accepted by the %s verification tool with the %s: %s", o.by.c_str(), (unsigned long long)o.idx, vv.c_str(), key[0] == 'p' ? "public key" : "key file", r.c_str()) + log + at_);
        probe("verified");
    }
    if (outs.size() >= 2 && choose(2)) { // exchanged messages
        u32 a = choose(outs.size()), b = choose(outs.size());
        if (outs[a].m != outs[b].m) {
            Bytes sm(outs[a].sm.begin(), outs[a].sm.begin() + p.sig());
            sm.insert(sm.end(), outs[b].m.begin(), outs[b].m.end());
            std::string r = verify(sm, "pub", pick(vs));
            if (r == "exit status 0" && !model_verify(p, pk, sm)) fail("exchanged-accepted", "a signature was accepted for another message" + log + at_);
            probe("exchanged_rejected");
        }
    }
}
// ------------------------------------------------------------------ C28
// any 16 consecutive bytes of one of the secret seeds
struct Secret {
    std::vector<Bytes> parts;
    std::map<u64, std::vector<std::pair<int, size_t>>> win;
    enum { W_ = 16 };
    Secret(std::initializer_list<Bytes> l) : parts(l) {
        for (size_t k = 0; k < parts.size(); k++) for (size_t i = 0; i + W_ <= parts[k].size(); i++) { u64 x; memcpy(&x, &parts[k][i], 8); win[x].push_back({(int)k, i}); }
    }
    // position of the first leaked byte, or npos
    size_t find(const u8 *d, size_t n, int &which) const {
        for (size_t i = 0; i + W_ <= n; i++) {
            u64 x; memcpy(&x, d + i, 8);
            auto it = win.find(x);
            if (it == win.end()) continue;
            for (auto &c : it->second) if (!memcmp(&parts[c.first][c.second], d + i, W_)) { which = c.first; return i; }
        }
        return std::string::npos;
    }
};
static const char *PARTS[] = {"secret seed", "message randomisation key"};
static void leak(const Secret &x, const u8 *d, size_t n, const std::string &wherein, const std::string &ctx) {
    int k = 0;
    size_t i = x.find(d, n, k);
    if (i != std::string::npos) fail("secret-leaked", sfmt("%s contains a piece of the %s at byte %zu: ", wherein.c_str(), PARTS[k], i) + ctx);
}
// also written out in hexadecimal digits, with or without separators
static void leak_text(const Secret &x, const Bytes &d, const std::string &wherein, const std::string &ctx) {
    leak(x, d.data(), d.size(), wherein, ctx);
    Bytes nib;
    for (size_t i = 0; i < d.size() && i < 200000; i++) {
        int c = d[i];
        if (c == '0' && i + 1 < d.size() && (d[i + 1] | 32) == 'x') { i++; continue; }
        if (isdigit(c)) nib.push_back(c - '0');
        else if (isxdigit(c)) nib.push_back((c | 32) - 'a' + 10);
        else if (!strchr(" :,;.-_\n\r\t\\x{}", c)) nib.push_back(255);
    }
    for (int off = 0; off < 2; off++) {
        Bytes b;
        for (size_t i = off; i + 1 < nib.size(); i += 2) b.push_back(nib[i] > 15 || nib[i + 1] > 15 ? (u8)(0x5a + 7 * i) : nib[i] * 16 + nib[i + 1]);
        leak(x, b.data(), b.size(), wherein + " (in hexadecimal)", ctx);
    }
}
static void C28_tools() {
    std::string v = choose_variant();
    MP p = choose_params(v, {});
    SignWorld s(v, p, choose(3), 40);
    if (!usable(s)) return;
    s.check_release = s.check_reuse = false;
    size_t st = s.choose_start(2);
    bool end = p.usable() <= 40 && choose(4) == 3;
    if (end) st = p.usable() - choose(2);
    if (!s.start(st)) return;
    Secret x{s.k->mk.sk_seed, s.k->mk.sk_prf};
    std::string log = sfmt("start %zu", st);
    u32 rounds = 1 + choose(3);
    for (u32 r = 0; r < rounds; r++) {
        Bytes m = choose_message(p.sig());
        Proc *pr;
        u32 op = choose(5);
        if (op == 4) { // verification with the key file
            Bytes sm = s.k->mk.sign(choose(std::min<u64>(p.usable(), 100)), m);
            u32 c = choose(4);
            if (c == 1) sm[choose(sm.size())] ^= 1 << choose(8);
            if (c == 2) sm.resize(choose(sm.size()));
            s.w.file("sm", sm);
            pr = &tool(s.w, sfmt("open%u", r), image(sfmt("tool_open_%s_%s.0", p.mt ? "xmssmt" : "xmss", v.c_str())), {"open", "key", "sm"});
            plan(*pr, PL_HARD | PL_SOFT);
        } else {
            pr = &s.sign(m);
            trouble(s, *pr, false);
            u32 c = choose(10);
            InodeP mi = s.w.dir[sfmt("msg%zu", s.runs.size() - 1)], key = s.w.dir["key"];
            if (c == 7) { mi->dir = true; log += "; the message is a directory"; }
            if (c == 8) { s.w.dir.erase(sfmt("msg%zu", s.runs.size() - 1)); log += "; no message"; }
            if (c == 9) { size_t n = p.pk() + choose(key->data.size() - p.pk()); key->data.resize(n); key->durable = key->data; key->dirty.clear(); log += sfmt("; key file cut to %zu bytes", n); }
        }
        s.w.run_all();
        if (pr->hard + pr->soft || pr->st == Proc::KILLED || log.find("; ") != std::string::npos) S->nontrivial = true;
        log += sfmt("; %s: %s, faults%s", pr->name.c_str(), outcome(*pr).c_str(), faults_of(*pr).c_str());
        std::string ctx = log + "; " + v + " " + p.str();
        S->scenario = ctx;
        leak_text(x, pr->outbytes, "standard output", ctx);
        leak_text(x, pr->errbytes, "standard error", ctx);
        if (choose(4) == 3) s.w.power_loss();
        for (auto &d : s.w.dir) {
            if (!d.second || d.second->entropy || d.first == "key") continue;
            leak_text(x, d.second->data, "file '" + d.first + "'", ctx);
            leak_text(x, d.second->durable, "file '" + d.first + "'", ctx);
        }
        // the public part of the key file is handed out
        Bytes f = s.cur_key();
        if (f.size() >= p.pk()) leak(x, f.data(), p.pk(), "the public part of the key file", ctx);
        probe("tool_runs");
        if (f.size() != s.k->file(st).size()) break;
    }
}
static void C28_lib() {
    std::string v = choose_variant();
    GeoOpts o; o.real_den = 40;
    bool full = choose(6) == 5; // an index field without spare bits, at its end
    if (full) { o.mt = 1; o.spare = 1; }
    MP p = choose_params(v, o);
    Key *k = get_key(v, p, full ? 0 : choose(2), 24);
    if (!keyready(k)) return;
    Secret x{k->mk.sk_seed, k->mk.sk_prf};
    u64 i = choose(3) == 0 ? k->limit() - 1 : choose(k->limit());
    if (full || (choose(5) == 4 && p.usable() <= 40)) i = p.usable() - (full ? choose(2) : 0);
    if (!keyreach(k, i)) return;
    LibWorld L(v);
    L.process(p, 0);
    u32 n = 1 + choose(3);
    Bytes sk = k->sks[i];
    std::string log = sfmt("index %llu", (unsigned long long)i);
    for (u32 r = 0; r < n; r++) {
        u32 kind = choose(5);
        Bytes m = choose_message(p.sig());
        if (kind == 1 || kind == 2) { L.h->kill_at_hash = L.h->hash_calls + choose(choose(2) ? 40 : 1500); log += "; killed attempt"; }
        if (kind == 3) { L.h->hash_fail_at = L.h->hash_calls + choose(choose(2) ? 40 : 1500); L.h->hash_fail_many = choose(2) ? 0 : 1u << 30; log += "; hash provider fails"; }
        g_stack_fill = choose(4);
        Buf bk(sk.size()), bs(p.sig() + m.size(), choose(2)), bm(m.size());
        memcpy(bk.p, sk.data(), sk.size());
        if (m.size()) memcpy(bm.p, m.data(), m.size());
        unsigned long long sl = 0; int rc = -1;
        bool ret = call(*L.h, [&] { rc = L.a.sign(bk.p, bs.p, &sl, bm.p, m.size()); });
        g_stack_fill = 0;
        sk = bk.bytes();
        log += sfmt("; signing: %s %d", ret ? "returned" : "stopped", rc);
        std::string ctx = log + "; " + v + " " + p.str();
        S->scenario = ctx;
        EV(hash_bytes(bs.p, bs.n), "sign: returned %d rc %d", ret, rc);
        leak(x, bs.p, bs.n, "the signature buffer", ctx);
        leak(x, bm.p, bm.n, "the message buffer", ctx);
        leak(x, sk.data(), 4 + p.idxb, "the index part of the key", ctx);
        if (ret && !rc && choose(2)) { // verification does not see secrets
            Bytes sm = bs.bytes();
            if (choose(2)) sm[choose(sm.size())] ^= 1;
            g_stack_fill = choose(4);
            OpenOut q = do_open_(L, sm, k->pk, choose(8));
            g_stack_fill = 0;
            leak(x, q.m.data(), q.m.size(), "the message buffer of verification", ctx);
        }
        if (!ret || L.h->hash_failed) L.process(p, choose(2));
        if (kind == 3) fault_fired("hash_failure");
        if (kind == 1 || kind == 2) fault_fired("process_kill");
        if (kind) S->nontrivial = true;
        L.h->hash_fail_at = -1; L.h->kill_at_hash = -1; L.h->hash_fail_many = 0;
        probe("library_calls");
    }
    // key generation: the public key holds nothing secret
    if (choose(3) == 2) {
        L.process(p, 0);
        L.w.ent_seed = 0x77; L.w.ent_pos = 0;
        Buf bp(p.pk()), bs(sk_size(v, p));
        int rc = -1;
        bool dies = choose(2);
        if (dies) L.h->kill_at_hash = choose(200);
        bool ret = call(*L.h, [&] { rc = L.a.keypair(bp.p, bs.p, p.oid); });
        Bytes s = bs.bytes();
        const u8 *q = s.data() + 4 + p.idxb;
        Bytes fill(p.n, 0xEE), seed(q, q + p.n), prf(q + p.n, q + 2 * p.n);
        if (seed != fill && prf != fill) { Secret y{seed, prf}; leak(y, bp.p, bp.n, "the public key", sfmt("key generation %s; ", ret ? "returned" : "stopped") + v + " " + p.str()); }
        probe("key_generations");
    }
}
void prop_C28() { if (choose(3) == 2) C28_lib(); else C28_tools(); }
// ------------------------------------------------------------------ C29
void prop_C29() {
    std::string v = choose_variant();
    LibWorld L(v);
    std::vector<MP> scales;
    u32 np = 1 + choose(2);
    for (u32 j = 0; j < np; j++) {
        MP p = choose_params(v, {.real_den = 200});
        for (auto &q : scales) if (q.oid == p.oid && q.mt == p.mt) p = q;
        scales.push_back(p);
    }
    g_scales = scales;
    L.w.ent_seed = choose(1 << 16) + 11;
    L.process(scales[0], 0);
    auto rnd = (void (*)(u8 *, unsigned long long))L.h->img->sym("randombytes");
    std::string log;
    struct Piece { u64 a, b; std::string whose; };
    std::vector<Piece> taken; // ranges of the device's output (all processes)
    Bytes device;             // everything delivered, in order
    int gen = 0, depth = 0;
    auto others = [&] { // operations that are not key generation
        u32 c = choose(6);
        if (c == 1) { Buf b(choose(200)); call(*L.h, [&] { rnd(b.p, b.n); }); log += "; random bytes"; }
        if (c == 2) {
            MP p = scales[choose(np)]; Key *k; { auto keep = g_scales; k = get_key(v, p, 0, 4); g_scales = keep; }
            if (k->made) { Bytes sk = k->sks[0]; L.use(p); do_sign(L, p, sk, message(10, 1)); log += "; signing"; }
        }
    };
    auto faults = [&](bool on) {
        for (int f : ENT) L.h->allow[f] = on && flip(1, 2);
        L.h->allow[FK_ENT_SHORT] = on && flip(1, 2);
        static const u32 dens[] = {2, 1, 4, 8};
        L.h->rate_num = on; L.h->rate_den = pick(dens); L.h->max_faults = 1u << 30;
        L.h->ent_fails_left = on ? choose(8) : 0;
    };
    bool withfaults = choose(2);
    auto generate = [&](const char *who) {
        MP p = scales[choose(np)];
        L.use(p);
        faults(withfaults);
        size_t e0 = L.h->entropy.size();
        u64 f0 = S->nfaults;
        Buf bp(p.pk()), bs(sk_size(v, p));
        g_stack_fill = choose(4);
        int rc = -1;
        bool ret = call(*L.h, [&] { rc = L.a.keypair(bp.p, bs.p, p.oid); });
        g_stack_fill = 0;
        if (S->nfaults > f0) S->nontrivial = true;
        Bytes got(L.h->entropy.begin() + e0, L.h->entropy.end());
        std::string whose = sfmt("key %d (%s)", gen++, who);
        log += sfmt("; %s: %zu bytes of entropy", whose.c_str(), got.size());
        std::string ctx = log + "; " + v + " " + p.str();
        S->scenario = ctx;
        EV(hash_bytes(bs.p, bs.n), "%s", whose.c_str());
        if (!ret) fail("crash", L.h->crash + ": " + ctx);
        if (rc) fail("failed", ctx);
        const u8 *q = bs.p + 4 + p.idxb;
        const char *nm[] = {"secret seed", "randomisation key", "", "public seed"};
        u64 base = device.size();
        device.insert(device.end(), got.begin(), got.end());
        std::vector<size_t> mine;
        for (int j : {0, 1, 3}) {
            Bytes b(q + j * p.n, q + (j + 1) * p.n);
            auto it = std::search(got.begin(), got.end(), b.begin(), b.end());
            if (it == got.end()) {
                bool old = std::search(device.begin(), device.end(), b.begin(), b.end()) != device.end();
                fail(old ? "entropy-reused" : "not-from-entropy", sfmt("the %s of %s is not made of entropy delivered during its generation%s: ", nm[j], whose.c_str(), old ? " but of older one" : "") + ctx);
            }
            size_t pos = it - got.begin();
            for (size_t o : mine) if (std::max(o, pos) - std::min(o, pos) < (size_t)p.n) fail("entropy-shared", sfmt("two seeds of %s share entropy: ", whose.c_str()) + ctx);
            mine.push_back(pos);
        }
        probe("keys");
    };
    u32 steps = 1 + choose(4);
    for (u32 s = 0; s < steps; s++) {
        u32 c = choose(4);
        others();
        if (c < 2) generate("same process");
        if (c == 2) { // fork: the child runs first, then the parent goes on from the same memory
            ForkPoint f;
            f.save(*L.h);
            log += "; fork";
            L.h->id += 500;
            u32 n = 1 + choose(2);
            for (u32 j = 0; j < n; j++) { others(); generate("child"); }
            L.h->id -= 500;
            f.restore(*L.h);
            log += "; back in the parent";
            generate("parent");
            fault_fired("fork");
            S->nontrivial = true;
        }
        if (c == 3) { L.process(scales[0], choose(2)); rnd = (void (*)(u8 *, unsigned long long))L.h->img->sym("randombytes"); log += "; new process"; generate("new process"); }
    }
    S->scenario = log + "; " + v;
}
// ------------------------------------------------------------------ C30
// Tools at work on different keys at the same time: each behaves as if it were alone.
void prop_C30() {
    World w; W = &w;
    std_files(w);
    w.ent_seed = choose(1 << 16) + 5;
    struct T { Key *k; MP p; std::string v, path; u64 at; bool upset = false; };
    std::vector<T> ts;
    std::vector<MP> scales;
    u32 nt = 2 + choose(2);
    bool dirs = choose(2);
    MP first; std::string fv;
    for (u32 t = 0; t < nt; t++) {
        bool twin = t && choose(2); // the same parameters and program as the first
        std::string v = twin ? fv : choose_variant();
        MP p = twin ? first : choose_params(v, {});
        for (auto &s : scales) if (s.oid == p.oid && s.mt == p.mt) p = s;
        bool have = false;
        for (auto &s : scales) if (s.oid == p.oid && s.mt == p.mt) have = true;
        if (v == "fast" && p.th == 1) { p = scales.empty() ? p : scales[0]; v = fv; have = true; }
        if (!have) scales.push_back(p);
        if (!t) { first = p; fv = v; }
        Key *k = get_key(v, p, t, 40); // another seed for each
        if (!k->made) { probe("setup_failed"); return; }
        u64 n = k->limit(), st = n > 8 ? choose(n - 8) : 0;
        if (!k->reach(st)) { probe("setup_failed"); return; }
        std::string path = dirs ? sfmt("d%u/key", t) : t ? sfmt("key%u", t) : "key";
        if (dirs) { auto d = std::make_shared<Inode>(); d->dir = true; d->label = sfmt("d%u", t); w.dir[d->label] = d; }
        w.file(path, k->file(st));
        ts.push_back({k, p, v, path, st});
    }
    g_scales = scales;
    std::string log;
    for (auto &t : ts) log += sfmt(" [%s at %llu: ", t.path.c_str(), (unsigned long long)t.at) + t.v + " " + t.p.str() + "]";
    u32 rounds = 1 + choose(3), serial = 0;
    static const u32 dens[] = {2, 1, 3, 6};
    static const u32 stalls[] = {4, 12};
    struct Job { Proc *pr; int kind; u32 t; Bytes m; std::string mf; bool calm; };
    for (u32 r = 0; r < rounds; r++) {
        std::map<std::string, int> copies;
        std::vector<Job> jobs;
        auto start = [&](const char *prog, u32 ti, std::vector<std::string> args, const Bytes &m, int kind) -> Proc * {
            T &t = ts[ti];
            std::string base = sfmt("tool_%s_%s_%s", prog, t.p.mt ? "xmssmt" : "xmss", t.v.c_str());
            int c = copies[base]++;
            if (c >= (kind == 2 ? 2 : 3)) return nullptr;
            Proc &pr = tool(w, sfmt("%s%u", prog, serial++), image(base + sfmt(".%d", c)), args);
            jobs.push_back({&pr, kind, ti, m, args.back(), true});
            return &pr;
        };
        u32 rush = choose(6); // everybody does the same
        std::pair<std::string, Bytes> shared;
        u32 bad = choose(3) ? nt : choose(nt); // the tenant that is in trouble, if any
        for (u32 ti = 0; ti < nt; ti++) {
            T &t = ts[ti];
            u32 what = rush == 5 && choose(4) ? 9 : rush == 4 && choose(4) ? 6 : choose(10); // sign mostly, verify, generate a key
            if (what < 6) {
                if (t.at >= t.p.usable() || t.upset) continue;
                Bytes m = choose_message(t.p.sig());
                std::string mf = sfmt(dirs && choose(2) ? "d%u/m%u" : "m%u_%u", ti, serial);
                if (!shared.first.empty() && choose(4) == 3) { mf = shared.first; m = shared.second; probe("shared_message_files"); } // several keys sign one file
                else w.file(mf, m);
                shared = {mf, m};
                Proc *pr = start("sign", ti, {"sign", by_name(t.path), mf}, m, 0);
                if (!pr) continue;
                if (ti == bad) { plan(*pr, PL_HARD | PL_SOFT); if (choose(2)) { pr->kill_at = choose(36); pr->kill_mid = choose(3) == 2; } jobs.back().calm = false; t.upset = true; }
                else plan(*pr, choose(3) == 2 ? PL_SOFT : 0);
            } else if (what < 9) {
                Bytes m = choose_message(t.p.sig()), sm = t.k->mk.sign(choose(std::min<u64>(t.p.usable(), 200)), m);
                std::string mf = sfmt("s%u_%u", ti, serial);
                w.file(mf, sm);
                Proc *pr = start("open", ti, {"open", by_name(t.path), mf}, sm, 1);
                if (pr) { plan(*pr, choose(3) == 2 ? PL_SOFT : 0); pr->allow[FK_SIGPIPE] = 0; }
            } else {
                std::string name;
                for (auto &o : OIDS) if (o.mt == t.p.mt && o.oid == t.p.oid) name = o.name;
                Proc *pr = start("keypair", ti, {"keypair", name}, {}, 2);
                if (pr) plan(*pr, choose(2) ? PL_SOFT | PL_ENT : 0);
            }
        }
        w.sched_den = pick(dens);
        w.stall_den = choose(4) == 3 ? pick(stalls) : 0;
        w.run_all();
        if (jobs.size() > 1) S->nontrivial = true;
        for (auto &j : jobs) { log += sfmt("; %s on %s: ", j.pr->name.c_str(), ts[j.t].path.c_str()) + outcome(*j.pr) + ", faults:" + faults_of(*j.pr); }
        S->scenario = log;
        std::vector<std::pair<Bytes, std::string>> secrets;
        for (auto &j : jobs) {
            T &t = ts[j.t];
            Proc &pr = *j.pr;
            std::string ctx = pr.name + " on " + t.path + ": " + outcome(pr) + ":" + log;
            if (!j.calm) { probe("troubled_runs"); continue; }
            if (!exit0(pr)) fail("disturbed", "failed although nothing went wrong with it: " + ctx);
            if (j.kind == 0) {
                if (pr.outbytes != t.k->mk.sign(t.at, j.m)) fail("wrong-signature", sfmt("the output is not the message signed at index %llu: ", (unsigned long long)t.at) + ctx);
                t.at++;
                probe("signatures");
            } else if (j.kind == 1) {
                if (!w.dir.count(j.mf) || w.dir[j.mf]->data != j.m) fail("modified", "the signed message file was modified: " + ctx);
                probe("verifications");
            } else {
                const Bytes &o = pr.outbytes;
                if (o.size() != t.p.pk() + sk_size(t.v, t.p)) fail("wrong-key", sfmt("key generation wrote %zu bytes: ", o.size()) + ctx);
                const u8 *q = o.data() + t.p.pk() + 4 + t.p.idxb;
                Bytes a(q, q + t.p.n), b(q + t.p.n, q + 2 * t.p.n), root(q + 2 * t.p.n, q + 3 * t.p.n), c(q + 3 * t.p.n, q + 4 * t.p.n);
                for (auto *s : {&a, &b, &c}) {
                    if (std::search(pr.entropy.begin(), pr.entropy.end(), s->begin(), s->end()) == pr.entropy.end()) fail("wrong-key", "a seed is not entropy delivered to this process: " + ctx);
                    for (auto &z : secrets) if (z.first == *s) fail("shared-secret", "the same seed as " + z.second + ": " + ctx);
                    secrets.push_back({*s, pr.name});
                }
                if (model_key(t.p, a, b, c).root != root) fail("wrong-key", "the root does not follow from the seeds: " + ctx);
                probe("keypairs");
            }
        }
        for (auto &t : ts) {
            if (!w.dir.count(t.path)) fail("key-lost", t.path + " is gone:" + log);
            if (t.upset) continue;
            if (!t.k->reach(t.at)) { probe("setup_failed"); return; }
            if (w.dir[t.path]->data != t.k->file(t.at)) fail("key-changed", sfmt("%s does not hold the state after %llu signatures:", t.path.c_str(), (unsigned long long)t.at) + log);
        }
    }
    S->scenario = log;
}
