// Properties decided on the library: C08-C12, C15-C18.
#include "os.h"
#include "libworld.h"
extern "C" {
#include "params.h"
}

// message lengths around the block boundaries of the hash functions too
static Bytes msg(const MP &p) {
    u32 k = choose(8);
    size_t len;
    if (k == 0) len = 5;
    else if (k == 1) len = choose(4);
    else if (k < 6) { // prefix and message fill a whole number of blocks, give or take one byte
        int block = p.func == F_SHA2 ? (p.n == 64 ? 128 : 64) : p.func == F_SHAKE128 ? 168 : 136;
        size_t pre = p.pad + 3 * p.n;
        size_t b = (pre / block + 1 + choose(4)) * block;
        len = b - pre + choose(3) - 1;
        if (p.func == F_SHA2 && choose(2)) len = len > (size_t)block / 8 ? len - block / 8 : len;
    } else len = choose(k == 6 ? 300 : 3000);
    return message(len, choose(1 << 20));
}

// ------------------------------------------------------------------ C08
void prop_C08() {
    std::string v = choose(4) == 0 ? "ref" : "fast";
    MP p;
    u32 big = choose(8);
    static const int shapes[][3] = {{1, 2, 0}, {1, 3, 0}, {1, 4, 0}, {2, 2, 0}, {2, 3, 0}, {3, 2, 0}, {3, 3, 0}, {1, 6, 0}, {2, 4, 0}, {1, 5, 0}, {3, 4, 0}, {2, 5, 0}, {1, 10, 0}, {2, 6, 0}, {3, 5, 0}, {4, 4, 0}, {4, 5, 0}, {8, 5, 0}, {12, 5, 0}, {2, 9, 0}, {2, 10, 0}};
    const int *sh = shapes[choose(big < 5 ? 10 : big < 7 ? 13 : 21)];
    static const int fn[][2] = {{F_SHA2, 32}, {F_SHA2, 24}, {F_SHA2, 64}, {F_SHA2, 32}, {F_SHA2, 32}, {F_SHAKE256, 32}, {F_SHAKE128, 32}};
    const int *f = fn[choose(S->thorough ? 7 : big < 5 ? 6 : 5)];
    int tiny = !g_tiny_ok || (big == 0 && choose(3) == 2 && sh[0] * sh[1] <= 4) ? 0 : choose(6) == 5 ? 16 : 4;
    p = make_params(f[0], f[1], sh[0] * sh[1], sh[0], sh[0] > 1, tiny, sh[1] > 3 && !p.mt && choose(3) == 2 ? 2 : 0);
    if (sh[0] == 1 && sh[1] % 2 == 0 && choose(3) == 2) p.k = 2;
    else p.k = 0;
    bool tall = g_tiny_ok && S->run_index % 4096 == 7; // leaf numbers beyond 16 bits
    if (tall) { v = "fast"; p = make_params(F_SHA2, 32, 17, 1, false, 4, 0); p.k = 0; }
    bool tall2 = g_tiny_ok && S->run_index % 8192 == 13; // and into the second of such subtrees
    if (tall2) { tall = true; v = "fast"; p = make_params(F_SHA2, 32, 34, 2, true, 4, 0); p.k = 0; }
    bool deep = g_tiny_ok && S->run_index % 1024 == 11; // past several ends of subtrees of the third layer
    if (deep) { v = "fast"; p = make_params(F_SHA2, choose(2) ? 32 : 24, 16, 4, true, 4, 0); p.k = 0; }
    p.oid = pick_oid(p.mt, p.func, p.n).oid;
    g_scales = {p};
    Key *k = get_key(v, p, choose(3), 1);
    if (!keyready(k)) return;
    // how much of the life this run walks through
    u64 cap = S->thorough ? 70000 : p.h <= 8 ? 256 : big == 7 ? 2500 : 400;
    if (v == "ref") cap = std::min<u64>(cap, S->thorough ? 300 : 40);
    if (!p.tiny) cap = std::min<u64>(cap, 16);
    if (tall) cap = S->thorough ? 70000 : 66000;
    if (tall2) cap = 131072 + (S->thorough ? 3000 : 300);
    if (deep) cap = S->thorough ? 65536 : 13000;
    u64 mask = (1 << p.th) - 1;
    u64 start = 0, total = p.usable();
    if (v == "ref" && total > cap) { u32 c = choose(3); if (c == 1) start = total - cap; if (c == 2) start = (u64)(choose(1 << 30)) % (total - cap); }
    if (!keyreach(k, start)) return;
    u64 end = std::min(total, start + cap);
    LibWorld L(v);
    L.process(p, 0);
    Bytes sk = k->sks[start];
    static const u32 rd[] = {16, 4, 1, 64, 1000};
    u32 rden = pick(rd);
    u64 restarts = 0, killed = 0;
    S->scenario = sfmt("signatures %llu..%llu of %llu", (unsigned long long)start, (unsigned long long)end, (unsigned long long)total) + at(v, p);
    u32 mseed = choose(1 << 16);
    for (u64 i = start; i < end; i++) {
        if (tall ? i % 2500 == 1200 : flip(1, rden)) { L.process(p, tall ? i & 1 : choose(2)); restarts++; S->nontrivial = true; }
        Bytes m = i % 16 == 3 && !tall && !deep ? msg(p) : message(1 + i % 7, mseed + i);
        if (p.func == F_SHA2 && !tall && flip(1, deep ? 3000 : 60)) { // the signer dies inside the call, its key was not saved
            Bytes lost = sk;
            L.h->hash_fail_at = -1;
            L.h->kill_at_hash = L.h->hash_calls + choose(200);
            do_sign(L, p, lost, m);
            fault_fired("process_kill");
            L.process(p, choose(2)); killed++; S->nontrivial = true;
        }
        SignOut o = do_sign(L, p, sk, m);
        std::string ctx = sfmt("signature %llu of %llu (walk from %llu, %llu restarts)", (unsigned long long)i, (unsigned long long)total, (unsigned long long)start, (unsigned long long)restarts) + at(v, p);
        if (!o.ret) fail("crash", "signing crashed: " + L.h->crash + ": " + ctx);
        if (o.rc) fail("refused", sfmt("signing returned %d although indices are left: ", o.rc) + ctx);
        if (o.smlen != p.sig() + m.size()) fail("length", sfmt("announced length %llu: ", o.smlen) + ctx);
        if (rdbe(o.sm.data(), p.idxb) != i) fail("index", sfmt("the signature carries index %llu: ", (unsigned long long)rdbe(o.sm.data(), p.idxb)) + ctx);
        if (memcmp(o.sm.data() + p.sig(), m.data(), m.size())) fail("message", "the signed message is not the message: " + ctx);
        if (tall && i % 64 && i + 40 < end && (i & (i + 1)) && (i & (i - 1)) && (i < 65500 || i > 65600) && (i < 131050 || i % 8)) { probe("signatures"); continue; }
        if (deep && i % 16 != 7 && i + 40 < end && (i & mask) != mask && (i & mask) && (i >> p.th) % 16 && (i >> p.th) % 16 != 15) { probe("signatures"); continue; }
        if (!model_verify(p, k->pk, o.sm)) fail("invalid", "the signature does not verify: " + ctx);
        if (k->ok && p.tiny && !model_own_roots(k->mk, o.sm)) fail("invalid", "the signature fits a wrong subtree root, and would not verify with one-time signatures of full size: " + ctx);
        if (i % 8 == 5 || i + 3 > total || !((i + 1) & ((1 << p.th) - 1))) {
            OpenOut q = do_open_(L, o.sm, k->pk);
            if (!q.ret || q.rc || q.mlen != m.size() || memcmp(q.m.data(), m.data(), m.size())) fail("not-opened", sfmt("verification returned %d with message length %llu: ", q.rc, q.mlen) + ctx);
        }
        probe("signatures");
    }
    if (end == total) probe("lives_completed");
    if (S->thorough && end - start > 1000) probe("long_walks");
    probe("restarts", restarts);
    S->scenario += sfmt(", %llu restarts, %llu killed calls", (unsigned long long)restarts, (unsigned long long)killed);
}
// ------------------------------------------------------------------ more than 4 GiB
// lengths that do not fit 32 bits: 4 GiB and a little
static void huge_input(bool meaning) {
    std::string v = choose_variant();
    LibWorld L(v);
    S->nontrivial = true;
    static const int fs[][2] = {{F_SHA2, 32}, {F_SHA2, 64}, {F_SHAKE128, 32}};
    const int *f = fs[S->thorough ? choose(3) : 0];
    MP p = make_params(f[0], f[1], 4, 2, true, g_tiny_ok ? 4 : 0, 0);
    p.oid = pick_oid(true, p.func, p.n).oid;
    g_scales = {p};
    g_watchdog_s = 200;
    u64 extra = choose(2) ? choose(2 * p.sig()) : choose(p.sig());
    struct End { ~End() { g_zero_tail = 0; g_watchdog_s = 30; } } end_;
    Bytes head = message(1000, choose(1000));
    if (meaning) {
        Key *k = get_key(v, p, choose(2), 12);
        if (!keyready(k)) return;
        L.process(p, 0);
        u64 mlen = (1ULL << 32) + extra;
        std::string ctx = sfmt("message of 2^32+%llu bytes", (unsigned long long)extra) + at(v, p);
        S->scenario = ctx;
        g_zero_tail = mlen - head.size();
        Bytes want = k->mk.sign(0, head), sk = k->sks[0];
        { HugeBuf m(mlen), sm(mlen + p.sig());
        memcpy(m.p, head.data(), head.size());
        unsigned long long sl = 0; int rc = -1;
        if (!call(*L.h, [&] { rc = L.a.sign(sk.data(), sm.p, &sl, m.p, mlen); })) fail("crash", "signing crashed: " + L.h->crash + ": " + ctx);
        EV(hash_bytes(sm.p, p.sig()) + rc, "sign: rc %d, length %llu", rc, sl);
        if (rc || sl != mlen + p.sig()) fail("length", sfmt("signing returned %d with length %llu: ", rc, sl) + ctx);
        if (memcmp(sm.p, want.data(), want.size())) fail("different", "the signature differs from the defined one: " + ctx); }
        { HugeBuf m(mlen + p.sig()), sm(mlen + p.sig());
        memcpy(sm.p, want.data(), want.size());
        unsigned long long ml = 0; int rc = -1;
        if (!call(*L.h, [&] { rc = L.a.open(m.p, &ml, sm.p, mlen + p.sig(), k->pk.data()); })) fail("crash", "verification crashed: " + L.h->crash + ": " + ctx);
        EV(hash_bytes(m.p, 2000) + rc + ml, "verify: rc %d, length %llu", rc, ml);
        if (rc || ml != mlen || memcmp(m.p, head.data(), head.size())) fail("not-accepted", sfmt("verification returned %d with length %llu: ", rc, ml) + ctx); }
        probe("message_over_4GiB");
    } else {
        L.process(p, 0);
        u64 n = (1ULL << 32) + extra;
        std::string ctx = sfmt("input of 2^32+%llu bytes (signature length %zu)", (unsigned long long)extra, p.sig()) + at(v, p);
        S->scenario = ctx;
        Bytes pk = be(p.oid, 4), t = message(2 * p.n, 3);
        pk.insert(pk.end(), t.begin(), t.end());
        HugeBuf m(n), sm(n);
        memcpy(sm.p + p.idxb, head.data(), head.size());
        memset(m.p, 0x77, 1 << 20);
        unsigned long long ml = 7; int rc = -1;
        if (!call(*L.h, [&] { rc = L.a.open(m.p, &ml, sm.p, n, pk.data()); })) fail("crash", "verification crashed: " + L.h->crash + ": " + ctx);
        EV(rc + ml * 3, "verify: rc %d, length %llu", rc, ml);
        if (rc == 0 || ml) fail("verdict", sfmt("returned %d with message length %llu: ", rc, ml) + ctx);
        probe("input_over_4GiB");
    }
}
// ------------------------------------------------------------------ C09
static void check_table(LibWorld &L) {
    // sizes and shape each registered identifier and name stands for
    Image *im = L.h->img;
    for (auto &r : OIDS) {
        xmss_params q; memset(&q, 0x55, sizeof q);
        auto parse = (int (*)(xmss_params *, u32))im->sym(r.mt ? "real_xmssmt_parse_oid" : "real_xmss_parse_oid");
        auto s2o = (int (*)(u32 *, const char *))im->sym(r.mt ? "xmssmt_str_to_oid" : "xmss_str_to_oid");
        u32 o = 0; int rc = -1, rc2 = -1;
        if (!call(*L.h, [&] { rc = parse(&q, r.oid); rc2 = s2o(&o, r.name); })) fail("table-crash", r.name);
        MP p = oid_params(r);
        std::string ctx = std::string(r.name) + sfmt(" (identifier %08x)", r.oid);
        if (rc || rc2) fail("table", "not recognised: " + ctx);
        if (o != r.oid) fail("table", sfmt("name maps to identifier %08x: ", o) + ctx);
        if (q.n != (u32)p.n || q.full_height != (u32)p.h || q.d != (u32)p.d || q.wots_w != 16 || q.wots_len != (u32)p.len || q.tree_height != (u32)p.th || q.index_bytes != (u32)p.idxb || q.padding_len != (u32)p.pad || q.sig_bytes != p.sig() || q.pk_bytes != 2 * (u32)p.n || q.wots_sig_bytes != p.wots() || (L.variant == "ref" && q.sk_bytes + 4 != p.refsk()))
            fail("table", sfmt("n=%u h=%u d=%u w=%u len=%u idx=%u sig=%u pk=%u pad=%u: ", q.n, q.full_height, q.d, q.wots_w, q.wots_len, q.index_bytes, (unsigned)q.sig_bytes, (unsigned)q.pk_bytes, q.padding_len) + ctx);
        evh(r.oid);
    }
    probe("table_checked");
}
static size_t first_diff(const Bytes &a, const Bytes &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; return i; }
static std::string where(const MP &p, size_t off) {
    if (off < (size_t)p.idxb) return "index";
    off -= p.idxb;
    if (off < (size_t)p.n) return "randomiser";
    off -= p.n;
    size_t lay = p.wots() + p.th * p.n;
    size_t l = off / lay;
    if ((int)l >= p.d) return "message";
    off %= lay;
    return off < p.wots() ? sfmt("one-time signature of layer %zu, chain %zu", l, off / p.n) : sfmt("authentication path of layer %zu, height %zu", l, (off - p.wots()) / p.n);
}
static u64 any_index(const MP &p, u64 lim) { // spread over the whole space, boundaries included
    u32 c = choose(6);
    u64 mx = lim - 1;
    if (c == 0) return 0;
    if (c == 1) return mx;
    if (c == 2) { u32 b = choose(p.h); u64 v = 1ULL << b; return std::min(mx, v); }
    if (c == 3) { u32 b = choose(p.h); u64 v = (1ULL << b) - 1; return std::min(mx, v); }
    u64 r = (u64)choose(1u << 31) << 31 ^ choose(1u << 31);
    return r % lim;
}
void prop_C09() {
    std::string v = choose_variant();
    u32 mode = choose(12);
    if (S->run_index % 8192 == 13) return huge_input(true);
    if (S->run_index % 4096 == 9) { v = "ref"; mode = 4; }
    LibWorld L(v);
    S->nontrivial = true;
    if (mode <= 3) { // scaled trees, any state of the key's life
        MP p = choose_params(v, {.real_den = 6});
        Key *k = get_key(v, p, choose(3), 60);
        if (!keyready(k)) return;
        if (!k->ok) fail("keypair", "public key and root in the secret key do not follow from the seeds" + at(v, p));
        u64 i = v == "ref" ? any_index(p, p.usable()) : choose(k->limit());
        if (!keyreach(k, i)) return;
        L.process(p, 0);
        u32 cnt = 1 + choose(3);
        Bytes sk = k->sks[i];
        for (u32 c = 0; c < cnt && i + c < p.usable(); c++) {
            Bytes m = msg(p);
            SignOut o = do_sign(L, p, sk, m, choose(8));
            Bytes want = k->mk.sign(i + c, m);
            std::string ctx = sfmt("index %llu, message of %zu bytes", (unsigned long long)(i + c), m.size()) + at(v, p);
            S->scenario = ctx;
            if (!o.ret) fail("crash", ctx);
            if (o.rc || o.smlen != want.size() || o.sm != want) fail("different", sfmt("rc %d; first difference at byte %zu (%s): ", o.rc, first_diff(o.sm, want), where(p, first_diff(o.sm, want)).c_str()) + ctx);
            probe("signatures_equal");
            OpenOut q = do_open_(L, want, k->pk);
            if (!q.ret || q.rc || q.mlen != m.size()) fail("not-accepted", "a signature of the independent implementation is rejected: " + ctx);
        }
    } else if (mode <= 6) { // registered tree shapes, scaled one-time signatures: the whole index space
        const OidRow &r = OIDS[choose(OIDS.size())];
        MP p = make_params(r.func, r.n, r.h, r.d, r.mt, g_tiny_ok ? 4 : 0, 0);
        p.oid = r.oid;
        bool heavy = p.th > (p.func == F_SHA2 ? 10 : 5) || !g_tiny_ok;
        if (heavy && !S->thorough) { p = make_params(r.func, r.n, r.mt ? r.h / r.d >= 10 ? r.d * 6 : r.h : 6, r.d, r.mt, g_tiny_ok ? 4 : 0, 0); p.oid = r.oid; }
        if (heavy && S->thorough && p.th > 16) { p = make_params(r.func, r.n, r.d * 12, r.d, r.mt, g_tiny_ok ? 4 : 0, 0); p.oid = r.oid; }
        bool tall = g_tiny_ok && S->run_index % 4096 == 9; // leaf numbers beyond 16 bits
        if (tall) { v = "ref"; p = make_params(F_SHA2, 32, S->thorough ? 20 : 17, 1, false, 4, 0); p.oid = pick_oid(p.mt, p.func, p.n).oid; }
        g_scales = {p};
        Key *k = get_key(v, p, choose(2), 12);
        if (!keyready(k)) return;
        if (!k->ok) fail("keypair", "public key and root in the secret key do not follow from the seeds" + at(v, p));
        u64 i = v == "ref" ? any_index(p, p.usable()) : choose(k->limit());
        if (tall && i < 65536) i += 65536;
        if (!keyreach(k, i)) return;
        L.process(p, 0);
        Bytes sk = k->sks[i], m = msg(p);
        SignOut o = do_sign(L, p, sk, m, choose(8));
        Bytes want = k->mk.sign(i, m);
        std::string ctx = sfmt("%s, index %llu, message of %zu bytes", r.name, (unsigned long long)i, m.size()) + at(v, p);
        S->scenario = ctx;
        if (!o.ret) fail("crash", ctx);
        if (o.rc || o.smlen != want.size() || o.sm != want) fail("different", sfmt("rc %d; first difference at byte %zu (%s): ", o.rc, first_diff(o.sm, want), where(p, first_diff(o.sm, want)).c_str()) + ctx);
        OpenOut q = do_open_(L, want, k->pk);
        if (!q.ret || q.rc || q.mlen != m.size()) fail("not-accepted", "a signature of the independent implementation is rejected: " + ctx);
        probe("registered_shape_signed");
    } else if (mode <= 9) { // registered parameters exactly: verification of foreign signatures
        const OidRow &r = OIDS[choose(OIDS.size())];
        MP p = oid_params(r);
        g_scales.clear();
        u64 i = any_index(p, p.maxidx() + 1);
        Bytes m = msg(p);
        Forged f = model_synth(p, i, m, choose(1 << 20));
        L.process(p, 0);
        OpenOut q = do_open_(L, f.sm, f.pk, choose(8));
        std::string ctx = sfmt("%s, index %llu, message of %zu bytes", r.name, (unsigned long long)i, m.size());
        S->scenario = "foreign signature, " + ctx;
        if (!q.ret) fail("crash", ctx);
        if (q.rc || q.mlen != m.size() || memcmp(q.m.data(), m.data(), m.size())) fail("not-accepted", sfmt("a valid signature made elsewhere is rejected (%d): ", q.rc) + ctx + "; " + v);
        Bytes bad = f.sm; bad[choose(bad.size())] ^= 1 << choose(8);
        OpenOut q2 = do_open_(L, bad, f.pk);
        if (q2.ret && q2.rc == 0) fail("corrupted-accepted", ctx);
        probe("registered_verified");
    } else if (mode == 10) { // both implementations, same entropy
        MP p = choose_params("fast", {.real_den = 24});
        u32 seed = choose(3);
        Key *a = get_key("ref", p, seed, 20), *b = get_key("fast", p, seed, 20);
        if (!keyready(a) || !keyready(b)) return;
        S->scenario = "same entropy for both implementations" + at("both", p);
        if (a->pk != b->pk) fail("pk-differs", "the same entropy gives different public keys" + at("both", p));
        if (!a->ok || !b->ok) fail("keypair", "public key and root in the secret key do not follow from the seeds" + at("both", p));
        probe("same_entropy");
    } else { // registered parameters exactly: table, and small subtrees signed for real
        MP any = oid_params(OIDS[0]);
        L.process(any, 0);
        g_scales.clear();
        check_table(L);
        S->scenario = "table of parameter sets; " + v;
        if (choose(S->thorough ? 2 : 6) == 1) {
            std::vector<const OidRow *> c;
            for (auto &r : OIDS) if (r.h / r.d <= 5 && (r.func == F_SHA2 || S->thorough)) c.push_back(&r);
            const OidRow &r = *c[choose(c.size())];
            MP p = oid_params(r);
            g_scales = {p};
            Key *k = get_key(v, p, 0, 3);
            if (!keyready(k)) return;
            if (!k->ok) fail("keypair", std::string("public key and root do not follow from the seeds: ") + r.name);
            u64 i = v == "ref" ? any_index(p, p.usable()) : choose(2);
            if (!keyreach(k, i)) return;
            L.process(p, 0);
            Bytes sk = k->sks[i], m = msg(p);
            SignOut o = do_sign(L, p, sk, m);
            Bytes want = k->mk.sign(i, m);
            S->scenario = sfmt("%s signed for real at index %llu; %s", r.name, (unsigned long long)i, v.c_str());
            if (!o.ret || o.rc || o.sm != want) fail("different", sfmt("first difference at byte %zu (%s): ", first_diff(o.sm, want), where(p, first_diff(o.sm, want)).c_str()) + S->scenario);
            probe("registered_signed_for_real");
        }
    }
}
// ------------------------------------------------------------------ C10 (library part)
void prop_C10_tool();
// a key of the fast implementation far beyond what can be walked through, with the index field as the
// last signature leaves it (the rest of such a key is never looked at before the index)
static void fast_far_end() {
    static const int hd[][2] = {{40, 8}, {60, 12}, {20, 4}, {10, 1}, {16, 1}, {20, 2}, {32, 4}};
    const int *x = hd[choose(7)];
    if (!g_tiny_ok) x = hd[2];
    if (x[1] == 1) x = x[0] == 10 ? hd[3] : hd[2];
    MP p = make_params(F_SHA2, 32, x[0] / x[1] > 5 && x[1] > 1 ? x[1] * 5 : x[0], x[1], x[1] > 1, g_tiny_ok ? 4 : 0, 0);
    p.oid = pick_oid(p.mt, p.func, p.n).oid;
    g_scales = {p};
    Key *k = get_key("fast", p, choose(2), 1);
    if (!keyready(k)) return;
    S->nontrivial = true;
    Bytes sk = k->sks[0];
    u64 last = p.usable() - 1, field = p.idxb == 8 ? ~0ULL : (1ULL << 8 * p.idxb) - 1, set;
    u32 c = choose(4);
    set = c == 0 ? last + 1 : c == 1 ? field : c == 2 ? last + 1 + choose(1000) : 1ULL << choose(8 * p.idxb);
    if (set <= last || set > field) set = last + 1;
    Bytes b = be(set, p.idxb);
    memcpy(&sk[4], b.data(), p.idxb);
    std::set<Bytes> secret;
    for (u64 j : {(u64)0, last, p.maxidx()}) { auto s = k->mk.ots_values(j); secret.insert(s.begin(), s.end()); }
    LibWorld L("fast");
    L.process(p, 0);
    u32 n = 1 + choose(3);
    for (u32 a = 0; a < n; a++) {
        if (choose(3) == 2) L.process(p, choose(2));
        Bytes m = message(1 + choose(40), choose(1 << 20));
        SignOut o = do_sign(L, p, sk, m, choose(8));
        u64 now = rdbe(&sk[4], p.idxb);
        std::string ctx = sfmt("index %llu of %llu, attempt %u: rc %d, then %llu", (unsigned long long)set, (unsigned long long)p.usable(), a, o.rc, (unsigned long long)now) + at("fast", p);
        S->scenario = ctx;
        if (!o.ret) fail("crash", "signing crashed: " + L.h->crash + ": " + ctx);
        if (!o.rc) fail("exhausted-signed", "an exhausted key signed again: " + ctx);
        if (now <= last) fail("index-came-back", "the stored index permits signing again: " + ctx);
        for (auto *b : {&k->mk.sk_seed, &k->mk.sk_prf})
            if (std::search(sk.begin() + 4, sk.end(), b->begin(), b->end()) != sk.end()) fail("seed-left", std::string(b == &k->mk.sk_seed ? "the secret seed" : "the randomisation key") + " is left in a refused key: " + ctx);
        for (size_t off = 0; off + p.n <= p.sig(); off++) if (secret.count(Bytes(o.sm.begin() + off, o.sm.begin() + off + p.n))) fail("exhausted-output", sfmt("one-time signature bytes in the output buffer at %zu: ", off) + ctx);
        probe("refused_far_end");
    }
}
void prop_C10() {
    if (choose(3) == 2) { prop_C10_tool(); return; }
    std::string v = choose_variant();
    if (v == "fast" && choose(6) == 5) { fast_far_end(); return; }
    MP p;
    u32 c = choose(8);
    if (c >= 6 && v == "ref") { // registered shapes, at the very end of their index space
        static const int hd[][2] = {{40, 8}, {60, 12}, {20, 4}, {40, 4}, {60, 6}};
        const int *x = hd[choose(S->thorough ? 5 : 3)];
        p = make_params(F_SHA2, 32, x[0], x[1], true, g_tiny_ok ? 4 : 0, 0);
        for (auto &r : OIDS) if (r.mt && r.func == p.func && r.n == p.n && r.h == p.h && r.d == p.d) p.oid = r.oid;
        g_scales = {p};
    } else {
        GeoOpts o; o.spare = c >= 4; if (o.spare) o.mt = 1; o.real_den = 40;
        p = choose_params(v, o);
        if (v == "fast" && p.h > 8 ) { p = make_params(p.func, p.n, 8, 2, true, p.tiny ? p.w : 0, 0); p.oid = pick_oid(true, p.func, p.n).oid; g_scales = {p}; }
        if (!p.tiny && p.h > 4 && v == "fast") { p = make_params(p.func, p.n, 4, p.mt ? 2 : 1, p.mt, 0, 0); p.oid = pick_oid(p.mt, p.func, p.n).oid; g_scales = {p}; }
    }
    Key *k = get_key(v, p, choose(2), 300);
    if (!keyready(k)) return;
    u64 last = p.usable() - 1, i = last - std::min<u64>(last, choose(3));
    if (!keyreach(k, i)) return;
    LibWorld L(v);
    L.process(p, 0);
    Bytes sk = k->sks[i];
    S->nontrivial = true;
    std::string log = sfmt("from index %llu of %llu", (unsigned long long)i, (unsigned long long)p.usable());
    u32 after = 1 + choose(6);
    std::set<Bytes> secret;
    for (u32 a = 0; a < after;) {
        if (choose(3) == 2) { L.process(p, choose(2)); log += ", reloaded"; }
        Bytes m = message(1 + choose(40), choose(1 << 20));
        u64 stored = rdbe(&sk[4], p.idxb);
        SignOut o = do_sign(L, p, sk, m, choose(8));
        u64 now = rdbe(&sk[4], p.idxb);
        log += sfmt("; stored %llu: rc %d, then %llu", (unsigned long long)stored, o.rc, (unsigned long long)now);
        S->scenario = log + at(v, p);
        if (!o.ret) fail("crash", S->scenario);
        if (i <= last) {
            if (o.rc) fail("refused", "refused although an index is left: " + S->scenario);
            if (now != i + 1) fail("not-advanced", S->scenario);
            i++;
            continue;
        }
        a++;
        if (!o.rc) fail("exhausted-signed", "an exhausted key signed again: " + S->scenario);
        if (now <= last) fail("index-came-back", "the stored index permits signing again: " + S->scenario);
        for (auto *b : {&k->mk.sk_seed, &k->mk.sk_prf})
            if (std::search(sk.begin() + 4, sk.end(), b->begin(), b->end()) != sk.end()) fail("seed-left", std::string(b == &k->mk.sk_seed ? "the secret seed" : "the randomisation key") + " is left in a refused key: " + S->scenario);
        if (p.h <= 30 || p.th <= 5) {
            if (secret.empty()) for (u64 j : {(u64)0, last, p.maxidx()}) { auto s = k->mk.ots_values(j); secret.insert(s.begin(), s.end()); }
            for (size_t off = 0; off + p.n <= p.sig(); off++) {
                if (o.sm[off] == 0xEE && o.sm[off + 1] == 0xEE) continue;
                if (secret.count(Bytes(o.sm.begin() + off, o.sm.begin() + off + p.n))) fail("exhausted-output", sfmt("one-time signature bytes in the output buffer at %zu: ", off) + S->scenario);
            }
        }
        probe("refused_exhausted");
    }
}
// ------------------------------------------------------------------ C11
struct Packet { Bytes sm; int key; size_t mlen; };
struct Pool { MP p; std::vector<Bytes> pks; std::vector<Packet> pk; std::vector<ModelKey> mks; };
static Pool *get_pool(u32 which) {
    static std::map<u32, std::unique_ptr<Pool>> pools;
    auto &s = pools[which];
    if (s) return s.get();
    s.reset(new Pool);
    Pool &P = *s;
    Rng r(7700 + which);
    auto lens = [&](u32 i) { static const size_t l[] = {0, 1, 5, 33, 64, 300, 4000}; return l[i % 7]; };
    if (which % 2 == 0) { // several signatures per key: small trees, real one-time signatures
        static const int sh[][2] = {{1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}};
        static const int fn[][2] = {{F_SHA2, 32}, {F_SHA2, 24}, {F_SHA2, 64}, {F_SHAKE128, 32}, {F_SHAKE256, 24}, {F_SHA2, 32}};
        const int *x = sh[which / 2 % 5], *f = fn[which / 2 % 6];
        P.p = make_params(f[0], f[1], x[0] * x[1], x[0], x[0] > 1, 0, 0);
        std::vector<const OidRow *> rows;
        for (auto &o : OIDS) if (o.mt == P.p.mt && o.func == P.p.func && o.n == P.p.n) rows.push_back(&o);
        P.p.oid = rows[r.below(rows.size())]->oid;
        for (int kx = 0; kx < 2; kx++) {
            Bytes a(P.p.n), b(P.p.n), c(P.p.n); r.fill(a.data(), P.p.n); r.fill(b.data(), P.p.n); r.fill(c.data(), P.p.n);
            if (kx == 1 && which % 4 == 0) { /* second key shares the public seed of the first */ memcpy(c.data(), P.pks[0].data() + 4 + P.p.n, P.p.n); }
            ModelKey mk = model_key(P.p, a, b, c);
            P.pks.push_back(mk.pk()); P.mks.push_back(mk);
            for (u64 i = 0; i < std::min<u64>(P.p.maxidx() + 1, 3); i++) { Bytes m = message(lens(which + i + kx), r.below(1 << 20)); P.pk.push_back({mk.sign(i == 2 ? P.p.maxidx() : i, m), kx, m.size()}); }
        }
    } else { // registered parameters
        const OidRow &row = OIDS[r.below(OIDS.size())];
        P.p = oid_params(row);
        for (int kx = 0; kx < 2; kx++) {
            Bytes m = message(lens(which / 2 + kx), r.below(1 << 20));
            u64 idx = (r.next() >> r.below(64)) & P.p.maxidx();
            Forged f = model_synth(P.p, idx, m, r.next());
            P.pks.push_back(f.pk); P.pk.push_back({f.sm, kx, m.size()});
        }
    }
    return &P;
}
static void field(const MP &p, u32 f, size_t mlen, size_t &off, size_t &len) {
    size_t lay = p.wots() + (size_t)p.th * p.n, base = p.idxb + p.n;
    u32 kinds = 4 + 2 * p.d;
    f %= kinds;
    if (f == 0) { off = 0; len = p.idxb; }
    else if (f == 1) { off = p.idxb; len = p.n; }
    else if (f == 2) { off = p.sig(); len = mlen; }
    else if (f == 3) { off = 0; len = p.sig() + mlen; }
    else { u32 l = (f - 4) / 2; off = base + l * lay + ((f & 1) ? p.wots() : 0); len = (f & 1) ? (size_t)p.th * p.n : p.wots(); }
}
void prop_C11() {
    std::string v = choose_variant();
    Pool &P = *get_pool(choose(S->thorough ? 160 : 40));
    const MP &p = P.p;
    g_scales = {p};
    LibWorld L(v);
    L.process(p, 0);
    u32 n = 4 + choose(10);
    std::string log;
    u64 dam = 0;
    for (u32 d = 0; d < n; d++) {
        if (choose(12) == 11) { L.process(p, choose(2)); log += "; new process"; }
        const Packet &o = P.pk[choose(P.pk.size())];
        Bytes sm = o.sm, pk = P.pks[o.key];
        size_t mlen = o.mlen;
        std::string what = "intact";
        u32 c = choose(22);
        size_t off, len;
        if (c >= 2) dam++;
        const Packet &x = P.pk[choose(P.pk.size())];
        if (c < 2) {}
        else if (c < 9) { u32 f = choose(4 + 2 * p.d); field(p, f, mlen, off, len); if (len) { size_t k = off + choose(len); u32 b = choose(8); sm[k] ^= 1 << b; what = sfmt("bit %u of byte %zu (%s) flipped", b, k, where(p, k).c_str()); fault_fired("bit_error"); } }
        else if (c == 9) { u32 f = choose(4 + 2 * p.d); field(p, f, std::min(mlen, x.mlen), off, len); if (len && f != 3) { memcpy(&sm[off], &x.sm[off], len); what = sfmt("%s taken from another signature", where(p, off).c_str()); fault_fired("splice"); } }
        else if (c == 10) { u64 i = rdbe(sm.data(), p.idxb), j = choose(3) == 0 ? i ^ (1ULL << choose(8 * p.idxb)) : choose(2) ? i + (1ULL << p.h) : i + 1; if (8 * p.idxb < 64) j &= (1ULL << 8 * p.idxb) - 1; Bytes b = be(j, p.idxb); memcpy(&sm[0], b.data(), p.idxb); what = sfmt("index %llu changed to %llu", (unsigned long long)i, (unsigned long long)j); fault_fired("index_changed"); }
        else if (c == 11) { size_t k = 1 + choose(200); Bytes t = message(k, choose(100)); if (choose(2)) std::fill(t.begin(), t.end(), 0); sm.insert(sm.end(), t.begin(), t.end()); mlen += k; what = sfmt("%zu bytes appended", k); fault_fired("extended"); }
        else if (c == 12) { if (mlen) { size_t k = 1 + choose(mlen); sm.resize(sm.size() - k); mlen -= k; what = sfmt("message shortened by %zu", k); fault_fired("truncated"); } }
        else if (c == 13) { size_t k = choose(sm.size()); sm.resize(k); mlen = 0; what = sfmt("cut to %zu bytes", k); fault_fired("truncated"); }
        else if (c == 14) { pk = P.pks[choose(P.pks.size())]; what = "some key"; fault_fired("wrong_key"); }
        else if (c == 15) { size_t k = 4 + choose(2 * p.n); u32 b = choose(8); pk[k] ^= 1 << b; what = sfmt("bit %u of public key byte %zu flipped", b, k); fault_fired("key_bit_error"); }
        else if (c == 16) { u32 l = choose(p.d), a = choose(p.len), b = choose(p.len); field(p, 4 + 2 * l, mlen, off, len); std::swap_ranges(sm.begin() + off + a * p.n, sm.begin() + off + (a + 1) * p.n, sm.begin() + off + b * p.n); what = sfmt("chains %u and %u of layer %u exchanged", a, b, l); fault_fired("exchanged"); }
        else if (c == 17) { field(p, choose(4 + 2 * p.d), mlen, off, len); for (size_t k = off; k < off + len; k++) sm[k] = 0; what = "field zeroed: " + where(p, off); fault_fired("zeroed"); }
        else if (c == 18) { u32 l = choose(p.d); if (p.th > 1) { field(p, 5 + 2 * l, mlen, off, len); u32 a = choose(p.th), b = choose(p.th); if (a != b) std::swap_ranges(sm.begin() + off + a * p.n, sm.begin() + off + (a + 1) * p.n, sm.begin() + off + b * p.n); what = "path nodes exchanged"; fault_fired("exchanged"); } }
        else if (c >= 20) { // everything as it should be, only the root announced in the key is a little different
            if (P.mks.size()) {
                ModelKey f = P.mks[o.key];
                u32 j = choose(2) ? p.n - 1 - choose(3) : choose(p.n);
                f.root[j] ^= 1 << choose(8);
                u64 i = rdbe(sm.data(), p.idxb);
                sm = f.sign(i, Bytes(sm.begin() + p.sig(), sm.end())); pk = f.pk();
                what = sfmt("signed for a key whose root differs in byte %u", j); fault_fired("wrong_root");
            }
        }
        else { if (mlen > 1) { size_t a = p.sig() + choose(mlen), b = p.sig() + choose(mlen); std::swap(sm[a], sm[b]); what = "message bytes exchanged"; fault_fired("exchanged"); } }
        bool valid = false;
        for (auto &q : P.pk) if (q.sm == sm && P.pks[q.key] == pk) valid = true;
        OpenOut q = do_open_(L, sm, pk, choose(8));
        std::string ctx = sfmt("delivery %u: signature with index %llu and message of %zu bytes, %s", d, (unsigned long long)rdbe(o.sm.data(), p.idxb), o.mlen, what.c_str()) + at(v, p);
        S->scenario = ctx;
        if (!q.ret) fail("crash", "verification crashed: " + L.h->crash + ": " + ctx);
        if (q.rc == 0 && !valid) fail("accepted", "accepted what was never signed: " + ctx);
        if (q.rc != 0 && valid) fail("rejected", "rejected a genuine signed message: " + ctx);
        if (valid) {
            if (q.mlen != mlen || memcmp(q.m.data(), sm.data() + p.sig(), mlen)) fail("wrong-message", "the returned message is not the signed one: " + ctx);
            probe("genuine_accepted");
        } else {
            if (q.mlen != 0) fail("length-on-reject", sfmt("rejected with message length %llu: ", q.mlen) + ctx);
            for (size_t k = 0; k < mlen && sm.size() >= p.sig(); k++) if (q.m[k]) fail("message-on-reject", sfmt("byte %zu of the output buffer is not cleared: ", k) + ctx);
            probe("damaged_rejected");
        }
        if (!q.oob.empty()) fail("out-of-bounds", q.oob + ": " + ctx);
    }
    if (dam) S->nontrivial = true;
    S->scenario += sfmt(" (%u deliveries, %llu damaged)", n, (unsigned long long)dam);
}
// ------------------------------------------------------------------ C12
void prop_C12() {
    if (S->run_index % 32768 == 13) return huge_input(false);
    std::string v = choose_variant();
    MP p;
    u32 g = choose(4);
    if (g == 0) p = choose_params(v, {.real_den = 24});
    else if (g == 1) { p = oid_params(OIDS[choose(OIDS.size())]); g_scales.clear(); }
    else { Pool &P = *get_pool(choose(12)); p = P.p; g_scales = {p}; }
    LibWorld L(v);
    L.process(p, 0);
    S->nontrivial = true;
    u32 rounds = 1 + choose(3);
    for (u32 r = 0; r < rounds; r++) {
        size_t n;
        u32 c = choose(12);
        size_t sig = p.sig();
        if (c == 0) n = 0;
        else if (c == 1) n = choose(sig);
        else if (c == 2) n = sig - 1;
        else if (c == 3) n = sig;
        else if (c == 4) n = sig + choose(300);
        else if (c == 5) n = choose(40);
        else if (c == 6) { size_t cut[] = {(size_t)p.idxb, (size_t)p.idxb + p.n, p.idxb + p.n + p.wots(), sig - p.n, sig - 3 * p.n - p.pad, (size_t)p.pad + 3 * p.n}; n = cut[choose(6)] + choose(3) - 1; }
        else if (c == 7) { n = sig + choose(70000); if (choose(24) == 23) n = (3 << 20) + choose(1 << 20); }
        else n = choose(2 * sig);
        Bytes sm(n);
        u32 k = choose(5);
        if (k == 0) { Rng q(choose(1 << 20)); q.fill(sm.data(), n); }
        else if (k == 1) std::fill(sm.begin(), sm.end(), 0xff);
        else if (k == 2) {}
        else { Pool &P = *get_pool(choose(12)); Bytes s = P.pk[choose(P.pk.size())].sm; s.resize(n); sm = s; }
        u32 oid = p.oid;
        bool known = true;
        u32 oc = choose(8);
        if (oc == 6) oid = choose(1u << 31) * 2 + choose(2);
        if (oc == 7) { static const u32 x[] = {0, 0x16, 0x39, 0xffffffff, 0x100, 0x01000000, 0x10000001}; oid = pick(x); }
        const OidRow *row = nullptr;
        for (auto &o : OIDS) if (o.mt == p.mt && o.oid == oid) row = &o;
        MP q = p;
        if (oid != p.oid) { known = row; if (row) q = oid_params(*row); }
        Bytes pk = be(oid, 4);
        if (known) { Bytes t = message(2 * q.n, choose(1000)); pk.insert(pk.end(), t.begin(), t.end()); }
        OpenOut o = do_open_(L, sm, pk, choose(8));
        std::string ctx = sfmt("input of %zu bytes (signature length %zu), identifier %08x%s", n, q.sig(), oid, known ? "" : " (unknown)") + at(v, q);
        S->scenario = ctx;
        if (!o.ret) fail("crash", "verification did not return: " + L.h->crash + ": " + ctx);
        if (!o.oob.empty()) fail("out-of-bounds", "bytes outside the output buffer were changed: " + ctx);
        if (!known && o.rc == 0) fail("unknown-accepted", ctx);
        if (known && n < q.sig() && o.rc == 0) fail("short-accepted", ctx);
        if (known && n < q.sig() && o.mlen != 0) fail("short-length", sfmt("rejected with message length %llu: ", o.mlen) + ctx);
        if (known && q.func == F_SHA2) {
            u64 bound = (u64)q.d * (q.len * q.w * 3 + q.len * 3 + q.th * 4) + 64;
            if (o.hashes > bound) fail("work", sfmt("%llu hash calls: ", (unsigned long long)o.hashes) + ctx);
        }
        if (n < q.sig()) { probe("short_inputs"); fault_fired("truncated"); } else { probe("full_length_inputs"); fault_fired("garbled"); }
    }
}
// ------------------------------------------------------------------ C15
void prop_C15() {
    std::string v = choose_variant();
    u32 nk = 2 + choose(3);
    LibWorld L(v);
    struct KS { Key *k; Bytes sk; u64 i; u32 seed; };
    std::vector<KS> ks;
    std::vector<MP> scales;
    for (u32 i = 0; i < nk; i++) {
        MP p = choose_params(v, {.real_den = 40});
        // one geometry per identifier in a process
        for (auto &s : scales) if (s.oid == p.oid && s.mt == p.mt) p = s;
        bool have = false;
        for (auto &s : scales) if (s.oid == p.oid && s.mt == p.mt) have = true;
        if (!have) scales.push_back(p);
        u32 seed = choose(2);
        Key *k = get_key(v, p, seed, 20);
        if (!keyready(k)) return;
        u64 st = choose(std::min<u64>(k->limit(), 12));
        if (!keyreach(k, st)) return;
        ks.push_back({k, k->sks[st], st, seed});
    }
    g_scales = scales;
    L.process(ks[0].k->p, 0);
    u32 n = 6 + choose(24);
    std::string log;
    u64 moves = 0;
    for (u32 s = 0; s < n; s++) {
        if (choose(6) == 5) { L.process(ks[0].k->p, choose(2)); moves++; }
        KS &q = ks[choose(ks.size())];
        MP p = q.k->p;
        L.use(p);
        g_stack_fill = choose(4);
        u32 op = choose(8);
        std::string ctx = sfmt("step %u, %u keys in the process, index %llu", s, nk, (unsigned long long)q.i) + at(v, p);
        S->scenario = ctx;
        if (op < 6) {
            if (q.i >= p.usable()) continue;
            Bytes m = choose(400) == 399 ? message((3 << 20) + choose(1 << 20), 1) : choose_message(p.sig());
            SignOut o = do_sign(L, p, q.sk, m, choose(8));
            if (!o.ret) fail("crash", "signing accessed memory outside its buffers or crashed (" + L.h->crash + "): " + ctx);
            if (!o.oob.empty()) fail("out-of-bounds", "signing changed bytes outside the buffer, or the message: " + o.oob + ": " + ctx);
            if (o.rc) fail("refused", ctx);
            Bytes want = q.k->mk.sign(q.i, m);
            if (o.smlen != want.size() || o.sm != want) fail("result-changed", sfmt("the signature differs from the one made undisturbed, first at byte %zu (%s): ", first_diff(o.sm, want), where(p, first_diff(o.sm, want)).c_str()) + ctx);
            q.i++;
            if (rdbe(&q.sk[4], p.idxb) != q.i && q.i < p.usable()) fail("index", ctx);
            if (rdbe(&q.sk[0], 4) != p.oid) fail("identifier-changed", ctx);
            probe("signatures");
        } else if (op == 6) { // key generation with junk in the buffers, exactly as long as announced
            size_t skn = sk_size(v, p);
            Buf bp(p.pk(), choose(2)), bs(skn, choose(2));
            Rng r(choose(1000)); u32 fill = choose(3);
            if (fill == 0) { r.fill(bs.p, skn); r.fill(bp.p, p.pk()); } else if (fill == 1) { memset(bs.p, 0, skn); }
            else memset(bs.p, 0xff, skn);
            L.w.ent_seed = 0x1000 + q.seed; L.w.ent_pos = 0;
            int rc = -1;
            if (!call(*L.h, [&] { rc = L.a.keypair(bp.p, bs.p, p.oid); })) fail("crash", "key generation accessed memory outside its buffers or crashed (" + L.h->crash + "): " + ctx);
            EV(hash_bytes(bp.p, p.pk()), "keypair rc %d", rc);
            if (!bp.slack_ok() || !bs.slack_ok()) fail("out-of-bounds", "key generation changed bytes outside its buffers: " + ctx);
            if (rc || bp.bytes() != q.k->pk) fail("result-changed", "key generation gives a different public key: " + ctx);
            q.sk = bs.bytes(); q.i = 0;
            probe("keypairs");
        } else {
            Bytes m = message(choose(100), choose(100));
            Bytes sm = q.k->mk.sign(choose(std::min<u64>(p.usable(), 64)), m);
            OpenOut o = do_open_(L, sm, q.k->pk, choose(8));
            if (!o.ret || o.rc || o.mlen != m.size() || !o.oob.empty()) fail("verify", sfmt("a valid signature was rejected (%d): ", o.rc) + ctx);
            probe("verifications");
        }
        S->nontrivial = true;
    }
    if (moves) fault_fired("process_restart");
    probe("migrations", moves);
    S->scenario = sfmt("%u keys, %u steps, %llu process changes", nk, n, (unsigned long long)moves) + at(v, ks[0].k->p);
    g_stack_fill = 0;
}
// ------------------------------------------------------------------ C16
void prop_C16() {
    std::string v = choose_variant();
    static const int ns[] = {32, 24, 64};
    GeoOpts go; go.func = F_SHA2; go.n = pick(ns); go.real_den = 10;
    MP p = choose_params(v, go);
    u32 seed = choose(2);
    Key *k = get_key(v, p, seed, 20);
    if (!keyready(k)) return;
    u64 i = choose(std::min<u64>(k->limit(), 12));
    if (!keyreach(k, i)) return;
    LibWorld L(v);
    L.process(p, 0);
    Bytes sk = k->sks[i];
    u32 warm = choose(4);
    Bytes wm, wsm;
    for (u32 j = 0; j < warm && i + 1 < p.usable(); j++) { // successful operations first
        wm = message(7 + j, choose(100));
        SignOut o = do_sign(L, p, sk, wm);
        if (!o.ret || o.rc) { probe("setup_failed"); return; }
        i++;
        wsm = o.sm;
        if (choose(2)) do_open_(L, o.sm, k->pk);
    }
    u32 op = choose(4);
    // where the provider fails: spread over the calls of such an operation
    u64 est = op == 0 ? (u64)model_leaf_cost(p) * (1 << p.th) * p.d * 2 : op == 1 ? (v == "ref" ? (u64)model_leaf_cost(p) * (1 << p.th) * p.d * 2 : model_leaf_cost(p) * (p.th + 4)) : (u64)p.d * p.len * p.w * 3;
    u32 c = choose(4);
    u64 at_ = c == 0 ? choose(12) : c == 1 ? choose(200) : choose((u32)std::min<u64>(est, 1u << 30) + 1);
    L.h->hash_fail_at = L.h->hash_calls + at_;
    u32 many = choose(3);
    L.h->hash_fail_many = many == 0 ? 0 : many == 1 ? choose(5) : 1u << 30;
    L.h->hash_failed = 0;
    L.h->hash_fail_stage = choose(3);
    std::string what = op == 0 ? "key generation" : op == 1 ? "signing" : "verification";
    std::string ctx = sfmt("%s after %u signatures, provider fails at call %llu of the operation (%s)", what.c_str(), warm, (unsigned long long)at_, many == 0 ? "once" : many == 1 ? "a few times" : "from then on") + at(v, p);
    S->scenario = ctx;
    auto ended = [&](bool ret) { // did the process end in an orderly way?
        if (ret) return false;
        if (L.h->st == Proc::CRASHED && L.h->crash.find("memory") != std::string::npos) fail("crash", L.h->crash + ": " + ctx);
        probe("process_ended");
        return true;
    };
    if (op == 0) {
        size_t skn = sk_size(v, p);
        Buf bp(p.pk()), bs(skn);
        L.w.ent_seed = 0x1000 + seed; L.w.ent_pos = 0;
        int rc = -1;
        bool ret = call(*L.h, [&] { rc = L.a.keypair(bp.p, bs.p, p.oid); });
        if (L.h->hash_failed) S->nontrivial = true;
        if (ended(ret)) return;
        if (rc == 0) {
            Bytes s(bs.p + 4 + p.idxb, bs.p + 4 + p.idxb + 4 * p.n);
            if (bp.bytes() != k->pk || Bytes(s.begin(), s.begin() + p.n) != k->mk.sk_seed || Bytes(s.begin() + 2 * p.n, s.begin() + 3 * p.n) != k->mk.root) fail("wrong-key", "success with a key pair that does not match its seeds: " + ctx);
        }
    } else if (op == 1) {
        Bytes m = message(choose(200), choose(1000));
        SignOut o = do_sign(L, p, sk, m);
        if (L.h->hash_failed) S->nontrivial = true;
        if (ended(o.ret)) return;
        if (o.rc == 0 && o.sm != k->mk.sign(i, m)) fail("wrong-signature", "success with a wrong signature: " + ctx);
    } else {
        Bytes m = message(choose(200), choose(1000)), sm = k->mk.sign(i, m);
        bool genuine = op == 2 && choose(3) == 0;
        u32 how = choose(4);
        if (!genuine) {
            if (how == 0) sm.push_back(7);
            else if (how == 1) { Rng r(choose(1000)); r.fill(&sm[p.idxb], sm.size() - p.idxb); }
            else if (how == 2 && wsm.size()) { sm = wsm; sm.push_back(1); }
            else std::fill(sm.begin(), sm.end(), 0);
            // a scaled-down one-time signature may cover another message as well
            if (model_verify(p, k->pk, sm)) genuine = true;
        }
        OpenOut o = do_open_(L, sm, k->pk);
        if (L.h->hash_failed) S->nontrivial = true;
        if (ended(o.ret)) return;
        if (o.rc == 0 && !genuine) fail("accepted", "accepted a message that was never signed: " + ctx);
    }
    probe(L.h->hash_failed ? "failure_survived" : "no_failure_reached");
}
// ------------------------------------------------------------------ C17
void prop_C17() {
    std::string v = choose_variant();
    MP p = choose_params(v, {.real_den = 40});
    Key *k = get_key(v, p, choose(2), 24);
    if (!keyready(k)) return;
    u64 i = choose(3) == 0 ? k->limit() - 1 : choose(k->limit());
    if (!keyreach(k, i)) return;
    LibWorld L(v);
    L.process(p, 0);
    Bytes old = k->sks[i], m = choose_message(p.sig());
    u32 n = 2 + choose(4);
    Bytes sm1, sk1;
    bool entfail = choose(2);
    std::string log;
    for (u32 r = 0; r < n; r++) {
        u32 pre = r ? choose(6) : 0;
        if (pre == 1) { L.process(p, choose(2)); log += " restart"; }
        if (pre == 2 && i + 1 < p.usable()) { Bytes o2 = sk1, m2 = message(20, r); do_sign(L, p, o2, m2); log += " other-signature"; } // the updated key was used, then lost
        if (pre == 3) { Bytes sx = k->mk.sign(i, message(3, r)); do_open_(L, sx, k->pk); log += " verification"; }
        if (pre == 4 && p.func == F_SHA2) { // an attempt that dies half way
            Bytes lost = old;
            L.h->kill_at_hash = L.h->hash_calls + choose(400);
            do_sign(L, p, lost, m);
            fault_fired("process_kill");
            L.process(p, choose(2)); log += " killed-attempt";
        }
        if (pre == 5) { MP q = make_params(F_SHA2, 32, 2, 1, false, g_tiny_ok ? 4 : 0, 0); q.oid = 2; if (p.mt || p.oid != 2) { g_scales = {p, q}; Key *z = get_key(v, q, 0, 3); g_scales = {p, q}; if (z->reach(0)) { Bytes zs = z->sks[0]; L.use(q); do_sign(L, q, zs, m); L.use(p); log += " other-key"; } } }
        if (entfail) { // the entropy source is out of order
            for (int f = FK_ENT_OPEN; f <= FK_ENT_EOF; f++) L.h->allow[f] = 1;
            L.h->rate_num = 1; L.h->rate_den = 1; L.h->max_faults = 1u << 30; L.h->ent_fails_left = 1u << 30;
            L.w.step_cap = L.w.steps + 500;
        }
        u64 e0 = L.h->ent_ops;
        size_t eb = L.h->entropy.size();
        Bytes sk = old;
        g_stack_fill = r % 4;
        SignOut o = do_sign(L, p, sk, m, choose(8));
        g_stack_fill = 0;
        log += sfmt(" attempt%u", r);
        std::string ctx = sfmt("index %llu, message of %zu bytes, history:%s%s", (unsigned long long)i, m.size(), log.c_str(), entfail ? ", entropy source out of order" : "") + at(v, p);
        S->scenario = ctx;
        S->nontrivial = true;
        if (L.h->ent_ops != e0 || L.h->entropy.size() != eb) fail("entropy-used", "signing used the entropy source: " + ctx);
        if (!o.ret) fail("crash", L.h->crash + ": " + ctx);
        if (o.rc) fail("refused", ctx);
        if (r == 0) { sm1 = o.sm; sk1 = sk; if (k->reach(i + 1) && i + 1 < p.usable() && sk != k->sks[i + 1]) fail("key-differs", "the updated key differs from the one of an earlier run: " + ctx); }
        else {
            if (o.sm != sm1) fail("signature-differs", sfmt("the repeated signature differs, first at byte %zu (%s): ", first_diff(o.sm, sm1), where(p, first_diff(o.sm, sm1)).c_str()) + ctx);
            if (sk != sk1) fail("key-differs", sfmt("the updated key differs at byte %zu: ", first_diff(sk, sk1)) + ctx);
        }
        u64 e1 = L.h->ent_ops;
        if (choose(2)) {
            OpenOut q = do_open_(L, o.sm, k->pk);
            if (L.h->ent_ops != e1) fail("entropy-used", "verification used the entropy source: " + ctx);
            if (!q.ret || q.rc) fail("not-verified", ctx);
        }
        if (entfail) { fault_fired("entropy_unavailable"); L.h->rate_num = 0; L.w.step_cap = 1u << 30; }
        probe("attempts");
    }
}
// ------------------------------------------------------------------ C18
struct KeygenCount { explicit KeygenCount(int pad) { g_keygen_pad = pad; } ~KeygenCount() { g_keygen_pad = 0; } };
void prop_C18() {
    std::string v = "fast";
    static const int shapes[][2] = {{3, 3}, {2, 3}, {3, 2}, {1, 4}, {2, 4}, {1, 6}, {3, 4}, {1, 5}, {2, 5}, {1, 8}, {3, 5}, {4, 4}, {1, 10}, {2, 10}, {4, 5}, {12, 5}};
    u32 c = choose(S->thorough ? 16 : 12);
    bool deep = choose(S->thorough ? 60 : 30) == 1; // far enough for boundaries of three layers at once, several times
    if (deep) c = S->thorough && choose(3) == 1 ? 14 : 11;
    const int *sh = shapes[c];
    static const int ns[] = {32, 24, 64};
    MP p = make_params(F_SHA2, pick(ns), sh[0] * sh[1], sh[0], sh[0] > 1, g_tiny_ok ? (choose(4) == 3 && !deep ? 16 : 4) : 0, 0);
    if (sh[0] == 1 && sh[1] % 2 == 0 && choose(3) == 2) p.k = 2;
    p.oid = pick_oid(p.mt, p.func, p.n).oid;
    g_scales = {p};
    Key *k = get_key(v, p, choose(2), 2);
    if (!keyready(k)) return;
    LibWorld L(v);
    L.process(p, 0);
    KeygenCount kc(p.pad);
    Bytes sk = k->sks[0], m = message(choose(64), choose(100));
    u64 leaf = model_leaf_cost(p), ots = model_wots_sign_max(p);
    u64 inner = 4 * (p.th + 1); // nodes joined on the way
    u64 upd = (p.th - p.k) / 2;
    u64 units0 = upd + 3; // one-time keys generated or used: the message's, two leaves, and the budget
    u64 bound0 = (upd + 2) * (std::max(leaf, ots) + inner) + (ots + inner) + 8;
    u64 cap = std::min<u64>(p.usable(), deep ? c == 14 ? 270000 : 17000 : S->thorough ? 70000 : 4300);
    if (!p.tiny) cap = std::min<u64>(cap, 64);
    u64 worst = 0, worst_at = 0, wunits = 0;
    S->nontrivial = true;
    static const u32 rd[] = {2000, 100, 10};
    u32 rden = pick(rd);
    for (u64 i = 0; i < cap; i++) {
        if (flip(1, rden)) { L.process(p, choose(2)); fault_fired("process_restart"); }
        u64 g0 = L.h->keygen_calls;
        SignOut o = do_sign(L, p, sk, m);
        u64 g = (L.h->keygen_calls - g0 + p.len - 1) / p.len;
        wunits = std::max(wunits, g);
        if (o.hashes > worst) { worst = o.hashes; worst_at = i; }
        if (!o.ret || o.rc) fail("refused", sfmt("signature %llu: rc %d", (unsigned long long)i, o.rc) + at(v, p));
        u64 ended = 0; // layers, but the topmost, whose subtree ends here
        while (ended < (u64)p.d - 1 && !((i + 1) & ((1ULL << (ended + 1) * p.th) - 1))) ended++;
        if (i + 1 == p.usable() || i + 1 == 1ULL << p.h) ended = 0;
        u64 extra = ended > upd ? ended - upd : 0; // signatures over new subtree roots that no budget could cover
        u64 units = units0 + extra, bound = bound0 + extra * (ots + inner);
        if (o.hashes > bound || g > units) {
            std::string ctx = sfmt("signature %llu cost %llu hash calls (bound %llu) and %llu one-time key evaluations (bound %llu)", (unsigned long long)i, (unsigned long long)o.hashes, (unsigned long long)bound, (unsigned long long)g, (unsigned long long)units) + at(v, p);
            S->scenario = ctx;
            // known: the budget counter wraps below zero when more boundaries are crossed than it holds,
            // and the work outstanding in the layers above (at most a quarter of a subtree) is done at once
            if (ended > upd && g <= units + 2 * p.d + (1u << (p.th - 2))) report("C18-fast-budget-wraps", "too-expensive", ctx);
            else fail("too-expensive", ctx);
        }
        probe("signatures");
    }
    if (cap == p.usable()) probe("lives_completed");
    S->scenario = sfmt("%llu signatures, dearest %llu hash calls at %llu, usual bound %llu; at most %llu one-time key evaluations, bound %llu", (unsigned long long)cap, (unsigned long long)worst, (unsigned long long)worst_at, (unsigned long long)bound0, (unsigned long long)wunits, (unsigned long long)units0) + at(v, p);
}
