// One host process using the library; calls in guarded buffers.
#pragma once
#include "os.h"
#include "keys.h"

struct LibWorld {
    World w;
    Proc *h = nullptr;
    LibApi a;
    std::string variant;
    u32 restarts = 0;
    explicit LibWorld(const std::string &v) : variant(v) {
        W = &w;
        auto u = std::make_shared<Inode>();
        u->label = "/dev/urandom"; u->entropy = true;
        w.dir["/dev/urandom"] = u; w.dir["/dev/random"] = u;
        w.step_cap = 1u << 30;
        w.ent_seed = 99;
    }
    // a new process (fresh memory image); the previous one is gone
    void process(const MP &p, int copy) {
        if (h) { w.reap(*h); restarts++; EV(0x8001 + copy, "== new process (image %d) ==", copy); }
        h = &w.spawn("lib", image(sfmt("lib_plain_%s.%d", variant.c_str(), copy)), nullptr);
        a = api(h->img, p.mt);
    }
    void use(const MP &p) { a = api(h->img, p.mt); }
};
struct SignOut { bool ret = false; int rc = 0; unsigned long long smlen = 0; Bytes sm; std::string oob; u64 hashes = 0; };
// one signing call in exact-size guarded buffers
static SignOut do_sign(LibWorld &L, const MP &p, Bytes &sk, const Bytes &m, u32 place = 1) {
    SignOut o;
    Buf bk(sk.size(), place & 1), bs(p.sig() + m.size(), !(place & 2)), bm(m.size(), !(place & 4));
    memcpy(bk.p, sk.data(), sk.size());
    if (m.size()) memcpy(bm.p, m.data(), m.size());
    bm.readonly(true);
    u64 h0 = L.h->hash_calls;
    o.smlen = ~0ULL;
    o.ret = call(*L.h, [&] { o.rc = L.a.sign(bk.p, bs.p, &o.smlen, bm.p, m.size()); });
    o.hashes = L.h->hash_calls - h0;
    o.sm = bs.bytes();
    sk = bk.bytes();
    if (!bk.slack_ok()) o.oob = "secret key";
    if (!bs.slack_ok()) o.oob = "signature";
    if (memcmp(bm.p, m.data(), m.size())) o.oob = "message";
    EV(hash_bytes(o.sm.data(), o.sm.size()) + o.rc, "sign: returned %d rc %d, index %llu, message %zu bytes", o.ret, o.rc, (unsigned long long)rdbe(o.sm.data(), p.idxb), m.size());
    return o;
}
struct OpenOut { bool ret = false; int rc = 0; unsigned long long mlen = ~0ULL; Bytes m; std::string oob; u64 hashes = 0; };
static OpenOut do_open_(LibWorld &L, const Bytes &sm, const Bytes &pk, u32 place = 1) {
    OpenOut o;
    Buf bs(sm.size(), place & 1), bm(sm.size(), !(place & 2)), bp(pk.size(), !(place & 4));
    if (sm.size()) memcpy(bs.p, sm.data(), sm.size());
    memcpy(bp.p, pk.data(), pk.size());
    bs.readonly(true); bp.readonly(true);
    u64 h0 = L.h->hash_calls;
    o.ret = call(*L.h, [&] { o.rc = L.a.open(bm.p, &o.mlen, bs.p, sm.size(), bp.p); });
    o.hashes = L.h->hash_calls - h0;
    o.m = bm.bytes();
    if (!bm.slack_ok()) o.oob = "message";
    EV(hash_bytes(o.m.data(), o.m.size()) + o.rc, "verify: returned %d rc %d, message length %llu", o.ret, o.rc, o.mlen);
    return o;
}
static bool keyready(Key *k) { if (k->made) return true; probe("setup_failed"); S->scenario = "no key could be made"; return false; }
static bool keyreach(Key *k, size_t i) { if (k->reach(i)) return true; probe("setup_failed"); S->scenario = "the starting state cannot be reached"; return false; }
static std::string at(const std::string &v, const MP &p) { return "; " + v + " " + p.str(); }
