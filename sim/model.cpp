#define OPENSSL_SUPPRESS_DEPRECATED
#include "model.h"
#include <openssl/sha.h>

HashCount model_hashes;

std::string MP::str() const {
    return sfmt("%s func=%d n=%d h=%d d=%d w=%d len=%d k=%d oid=%08x", mt ? "XMSSMT" : "XMSS", func, n, h, d, w, len, k, oid);
}
Bytes be(u64 v, int n) { Bytes b(n); for (int i = n - 1; i >= 0; i--) { b[i] = (u8)v; v >>= 8; } return b; }
u64 rdbe(const u8 *p, int n) { u64 v = 0; for (int i = 0; i < n; i++) v = v << 8 | p[i]; return v; }

MP make_params(int func, int n, int h, int d, bool mt, int tiny, int k) {
    MP p;
    p.func = func; p.n = n; p.pad = n == 24 ? 4 : n == 32 ? 32 : 64; p.h = h; p.d = d; p.mt = mt; p.k = k;
    p.th = h / d;
    p.idxb = d == 1 ? 4 : (h + 7) / 8;
    if (tiny) { p.tiny = true; p.w = tiny; p.logw = tiny == 4 ? 2 : 4; p.len1 = 1; p.len2 = 1; }
    else { p.w = 16; p.logw = 4; p.len1 = 2 * n; p.len2 = 3; }
    p.len = p.len1 + p.len2;
    return p;
}
static std::vector<OidRow> make_oids() {
    std::vector<OidRow> v;
    // RFC 8391 / SP 800-208 registries
    struct B { const char *nm; int func, n; };
    const B xb[] = {{"SHA2_%d_256", F_SHA2, 32}, {"SHA2_%d_512", F_SHA2, 64}, {"SHAKE_%d_256", F_SHAKE128, 32}, {"SHAKE_%d_512", F_SHAKE256, 64},
                    {"SHA2_%d_192", F_SHA2, 24}, {"SHAKE256_%d_256", F_SHAKE256, 32}, {"SHAKE256_%d_192", F_SHAKE256, 24}};
    u32 oid = 1;
    for (auto &b : xb) for (int h : {10, 16, 20}) v.push_back({false, oid++, strdup(("XMSS-" + sfmt(b.nm, h)).c_str()), b.func, b.n, h, 1});
    const B mb[] = {{"SHA2_%d/%d_256", F_SHA2, 32}, {"SHA2_%d/%d_512", F_SHA2, 64}, {"SHAKE_%d/%d_256", F_SHAKE128, 32}, {"SHAKE_%d/%d_512", F_SHAKE256, 64},
                    {"SHA2_%d/%d_192", F_SHA2, 24}, {"SHAKE256_%d/%d_256", F_SHAKE256, 32}, {"SHAKE256_%d/%d_192", F_SHAKE256, 24}};
    const int hd[8][2] = {{20, 2}, {20, 4}, {40, 2}, {40, 4}, {40, 8}, {60, 3}, {60, 6}, {60, 12}};
    oid = 1;
    for (auto &b : mb) for (auto &x : hd) v.push_back({true, oid++, strdup(("XMSSMT-" + sfmt(b.nm, x[0], x[1])).c_str()), b.func, b.n, x[0], x[1]});
    return v;
}
const std::vector<OidRow> OIDS = make_oids();
MP oid_params(const OidRow &r) { MP p = make_params(r.func, r.n, r.h, r.d, r.mt, 0, 0); p.oid = r.oid; return p; }

// ---- Keccak, written from FIPS 202 ----
static void keccak_f(u64 a[25]) {
    static const u64 RC[24] = {0x1ULL, 0x8082ULL, 0x800000000000808aULL, 0x8000000080008000ULL, 0x808bULL, 0x80000001ULL, 0x8000000080008081ULL, 0x8000000000008009ULL, 0x8aULL, 0x88ULL, 0x80008009ULL, 0x8000000aULL, 0x8000808bULL, 0x800000000000008bULL, 0x8000000000008089ULL, 0x8000000000008003ULL, 0x8000000000008002ULL, 0x8000000000000080ULL, 0x800aULL, 0x800000008000000aULL, 0x8000000080008081ULL, 0x8000000000008080ULL, 0x80000001ULL, 0x8000000080008008ULL};
    static const int rot[25] = {0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14};
    for (int r = 0; r < 24; r++) {
        u64 c[5], b[25];
        for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        for (int x = 0; x < 5; x++) { u64 t = c[(x + 1) % 5]; u64 d = c[(x + 4) % 5] ^ (t << 1 | t >> 63); for (int y = 0; y < 25; y += 5) a[x + y] ^= d; }
        for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) {
            int k = rot[x + 5 * y]; u64 v = a[x + 5 * y];
            b[y + 5 * ((2 * x + 3 * y) % 5)] = k ? (v << k | v >> (64 - k)) : v;
        }
        for (int y = 0; y < 25; y += 5) for (int x = 0; x < 5; x++) a[x + y] = b[x + y] ^ (~b[(x + 1) % 5 + y] & b[(x + 2) % 5 + y]);
        a[0] ^= RC[r];
    }
}
u64 g_zero_tail = 0;
static void shake(int rate, u8 *out, size_t outlen, const u8 *in, size_t inlen, u64 zeros = 0) {
    u64 a[25] = {0};
    u8 *st = (u8 *)a;
    while (inlen >= (size_t)rate) { for (int i = 0; i < rate; i++) st[i] ^= in[i]; keccak_f(a); in += rate; inlen -= rate; }
    for (size_t i = 0; i < inlen; i++) st[i] ^= in[i];
    if (zeros) { u64 at = inlen + zeros; for (; at >= (u64)rate; at -= rate) keccak_f(a); inlen = at; }
    st[inlen] ^= 0x1f; st[rate - 1] ^= 0x80;
    for (;;) {
        keccak_f(a);
        size_t k = outlen < (size_t)rate ? outlen : rate;
        memcpy(out, st, k); out += k; outlen -= k;
        if (!outlen) break;
    }
}
static void H(const MP &p, u8 *out, const u8 *in, size_t len, u64 zeros = 0) {
    u8 buf[64];
    static const u8 zb[65536] = {0};
    model_hashes.calls++;
    if (p.func == F_SHA2) {
        if (p.n == 64) { SHA512_CTX c; SHA512_Init(&c); SHA512_Update(&c, in, len); for (u64 z = zeros; z;) { size_t k = std::min<u64>(z, sizeof zb); SHA512_Update(&c, zb, k); z -= k; } SHA512_Final(buf, &c); }
        else { SHA256_CTX c; SHA256_Init(&c); SHA256_Update(&c, in, len); for (u64 z = zeros; z;) { size_t k = std::min<u64>(z, sizeof zb); SHA256_Update(&c, zb, k); z -= k; } SHA256_Final(buf, &c); }
    } else shake(p.func == F_SHAKE128 ? 168 : 136, buf, p.n, in, len, zeros);
    memcpy(out, buf, p.n);
}
struct Adr { u8 b[32] = {0};
    void put(int word, u32 v) { b[4 * word] = v >> 24; b[4 * word + 1] = v >> 16; b[4 * word + 2] = v >> 8; b[4 * word + 3] = v; }
    Adr(u32 layer, u64 tree, u32 type) { put(0, layer); put(1, tree >> 32); put(2, (u32)tree); put(3, type); }
};
static void tagged(const MP &p, u8 *out, int tag, const u8 *key, const u8 *in, size_t len) {
    u8 buf[64 + 64 + 160];
    memset(buf, 0, p.pad); buf[p.pad - 1] = tag;
    memcpy(buf + p.pad, key, p.n);
    memcpy(buf + p.pad + p.n, in, len);
    H(p, out, buf, p.pad + p.n + len);
}
static void PRF(const MP &p, u8 *out, const u8 *key, const u8 in[32]) { tagged(p, out, 3, key, in, 32); }
static void Ff(const MP &p, u8 *io, const u8 *seed, Adr &a) {
    u8 key[64], bm[64], t[64];
    a.put(7, 0); PRF(p, key, seed, a.b);
    a.put(7, 1); PRF(p, bm, seed, a.b);
    for (int i = 0; i < p.n; i++) t[i] = io[i] ^ bm[i];
    tagged(p, io, 0, key, t, p.n);
}
static void RandHash(const MP &p, u8 *out, const u8 *l, const u8 *r, const u8 *seed, Adr &a) {
    u8 key[64], b0[64], b1[64], t[128];
    a.put(7, 0); PRF(p, key, seed, a.b);
    a.put(7, 1); PRF(p, b0, seed, a.b);
    a.put(7, 2); PRF(p, b1, seed, a.b);
    for (int i = 0; i < p.n; i++) { t[i] = l[i] ^ b0[i]; t[p.n + i] = r[i] ^ b1[i]; }
    tagged(p, out, 1, key, t, 2 * p.n);
}
static void chain_secret(const MP &p, u8 *out, const u8 *sk_seed, const u8 *pub_seed, Adr &a, int i) {
    u8 in[64 + 32];
    a.put(5, i); a.put(6, 0); a.put(7, 0);
    memcpy(in, pub_seed, p.n); memcpy(in + p.n, a.b, 32);
    tagged(p, out, 4, sk_seed, in, p.n + 32);
}
static void chain(const MP &p, u8 *io, int start, int steps, const u8 *pub_seed, Adr &a, int i) {
    a.put(5, i);
    for (int j = start; j < start + steps; j++) { a.put(6, j); Ff(p, io, pub_seed, a); }
}
static std::vector<int> digits(const MP &p, const u8 *msg) {
    std::vector<int> v;
    int csum = 0;
    auto base = [&](const u8 *in, int cnt) { int bits = 0, k = 0; u8 cur = 0; for (int i = 0; i < cnt; i++) { if (!bits) { cur = in[k++]; bits = 8; } bits -= p.logw; v.push_back(cur >> bits & (p.w - 1)); } };
    base(msg, p.len1);
    for (int i = 0; i < p.len1; i++) csum += p.w - 1 - v[i];
    int bits = p.len2 * p.logw;
    csum <<= (8 - bits % 8) % 8;
    Bytes c = be(csum, (bits + 7) / 8);
    base(c.data(), p.len2);
    return v;
}
static void ltree(const MP &p, u8 *leaf, std::vector<Bytes> nodes, const u8 *pub_seed, Adr a) {
    u32 height = 0;
    while (nodes.size() > 1) {
        std::vector<Bytes> up;
        a.put(5, height++);
        for (size_t i = 0; i + 1 < nodes.size(); i += 2) {
            Bytes o(p.n);
            a.put(6, i / 2);
            RandHash(p, o.data(), nodes[i].data(), nodes[i + 1].data(), pub_seed, a);
            up.push_back(o);
        }
        if (nodes.size() & 1) up.push_back(nodes.back());
        nodes.swap(up);
    }
    memcpy(leaf, nodes[0].data(), p.n);
}
static Bytes leaf_of(const MP &p, const u8 *sk_seed, const u8 *pub_seed, int layer, u64 tree, u32 leaf) {
    Adr o(layer, tree, 0), l(layer, tree, 1);
    o.put(4, leaf); l.put(4, leaf);
    std::vector<Bytes> pkv(p.len, Bytes(p.n));
    for (int i = 0; i < p.len; i++) {
        chain_secret(p, pkv[i].data(), sk_seed, pub_seed, o, i);
        chain(p, pkv[i].data(), 0, p.w - 1, pub_seed, o, i);
    }
    Bytes out(p.n);
    ltree(p, out.data(), std::move(pkv), pub_seed, l);
    return out;
}
std::vector<Bytes> &ModelKey::tree(int layer, u64 t) {
    auto key = std::make_pair(layer, t);
    auto it = trees.find(key);
    if (it != trees.end()) return it->second;
    if (trees.size() > 4096) trees.clear();
    std::vector<Bytes> lev(p.th + 1);
    lev[0].resize((size_t)p.n << p.th);
    for (u32 i = 0; i < (1u << p.th); i++) { Bytes l = leaf_of(p, sk_seed.data(), pub_seed.data(), layer, t, i); memcpy(&lev[0][(size_t)i * p.n], l.data(), p.n); }
    Adr a(layer, t, 2);
    for (int hgt = 1; hgt <= p.th; hgt++) {
        lev[hgt].resize((size_t)p.n << (p.th - hgt));
        a.put(5, hgt - 1);
        for (u32 i = 0; i < (1u << (p.th - hgt)); i++) { a.put(6, i); RandHash(p, &lev[hgt][(size_t)i * p.n], &lev[hgt - 1][(size_t)2 * i * p.n], &lev[hgt - 1][(size_t)(2 * i + 1) * p.n], pub_seed.data(), a); }
    }
    return trees[key] = std::move(lev);
}
Bytes ModelKey::pk() { Bytes b = be(p.oid, 4); b.insert(b.end(), root.begin(), root.end()); b.insert(b.end(), pub_seed.begin(), pub_seed.end()); return b; }
Bytes ModelKey::R(u64 idx) { Bytes r(p.n); Bytes in = be(idx, 32); PRF(p, r.data(), sk_prf.data(), in.data()); return r; }
static Bytes hmsg(const MP &p, const u8 *R, const u8 *root, u64 idx, const u8 *m, size_t mlen) {
    Bytes b(p.pad, 0); b[p.pad - 1] = 2;
    b.insert(b.end(), R, R + p.n); b.insert(b.end(), root, root + p.n);
    Bytes ib = be(idx, p.n); b.insert(b.end(), ib.begin(), ib.end());
    b.insert(b.end(), m, m + mlen);
    Bytes o(p.n); H(p, o.data(), b.data(), b.size(), g_zero_tail);
    return o;
}
Bytes ModelKey::sign(u64 idx, const Bytes &m) {
    Bytes out = be(idx, p.idxb), r = R(idx);
    out.insert(out.end(), r.begin(), r.end());
    Bytes cur = hmsg(p, r.data(), root.data(), idx, m.data(), m.size());
    u64 t = idx;
    for (int l = 0; l < p.d; l++) {
        u32 leaf = t & ((1ULL << p.th) - 1);
        t >>= p.th;
        Adr a(l, t, 0); a.put(4, leaf);
        auto dg = digits(p, cur.data());
        for (int i = 0; i < p.len; i++) {
            Bytes c(p.n);
            chain_secret(p, c.data(), sk_seed.data(), pub_seed.data(), a, i);
            chain(p, c.data(), 0, dg[i], pub_seed.data(), a, i);
            out.insert(out.end(), c.begin(), c.end());
        }
        auto &tr = tree(l, t);
        for (int hgt = 0; hgt < p.th; hgt++) { const u8 *s = &tr[hgt][(size_t)((leaf >> hgt) ^ 1) * p.n]; out.insert(out.end(), s, s + p.n); }
        cur = tr[p.th];
    }
    out.insert(out.end(), m.begin(), m.end());
    return out;
}
std::set<Bytes> ModelKey::ots_values(u64 idx) {
    std::set<Bytes> s;
    Adr a(0, idx >> p.th, 0); a.put(4, idx & ((1ULL << p.th) - 1));
    for (int i = 0; i < p.len; i++) {
        Bytes c(p.n);
        chain_secret(p, c.data(), sk_seed.data(), pub_seed.data(), a, i);
        s.insert(c);
        for (int j = 0; j < p.w - 1; j++) { chain(p, c.data(), j, 1, pub_seed.data(), a, i); if (j < p.w - 2) s.insert(c); }
    }
    return s;
}
ModelKey model_key(const MP &p, const Bytes &a, const Bytes &b, const Bytes &c, bool with_root) {
    ModelKey k; k.p = p; k.sk_seed = a; k.sk_prf = b; k.pub_seed = c;
    if (with_root) k.root = k.tree(p.d - 1, 0)[p.th];
    return k;
}
static Bytes root_of(const MP &p, const u8 *pub_seed, u64 idx, Bytes cur, const u8 *s, std::vector<Bytes> *roots = nullptr) {
    u64 t = idx;
    for (int l = 0; l < p.d; l++) {
        u32 leaf = t & ((1ULL << p.th) - 1);
        t >>= p.th;
        Adr o(l, t, 0), lt(l, t, 1), nd(l, t, 2);
        o.put(4, leaf); lt.put(4, leaf);
        auto dg = digits(p, cur.data());
        std::vector<Bytes> v;
        for (int i = 0; i < p.len; i++, s += p.n) { Bytes c(s, s + p.n); chain(p, c.data(), dg[i], p.w - 1 - dg[i], pub_seed, o, i); v.push_back(c); }
        Bytes node(p.n);
        ltree(p, node.data(), v, pub_seed, lt);
        for (int hgt = 0; hgt < p.th; hgt++, s += p.n) {
            nd.put(5, hgt); nd.put(6, leaf >> (hgt + 1));
            Bytes o2(p.n);
            if (leaf >> hgt & 1) RandHash(p, o2.data(), s, node.data(), pub_seed, nd);
            else RandHash(p, o2.data(), node.data(), s, pub_seed, nd);
            node = o2;
        }
        cur = node;
        if (roots) roots->push_back(cur);
    }
    return cur;
}
bool model_own_roots(ModelKey &k, const Bytes &sm) {
    const MP &p = k.p;
    if (sm.size() < p.sig()) return false;
    u64 idx = rdbe(sm.data(), p.idxb);
    Bytes h = hmsg(p, sm.data() + p.idxb, k.root.data(), idx, sm.data() + p.sig(), sm.size() - p.sig());
    std::vector<Bytes> roots;
    root_of(p, k.pub_seed.data(), idx, h, sm.data() + p.idxb + p.n, &roots);
    for (int l = 0; l < p.d; l++) { idx >>= p.th; if (roots[l] != k.tree(l, idx)[p.th]) return false; }
    return true;
}
bool model_verify(const MP &p, const Bytes &pk, const Bytes &sm) {
    if (sm.size() < p.sig() || pk.size() < p.pk()) return false;
    const u8 *root = pk.data() + 4, *seed = root + p.n;
    u64 idx = rdbe(sm.data(), p.idxb);
    Bytes h = hmsg(p, sm.data() + p.idxb, root, idx, sm.data() + p.sig(), sm.size() - p.sig());
    return memcmp(root_of(p, seed, idx, h, sm.data() + p.idxb + p.n).data(), root, p.n) == 0;
}
Forged model_synth(const MP &p, u64 idx, const Bytes &m, u64 seed) {
    // With random paths the root is only known at the end, but the message hash needs it.
    // So choose root-independent parts first for layers 0..d-1 using the chain secrets of a
    // random key: the top root depends on the bottom only through the WOTS public keys,
    // which do not depend on what is signed. Hence compute root first, then sign.
    Rng r(seed);
    Bytes ss(p.n), ps(p.n), pub(p.n);
    r.fill(ss.data(), p.n); r.fill(ps.data(), p.n); r.fill(pub.data(), p.n);
    std::vector<std::vector<Bytes>> auth(p.d);
    std::vector<Bytes> roots(p.d);
    u64 t = idx;
    for (int l = 0; l < p.d; l++) {
        u32 leaf = t & ((1ULL << p.th) - 1);
        t >>= p.th;
        Bytes node = leaf_of(p, ss.data(), pub.data(), l, t, leaf);
        Adr nd(l, t, 2);
        for (int hgt = 0; hgt < p.th; hgt++) {
            Bytes a(p.n), o(p.n); r.fill(a.data(), p.n);
            auth[l].push_back(a);
            nd.put(5, hgt); nd.put(6, leaf >> (hgt + 1));
            if (leaf >> hgt & 1) RandHash(p, o.data(), a.data(), node.data(), pub.data(), nd);
            else RandHash(p, o.data(), node.data(), a.data(), pub.data(), nd);
            node = o;
        }
        roots[l] = node;
    }
    Bytes root = roots[p.d - 1];
    ModelKey k; k.p = p; k.sk_prf = ps;
    Bytes out = be(idx, p.idxb), R = k.R(idx);
    out.insert(out.end(), R.begin(), R.end());
    Bytes cur = hmsg(p, R.data(), root.data(), idx, m.data(), m.size());
    t = idx;
    for (int l = 0; l < p.d; l++) {
        u32 leaf = t & ((1ULL << p.th) - 1);
        t >>= p.th;
        Adr a(l, t, 0); a.put(4, leaf);
        auto dg = digits(p, cur.data());
        for (int i = 0; i < p.len; i++) { Bytes c(p.n); chain_secret(p, c.data(), ss.data(), pub.data(), a, i); chain(p, c.data(), 0, dg[i], pub.data(), a, i); out.insert(out.end(), c.begin(), c.end()); }
        for (auto &x : auth[l]) out.insert(out.end(), x.begin(), x.end());
        cur = roots[l];
    }
    out.insert(out.end(), m.begin(), m.end());
    Bytes pk = be(p.oid, 4);
    pk.insert(pk.end(), root.begin(), root.end()); pk.insert(pk.end(), pub.begin(), pub.end());
    return {pk, out};
}
u64 model_leaf_cost(const MP &p) {
    u64 c = model_hashes.calls;
    Bytes z(p.n, 1);
    leaf_of(p, z.data(), z.data(), 0, 0, 0);
    return model_hashes.calls - c;
}
u64 model_wots_sign_max(const MP &p) { return (u64)p.len + (u64)p.len * (p.w - 1) * 3; }
