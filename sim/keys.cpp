#include "keys.h"
bool g_tiny_ok = true;
std::set<std::string> g_known;

Quiet::Quiet() { lh = S->loghash; ne = S->nevents; nf = S->nfaults; w = W; vb = S->verbose; st = S->st; cur = g_cur; viol = S->violated; sc = g_scales; ch = S->ch; S->st = &keep; S->verbose = false; S->violated = false; g_cur = nullptr; S->ch = Chooser(); S->ch.replaying = true; }
Quiet::~Quiet() { S->loghash = lh; S->nevents = ne; S->nfaults = nf; W = w; S->verbose = vb; S->st = st; g_cur = cur; S->violated = viol; g_scales = sc; S->ch = ch; }

LibApi api(Image *im, bool mt) {
    LibApi a;
    a.keypair = (decltype(a.keypair))im->sym(mt ? "xmssmt_keypair" : "xmss_keypair");
    a.sign = (decltype(a.sign))im->sym(mt ? "xmssmt_sign" : "xmss_sign");
    a.open = (decltype(a.open))im->sym(mt ? "xmssmt_sign_open" : "xmss_sign_open");
    return a;
}
extern "C" {
#include "params.h"
int sim_scale_params(void *, uint32_t, int, int, int (*)(xmss_params *), unsigned long long (*)(const xmss_params *));
}
size_t sk_size(const std::string &variant, const MP &p) {
    Image *im = image("lib_plain_" + variant + ".2");
    auto parse = (int (*)(xmss_params *, u32))im->sym(p.mt ? "shim_xmssmt_parse_oid" : "shim_xmss_parse_oid");
    xmss_params q;
    memset(&q, 0, sizeof q);
    auto keep = g_scales;
    g_scales = {p};
    int rc = parse(&q, p.oid);
    g_scales = keep;
    if (rc) return 0;
    return 4 + q.sk_bytes;
}
static std::map<std::string, std::unique_ptr<Key>> cache;
static size_t cache_bytes = 0;

static void twin_world(World &w) {
    W = &w;
    w.dir["/dev/urandom"] = std::make_shared<Inode>();
    w.dir["/dev/urandom"]->entropy = true; w.dir["/dev/urandom"]->label = "/dev/urandom";
    w.dir["/dev/random"] = w.dir["/dev/urandom"];
    w.step_cap = 1u << 30;
}
Key *get_key(const std::string &variant, const MP &p, u32 seed, size_t maxlife) {
    if (cache_bytes > (512u << 20)) { cache.clear(); cache_bytes = 0; }
    std::string id = variant + "/" + p.str() + sfmt("/%u", seed);
    auto &slot = cache[id];
    if (slot) { slot->maxlife = std::max(slot->maxlife, maxlife); return slot.get(); }
    slot.reset(new Key);
    Key &k = *slot;
    k.p = p; k.variant = variant; k.maxlife = maxlife;
    Quiet q;
    World w;
    twin_world(w);
    w.ent_seed = 0x1000 + seed;
    g_scales = {p};
    Image *im = image("lib_plain_" + variant + ".2");
    Proc &h = w.spawn("twin", im, nullptr);
    LibApi a = api(im, p.mt);
    size_t skn = sk_size(variant, p);
    k.pk.resize(p.pk());
    Bytes sk(skn);
    int rc = -1;
    {
        Buf gp(k.pk.size()), gs(std::max<size_t>(skn, 1)); // a stray write stays between unmapped pages
        if (skn < p.refsk() || !call(h, [&] { rc = a.keypair(gp.p, gs.p, p.oid); }) || rc) return &k;
        k.pk = gp.bytes(); sk = gs.bytes();
    }
    const u8 *s = sk.data() + 4 + p.idxb;
    auto part = [&](int i) { return Bytes(s + i * p.n, s + (i + 1) * p.n); };
    k.mk = model_key(p, part(0), part(1), part(3));
    k.ok = k.pk == k.mk.pk() && part(2) == k.mk.root;
    k.made = true;
    k.sks[0] = sk;
    cache_bytes += sk.size();
    return &k;
}
bool guarded_sign(Proc &h, LibApi &a, const MP &p, Bytes &sk, const Bytes &m, Bytes &sm) {
    Buf gk(sk.size()), gs(p.sig() + m.size());
    memcpy(gk.p, sk.data(), sk.size());
    memset(gs.p, 0, gs.n);
    unsigned long long sl = 0;
    int rc = -1;
    if (!call(h, [&] { rc = a.sign(gk.p, gs.p, &sl, m.data(), m.size()); }) || rc) return false;
    sk = gk.bytes(); sm = gs.bytes();
    return true;
}
bool Key::reach(size_t i) {
    if (sks.count(i)) return true;
    if (!made || i > p.usable()) return false;
    if (variant == "ref" && i < p.usable()) { // the reference key is index || seeds || root
        Bytes sk = sks[0], b = be(i, p.idxb);
        memcpy(&sk[4], b.data(), p.idxb);
        sks[i] = sk;
        return true;
    }
    size_t from = i;
    if (variant == "ref") { if (!reach(--from)) return false; }
    else while (!sks.count(from)) from--;
    Quiet q;
    World w;
    twin_world(w);
    g_scales = {p};
    Image *im = image("lib_plain_" + variant + ".2");
    Proc &h = w.spawn("twin", im, nullptr);
    LibApi a = api(im, p.mt);
    Bytes m(3, 'x'), sm;
    for (; from < i; from++) {
        Bytes sk = sks[from];
        if (!guarded_sign(h, a, p, sk, m, sm)) return false;
        sks[from + 1] = sk;
        cache_bytes += sk.size();
    }
    return true;
}
const OidRow &pick_oid(bool mt, int func, int n) {
    std::vector<const OidRow *> v;
    for (auto &r : OIDS) if (r.mt == mt && r.func == func && r.n == n) v.push_back(&r);
    return *v[choose(v.size())];
}
std::string choose_variant() { return choose(2) ? "fast" : "ref"; }

MP choose_params(const std::string &variant, const GeoOpts &o) {
    bool mt = o.mt >= 0 ? o.mt : choose(2);
    int n, func;
    static const int fn[][2] = {{F_SHA2, 32}, {F_SHA2, 24}, {F_SHA2, 64}, {F_SHA2, 32}, {F_SHA2, 64}, {F_SHAKE256, 32}, {F_SHAKE128, 32}, {F_SHAKE256, 24}, {F_SHAKE256, 64}};
    u32 c = choose(9);
    func = fn[c][0]; n = fn[c][1];
    if (o.n >= 0) n = o.n;
    if (o.func >= 0) func = o.func;
    if (o.func >= 0 || o.n >= 0) { bool okc = false; for (auto &x : fn) if (x[0] == func && x[1] == n) okc = true; if (!okc) func = F_SHA2; }
    int tiny = 0;
    if (o.tiny && g_tiny_ok) tiny = choose(o.real_den) == o.real_den - 1 ? 0 : (choose(4) == 3 ? 16 : 4);
    int d = 1, th;
    if (!mt) { static const int hs[] = {2, 3, 4, 5, 1, 6}; th = pick(hs); if (!tiny && th > 3) th = 3; }
    else {
        static const int g[][2] = {{2, 2}, {2, 3}, {2, 4}, {3, 2}, {3, 3}, {2, 1}, {4, 4}, {12, 5}, {8, 5}, {2, 5}, {3, 4}};
        u32 k = choose(tiny ? 11 : 4);
        d = g[k][0]; th = g[k][1];
        if (o.spare) { d = 2; th = 4; }
    }
    if (th == 1 && (variant == "fast" || (tiny && !mt))) th = 2; // the hash prefix of a message needs some room in front of it
    const OidRow &row = pick_oid(mt, func, n);
    MP p = make_params(func, n, d * th, d, mt, tiny, 0);
    p.oid = row.oid;
    g_scales = {p};
    return p;
}
Bytes message(size_t len, u32 seed) { Bytes m(len); Rng r(0x3355 + seed); r.fill(m.data(), len); return m; }
Bytes choose_message(size_t sig) {
    u32 k = choose(10);
    size_t len = 5;
    if (k == 1) len = 0;
    else if (k == 2) len = 1;
    else if (k == 3) len = choose(64);
    else if (k == 4) len = 4096 * (sig / 4096 + 1) - sig + choose(3) - 1; // signature + message ends at a buffer boundary
    else if (k == 5) len = 4095 + choose(3);
    else if (k == 6) len = choose(3000);
    else if (k == 7) len = choose(20000);
    else if (k == 8) {
        static const int big[] = {65535, 65536, 65537, 131072, 262145, 1048576 + 7};
        u32 c = choose(24);
        len = c == 23 ? pick(big) : c == 22 ? (size_t)65536 * (sig / 65536 + 1) - sig + choose(3) - 1 : 511 + choose(3);
    }
    return message(len, choose(1 << 20));
}
bool known_finding(const std::string &id) { return g_known.count(id); }
void report(const std::string &id, const std::string &kind, const std::string &msg) {
    if (known_finding(id)) { S->st->known[id]++; EV(0x1234, "known finding %s: %s", id.c_str(), msg.c_str()); return; }
    fail(kind, msg);
}
