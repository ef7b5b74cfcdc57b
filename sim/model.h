// Independent executable model of XMSS / XMSS^MT as RFC 8391 with SP 800-208 key
// generation defines them. Shares no code with the repository.
#pragma once
#include "core.h"

enum { F_SHA2 = 0, F_SHAKE128 = 1, F_SHAKE256 = 2 };

struct MP { // parameters
    int func = 0, n = 32, pad = 32, h = 0, d = 1, w = 16, logw = 4, len1 = 0, len2 = 0, len = 0, th = 0, idxb = 4, k = 0;
    bool tiny = false;
    bool mt = false;
    u32 oid = 0;
    size_t wots() const { return (size_t)len * n; }
    size_t sig() const { return idxb + n + (size_t)d * wots() + (size_t)h * n; }
    size_t pk() const { return 4 + 2 * (size_t)n; }
    size_t refsk() const { return 4 + idxb + 4 * (size_t)n; }
    bool spare() const { return h == 8 * idxb; } // index field cannot express 2^h
    u64 maxidx() const { return (h == 64 ? ~0ULL : (1ULL << h) - 1); }
    // number of usable signatures (spare: the last index is not used)
    u64 usable() const { return spare() ? maxidx() : maxidx() + 1; }
    std::string str() const;
};
MP make_params(int func, int n, int h, int d, bool mt, int tiny, int k); // tiny: 0, 4 or 16 (w)

struct OidRow { bool mt; u32 oid; const char *name; int func, n, h, d; };
extern const std::vector<OidRow> OIDS;
MP oid_params(const OidRow &);

struct HashCount { u64 calls = 0; };
extern HashCount model_hashes;

struct ModelKey {
    MP p;
    Bytes sk_seed, sk_prf, pub_seed, root;
    std::map<std::pair<int, u64>, std::vector<Bytes>> trees; // (layer,tree) -> nodes per height
    std::vector<Bytes> &tree(int layer, u64 t);
    Bytes pk(); // oid || root || pub_seed
    Bytes R(u64 idx);
    Bytes sign(u64 idx, const Bytes &m); // signature || message
    // every value of every chain of the one-time key that signs messages at idx
    std::set<Bytes> ots_values(u64 idx);
};
ModelKey model_key(const MP &p, const Bytes &sk_seed, const Bytes &sk_prf, const Bytes &pub_seed, bool with_root = true);
bool model_verify(const MP &p, const Bytes &pk, const Bytes &sm);
// do the authentication paths lead to the roots of the key's own subtrees? (a scaled-down
// one-time signature can fit a wrong root by accident)
bool model_own_roots(ModelKey &k, const Bytes &sm);
// a signature that verifies under a key made up around it (random authentication paths)
struct Forged { Bytes pk, sm; };
Forged model_synth(const MP &p, u64 idx, const Bytes &m, u64 seed);
u64 model_leaf_cost(const MP &p); // hash calls for one leaf
u64 model_wots_sign_max(const MP &p);
extern u64 g_zero_tail; // messages given to sign / model_synth go on with this many zero bytes (SHA-2 and SHAKE)
Bytes be(u64 v, int n);
u64 rdbe(const u8 *p, int n);
