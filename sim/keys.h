// Key material and geometries shared by the properties.
#pragma once
#include "os.h"

struct LibApi { // public interface of a library image
    int (*keypair)(u8 *, u8 *, u32);
    int (*sign)(u8 *, u8 *, unsigned long long *, const u8 *, unsigned long long);
    int (*open)(u8 *, unsigned long long *, const u8 *, unsigned long long, const u8 *);
};
LibApi api(Image *im, bool mt);
size_t sk_size(const std::string &variant, const MP &p); // announced secret key length incl. identifier

struct Key {
    MP p;
    std::string variant;
    ModelKey mk;
    Bytes pk;
    std::map<size_t, Bytes> sks;  // secret key before the i-th signature (pristine, undisturbed life), made on demand
    size_t maxlife = 0;
    bool ok = false;              // the model agrees with the key pair
    bool made = false;
    size_t limit() const { return std::min<u64>(maxlife, p.usable()); } // indices a run may start from
    bool reach(size_t i);         // is the state before signature i available (i == usable(): exhausted)?
    Bytes file(size_t i) { Bytes b = pk; if (reach(i)) b.insert(b.end(), sks[i].begin(), sks[i].end()); return b; }
    size_t idx_off() const { return p.pk() + 4; }
};
Key *get_key(const std::string &variant, const MP &p, u32 seed, size_t maxlife); // cached
ModelKey *get_model(const MP &p, u32 seed); // cached, seeds as get_key would draw them are not needed

extern bool g_tiny_ok; // scaled-down one-time signatures behave as modelled
const OidRow &pick_oid(bool mt, int func, int n);
struct GeoOpts { bool small = true; bool tiny = true; int mt = -1; int func = -1; int n = -1; int spare = 0; u32 real_den = 64; };
MP choose_params(const std::string &variant, const GeoOpts &o); // draws choices; sets g_scales
bool guarded_sign(Proc &h, LibApi &a, const MP &p, Bytes &sk, const Bytes &m, Bytes &sm); // one call in guarded buffers
std::string choose_variant();
Bytes choose_message(size_t sig);
Bytes message(size_t len, u32 seed);
struct Quiet { // nested simulation whose events must not show in the run (results are cached)
    u64 lh, ne, nf; World *w; bool vb; Stats keep; Stats *st; Proc *cur; bool viol; std::vector<MP> sc; Chooser ch;
    Quiet(); ~Quiet();
};
bool known_finding(const std::string &id); // listed in the known-findings file
void report(const std::string &known_id, const std::string &kind, const std::string &msg);
