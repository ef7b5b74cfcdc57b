#include "core.h"
#include "keys.h"
void prop_C01(); void prop_C02(); void prop_C03(); void prop_C04(); void prop_C05(); void prop_C06(); void prop_C07(); void prop_C08(); void prop_C09(); void prop_C10(); void prop_C11(); void prop_C12(); void prop_C13(); void prop_C14(); void prop_C15(); void prop_C16(); void prop_C17(); void prop_C18(); void prop_C19(); void prop_C24(); void prop_C25(); void prop_C26(); void prop_C27(); void prop_C28(); void prop_C29(); void prop_C30();
const Prop PROPS[] = {
    {"C01", prop_C01, 400000, 10000000},
    {"C02", prop_C02, 400000, 10000000},
    {"C03", prop_C03, 400000, 10000000},
    {"C04", prop_C04, 400000, 10000000},
    {"C05", prop_C05, 400000, 10000000},
    {"C06", prop_C06, 400000, 10000000},
    {"C07", prop_C07, 400000, 10000000},
    {"C08", prop_C08, 400000, 10000000},
    {"C09", prop_C09, 400000, 10000000},
    {"C10", prop_C10, 400000, 10000000},
    {"C11", prop_C11, 400000, 10000000},
    {"C12", prop_C12, 400000, 10000000},
    {"C13", prop_C13, 400000, 10000000},
    {"C14", prop_C14, 400000, 10000000},
    {"C15", prop_C15, 400000, 10000000},
    {"C16", prop_C16, 400000, 10000000},
    {"C17", prop_C17, 400000, 10000000},
    {"C18", prop_C18, 400000, 10000000},
    {"C19", prop_C19, 400000, 10000000},
    {"C24", prop_C24, 400000, 10000000},
    {"C25", prop_C25, 400000, 10000000},
    {"C26", prop_C26, 400000, 10000000},
    {"C27", prop_C27, 400000, 10000000},
    {"C28", prop_C28, 400000, 10000000},
    {"C29", prop_C29, 400000, 10000000},
    {"C30", prop_C30, 400000, 10000000},
    {nullptr, nullptr, 0, 0}};
static std::map<std::string, std::unique_ptr<ModelKey>> mkeys;
ModelKey *get_model(const MP &p, u32 seed) {
    auto &s = mkeys[p.str() + sfmt("/%u", seed)];
    if (!s) { Rng r(0x9100 + seed); Bytes a(p.n), b(p.n), c(p.n); r.fill(a.data(), p.n); r.fill(b.data(), p.n); r.fill(c.data(), p.n); s.reset(new ModelKey(model_key(p, a, b, c))); }
    return s.get();
}
void tiny_selfcheck() {
    g_watchdog_s = 5;
    // Scaled one-time signatures are used only where the code, given those parameters, does
    // what the model does with them, or where it fails with real ones just the same.
    for (std::string v : {"ref", "fast"}) {
        MP t = make_params(F_SHA2, 32, 4, 2, true, 4, 0); t.oid = 1;
        MP r = make_params(F_SHA2, 32, 4, 2, true, 0, 0); r.oid = 1;
        auto good = [&](const MP &p) {
            Key *k = get_key(v, p, 7, 4);
            if (!k->ok || !k->reach(2)) return false;
            Quiet q;
            World w; W = &w; g_scales = {p};
            Proc &h = w.spawn("self", image("lib_plain_" + v + ".2"), nullptr);
            LibApi a = api(h.img, p.mt);
            Bytes m = message(5, 3), sm, sk = k->sks[1];
            return guarded_sign(h, a, p, sk, m, sm) && sm == k->mk.sign(1, m);
        };
        if (!good(t) && good(r)) g_tiny_ok = false;
    }
    g_watchdog_s = 30;
}
