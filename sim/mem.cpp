// Properties decided at the granularity of memory accesses: C13 (crash points inside a
// signing call) and C14 (threads). The library image is compiled with -fsanitize=thread;
// the runtime it calls is this file.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "os.h"
#include "keys.h"
#include <pthread.h>
#include <semaphore.h>
#include <setjmp.h>
#include <signal.h>
#include <errno.h>
#include <unordered_set>

static void (*g_mem)(void *p, size_t n, bool write) = nullptr;
static inline void acc(void *p, size_t n, bool w) { if (g_mem && g_cur) g_mem(p, n, w); }
#define X extern "C" __attribute__((visibility("default"), used))
X void __tsan_init() {}
X void __tsan_func_entry(void *) {}
X void __tsan_func_exit() {}
X void __tsan_ignore_thread_begin() {}
X void __tsan_ignore_thread_end() {}
#define RW(n) \
    X void __tsan_read##n(void *p) { acc(p, n, false); } \
    X void __tsan_write##n(void *p) { acc(p, n, true); } \
    X void __tsan_read##n##_pc(void *p, void *) { acc(p, n, false); } \
    X void __tsan_write##n##_pc(void *p, void *) { acc(p, n, true); } \
    X void __tsan_unaligned_read##n(void *p) { acc(p, n, false); } \
    X void __tsan_unaligned_write##n(void *p) { acc(p, n, true); } \
    X void __tsan_volatile_read##n(void *p) { acc(p, n, false); } \
    X void __tsan_volatile_write##n(void *p) { acc(p, n, true); } \
    X void __tsan_unaligned_volatile_read##n(void *p) { acc(p, n, false); } \
    X void __tsan_unaligned_volatile_write##n(void *p) { acc(p, n, true); } \
    X void __tsan_read_write##n(void *p) { acc(p, n, true); } \
    X void __tsan_unaligned_read_write##n(void *p) { acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
X void __tsan_read_range(void *p, size_t n) { acc(p, n, false); }
X void __tsan_write_range(void *p, size_t n) { acc(p, n, true); }
X void __tsan_vptr_update(void **p, void *) { acc(p, 8, true); }
X void __tsan_vptr_read(void **p) { acc(p, 8, false); }
#define ATOM(b, T) \
    X T __tsan_atomic##b##_load(const volatile T *a, int) { acc((void *)a, sizeof(T), false); return *a; } \
    X void __tsan_atomic##b##_store(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); *a = v; } \
    X T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = v; return o; } \
    X T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = o + v; return o; } \
    X T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = o - v; return o; } \
    X T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = o & v; return o; } \
    X T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = o | v; return o; } \
    X T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = o ^ v; return o; } \
    X int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { acc((void *)a, sizeof(T), true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    X int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { acc((void *)a, sizeof(T), true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    X T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) { acc((void *)a, sizeof(T), true); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
X void __tsan_atomic_thread_fence(int) {}
X void __tsan_atomic_signal_fence(int) {}
X void *sim_memcpy(void *d, const void *s, size_t n) { if (n) { acc((void *)s, n, false); acc(d, n, true); } return memcpy(d, s, n); }
X void *sim_memmove(void *d, const void *s, size_t n) { if (n) { acc((void *)s, n, false); acc(d, n, true); } return memmove(d, s, n); }
X void *sim_memset(void *d, int c, size_t n) { if (n) acc(d, n, true); return memset(d, c, n); }
X int sim_memcmp(const void *a, const void *b, size_t n) { if (n) { acc((void *)a, n, false); acc((void *)b, n, false); } return memcmp(a, b, n); }
X void *sim___memcpy_chk(void *d, const void *s, size_t n, size_t k) { if (n > k) abort(); return sim_memcpy(d, s, n); }
X void *sim___memset_chk(void *d, int c, size_t n, size_t k) { if (n > k) abort(); return sim_memset(d, c, n); }
X void *sim___memmove_chk(void *d, const void *s, size_t n, size_t k) { if (n > k) abort(); return sim_memmove(d, s, n); }
X void *sim_mempcpy(void *d, const void *s, size_t n) { return (u8 *)sim_memcpy(d, s, n) + n; }
X void sim_bcopy(const void *s, void *d, size_t n) { sim_memmove(d, s, n); }
X void sim_bzero(void *d, size_t n) { sim_memset(d, 0, n); }
X int sim_bcmp(const void *a, const void *b, size_t n) { return sim_memcmp(a, b, n); }
X void sim_explicit_bzero(void *d, size_t n) { if (n) acc(d, n, true); memset(d, 0, n); }

// ------------------------------------------------------------------ C13
namespace {
struct Watch {
    Proc *h = nullptr;
    const MP *p = nullptr;
    u8 *sk = nullptr, *sm = nullptr;
    size_t skn = 0, smn = 0;
    u64 idx = 0, events = 0, crash_at = ~0ULL;
    std::unordered_set<u64> ots;     // 8-byte windows of the one-time key's chain values
    size_t plo = 0, phi = 0;         // region of sm written by the last event
    u64 first_ots = 0, first_idx = 0, last_sk = 0;
    bool leaked = false, bad = false;
    size_t where = 0;
    u64 stored() const { return rdbe(sk + 4, p->idxb); }
    bool at(size_t o) const { u64 v; memcpy(&v, sm + o, 8); return ots.count(v); }
    // state of both buffers if the call is cut short now
    void settle() {
        if (plo >= phi) return;
        size_t a = plo > 7 ? plo - 7 : 0, b = std::min(phi, smn >= 8 ? smn - 7 : 0);
        for (size_t o = a; o < b; o++) if (at(o)) {
            if (!leaked) { leaked = true; first_ots = events; where = o; }
            if (stored() <= idx && !bad) { bad = true; where = o; }
            break;
        }
        plo = phi = 0;
    }
    void access(u8 *q, size_t n, bool write) {
        settle();
        if (leaked && stored() <= idx) bad = true;
        if (events++ >= crash_at) { fault_fired("process_kill"); proc_die(*h, Proc::KILLED, ""); }
        if (!write) return;
        if (q < sm + smn && q + n > sm) { plo = q > sm ? q - sm : 0; phi = std::min(smn, (size_t)(q + n - sm)); }
        if (q < sk + skn && q + n > sk) { last_sk = events; if (q < sk + 4 + p->idxb && q + n > sk + 4 && !first_idx) first_idx = events; }
    }
    bool scan() const { for (size_t o = 0; o + 8 <= smn; o++) if (at(o)) return true; return false; }
};
Watch *g_watch;
void watch_mem(void *q, size_t n, bool w) { g_watch->access((u8 *)q, n, w); }
void watch_hash(u8 *q, size_t n, bool before) { if (before) g_watch->access(q, n, true); }
struct Hooks { ~Hooks() { g_mem = nullptr; g_hash_point = nullptr; g_watch = nullptr; g_thread_point = nullptr; } };
}
static void entropy_dev(World &w) {
    auto u = std::make_shared<Inode>();
    u->label = "/dev/urandom"; u->entropy = true;
    w.dir["/dev/urandom"] = u; w.dir["/dev/random"] = u;
    w.step_cap = 1u << 30;
}
void prop_C13() {
    std::string v = choose_variant();
    MP p = choose_params(v, {.real_den = 16});
    Key *k = get_key(v, p, choose(3), 40);
    if (!k->made) { probe("setup_failed"); return; }
    u64 i;
    u32 ic = choose(6);
    if (ic == 0) i = 0;
    else if (ic == 1) i = k->limit() - 1;
    else if (v == "ref" && ic == 2) { u64 e = 8 * (1 + choose(3)); i = (1ULL << e) - 1; if (i >= p.usable()) i = p.usable() - 1; }
    else if (v == "ref" && ic == 3) i = p.usable() - 1;
    else i = choose(k->limit());
    if (!k->reach(i)) { probe("setup_failed"); return; }
    Bytes old = k->sks[i], m = choose_message(p.sig());
    Watch w;
    w.p = &p; w.idx = i;
    for (auto &b : k->mk.ots_values(i)) for (size_t o = 0; o + 8 <= b.size(); o++) { u64 x; memcpy(&x, &b[o], 8); w.ots.insert(x); }
    std::string ctx = sfmt("index %llu of %llu, message of %zu bytes", (unsigned long long)i, (unsigned long long)p.usable(), m.size()) + "; " + v + " " + p.str();
    S->scenario = ctx;
    u64 total = 0, fo = 0, fi = 0, ls = 0;
    u32 crashes = 1 + choose(4);
    Bytes bufm = m;
    for (u32 c = 0; c <= crashes; c++) { // the first pass goes through; the others are cut short somewhere
        World W0; W = &W0; entropy_dev(W0);
        Hooks hooks;
        Proc &h = W0.spawn("signer", image("lib_tsan_" + v + ".0"), nullptr);
        LibApi a = api(h.img, p.mt);
        Buf bk(old.size(), choose(2)), bs(p.sig() + m.size(), choose(2));
        memcpy(bk.p, old.data(), old.size());
        w.h = &h; w.sk = bk.p; w.skn = old.size(); w.sm = bs.p; w.smn = bs.n;
        w.events = 0; w.leaked = w.bad = false; w.plo = w.phi = 0; w.first_idx = w.first_ots = w.last_sk = 0; w.crash_at = ~0ULL;
        if (c) {
            u32 how = choose(8);
            u64 at;
            if (how < 3 || !fo) at = choose((u32)std::min<u64>(total, 1u << 31) + 1);
            else if (how == 3) at = fo + choose(20);
            else if (how == 4) at = fo - std::min<u64>(fo, choose(40));
            else if (how == 5) at = fi + choose(30);
            else if (how == 6) at = ls - std::min<u64>(ls, choose(30));
            else at = fo + choose((u32)std::min<u64>(total - fo, 1u << 31) + 1);
            w.crash_at = at;
        }
        g_watch = &w;
        int rc = -1; unsigned long long sl = 0;
        g_mem = watch_mem; g_hash_point = watch_hash;
        bool ret = call(h, [&] { rc = a.sign(bk.p, bs.p, &sl, bufm.data(), bufm.size()); });
        g_mem = nullptr; g_hash_point = nullptr;
        w.settle();
        EV(mix64(w.events) + w.leaked * 2 + ret, "pass %u: %llu accesses, index field written at access %llu, first one-time signature bytes at %llu, crash at %lld, stored index now %llu", c, (unsigned long long)w.events, (unsigned long long)w.first_idx, (unsigned long long)w.first_ots, (long long)w.crash_at, (unsigned long long)w.stored());
        std::string cx = sfmt("%s at access %llu, stored index %llu, one-time signature bytes from offset %zu of the output: ", c ? "cut short" : "seen", (unsigned long long)w.events, (unsigned long long)w.stored(), w.where) + ctx;
        if (h.st == Proc::CRASHED) fail("crash", h.crash + ": " + ctx);
        if (w.bad) fail("ots-before-index", "one-time signature bytes are in the output buffer while the key still holds their index; " + cx);
        if (!c) {
            if (rc) { fail("refused", sfmt("rc %d: ", rc) + ctx); }
            total = w.events; fo = w.first_ots; fi = w.first_idx; ls = w.last_sk;
            if (fo) probe("signatures_watched"); else probe("no_ots_bytes_seen");
            probe("accesses_watched", total);
            continue;
        }
        S->nontrivial = true;
        bool leak = w.scan();
        if (leak && w.stored() <= i) fail("ots-before-index", "the surviving key still holds the index of the surviving output; " + cx);
        probe(leak ? "crash_after_first_bytes" : "crash_before_first_bytes");
        // what survives is used again
        Bytes sk = bk.bytes(), m2 = message(17, 5), sm(p.sig() + 17);
        Buf gk(sk.size()), gs(sm.size());
        memcpy(gk.p, sk.data(), sk.size()); memset(gs.p, 0, gs.n);
        Proc &r = W0.spawn("restarted", image("lib_plain_" + v + ".1"), nullptr);
        LibApi b = api(r.img, p.mt);
        int rc2 = -1; unsigned long long sl2 = 0;
        bool ok = call(r, [&] { rc2 = b.sign(gk.p, gs.p, &sl2, m2.data(), m2.size()); });
        sk = gk.bytes(); sm = gs.bytes();
        u64 j = rdbe(sm.data(), p.idxb);
        EV(mix64(j) + rc2, "signing again: returned %d, rc %d, index %llu", ok, rc2, (unsigned long long)j);
        if (ok && rc2 == 0 && leak && j <= i) fail("index-reused", sfmt("signing again from the surviving key used index %llu; ", (unsigned long long)j) + cx);
        probe(ok && rc2 == 0 ? "resumed" : "resume_refused");
    }
    S->scenario = sfmt("%u crash points among %llu accesses, ", crashes, (unsigned long long)total) + ctx;
}

// ------------------------------------------------------------------ C14: real threads, one running at a time
namespace {
struct Th {
    pthread_t t; sem_t go; bool done = false, died = false; const void *wait = nullptr;
    sigjmp_buf jb; u8 *stack = nullptr, *alt = nullptr; int id = 0;
    std::function<void()> body; Proc *proc = nullptr;
};
const size_t TSTACK = 1 << 20;
std::vector<Th *> ths;
sem_t sched_sem;
thread_local Th *self;
u64 quantum, switches, hot;
Image *tim;
std::map<const void *, Th *> mtx_owner;
void yield_() { Th *s = self; sem_post(&sched_sem); while (sem_wait(&s->go)) {} }
u64 draw_quantum() { u32 e = choose(18); return e == 0 ? ~0ULL : (1ULL << e) - 1 + choose(1u << e); }
void thread_mem(void *q, size_t, bool w) {
    if (!self) return;
    if (--quantum == 0) { yield_(); return; }
    if (hot < 300 && tim->writable(q)) { hot++; if (flip(1, 2)) yield_(); }
}
void thread_hash(u8 *, size_t, bool) { thread_mem(nullptr, 0, false); }
void thread_point(const char *name) {
    if (!self) return;
    EV(hash_str(name) + self->id, "[thread %d] %s", self->id, name);
    W->steps++; S->st->steps++;
    if (W->steps > 20000) proc_die(*g_cur, Proc::CRASHED, "no progress: step limit reached");
    if (flip(1, 2)) yield_();
}
void thread_die() { self->died = true; siglongjmp(self->jb, 1); }
void *th_main(void *a) {
    Th *t = (Th *)a;
    self = t;
    stack_t ss = {}; ss.ss_sp = t->alt; ss.ss_size = 1 << 16; sigaltstack(&ss, nullptr);
    while (sem_wait(&t->go)) {}
    g_cur = t->proc;
    errno = 0;
    if (sigsetjmp(t->jb, 1) == 0) t->body();
    g_cur = nullptr;
    t->done = true;
    self = nullptr;
    sem_post(&sched_sem);
    return nullptr;
}
// runs the bodies as threads of one process, every switch decided by the simulator
void run_threads(Proc &p, Image *im, std::vector<std::function<void()>> bodies) {
    static bool init = false;
    if (!init) { sem_init(&sched_sem, 0, 0); init = true; }
    static std::vector<std::pair<u8 *, u8 *>> pool;
    tim = im; switches = hot = 0;
    mtx_owner.clear();
    ths.clear();
    std::vector<std::unique_ptr<Th>> own;
    for (size_t i = 0; i < bodies.size(); i++) {
        own.emplace_back(new Th);
        Th *t = own.back().get();
        if (pool.size() <= i) { void *s = nullptr; if (posix_memalign(&s, 4096, TSTACK)) abort(); pool.push_back({(u8 *)s, (u8 *)malloc(1 << 16)}); }
        t->stack = pool[i].first; t->alt = pool[i].second; t->id = i; t->body = bodies[i]; t->proc = &p;
        memset(t->stack + TSTACK - (128 << 10), 0x5b, 128 << 10);
        sem_init(&t->go, 0, 0);
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, t->stack, TSTACK);
        if (pthread_create(&t->t, &at, th_main, t)) { perror("pthread_create"); _exit(3); }
        pthread_attr_destroy(&at);
        ths.push_back(t);
    }
    g_thread_point = thread_point; g_thread_die = thread_die; g_mem = thread_mem; g_hash_point = thread_hash;
    size_t cur = 0;
    bool stop = false;
    for (;;) {
        std::vector<Th *> r;
        for (auto t : ths) if (!t->done && !(t->wait && mtx_owner.count(t->wait))) r.push_back(t);
        if (r.empty()) { // finished, or every thread waits for a lock
            bool all = true;
            for (auto t : ths) if (!t->done) all = false;
            if (!all && !S->violated) { set_violation("deadlock", "every thread waits for a lock: " + S->scenario); for (auto t : ths) t->wait = nullptr; mtx_owner.clear(); stop = true; continue; }
            break;
        }
        Th *t = r[choose(r.size())];
        quantum = stop || ++switches > 4000 ? ~0ULL : draw_quantum();
        EV(0x7000 + t->id, "-> thread %d", t->id);
        sem_post(&t->go);
        while (sem_wait(&sched_sem)) {}
    }
    g_thread_point = nullptr; g_mem = nullptr; g_hash_point = nullptr;
    for (auto t : ths) { pthread_join(t->t, nullptr); sem_destroy(&t->go); }
    if (switches > 1) fault_fired("thread_preemption"), S->st->faults["thread_preemption"] += switches - 1 - bodies.size() > 0 ? switches - 1 : 0;
    ths.clear();
}
} // namespace
// locks the code under test may use
static void lock_(const void *m) {
    if (!self) return;
    thread_point("lock");
    while (mtx_owner.count(m)) { if (mtx_owner[m] == self) proc_die(*g_cur, Proc::CRASHED, "lock taken twice"); self->wait = m; yield_(); self->wait = nullptr; }
    mtx_owner[m] = self;
}
static void unlock_(const void *m) { if (!self) return; mtx_owner.erase(m); thread_point("unlock"); }
X int sim_pthread_mutex_init(void *m, const void *) { memset(m, 0, sizeof(pthread_mutex_t)); return 0; }
X int sim_pthread_mutex_destroy(void *) { return 0; }
X int sim_pthread_mutex_lock(void *m) { lock_(m); return 0; }
X int sim_pthread_mutex_trylock(void *m) { if (self && mtx_owner.count(m)) return EBUSY; lock_(m); return 0; }
X int sim_pthread_mutex_unlock(void *m) { unlock_(m); return 0; }
X int sim_pthread_rwlock_rdlock(void *m) { lock_(m); return 0; }
X int sim_pthread_rwlock_wrlock(void *m) { lock_(m); return 0; }
X int sim_pthread_rwlock_unlock(void *m) { unlock_(m); return 0; }
X int sim_pthread_spin_init(void *m, int) { return 0; }
X int sim_pthread_spin_lock(void *m) { lock_(m); return 0; }
X int sim_pthread_spin_unlock(void *m) { unlock_(m); return 0; }
X int sim_mtx_init(void *, int) { return 0; }
X int sim_mtx_lock(void *m) { lock_(m); return 0; }
X int sim_mtx_unlock(void *m) { unlock_(m); return 0; }
X int sim_pthread_once(int *o, void (*f)()) { lock_(o); if (!*o) { f(); *o = 2; } unlock_(o); return 0; }
X void sim_call_once(int *o, void (*f)()) { sim_pthread_once(o, f); }

void prop_C14() {
    std::string v = choose_variant();
    u32 nt = 2 + (choose(4) == 3);
    struct Op { int kind; MP p; Key *k; u64 i; Bytes m, sm, sk, pk; bool genuine; int rc, arc; unsigned long long len, alen; Bytes out, aout, osk, aosk; };
    std::vector<std::vector<Op>> script(nt);
    std::vector<MP> scales;
    std::string desc;
    u32 only = choose(5); // 4: all threads generate keys
    for (u32 t = 0; t < nt; t++) {
        u32 n = 1 + choose(2);
        desc += sfmt("%sthread %u:", t ? "; " : "", t);
        for (u32 o = 0; o < n; o++) {
            Op op;
            op.kind = only == 4 ? 2 : choose(5) % 3; // sign, verify, generate
            op.p = choose_params(v, {.real_den = 48});
            if (op.p.h > 16 || (!op.p.tiny && op.p.h > 4)) { op.p = make_params(op.p.func, op.p.n, op.p.mt ? 4 : 3, op.p.mt ? 2 : 1, op.p.mt, op.p.tiny ? op.p.w : 0, 0); op.p.oid = pick_oid(op.p.mt, op.p.func, op.p.n).oid; }
            for (auto &s : scales) if (s.oid == op.p.oid && s.mt == op.p.mt) op.p = s;
            bool have = false;
            for (auto &s : scales) if (s.oid == op.p.oid && s.mt == op.p.mt) have = true;
            if (!have) scales.push_back(op.p);
            op.k = get_key(v, op.p, t * 2 + o, 12); // a key of its own
            if (!op.k->made) { probe("setup_failed"); return; }
            op.i = choose(std::min<u64>(op.k->limit(), 10));
            if (!op.k->reach(op.i)) { probe("setup_failed"); return; }
            op.sk = op.k->sks[op.i];
            op.m = message(choose(150), choose(1 << 16));
            op.genuine = true;
            if (op.kind == 1) { op.sm = op.k->mk.sign(op.i, op.m); if (choose(2)) { op.sm[choose(op.sm.size())] ^= 1 << choose(8); op.genuine = false; } }
            static const char *kn[] = {"sign", "verify", "generate"};
            desc += sfmt(" %s(%s)", kn[op.kind], op.p.str().c_str());
            script[t].push_back(op);
        }
    }
    g_scales = scales;
    S->scenario = desc + "; " + v;
    auto exec = [&](Op &op, LibApi a, int &rc, unsigned long long &len, Bytes &out, Bytes &osk) {
        len = ~0ULL;
        if (op.kind == 0) { osk = op.sk; out.assign(op.p.sig() + op.m.size(), 0xEE); rc = a.sign(osk.data(), out.data(), &len, op.m.data(), op.m.size()); }
        else if (op.kind == 1) { out.assign(op.sm.size(), 0xEE); rc = a.open(out.data(), &len, op.sm.data(), op.sm.size(), op.k->pk.data()); }
        else { osk.assign(op.k->sks[0].size(), 0xEE); out.assign(op.p.pk(), 0xEE); rc = a.keypair(out.data(), osk.data(), op.p.oid); }
    };
    { // alone, one after the other
        World W0; W = &W0; entropy_dev(W0);
        Proc &h = W0.spawn("alone", image("lib_tsan_" + v + ".0"), nullptr);
        for (auto &t : script) for (auto &op : t) {
            if (op.kind == 2) continue;
            LibApi a = api(h.img, op.p.mt);
            if (!call(h, [&] { exec(op, a, op.arc, op.alen, op.aout, op.aosk); })) { probe("setup_failed"); return; }
        }
    }
    World W1; W = &W1; entropy_dev(W1);
    W1.ent_seed = 0x77 + choose(1000);
    Image *im = image("lib_tsan_" + v + ".0");
    Proc &h = W1.spawn("threads", im, nullptr);
    if (choose(3) == 2) for (int f = FK_ENT_OPEN; f <= FK_ENT_SHORT; f++) { h.allow[f] = choose(2); h.rate_num = 1; h.rate_den = 4; h.max_faults = 6; h.ent_fails_left = 6; }
    std::vector<std::function<void()>> bodies;
    for (auto &t : script) bodies.push_back([&, pt = &t] { for (auto &op : *pt) exec(op, api(im, op.p.mt), op.rc, op.len, op.out, op.osk); });
    {
        Hooks hooks;
        run_threads(h, im, bodies);
    }
    S->nontrivial = switches > nt;
    if (S->violated) throw RunStop();
    if (h.st == Proc::CRASHED) fail("crash", h.crash + ": " + S->scenario);
    std::vector<std::pair<size_t, size_t>> used;
    std::map<u64, std::string> eights; // every eight consecutive bytes of a seed
    for (u32 t = 0; t < nt; t++) for (size_t o = 0; o < script[t].size(); o++) {
        Op &op = script[t][o];
        std::string cx = sfmt("thread %u, operation %zu: ", t, o) + S->scenario;
        EV(hash_bytes(op.out.data(), op.out.size()) + op.rc, "thread %u operation %zu: rc %d", t, o, op.rc);
        if (op.kind != 2) {
            if (op.rc != op.arc || op.len != op.alen) fail("result-changed", sfmt("returned %d (length %llu), alone it returns %d (length %llu): ", op.rc, op.len, op.arc, op.alen) + cx);
            if (op.out != op.aout) fail("result-changed", std::string(op.kind ? "the opened message" : "the signature") + " is not the one produced alone: " + cx);
            if (op.osk != op.aosk) fail("result-changed", "the updated key is not the one produced alone: " + cx);
            probe(op.kind ? "verifications" : "signatures");
            continue;
        }
        if (op.rc) fail("result-changed", sfmt("key generation returned %d: ", op.rc) + cx);
        const u8 *s = op.osk.data() + 4 + op.p.idxb;
        auto part = [&](int q) { return Bytes(s + q * op.p.n, s + (q + 1) * op.p.n); };
        for (int q : {0, 1, 3}) {
            Bytes b = part(q);
            std::string whose = sfmt("seed %d of thread %u, operation %zu", q, t, o);
            for (size_t i = 0; i + 8 <= b.size(); i++) { auto e = eights.insert({rdbe(b.data() + i, 8), whose}); if (!e.second && e.first->second != whose) fail("entropy-shared", whose + " has bytes of " + e.first->second + ": " + cx); }
            auto it = std::search(h.entropy.begin(), h.entropy.end(), b.begin(), b.end());
            if (it == h.entropy.end()) { // a read may have been cut in two by another thread
                std::vector<std::pair<size_t, size_t>> parts; // greedy: longest stretches
                size_t done = 0;
                while (done < b.size()) {
                    size_t best = 0, bat = 0;
                    for (size_t a = 0; a < h.entropy.size(); a++) { size_t l = 0; while (done + l < b.size() && a + l < h.entropy.size() && h.entropy[a + l] == b[done + l]) l++; if (l > best) { best = l; bat = a; } }
                    if (best >= 10) parts.push_back({bat + 3, bat + best - 3}); // where a piece ends is ambiguous by a few bytes
                    done += best ? best : 1;
                }
                for (auto &x : parts) { for (auto &y : used) if (x.first < y.second && y.first < x.second) fail("entropy-shared", "two seeds share entropy bytes: " + cx); } used.insert(used.end(), parts.begin(), parts.end());
                continue;
            }
            std::pair<size_t, size_t> x(it - h.entropy.begin(), it - h.entropy.begin() + b.size());
            for (auto &y : used) if (x.first < y.second && y.first < x.second) fail("entropy-shared", "two seeds share entropy bytes: " + cx);
            used.push_back(x);
        }
        if (op.k->ok) {
            ModelKey mk = model_key(op.p, part(0), part(1), part(3));
            if (op.out != mk.pk() || part(2) != mk.root) fail("result-changed", "the generated key pair does not follow from its seeds: " + cx);
        }
        probe("key_generations");
    }
    probe("switches", switches);
}
