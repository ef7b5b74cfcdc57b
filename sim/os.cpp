#define OPENSSL_SUPPRESS_DEPRECATED
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "os.h"
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <fcntl.h>
#include <stdio_ext.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <sys/syscall.h>
#include <openssl/sha.h>
#include <openssl/evp.h>
extern "C" {
#include "params.h"
}

World *W = nullptr;
thread_local Proc *g_cur = nullptr;
void (*g_thread_point)(const char *) = nullptr;
void (*g_hash_point)(u8 *, size_t, bool) = nullptr;
void (*g_thread_die)() = nullptr;
std::vector<MP> g_scales;
const char *FAULT_NAMES[FK_KINDS] = {"eintr", "io_error", "no_space", "short_transfer", "early_eof", "broken_pipe_error", "broken_pipe_signal", "open_failure", "seek_failure", "sync_failure_pages_dropped", "sync_failure_pages_kept", "close_failure", "lock_failure", "out_of_memory", "entropy_open_failure", "entropy_read_error", "entropy_interrupted", "entropy_short_read", "entropy_end_of_file", "hash_provider_failure"};

static const size_t STACK = 2 << 20;
static ucontext_t sched_ctx;
static bool signalled;
extern std::string g_build_dir;

// ---------------------------------------------------------------- images
static std::map<std::string, Image *> images;
static int phdr_cb(struct dl_phdr_info *i, size_t, void *d) {
    Image *im = (Image *)d;
    if (!i->dlpi_name || !strstr(i->dlpi_name, (im->name + ".so").c_str())) return 0;
    size_t rs = 0, re = 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rs = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; re = rs + i->dlpi_phdr[k].p_memsz; re &= ~(size_t)4095; }
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto &ph = i->dlpi_phdr[k];
        if (ph.p_type == PT_TLS) im->has_tls = true;
        if (ph.p_type != PT_LOAD || !(ph.p_flags & PF_W)) continue;
        size_t s = i->dlpi_addr + ph.p_vaddr, e = s + ph.p_memsz;
        if (re && s >= (rs & ~(size_t)4095) && s < re) s = re;
        if (s >= e) continue;
        Image::Seg g; g.p = (u8 *)s; g.n = e - s; g.init.assign(g.p, g.p + g.n);
        im->segs.push_back(g);
    }
    return 1;
}
Image *image(const std::string &name) {
    auto &r = images[name];
    if (r) return r;
    Image *im = new Image;
    im->name = name;
    std::string path = g_build_dir + "/" + name + ".so";
    im->h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!im->h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(3); }
    dl_iterate_phdr(phdr_cb, im);
    return r = im;
}
// thread-local data of the image, for the calling thread
static int tls_cb(struct dl_phdr_info *i, size_t n, void *d) {
    if (!i->dlpi_name || !strstr(i->dlpi_name, (const char *)d) || !i->dlpi_tls_data) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto &ph = i->dlpi_phdr[k];
        if (ph.p_type != PT_TLS) continue;
        memcpy(i->dlpi_tls_data, (void *)(i->dlpi_addr + ph.p_vaddr), ph.p_filesz);
        memset((u8 *)i->dlpi_tls_data + ph.p_filesz, 0, ph.p_memsz - ph.p_filesz);
    }
    return 1;
}
struct TlsFind { const char *name; u8 *p; size_t n; };
static int tls_find_cb(struct dl_phdr_info *i, size_t, void *d) {
    TlsFind &f = *(TlsFind *)d;
    if (!i->dlpi_name || !strstr(i->dlpi_name, f.name) || !i->dlpi_tls_data) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { f.p = (u8 *)i->dlpi_tls_data; f.n = i->dlpi_phdr[k].p_memsz; }
    return 1;
}
static TlsFind tls_of(Image &im) { std::string nm = im.name + ".so"; TlsFind f{nm.c_str(), nullptr, 0}; if (im.has_tls) dl_iterate_phdr(tls_find_cb, &f); return f; }
void Image::reset() {
    for (auto &s : segs) memcpy(s.p, s.init.data(), s.n);
    if (has_tls) dl_iterate_phdr(tls_cb, (void *)(name + ".so").c_str());
}
void *Image::sym(const char *s) { void *p = dlsym(h, s); if (!p) { fprintf(stderr, "missing symbol %s in %s\n", s, name.c_str()); _exit(3); } return p; }
bool Image::writable(const void *q) const { for (auto &s : segs) if ((u8 *)q >= s.p && (u8 *)q < s.p + s.n) return true; return false; }

// ---------------------------------------------------------------- buffers
static u8 canary(size_t i) { return (u8)(0xC3 ^ (i * 29)); }
Buf::Buf(size_t n_, bool at_end) : n(n_) {
    size_t body = (n + 4095) & ~(size_t)4095;
    if (!body) body = 4096;
    maplen = body + 8192;
    map = (u8 *)mmap(nullptr, maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(map, 4096, PROT_NONE);
    mprotect(map + 4096 + body, 4096, PROT_NONE);
    prelen = body - n;
    if (at_end) { pre = map + 4096; p = pre + prelen; }
    else { p = map + 4096; pre = p + n; }
    for (size_t i = 0; i < prelen; i++) pre[i] = canary(i);
    memset(p, 0xEE, n);
}
static u8 *huge_map(size_t n, u8 *&map, size_t &maplen) {
    size_t body = (n + 4095) & ~(size_t)4095;
    maplen = body + 8192;
    map = (u8 *)mmap(nullptr, maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (map == MAP_FAILED) { fprintf(stderr, "no address space\n"); _exit(3); }
    size_t real = std::min(body, HugeBuf::REAL), chunk = HugeBuf::CHUNK;
    mmap(map + 4096, real, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
    int fd = memfd_create("huge", 0);
    if (fd < 0 || ftruncate(fd, chunk)) { fprintf(stderr, "no memory file\n"); _exit(3); }
    for (size_t o = real; o < body; o += chunk) if (mmap(map + 4096 + o, std::min(chunk, body - o), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { fprintf(stderr, "cannot map\n"); _exit(3); }
    close(fd);
    return map + 4096 + (body - n);
}
HugeBuf::HugeBuf(size_t n_) : n(n_) { p = huge_map(n, map, maplen); }
HugeBuf::~HugeBuf() { munmap(map, maplen); }
Buf::~Buf() { munmap(map, maplen); }
void Buf::readonly(bool ro) { mprotect(map + 4096, maplen - 8192, ro ? PROT_READ : PROT_READ | PROT_WRITE); }
bool Buf::slack_ok() const { for (size_t i = 0; i < prelen; i++) if (pre[i] != canary(i)) return false; return true; }

// ---------------------------------------------------------------- inodes
void Inode::mark(size_t off, size_t n) { if (n) for (size_t s = off / SECTOR; s <= (off + n - 1) / SECTOR; s++) { dirty.insert(s); lost.erase(s); } }
void Inode::sync_all() {
    // dropped sectors stay un-persisted until they are written again
    Bytes nd = data;
    for (u32 s : lost) for (size_t i = (size_t)s * SECTOR; i < std::min(nd.size(), (size_t)(s + 1) * SECTOR); i++) nd[i] = i < durable.size() ? durable[i] : 0;
    durable = nd;
    dirty.clear();
}
static void wake_all() { for (auto &p : W->procs) if (p->st == Proc::BLOCKED) p->st = Proc::READY; }

static void drop_open(OpenFile *of) {
    if (--of->refs > 0) return;
    if (of->ino->fl.erase(of)) { if (of->ino->fl.empty()) of->ino->flock_ex = false; wake_all(); }
    delete of;
}
static void close_fd_raw(Proc &p, int fd) {
    auto it = p.fds.find(fd);
    if (it == p.fds.end()) return;
    OpenFile *of = it->second;
    p.fds.erase(it);
    if (of->ino->posix_owner == p.id) { of->ino->posix_owner = -1; wake_all(); }
    drop_open(of);
}

// ---------------------------------------------------------------- world
InodeP World::file(const std::string &path, const Bytes &c) {
    auto i = std::make_shared<Inode>();
    i->label = path; i->data = c; i->durable = c;
    dir[path] = i;
    return i;
}
World::~World() { S->st->sim_ns += now; for (auto &p : procs) { reap(*p); if (p->stack) { munmap(p->stack, STACK + 4096); p->stack = nullptr; } } for (char *b : bufs) free(b); }

static std::vector<u8 *> stack_pool;
static u8 *get_stack() {
    u8 *s;
    if (!stack_pool.empty()) { s = stack_pool.back(); stack_pool.pop_back(); }
    else {
        s = (u8 *)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(s, 4096, PROT_NONE);
    }
    return s;
}
u32 g_stack_fill = 0;
static bool g_mem_dead;
static void prefill_stack(u8 *s) { // deterministic stale stack content
    if (g_stack_fill) { memset(s + 4096 + STACK - 65536, g_stack_fill == 1 ? 0 : g_stack_fill == 2 ? 0xff : 0x31, 65536); return; }
    u64 *q = (u64 *)(s + 4096 + STACK - 65536);
    for (int i = 0; i < 8192; i++) q[i] = 0x5a5a5a5a00000000ULL + i * 0x0101010101ULL;
}
struct Cookie { Proc *p; int fd; int64_t koff = -1; /* FILE::_offset of a file stream */ char *buf = nullptr; bool dead = false; };
void World::reap(Proc &p) {
    for (auto &s : p.streams) { ((Cookie *)s.cookie)->dead = true; fclose(s.f); } // what a dead process buffered is lost
    p.streams.clear();
    g_mem_dead = true;
    for (FILE *f : p.memstreams) fclose(f);
    g_mem_dead = false;
    p.memstreams.clear();
    for (auto &c : p.heap) munmap(c.map, c.maplen);
    p.heap.clear();
    while (!p.fds.empty()) close_fd_raw(p, p.fds.begin()->first);
    if (p.stack) { stack_pool.push_back(p.stack); p.stack = nullptr; }
    for (auto &d : dir) if (d.second && d.second->posix_owner == p.id) d.second->posix_owner = -1;
    wake_all();
}

static void to_sched() {
    Proc *p = g_cur;
    p->saved_errno = errno;
    swapcontext(&p->ctx, &sched_ctx);
    errno = p->saved_errno;
}
void proc_die(Proc &p, Proc::State st, const std::string &why) {
    p.st = st;
    if (st == Proc::CRASHED) p.crash = why;
    EV(0x5000 + st * 16 + p.id, "[%s] %s%s%s", p.name.c_str(), st == Proc::DONE ? "exits" : st == Proc::KILLED ? "is killed" : st == Proc::CRASHED ? "crashes: " : "returns", st == Proc::CRASHED ? why.c_str() : "", st == Proc::DONE ? sfmt(" with status %d", p.exit_code & 255).c_str() : "");
    if (g_cur == &p) { if (g_thread_point) g_thread_die(); setcontext(&sched_ctx); abort(); }
}

static void finish_exit(Proc &p, int code) {
    p.exit_code = code;
    while (!p.at_exit.empty()) { auto f = p.at_exit.back(); p.at_exit.pop_back(); f(); }
    while (!p.streams.empty()) { FILE *f = p.streams.back().f; p.streams.pop_back(); fclose(f); }
    proc_die(p, Proc::DONE, "");
}
static void tramp() {
    Proc *p = g_cur;
    int rc = p->body();
    if (p->in_call) proc_die(*p, Proc::IDLE, "");
    finish_exit(*p, rc);
}

static void on_signal(int sig, siginfo_t *si, void *) {
    if (g_cur && !g_thread_point) {
        Proc &p = *g_cur;
        p.st = Proc::CRASHED;
        p.crash = sig == SIGVTALRM ? "hang: no system call for 30 s of CPU time" : sig == SIGFPE ? "arithmetic fault" : sig == SIGABRT ? "abort" : "invalid memory access";
        signalled = true; // no longjmp: it would walk cleanup records that a process killed inside stdio left behind
        setcontext(&sched_ctx);
    }
    if (g_cur && g_thread_point) {
        g_cur->st = Proc::CRASHED;
        g_cur->crash = sig == SIGVTALRM ? "hang" : sig == SIGFPE ? "arithmetic fault" : "invalid memory access";
        g_thread_die();
    }
    signal(sig, SIG_DFL);
    raise(sig);
}
void os_init() {
    stack_t ss = {};
    ss.ss_size = 1 << 16; ss.ss_sp = malloc(ss.ss_size);
    sigaltstack(&ss, nullptr);
    struct sigaction sa = {};
    sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
}

int g_watchdog_s = 30;
static void watchdog(bool on) { struct itimerval it = {}; if (on) it.it_value.tv_sec = g_watchdog_s; setitimer(ITIMER_VIRTUAL, &it, nullptr); }

static void resume(Proc &p) {
    g_cur = &p;
    watchdog(true);
    if (p.st == Proc::NEW) {
        p.st = Proc::READY;
        if (!p.stack) p.stack = get_stack();
        prefill_stack(p.stack);
        getcontext(&p.ctx);
        p.ctx.uc_stack.ss_sp = p.stack + 4096; p.ctx.uc_stack.ss_size = STACK; p.ctx.uc_link = nullptr;
        makecontext(&p.ctx, tramp, 0);
        errno = 0; p.saved_errno = 0;
    }
    signalled = false;
    swapcontext(&sched_ctx, &p.ctx);
    if (signalled) {
        signalled = false;
        EV(0x5000 + p.st * 16 + p.id, "[%s] crashes: %s", p.name.c_str(), p.crash.c_str());
    }
    watchdog(false);
    g_cur = nullptr;
}

void World::run_all() {
    Proc *last = nullptr;
    for (;;) {
        if (powered_off) { for (auto &p : procs) if (p->st != Proc::IDLE && p->st < Proc::DONE) { p->st = Proc::KILLED; } }
        for (auto &p : procs) if (p->st >= Proc::DONE && p->st != Proc::IDLE && p->stack) { if (p->st == Proc::KILLED && on_death) on_death(*p); reap(*p); }
        if (S->violated) throw RunStop();
        std::vector<Proc *> r;
        u64 nextwake = ~0ULL;
        for (auto &p : procs) {
            if (p->st == Proc::SLEEPING) { if (p->wake <= now) p->st = Proc::READY; else nextwake = std::min(nextwake, p->wake); }
            if (p->st == Proc::NEW || p->st == Proc::READY) { if (p->stalled > now) nextwake = std::min(nextwake, p->stalled); else r.push_back(p.get()); }
        }
        if (stall_den && !r.empty() && flip(1, stall_den)) {
            static const u64 how[] = {100000, 10000000, 1000000000, 100000000000ULL};
            Proc *x = r[choose(r.size())];
            x->stalled = now + pick(how);
            stalls++;
            fault_fired("stalled_process");
            EV(0x6800 + x->id, "   -- %s stalls for %llu us", x->name.c_str(), (unsigned long long)((x->stalled - now) / 1000));
            continue;
        }
        if (r.empty()) {
            if (nextwake != ~0ULL) { now = nextwake; continue; }
            for (auto &p : procs) if (p->st == Proc::BLOCKED) { deadlock = p->name + " waits forever for " + p->blocked_on; break; }
            return;
        }
        Proc *n = r.size() == 1 ? r[0] : r[choose(r.size())];
        if (r.size() > 1) EV(0x6000 + n->id, "   -- scheduler: %s runs", n->name.c_str());
        last = n;
        resume(*n);
    }
}

void World::power_loss() {
    EV(0x7001, "== power loss ==");
    S->st->faults["power_loss"]++; S->nfaults++;
    for (auto &p : procs) if (p->st != Proc::DONE && p->st != Proc::CRASHED && p->st != Proc::KILLED) p->st = Proc::KILLED;
    for (auto &p : procs) reap(*p);
    // directory: a prefix of the un-synced changes survives
    if (!journal.empty()) {
        u32 keep = choose(journal.size() + 1); // 0 = nothing of it survives
        for (size_t i = journal.size(); i-- > keep;) { auto &m = journal[i]; if (m.before) dir[m.path] = m.before; else dir.erase(m.path); }
        EV(0x7002 + keep, "   %u of %zu un-synced directory changes survive", keep, journal.size());
        journal.clear();
    }
    std::set<Inode *> seen;
    for (auto &d : dir) {
        Inode &i = *d.second;
        if (!seen.insert(&i).second || i.dir || i.fifo || i.entropy) continue;
        std::vector<u32> ds(i.dirty.begin(), i.dirty.end());
        Bytes img = i.durable;
        bool newsize = i.data.size() != i.durable.size() && (i.dirty.size() + i.lost.size()) ? choose(2) : 0;
        if (newsize || i.data.size() == i.durable.size()) img.resize(i.data.size());
        if (!ds.empty()) {
            std::set<u32> keep;
            u32 mode = choose(5); // none, all, prefix, one, random subset
            if (mode == 1) keep.insert(ds.begin(), ds.end());
            else if (mode == 2) { u32 k = choose(ds.size() + 1); keep.insert(ds.begin(), ds.begin() + k); }
            else if (mode == 3) keep.insert(ds[choose(ds.size())]);
            else if (mode == 4) { Rng r(choose(1 << 16) + 77); for (u32 s : ds) if (r.next() >> 63) keep.insert(s); }
            for (u32 s : keep) for (size_t b = (size_t)s * SECTOR; b < std::min(img.size(), (size_t)(s + 1) * SECTOR); b++) if (b < i.data.size()) img[b] = i.data[b];
            EV(0x7100 + mode * 64 + keep.size(), "   %s: %zu of %zu unsynced sectors survive", i.label.c_str(), keep.size(), ds.size());
            if (keep.size() && keep.size() < ds.size()) probe("power_loss_torn");
            if (keep.empty()) probe("power_loss_all_lost");
        }
        i.data = i.durable = img;
        i.dirty.clear(); i.lost.clear();
        i.posix_owner = -1;
    }
    powered_off = false;
    power_at = -1;
}

std::vector<InodeP> World::crash_candidates(const std::string &path) {
    std::vector<InodeP> v;
    InodeP c = dir.count(path) ? dir[path] : nullptr;
    v.push_back(c);
    for (size_t i = journal.size(); i-- > 0;) if (journal[i].path == path) { c = journal[i].before; v.push_back(c); }
    return v;
}

// ---------------------------------------------------------------- system call frame
static Proc &enter(const char *name, long a = 0, long b = 0, bool write_op = false) {
    if (g_thread_point) { g_thread_point(name); return *g_cur; }
    Proc &p = *g_cur;
    p.ops++; W->steps++; S->st->steps++;
    p.op_label = nullptr;
    W->now += 1000;
    EV(hash_str(name) ^ (p.id * 0x10001) ^ mix64(a * 7 + b), "[%s] %s %ld %ld", p.name.c_str(), name, a, b);
    if (W->steps > W->step_cap) proc_die(p, Proc::CRASHED, "no progress: step limit reached");
    if (W->power_at >= 0 && (long)W->steps >= W->power_at) { W->powered_off = true; proc_die(p, Proc::KILLED, ""); }
    if (p.kill_at >= 0 && (long)p.ops > p.kill_at && !(write_op && p.kill_mid)) { fault_fired("process_kill"); proc_die(p, Proc::KILLED, ""); }
    if (W->on_step) { W->on_step(); if (S->violated) proc_die(p, Proc::KILLED, ""); }
    if (W->sched_den) {
        bool others = false;
        for (auto &q : W->procs) if (q.get() != &p && (q->st == Proc::NEW || q->st == Proc::READY)) others = true;
        if (others && flip(1, W->sched_den)) { p.st = Proc::READY; to_sched(); }
    }
    return p;
}
static int fault_at(Proc &p, std::initializer_list<int> kinds) {
    if (p.persist >= 0 && p.persist_left && p.ops >= p.persist_from) for (int k : kinds) if (k == p.persist) { p.persist_left--; return k; }
    if (!p.rate_num || p.ops < p.faults_from || (!p.fault_only.empty() && (!p.op_label || p.op_label->compare(0, p.fault_only.size(), p.fault_only))) || p.hard + p.soft >= p.max_faults) return -1;
    int cand[FK_KINDS], n = 0;
    for (int k : kinds) if (p.allow[k] && !(k >= FK_ENT_OPEN && k <= FK_ENT_EOF && k != FK_ENT_SHORT && p.ent_fails_left == 0)) cand[n++] = k;
    if (!n || !flip(p.rate_num, p.rate_den)) return -1;
    return cand[choose(n)];
}
static void fired(Proc &p, int k, const char *where) {
    if (fault_soft(k)) p.soft++; else p.hard++;
    if (k >= FK_ENT_OPEN && k <= FK_ENT_EOF && k != FK_ENT_SHORT && p.ent_fails_left) p.ent_fails_left--;
    fault_fired(FAULT_NAMES[k]);
    if (k == p.persist && ++p.persist_hits > 4) return;
    if (p.persist_hits == 1 && k == p.persist) probe("persistent_faults");
    p.fired.push_back(sfmt("%s@%s#%llu", FAULT_NAMES[k], where, (unsigned long long)p.ops));
    if (S->verbose) logf_("   !! fault: %s", FAULT_NAMES[k]);
}
static OpenFile *get(Proc &p, int fd) { auto it = p.fds.find(fd); if (it == p.fds.end()) return nullptr; p.op_label = &it->second->ino->label; return it->second; }
static int newfd(Proc &p, OpenFile *of) { int fd = 0; while (p.fds.count(fd)) fd++; p.fds[fd] = of; return fd; }
static std::string norm(const char *path) { std::string s = path; while (s.compare(0, 2, "./") == 0) s = s.substr(2); while (s.size() > 1 && s.back() == '/') s.pop_back(); return s; }

static void ent_check_spin(Proc &p) {
    if (g_thread_point) return; // one record per process, not per thread
    // a new attempt directly after an unsuccessful one, with no time in between but the calls'
    if (p.ent_last_failed && p.slept_ns == p.ent_last_fail_time) set_violation("spin", sfmt("%s: retried the entropy source without waiting after an unsuccessful attempt", p.name.c_str()));
    p.ent_last_failed = false;
}
static void ent_failed(Proc &p) { p.ent_last_failed = true; p.ent_last_fail_time = p.slept_ns; }
static ssize_t ent_read(Proc &p, u8 *buf, size_t n, const char *where) {
    ent_check_spin(p);
    if (n == 0) return 0;
    p.ent_ops++;
    int f = fault_at(p, {FK_ENT_EIO, FK_ENT_EINTR, FK_ENT_SHORT, FK_ENT_EOF});
    if (f == FK_ENT_EIO) { fired(p, f, where); errno = EIO; ent_failed(p); return -1; }
    if (f == FK_ENT_EINTR) { fired(p, f, where); errno = EINTR; return -1; }
    if (f == FK_ENT_EOF) { fired(p, f, where); ent_failed(p); return 0; }
    size_t k = n > 33554431 ? 33554431 : n;
    if (f == FK_ENT_SHORT && k > 1) { fired(p, f, where); k = 1 + choose(k - 1); }
    if (W->ent_big) {
        for (size_t i = 0; i < k;) { size_t o = (W->ent_big_count + i) % W->ent_big->size(), c = std::min(k - i, W->ent_big->size() - o); memcpy(buf + i, W->ent_big->data() + o, c); i += c; }
        W->ent_big_count += k;
        return k;
    }
    size_t at = p.entropy.size();
    p.entropy.resize(at + k);
    for (size_t i = 0; i < k; i++, W->ent_pos++) { if (W->ent_pos % 8 == 0 || !i) W->ent_word = mix64(W->ent_seed + W->ent_pos / 8 * 0x9E37ULL); p.entropy[at + i] = (u8)(W->ent_word >> (W->ent_pos % 8 * 8)); }
    memcpy(buf, p.entropy.data() + at, k);
    return k;
}

static ssize_t do_read(int fd, void *buf, size_t n, int64_t at) {
    Proc &p = enter("read", fd, n);
    OpenFile *of = get(p, fd);
    if (!of || (of->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    Inode &i = *of->ino;
    if (i.dir) { errno = EISDIR; return -1; }
    if (i.entropy) return ent_read(p, (u8 *)buf, n, "read");
    int f = fault_at(p, {FK_EINTR, FK_EIO, FK_SHORT, FK_EOF});
    if (f == FK_EINTR || f == FK_EIO) { fired(p, f, ("read:" + i.label).c_str()); errno = f == FK_EIO ? EIO : EINTR; return -1; }
    u64 off = at >= 0 ? at : of->off;
    size_t k = off < i.size() ? std::min<u64>(std::min<u64>(n, i.size() - off), 0x7ffff000) : 0; // the kernel transfers no more at once
    if (f == FK_EOF && k) { fired(p, f, ("read:" + i.label).c_str()); of->eof = true; }
    if (of->eof) return 0;
    if (f == FK_SHORT && k > 1) { fired(p, f, ("read:" + i.label).c_str()); k = 1 + choose(k - 1); }
    size_t real = off < i.data.size() ? std::min<u64>(k, i.data.size() - off) : 0;
    if (real) memcpy(buf, i.data.data() + off, real);
    if (k > real) memset((u8 *)buf + real, 0, k - real);
    if (at < 0) of->off += k;
    return k;
}
// the whole range must be accessible; if it is not, the process crashes here (a kernel
// would stop the transfer at the same byte)
static void touch(const void *buf, size_t n) {
    volatile const u8 *b = (const u8 *)buf;
    for (size_t i = 0; i < n; i += 4096) (void)b[i];
    if (n) (void)b[n - 1];
}
static ssize_t do_write(int fd, const void *buf, size_t n, int64_t at) {
    Proc &p = enter("write", fd, n, true);
    touch(buf, n);
    OpenFile *of = get(p, fd);
    if (!of || (of->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    Inode &i = *of->ino;
    if (i.entropy || i.null) return n;
    bool out = i.sink && i.label == "stdout";
    bool mid = p.kill_at >= 0 && (long)p.ops > p.kill_at && p.kill_mid;
    size_t k = std::min<size_t>(n, 0x7ffff000);
    if (i.sink) {
        int f = fault_at(p, {FK_EINTR, FK_EIO, FK_SHORT, FK_EPIPE, FK_ENOSPC, FK_SIGPIPE});
        if (i.label == "stderr" && f != FK_SHORT) f = -1;
        if (f == FK_SIGPIPE && p.sigpipe_ignored) f = FK_EPIPE;
        if (f >= 0 && f != FK_SHORT) {
            fired(p, f, ("write:" + i.label).c_str());
            if (f == FK_SIGPIPE) proc_die(p, Proc::KILLED, "");
            errno = f == FK_EINTR ? (choose(2) ? EAGAIN /* a pipe that is full, and not to be waited for */ : EINTR) : f == FK_EIO ? EIO : f == FK_EPIPE ? EPIPE : ENOSPC;
            if (errno == EAGAIN) probe("full_pipe");
            return -1;
        }
        if (f == FK_SHORT && k > 1) { fired(p, f, ("write:" + i.label).c_str()); k = 1 + choose(k - 1); }
        if (mid && k > 4096) k = 4096 * choose(k / 4096 + 1);
        Bytes &o = out ? p.outbytes : p.errbytes;
        size_t keep = out ? std::min<u64>(k, p.out_limit - o.size()) : k;
        o.insert(o.end(), (const u8 *)buf, (const u8 *)buf + keep);
        if (keep < k) {
            const u8 *q = (const u8 *)buf + keep; size_t len = k - keep;
            p.out_more += len;
            if (*q || (len > 1 && memcmp(q, q + 1, len - 1))) p.out_nonzero = true;
        }
        if (out && W->on_stdout && k) { W->on_stdout(p, (const u8 *)buf, k); if (S->violated) proc_die(p, Proc::KILLED, ""); }
    } else {
        u64 off = at >= 0 ? at : (of->flags & O_APPEND) ? i.data.size() : of->off;
        int f = fault_at(p, {FK_EINTR, FK_EIO, FK_SHORT, FK_ENOSPC});
        bool err = f >= 0 && f != FK_SHORT;
        if (err) {
            fired(p, f, ("write:" + i.label).c_str());
            k = 0;
            // a failed write may have reached some pages
            if (f == FK_EIO && n && off / PAGE != (off + n - 1) / PAGE) { u64 b = off / PAGE + choose((off + n - 1) / PAGE - off / PAGE + 1); k = b * PAGE > off ? b * PAGE - off : 0; }
        }
        if (f == FK_SHORT && k > 1) { fired(p, f, ("write:" + i.label).c_str()); k = 1 + choose(k - 1); }
        if (mid) { // pages are copied one by one; a fatal signal can come between them
            u64 b = off / PAGE + (k ? choose((off + k - 1) / PAGE - off / PAGE + 1) : 0);
            k = b * PAGE > off ? std::min<u64>(k, b * PAGE - off) : 0;
            if (k && k < n) probe("kill_tore_write");
        }
        if (k) {
            if (off + k > i.data.size()) { i.mark(i.data.size(), off + k - i.data.size()); i.data.resize(off + k); }
            memcpy(i.data.data() + off, buf, k);
            i.mark(off, k);
            p.file_writes += k;
            if (of->flags & (O_SYNC | O_DSYNC)) i.sync_all();
        }
        if (at < 0) of->off = off + k;
        if (err) { static const int full[] = {ENOSPC, ENOSPC, EDQUOT, EFBIG}; errno = f == FK_EINTR ? EINTR : f == FK_EIO ? EIO : pick(full); return -1; }
    }
    if (mid) { fault_fired("process_kill_mid_write"); proc_die(p, Proc::KILLED, ""); }
    return k;
}
static int meta_set(const std::string &path, InodeP to) {
    MetaOp m; m.path = path; m.before = W->dir.count(path) ? W->dir[path] : nullptr; m.after = to;
    W->journal.push_back(m);
    if (to) W->dir[path] = to; else W->dir.erase(path);
    return 0;
}
static int do_open(const char *path0, int flags) {
    Proc &p = enter("open", (long)(hash_str(norm(path0).c_str()) & 0xffff), flags);
    std::string path = norm(path0);
    auto it = W->dir.find(path);
    if (S->verbose) logf_("      path %s", path0);
    if (it != W->dir.end() && it->second->entropy) {
        ent_check_spin(p);
        p.ent_ops++;
        int f = fault_at(p, {FK_ENT_OPEN});
        if (f >= 0) { fired(p, f, "open"); static const int es[] = {EMFILE, EACCES, EINTR, ENOENT, ENFILE}; errno = pick(es); if (errno != EINTR) ent_failed(p); return -1; }
    } else {
        int f = fault_at(p, {FK_OPEN});
        if (f >= 0) { fired(p, f, ("open:" + path).c_str()); static const int es[] = {EMFILE, EACCES, EINTR, EIO, ENOMEM}; errno = pick(es); return -1; }
    }
    InodeP ino;
    if (it == W->dir.end()) {
        if (path == "." || path == "/") { ino = std::make_shared<Inode>(); ino->label = path; ino->dir = true; }
        else if (flags & O_CREAT) { ino = std::make_shared<Inode>(); ino->label = path; meta_set(path, ino); }
        else { errno = ENOENT; return -1; }
    } else {
        ino = it->second;
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        if (ino->dir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
        if ((flags & O_TRUNC) && !ino->dir && !ino->entropy && !ino->fifo) { ino->mark(0, ino->data.size()); ino->data.clear(); }
    }
    OpenFile *of = new OpenFile;
    of->ino = ino; of->flags = flags; of->path = path;
    return newfd(p, of);
}
static int do_close(int fd) {
    Proc &p = enter("close", fd);
    OpenFile *of = get(p, fd);
    if (!of) { errno = EBADF; return -1; }
    int f = of->ino->entropy ? -1 : fault_at(p, {FK_CLOSE});
    std::string l = of->ino->label;
    close_fd_raw(p, fd);
    if (f >= 0) { fired(p, f, ("close:" + l).c_str()); errno = EIO; return -1; }
    return 0;
}
static off_t do_lseek(int fd, off_t o, int wh) {
    Proc &p = enter("lseek", fd, o * 4 + wh);
    OpenFile *of = get(p, fd);
    if (!of) { errno = EBADF; return -1; }
    Inode &i = *of->ino;
    if (i.null) return 0;
    if (i.fifo || (i.sink && !i.seekable)) { errno = ESPIPE; return -1; }
    int f = i.entropy ? -1 : fault_at(p, {FK_SEEK});
    if (f >= 0) { fired(p, f, ("seek:" + i.label).c_str()); errno = EIO; return -1; }
    int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)of->off : i.dir ? INT64_MAX : i.sink ? (int64_t)(p.outbytes.size() + p.out_more) : (int64_t)i.size();
    int64_t r;
    if (__builtin_add_overflow(base, (int64_t)o, &r) || r < 0) { errno = EINVAL; return -1; }
    of->off = r;
    return r;
}
static int do_fsync(int fd, const char *nm) {
    Proc &p = enter(nm, fd);
    OpenFile *of = get(p, fd);
    if (!of) { errno = EBADF; return -1; }
    Inode &i = *of->ino;
    if (i.fifo || i.sink || i.entropy) { errno = EINVAL; return -1; }
    int f = fault_at(p, {FK_SYNC_DROP, FK_SYNC_KEEP, FK_EINTR});
    if (f >= 0) {
        fired(p, f, ("sync:" + i.label).c_str());
        if (f == FK_SYNC_DROP) { i.lost.insert(i.dirty.begin(), i.dirty.end()); i.dirty.clear(); }
        errno = f == FK_EINTR ? EINTR : EIO;
        return -1;
    }
    i.sync_all();
    W->journal.clear();
    probe("sync_ok");
    return 0;
}
static int block(Proc &p, const std::string &why) { // wait until a lock may have become free
    p.st = Proc::BLOCKED; p.blocked_on = why;
    probe("lock_waited");
    EV(0x6100 + p.id, "[%s] waits for %s", p.name.c_str(), why.c_str());
    to_sched();
    return 0;
}
static int lock_fault(Proc &p, const char *l) {
    int f = fault_at(p, {FK_LOCK});
    if (f < 0) return 0;
    fired(p, f, (std::string("lock:") + l).c_str());
    static const int es[] = {ENOLCK, EINTR};
    errno = pick(es);
    return -1;
}
static int do_flock(int fd, int op) {
    Proc &p = enter("flock", fd, op);
    OpenFile *of = get(p, fd);
    if (!of) { errno = EBADF; return -1; }
    Inode &i = *of->ino;
    if (op & LOCK_UN) { if (i.fl.erase(of)) { if (i.fl.empty()) i.flock_ex = false; wake_all(); } return 0; }
    if (lock_fault(p, i.label.c_str())) return -1;
    bool ex = op & LOCK_EX;
    if (i.fl.count(of) && i.flock_ex != ex) { i.fl.erase(of); if (i.fl.empty()) i.flock_ex = false; wake_all(); } // a conversion gives the old lock up first
    for (;;) {
        bool others = false;
        for (auto *o : i.fl) if (o != of) others = true;
        if (!others || (!ex && !i.flock_ex)) break;
        if (op & LOCK_NB) { errno = EWOULDBLOCK; return -1; }
        if (g_thread_point) { errno = ENOLCK; return -1; }
        block(p, "flock on " + i.label);
    }
    i.fl.insert(of); i.flock_ex = ex;
    return 0;
}
static int do_posix_lock(int fd, int type, bool wait) {
    Proc &p = enter("setlk", fd, type);
    OpenFile *of = get(p, fd);
    if (!of) { errno = EBADF; return -1; }
    InodeP i = of->ino;
    if (type == F_UNLCK) { if (i->posix_owner == p.id) { i->posix_owner = -1; wake_all(); } return 0; }
    if (lock_fault(p, i->label.c_str())) return -1;
    while (i->posix_owner >= 0 && i->posix_owner != p.id) {
        if (!wait) { errno = EAGAIN; return -1; }
        block(p, "record lock on " + i->label);
    }
    i->posix_owner = p.id;
    return 0;
}
static void do_sleep(u64 ns) {
    Proc &p = enter("sleep", ns / 1000000);
    p.slept_ns += ns;
    if (g_thread_point) { g_thread_point("sleep"); return; }
    p.st = Proc::SLEEPING; p.wake = W->now + ns;
    to_sched();
}
static void fill_stat(OpenFile *of, Inode *i, struct stat *s) {
    memset(s, 0, sizeof *s);
    s->st_mode = i->dir ? S_IFDIR | 0755 : i->fifo || (i->sink && !i->seekable) ? S_IFIFO | 0600 : i->entropy ? S_IFCHR | 0666 : S_IFREG | 0600;
    s->st_size = i->fifo || i->entropy ? 0 : i->dir ? 4096 : i->size();
    s->st_blksize = 4096; s->st_nlink = 1; s->st_ino = (hash_str(i->label.c_str()) & 0xffff) + 1;
    s->st_blocks = (s->st_size + 511) / 512;
}

// ---------------------------------------------------------------- streams
// glibc's own stream code over the simulated descriptors. Custom (cookie) streams drop their
// buffer at every seek; file streams do not, so fseek is done here as glibc does it for files.
static ssize_t ck_read(void *c, char *b, size_t n) { Cookie *k = (Cookie *)c; if (k->dead) return 0; ssize_t r = do_read(k->fd, b, n, -1); if (r > 0 && k->koff >= 0) k->koff += r; return r; }
static ssize_t ck_write(void *c, const char *b, size_t n) { // as glibc's file streams do it
    Cookie *k = (Cookie *)c;
    if (k->dead) return n;
    size_t done = 0;
    while (done < n) {
        ssize_t r = do_write(k->fd, b + done, n - done, -1);
        if (r < 0) break;
        done += r;
    }
    if (k->koff >= 0) k->koff += done;
    return done;
}
static int ck_seek(void *c, off64_t *o, int wh) { if (((Cookie *)c)->dead) return -1; off_t r = do_lseek(((Cookie *)c)->fd, *o, wh); if (r < 0) return -1; *o = r; ((Cookie *)c)->koff = r; return 0; }
static int ck_close(void *c) {
    Cookie *k = (Cookie *)c;
    int fd = k->fd;
    bool dead = k->dead;
    if (k->buf) W->bufs.push_back(k->buf);
    delete k;
    return dead ? 0 : do_close(fd);
}
static FILE *mkstream(Proc &p, int fd, const char *mode, bool buffer = false) {
    Cookie *c = new Cookie{&p, fd};
    FILE *f = fopencookie(c, mode, {ck_read, ck_write, ck_seek, ck_close});
    if (buffer) { c->buf = (char *)malloc(p.bufsize); setvbuf(f, c->buf, _IOFBF, p.bufsize); }
    p.streams.push_back({f, fd, c});
    return f;
}
static Inode *ino_of(FILE *f, Cookie *c) { OpenFile *of = get(*c->p, c->fd); return of ? of->ino.get() : nullptr; }
static int file_seek(FILE *f, int64_t offset, int dir) {
    Cookie *c = nullptr;
    for (auto &s : g_cur->streams) if (s.f == f) c = (Cookie *)s.cookie;
    Inode *ino = c ? ino_of(f, c) : nullptr;
    if (!ino || ino->fifo || ino->sink || ino->dir || ino->entropy) return fseeko64(f, offset, dir);
    bool was_writing = f->_IO_write_ptr > f->_IO_write_base || (f->_flags & 0x800 /* _IO_CURRENTLY_PUTTING */);
    bool exact = f->_IO_read_base == f->_IO_read_end && f->_IO_write_base == f->_IO_write_ptr;
    auto setg = [&](char *b, char *p, char *e) { f->_IO_read_base = b; f->_IO_read_ptr = p; f->_IO_read_end = e; f->_IO_write_base = f->_IO_write_ptr = f->_IO_write_end = f->_IO_buf_base; };
    if (was_writing) {
        if (fflush(f)) return -1;
        f->_flags &= ~0x800;
        setg(f->_IO_buf_base, f->_IO_buf_base, f->_IO_buf_base);
    }
    if (!f->_IO_buf_base) return fseeko64(f, offset, dir);
    if (dir == SEEK_CUR) {
        offset -= f->_IO_read_end - f->_IO_read_ptr;
        if (c->koff < 0) goto dumb;
        offset += c->koff;
        if (offset < 0) { errno = EINVAL; return -1; }
    } else if (dir == SEEK_END) offset += ino->size();
    else if (dir != SEEK_SET || offset < 0) { errno = EINVAL; return -1; }
    dir = SEEK_SET;
    if (c->koff >= 0 && f->_IO_read_base) { // within the buffer
        int64_t start = c->koff - (f->_IO_read_end - f->_IO_buf_base);
        if (offset >= start && offset < c->koff) {
            setg(f->_IO_buf_base, f->_IO_buf_base + (offset - start), f->_IO_read_end);
            f->_flags &= ~0x10; // _IO_EOF_SEEN
            do_lseek(c->fd, c->koff, SEEK_SET);
            return 0;
        }
    }
    if (!(f->_flags & 4 /* _IO_NO_READS */)) { // to the start of a block
        int64_t size = f->_IO_buf_end - f->_IO_buf_base, at = offset & ~(size - 1), delta = offset - at, count = 0;
        if (delta > size) { at = offset; delta = 0; }
        if (do_lseek(c->fd, at, SEEK_SET) < 0) return -1;
        if (delta) count = do_read(c->fd, f->_IO_buf_base, exact ? delta : size, -1);
        if (count >= delta) {
            setg(f->_IO_buf_base, f->_IO_buf_base + delta, f->_IO_buf_base + count);
            c->koff = at + count;
            f->_flags &= ~0x10;
            return 0;
        }
        offset = count < 0 ? delta : delta - count;
        dir = SEEK_CUR;
    }
dumb:
    off_t r = do_lseek(c->fd, offset, dir);
    if (r < 0) return -1;
    f->_flags &= ~0x10;
    c->koff = r;
    setg(f->_IO_buf_base, f->_IO_buf_base, f->_IO_buf_base);
    return 0;
}
static int mode_flags(const char *m) {
    int fl = strchr(m, '+') ? O_RDWR : m[0] == 'r' ? O_RDONLY : O_WRONLY;
    if (m[0] == 'w') fl |= O_CREAT | O_TRUNC;
    if (m[0] == 'a') fl |= O_CREAT | O_APPEND;
    if (strchr(m, 'x')) fl |= O_EXCL;
    return fl;
}
static OpenFile *mksink(const char *label, bool seekable, int flags) {
    OpenFile *of = new OpenFile;
    of->ino = std::make_shared<Inode>();
    of->ino->label = label; of->ino->sink = true; of->ino->seekable = seekable; of->flags = flags;
    return of;
}
static void std_streams(Proc &p, bool out_seekable) {
    OpenFile *in = new OpenFile;
    in->ino = std::make_shared<Inode>(); in->ino->label = "stdin"; in->ino->fifo = true;
    p.fds[0] = in;
    p.fds[1] = mksink("stdout", out_seekable, O_WRONLY);
    p.fds[2] = mksink("stderr", false, O_WRONLY);
    p.in = mkstream(p, 0, "r"); p.out = mkstream(p, 1, "w", true); p.err = mkstream(p, 2, "w");
    setvbuf(p.err, nullptr, _IONBF, 0);
    *(FILE **)p.img->sym("shim_stdin") = p.in;
    *(FILE **)p.img->sym("shim_stdout") = p.out;
    *(FILE **)p.img->sym("shim_stderr") = p.err;
}
// standard streams of processes that only use the library: not buffered, shared by all
static ssize_t con_read(void *, char *b, size_t n) { return do_read(0, b, n, -1); }
static ssize_t con_write(void *c, const char *b, size_t n) { ssize_t r = do_write((int)(long)c, b, n, -1); return r < 0 ? 0 : r; }
static void console(Proc &p) {
    static FILE *f[3];
    for (long i = 0; i < 3; i++) {
        if (!f[i]) {
            f[i] = fopencookie((void *)i, i ? "w" : "r", {i ? nullptr : con_read, i ? con_write : nullptr, nullptr, nullptr});
            setvbuf(f[i], nullptr, _IONBF, 0);
            __fsetlocking(f[i], FSETLOCKING_BYCALLER);
        }
        clearerr(f[i]);
    }
    *(FILE **)p.img->sym("shim_stdin") = f[0];
    *(FILE **)p.img->sym("shim_stdout") = f[1];
    *(FILE **)p.img->sym("shim_stderr") = f[2];
    u32 k = p.name == "twin" ? 0 : choose(16); // what the program has open already (setups, made once for many runs, choose nothing)
    if (k == 15) return;
    for (int i = 0; i < 3; i++) {
        if (k == 14 && !i) continue;
        p.fds[i] = mksink(i == 2 ? "stderr" : i ? "stdout" : "stdin", false, i ? O_WRONLY : O_RDONLY);
        if (!i) { p.fds[i]->ino->sink = false; p.fds[i]->ino->fifo = true; }
    }
    if (k < 12) return;
    u32 more = k == 13 ? 1100 : 1 + choose(300);
    OpenFile *of = mksink("other", false, O_RDWR);
    of->refs = more;
    for (u32 i = 0; i < more; i++) p.fds[3 + i] = of;
    probe("many_descriptors");
}
Proc &World::spawn(const std::string &name, Image *img, std::function<int()> body, bool fresh) {
    procs.emplace_back(new Proc);
    Proc &p = *procs.back();
    p.id = procs.size(); p.name = name; p.img = img; p.body = std::move(body);
    if (img && fresh) img->reset();
    if (img && !p.body) console(p);
    S->st->calls++;
    return p;
}
Proc &tool(World &w, const std::string &name, Image *img, std::vector<std::string> args) {
    auto argv = std::make_shared<std::vector<std::string>>(args);
    auto ptrs = std::make_shared<std::vector<char *>>();
    for (auto &a : *argv) ptrs->push_back(&a[0]);
    ptrs->push_back(nullptr);
    typedef int (*mainfn)(int, char **);
    mainfn m = (mainfn)img->sym("tool_main");
    int argc = args.size();
    return w.spawn(name, img, [m, argc, argv, ptrs]() {
        optind = 0; // getopt starts over
        std_streams(*g_cur, g_cur->out_file);
        for (int i = 0; i < 3; i++) if (g_cur->closed >> i & 1) { OpenFile *of = g_cur->fds[i]; g_cur->fds.erase(i); delete of; }
        return m(argc, ptrs->data());
    });
}
bool call(Proc &p, std::function<void()> f) {
    p.body = [&f]() { f(); return 0; };
    p.st = Proc::NEW; p.in_call = true;
    if (!p.stack) p.stack = get_stack();
    for (;;) {
        resume(p);
        if (p.st == Proc::SLEEPING) { W->now = std::max(W->now, p.wake); p.st = Proc::READY; continue; }
        if (p.st == Proc::READY) continue;
        break;
    }
    return p.st == Proc::IDLE;
}

void ForkPoint::save(Proc &p) {
    for (auto &g : p.img->segs) segs.emplace_back(g.p, g.p + g.n);
    TlsFind t = tls_of(*p.img);
    if (t.p) tls.assign(t.p, t.p + t.n);
    for (auto &b : p.heap) heap.push_back({b, Bytes(b.map, b.map + b.maplen - 4096)});
    for (auto &f : p.fds) { f.second->refs++; fds.insert(f); }
}
void ForkPoint::restore(Proc &p) {
    for (size_t i = 0; i < segs.size(); i++) memcpy(p.img->segs[i].p, segs[i].data(), segs[i].size());
    TlsFind t = tls_of(*p.img);
    if (t.p && tls.size() == t.n) memcpy(t.p, tls.data(), t.n);
    for (auto &b : p.heap) munmap(b.map, b.maplen);
    p.heap.clear();
    for (auto &b : heap) {
        u8 *m = (u8 *)mmap(b.first.map, b.first.maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
        if (m != b.first.map) { fprintf(stderr, "cannot restore the heap\n"); _exit(3); }
        memcpy(m, b.second.data(), b.second.size());
        mprotect(m + b.first.maplen - 4096, 4096, PROT_NONE);
        p.heap.push_back(b.first);
    }
    while (!p.fds.empty()) close_fd_raw(p, p.fds.begin()->first);
    p.fds = fds;
    fds.clear();
}

// ---------------------------------------------------------------- what the code under test calls
#define X extern "C" __attribute__((visibility("default"), used))
X int sim_open(const char *f, int fl, ...) { return do_open(f, fl); }
X int sim_open64(const char *f, int fl, ...) { return do_open(f, fl); }
X int sim_openat(int, const char *f, int fl, ...) { return do_open(f, fl); }
X int sim_openat64(int, const char *f, int fl, ...) { return do_open(f, fl); }
X int sim_creat(const char *f, mode_t) { return do_open(f, O_CREAT | O_WRONLY | O_TRUNC); }
X int sim_creat64(const char *f, mode_t) { return do_open(f, O_CREAT | O_WRONLY | O_TRUNC); }
X int sim_close(int fd) { return do_close(fd); }
X ssize_t sim_read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1); }
X ssize_t sim_write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
X ssize_t sim_pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
X ssize_t sim_pread64(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
X ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
X ssize_t sim_pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
X ssize_t sim_readv(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = do_read(fd, v[i].iov_base, v[i].iov_len, -1); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
X ssize_t sim_writev(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, -1); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
X off_t sim_lseek(int fd, off_t o, int w) { return do_lseek(fd, o, w); }
X off_t sim_lseek64(int fd, off_t o, int w) { return do_lseek(fd, o, w); }
X int sim_fsync(int fd) { return do_fsync(fd, "fsync"); }
X int sim_fdatasync(int fd) { return do_fsync(fd, "fdatasync"); }
X void sim_sync() { enter("sync"); for (auto &d : W->dir) d.second->sync_all(); W->journal.clear(); }
X int sim_syncfs(int fd) { return do_fsync(fd, "syncfs"); }
X int sim_sync_file_range(int fd, off_t, off_t, unsigned) { enter("sync_file_range", fd); return 0; }
static int do_trunc(Inode &i, off_t n) { i.mark(std::min<size_t>(n, i.data.size()), std::max<size_t>(n, i.data.size()) - std::min<size_t>(n, i.data.size())); i.data.resize(n); return 0; }
X int sim_ftruncate(int fd, off_t n) { Proc &p = enter("ftruncate", fd, n); OpenFile *of = get(p, fd); if (!of || of->ino->sink) { errno = EINVAL; return -1; } return do_trunc(*of->ino, n); }
X int sim_ftruncate64(int fd, off_t n) { return sim_ftruncate(fd, n); }
X int sim_truncate(const char *f, off_t n) { enter("truncate"); auto it = W->dir.find(norm(f)); if (it == W->dir.end()) { errno = ENOENT; return -1; } return do_trunc(*it->second, n); }
X int sim_truncate64(const char *f, off_t n) { return sim_truncate(f, n); }
X int sim_rename(const char *a, const char *b) {
    enter("rename"); auto it = W->dir.find(norm(a));
    if (it == W->dir.end()) { errno = ENOENT; return -1; }
    InodeP i = it->second;
    // one atomic change of the directory: record target first so that a prefix never loses the file
    meta_set(norm(b), i); meta_set(norm(a), nullptr);
    return 0;
}
X int sim_renameat(int, const char *a, int, const char *b) { return sim_rename(a, b); }
X int sim_unlink(const char *a) { enter("unlink"); if (!W->dir.count(norm(a))) { errno = ENOENT; return -1; } return meta_set(norm(a), nullptr); }
X int sim_remove(const char *a) { return sim_unlink(a); }
X int sim_link(const char *a, const char *b) { enter("link"); auto it = W->dir.find(norm(a)); if (it == W->dir.end()) { errno = ENOENT; return -1; } if (W->dir.count(norm(b))) { errno = EEXIST; return -1; } return meta_set(norm(b), it->second); }
X int sim_symlink(const char *, const char *) { enter("symlink"); errno = EPERM; return -1; }
X int sim_fstat(int fd, struct stat *s) { Proc &p = enter("fstat", fd); OpenFile *of = get(p, fd); if (!of) { errno = EBADF; return -1; } fill_stat(of, of->ino.get(), s); return 0; }
X int sim_fstat64(int fd, struct stat *s) { return sim_fstat(fd, s); }
X int sim_stat(const char *f, struct stat *s) { enter("stat"); auto it = W->dir.find(norm(f)); if (it == W->dir.end()) { errno = ENOENT; return -1; } fill_stat(nullptr, it->second.get(), s); return 0; }
X int sim_stat64(const char *f, struct stat *s) { return sim_stat(f, s); }
X int sim_lstat(const char *f, struct stat *s) { return sim_stat(f, s); }
X int sim_lstat64(const char *f, struct stat *s) { return sim_stat(f, s); }
X int sim_access(const char *f, int) { enter("access"); if (W->dir.count(norm(f))) return 0; errno = ENOENT; return -1; }
X int sim_chmod(const char *, mode_t) { return 0; }
X int sim_fchmod(int, mode_t) { return 0; }
X int sim_chown(const char *, uid_t, gid_t) { return 0; }
X int sim_fchown(int, uid_t, gid_t) { return 0; }
X mode_t sim_umask(mode_t) { return 022; }
X int sim_flock(int fd, int op) { return do_flock(fd, op); }
X int sim_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
    Proc &p = *g_cur;
    OpenFile *of = get(p, fd);
    if (!of) { errno = EBADF; return -1; }
    switch (cmd) {
    case F_SETLK: case F_SETLKW: return do_posix_lock(fd, ((struct flock *)arg)->l_type, cmd == F_SETLKW);
    case F_OFD_SETLK: case F_OFD_SETLKW: { int t = ((struct flock *)arg)->l_type; return do_flock(fd, t == F_UNLCK ? LOCK_UN : (t == F_WRLCK ? LOCK_EX : LOCK_SH) | (cmd == F_OFD_SETLK ? LOCK_NB : 0)); }
    case F_DUPFD: case F_DUPFD_CLOEXEC: { int to = (int)(long)arg; while (p.fds.count(to)) to++; of->refs++; p.fds[to] = of; return to; }
    case F_GETFL: return of->flags;
    case F_GETFD: case F_SETFD: case F_SETFL: return 0;
    }
    errno = EINVAL; return -1;
}
X int sim_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap); return sim_fcntl(fd, cmd, arg); }
X int sim_lockf(int fd, int cmd, off_t) { return do_posix_lock(fd, cmd == F_ULOCK ? F_UNLCK : F_WRLCK, cmd == F_LOCK); }
X int sim_lockf64(int fd, int cmd, off_t o) { return sim_lockf(fd, cmd, o); }
X int sim_dup(int fd) { Proc &p = enter("dup", fd); OpenFile *of = get(p, fd); if (!of) { errno = EBADF; return -1; } of->refs++; return newfd(p, of); }
X int sim_dup2(int fd, int to) { Proc &p = enter("dup2", fd, to); OpenFile *of = get(p, fd); if (!of) { errno = EBADF; return -1; } if (fd == to) return to; of->refs++; close_fd_raw(p, to); p.fds[to] = of; return to; }
static int tmpname(char *t) { size_t n = strlen(t); for (int k = 0; k < 1000; k++) { snprintf(t + n - 6, 7, "%06d", k); if (!W->dir.count(norm(t))) return 0; } return -1; }
X int sim_mkstemp(char *t) { if (tmpname(t)) { errno = EEXIST; return -1; } return do_open(t, O_CREAT | O_EXCL | O_RDWR); }
X int sim_mkostemp(char *t, int fl) { if (tmpname(t)) { errno = EEXIST; return -1; } return do_open(t, O_CREAT | O_EXCL | O_RDWR | fl); }
X FILE *sim_tmpfile() { errno = EACCES; return nullptr; }
X int sim_isatty(int) { errno = ENOTTY; return 0; }
X void *sim_mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) {
    if (fl & MAP_ANONYMOUS) { return mmap(a, n, prot, fl, -1, 0); }
    Proc &p = enter("mmap", fd, n);
    OpenFile *of = get(p, fd);
    if (!of || ((fl & MAP_SHARED) && (prot & PROT_WRITE))) { errno = ENODEV; return MAP_FAILED; }
    u8 *m = (u8 *)mmap(nullptr, n ? n : 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (size_t i = 0; i < n && o + i < of->ino->data.size(); i++) m[i] = of->ino->data[o + i];
    return m;
}
X void *sim_mmap64(void *a, size_t n, int prot, int fl, int fd, off_t o) { return sim_mmap(a, n, prot, fl, fd, o); }
X int sim_munmap(void *a, size_t n) { return munmap(a, n); }
X int sim_msync(void *, size_t, int) { return 0; }
X unsigned sim_sleep(unsigned s) { do_sleep((u64)s * 1000000000ULL); return 0; }
X int sim_usleep(unsigned us) { do_sleep((u64)us * 1000ULL); return 0; }
X int sim_nanosleep(const struct timespec *t, struct timespec *) { do_sleep((u64)t->tv_sec * 1000000000ULL + t->tv_nsec); return 0; }
X int sim_clock_nanosleep(int, int, const struct timespec *t, struct timespec *) { do_sleep((u64)t->tv_sec * 1000000000ULL + t->tv_nsec); return 0; }
X int sim_poll(void *, unsigned long, int ms) { if (ms > 0) do_sleep((u64)ms * 1000000ULL); return 0; }
X int sim_select(int, void *, void *, void *, struct timeval *t) { if (t) do_sleep((u64)t->tv_sec * 1000000000ULL + t->tv_usec * 1000ULL); return 0; }
X time_t sim_time(time_t *t) { time_t v = 1700000000 + W->now / 1000000000ULL; if (t) *t = v; return v; }
X int sim_clock_gettime(int, struct timespec *t) { t->tv_sec = 1700000000 + W->now / 1000000000ULL; t->tv_nsec = W->now % 1000000000ULL; return 0; }
X int sim_gettimeofday(struct timeval *t, void *) { t->tv_sec = 1700000000 + W->now / 1000000000ULL; t->tv_usec = W->now % 1000000000ULL / 1000; return 0; }
X int sim_getpid() { return 1000 + g_cur->id; }
X int sim_getppid() { return 1; }
X int sim_getuid() { return 1000; }
X int sim_geteuid() { return 1000; }
X int sim_sched_yield() { enter("sched_yield"); return 0; }
X ssize_t sim_getrandom(void *b, size_t n, unsigned);
X long sim_syscall(long k, void *b, size_t n, unsigned f) { if (k == SYS_getrandom) return sim_getrandom(b, n, f); errno = ENOSYS; return -1; }
X ssize_t sim_getrandom(void *b, size_t n, unsigned) { Proc &p = enter("getrandom", n); return ent_read(p, (u8 *)b, n, "getrandom"); }
X int sim_getentropy(void *b, size_t n) { Proc &p = enter("getentropy", n); if (n > 256) { errno = EIO; return -1; } size_t d = 0; while (d < n) { p.ent_last_failed = false; ssize_t r = ent_read(p, (u8 *)b + d, n - d, "getentropy"); if (r <= 0) { errno = EIO; return -1; } d += r; } return 0; }

static void *heap_alloc(size_t n, size_t align, bool zero) {
    Proc *p = g_cur;
    if (!p) return nullptr;
    if (!g_thread_point) {
        int f = fault_at(*p, {FK_NOMEM});
        EV(0x4000 + (n & 0xfff), "[%s] malloc %zu", p->name.c_str(), n);
        if (f >= 0) { fired(*p, f, "malloc"); errno = ENOMEM; return nullptr; }
    }
    if (n > (W->huge ? 1ULL << 35 : 1ULL << 31)) { errno = ENOMEM; return nullptr; }
    size_t body = (n + align - 1) / align * align;
    if (n > (1ULL << 30)) { // all but the start of it is one piece of memory mapped again and again
        u8 *map; size_t len;
        u8 *u = huge_map(body, map, len);
        if (!u) { errno = ENOMEM; return nullptr; }
        p->heap.push_back({map, len, n, u});
        return u;
    }
    size_t pages = (body + 4095) & ~(size_t)4095;
    if (!pages) pages = 4096;
    HeapBlk b;
    b.maplen = pages + 4096;
    b.map = (u8 *)mmap(nullptr, b.maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b.map == MAP_FAILED) { errno = ENOMEM; return nullptr; }
    mprotect(b.map + pages, 4096, PROT_NONE);
    b.size = n;
    b.user = b.map + pages - body;
    if (zero) memset(b.user, 0, n); else memset(b.user, 0xA7, n);
    memset(b.user + n, 0xCB, body - n);
    p->heap.push_back(b);
    return b.user;
}
static void heap_free(void *q) {
    Proc *p = g_cur;
    if (!q) return;
    for (size_t i = 0; i < p->heap.size(); i++) if (p->heap[i].user == q) {
        HeapBlk b = p->heap[i];
        if (b.size <= 1ULL << 30) for (u8 *c = b.user + b.size; c < b.map + b.maplen - 4096; c++) if (*c != 0xCB) proc_die(*p, Proc::CRASHED, "heap buffer overflow");
        p->heap.erase(p->heap.begin() + i);
        munmap(b.map, b.maplen);
        return;
    }
    proc_die(*p, Proc::CRASHED, "invalid free");
}
X void *sim_malloc(size_t n) { return heap_alloc(n, 16, false); }
X void *sim_realloc(void *, size_t);
X void *sim_reallocarray(void *q, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return sim_realloc(q, n); }
X int sim_vasprintf(char **o, const char *f, va_list ap) { va_list b; va_copy(b, ap); int n = vsnprintf(nullptr, 0, f, b); va_end(b); if (n < 0 || !(*o = (char *)heap_alloc(n + 1, 16, false))) return -1; return vsnprintf(*o, n + 1, f, ap); }
X int sim_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vasprintf(o, f, ap); va_end(ap); return r; }
X void *sim_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return heap_alloc(n, 16, true); }
X void *sim_realloc(void *q, size_t n) {
    if (!q) return sim_malloc(n);
    if (!n) { heap_free(q); return nullptr; }
    for (auto &b : g_cur->heap) if (b.user == q) { size_t old = b.size; void *r = heap_alloc(n, 16, false); if (!r) return nullptr; memcpy(r, q, std::min(n, old)); heap_free(q); return r; }
    proc_die(*g_cur, Proc::CRASHED, "invalid realloc"); return nullptr;
}
X void sim_free(void *q) { heap_free(q); }
X int sim_posix_memalign(void **o, size_t a, size_t n) { void *r = heap_alloc(n, a < 16 ? 16 : a, false); if (!r) return ENOMEM; *o = r; return 0; }
X void *sim_aligned_alloc(size_t a, size_t n) { return heap_alloc(n, a < 16 ? 16 : a, false); }
X void *sim_memalign(size_t a, size_t n) { return heap_alloc(n, a < 16 ? 16 : a, false); }
X char *sim_strdup(const char *s) { char *r = (char *)sim_malloc(strlen(s) + 1); if (r) strcpy(r, s); return r; }
X char *sim_strndup(const char *s, size_t n) { size_t l = strnlen(s, n); char *r = (char *)sim_malloc(l + 1); if (r) { memcpy(r, s, l); r[l] = 0; } return r; }
X void sim_exit(int c) { finish_exit(*g_cur, c); __builtin_unreachable(); }
X void sim__exit(int c) { g_cur->exit_code = c; proc_die(*g_cur, Proc::DONE, ""); __builtin_unreachable(); }
X void sim__Exit(int c) { sim__exit(c); }
X void sim_quick_exit(int c) { sim__exit(c); }
X void sim_abort() { proc_die(*g_cur, Proc::CRASHED, "abort"); __builtin_unreachable(); }
X int sim_atexit(void (*f)()) { g_cur->at_exit.push_back(f); return 0; }
X int sim_raise(int s) { proc_die(*g_cur, s == SIGABRT ? Proc::CRASHED : Proc::KILLED, "abort"); return 0; }
X int sim_kill(int, int s) { return sim_raise(s); }
X void *sim_signal(int s, void *h) { if (s == SIGPIPE) g_cur->sigpipe_ignored = h == (void *)1; return nullptr; }
X int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (o) memset(o, 0, sizeof *o); if (s == SIGPIPE && a) g_cur->sigpipe_ignored = a->sa_handler == SIG_IGN; return 0; }
X void sim___assert_fail(const char *e, const char *, unsigned, const char *) { proc_die(*g_cur, Proc::CRASHED, std::string("assertion failed: ") + e); __builtin_unreachable(); }
X void sim___stack_chk_fail() { proc_die(*g_cur, Proc::CRASHED, "stack buffer overflow"); __builtin_unreachable(); }
X int sim_posix_fadvise(int, off_t, off_t, int) { return 0; }
X int sim_posix_fallocate(int, off_t, off_t) { return EOPNOTSUPP; }
X int sim_fallocate(int, int, off_t, off_t) { errno = EOPNOTSUPP; return -1; }
X FILE *sim_fopen(const char *f, const char *m) {
    int fd = do_open(f, mode_flags(m));
    if (fd < 0) return nullptr;
    return mkstream(*g_cur, fd, m, true);
}
X FILE *sim_fopen64(const char *f, const char *m) { return sim_fopen(f, m); }
X FILE *sim_fdopen(int fd, const char *m) { if (!get(*g_cur, fd)) { errno = EBADF; return nullptr; } return mkstream(*g_cur, fd, m, true); }
X int sim_fseek(FILE *f, long o, int w) { return file_seek(f, o, w); }
X int sim_fseeko(FILE *f, off_t o, int w) { return file_seek(f, o, w); }
X int sim_fseeko64(FILE *f, off_t o, int w) { return file_seek(f, o, w); }
X void sim_rewind(FILE *f) { if (file_seek(f, 0, SEEK_SET) == 0) clearerr(f); }
X FILE *sim_freopen(const char *, const char *, FILE *) { errno = EINVAL; return nullptr; }
X FILE *sim_freopen64(const char *, const char *, FILE *) { errno = EINVAL; return nullptr; }
X int sim_fclose(FILE *f) {
    Proc &p = *g_cur;
    for (size_t i = 0; i < p.streams.size(); i++) if (p.streams[i].f == f) { p.streams.erase(p.streams.begin() + i); return fclose(f); }
    for (size_t i = 0; i < p.memstreams.size(); i++) if (p.memstreams[i] == f) { p.memstreams.erase(p.memstreams.begin() + i); return fclose(f); }
    proc_die(p, Proc::CRASHED, "fclose of a stream that is not open"); return EOF;
}
X int sim_fileno(FILE *f) { for (auto &s : g_cur->streams) if (s.f == f) return s.fd; errno = EBADF; return -1; }
X int sim_fileno_unlocked(FILE *f) { return sim_fileno(f); }
X int sim_fflush(FILE *f) { if (f) return fflush(f); int r = 0; auto v = g_cur->streams; for (auto &s : v) if (s.f != g_cur->in) r |= fflush(s.f); return r; }
X int sim_fflush_unlocked(FILE *f) { return sim_fflush(f); }
X int sim_vprintf(const char *f, va_list ap) { return vfprintf(g_cur->out, f, ap); }
X int sim_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(g_cur->out, f, ap); va_end(ap); return r; }
X int sim_puts(const char *s) { if (fputs(s, g_cur->out) == EOF) return EOF; return fputc('\n', g_cur->out) == EOF ? EOF : 1; }
X int sim_putchar(int c) { return fputc(c, g_cur->out); }
X int sim_putchar_unlocked(int c) { return fputc(c, g_cur->out); }
X int sim_getchar() { return fgetc(g_cur->in); }
X void sim_perror(const char *s) { fprintf(g_cur->err, "%s: %s\n", s ? s : "", strerror(errno)); }
X int sim_dprintf(int fd, const char *f, ...) { char b[1024]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); return do_write(fd, b, std::min<int>(n, 1023), -1); }
X char *sim_getenv(const char *) { return nullptr; }
static void verr(bool with_errno, const char *f, va_list ap) { int e = errno; if (f) vfprintf(g_cur->err, f, ap); if (with_errno) fprintf(g_cur->err, ": %s", strerror(e)); fputc('\n', g_cur->err); }
X void sim_warn(const char *f, ...) { va_list ap; va_start(ap, f); verr(true, f, ap); va_end(ap); }
X void sim_warnx(const char *f, ...) { va_list ap; va_start(ap, f); verr(false, f, ap); va_end(ap); }
X void sim_err(int c, const char *f, ...) { va_list ap; va_start(ap, f); verr(true, f, ap); va_end(ap); sim_exit(c); }
X void sim_errx(int c, const char *f, ...) { va_list ap; va_start(ap, f); verr(false, f, ap); va_end(ap); sim_exit(c); }
X void sim_vwarn(const char *f, va_list ap) { verr(true, f, ap); }
X void sim_vwarnx(const char *f, va_list ap) { verr(false, f, ap); }
X void sim_verr(int c, const char *f, va_list ap) { verr(true, f, ap); sim_exit(c); }
X void sim_verrx(int c, const char *f, va_list ap) { verr(false, f, ap); sim_exit(c); }
X void sim_error(int c, int e, const char *f, ...) { va_list ap; va_start(ap, f); errno = e; verr(e != 0, f, ap); va_end(ap); if (c) sim_exit(c); }
X int sim_vdprintf(int fd, const char *f, va_list ap) { char b[1024]; int n = vsnprintf(b, sizeof b, f, ap); return do_write(fd, b, std::min<int>(n, 1023), -1); }
X int sim_fcloseall() { int r = 0; auto v = g_cur->streams; for (auto &s : v) r |= sim_fclose(s.f); return r; }

// library calls that allocate for their caller
X ssize_t sim_getdelim(char **line, size_t *cap, int delim, FILE *f) {
    if (!line || !cap) { errno = EINVAL; return -1; }
    if (!*line) *cap = 0;
    size_t n = 0;
    for (;;) {
        int c = fgetc(f);
        if (c == EOF && (!n || ferror(f))) return -1;
        if (n + 2 > *cap) { size_t want = *cap < 60 ? 120 : *cap * 2; char *g = (char *)sim_realloc(*line, want); if (!g) return -1; *line = g; *cap = want; }
        if (c == EOF) break;
        (*line)[n++] = c;
        if (c == delim) break;
    }
    (*line)[n] = 0;
    return n;
}
X ssize_t sim___getdelim(char **line, size_t *cap, int delim, FILE *f) { return sim_getdelim(line, cap, delim, f); }
X ssize_t sim_getline(char **line, size_t *cap, FILE *f) { return sim_getdelim(line, cap, '\n', f); }
struct MemStream { char **buf; size_t *len; size_t cap, pos; };
X FILE *sim_open_memstream(char **buf, size_t *len) {
    char *b = (char *)sim_malloc(128);
    if (!b) return nullptr;
    b[0] = 0; *buf = b; *len = 0;
    FILE *f = fopencookie(new MemStream{buf, len, 128, 0}, "w", {nullptr, [](void *c, const char *d, size_t n) -> ssize_t {
        MemStream *m = (MemStream *)c;
        if (g_mem_dead) return n;
        if (m->pos + n + 1 > m->cap) { size_t want = std::max(m->cap * 2, m->pos + n + 1); char *g = (char *)sim_realloc(*m->buf, want); if (!g) return 0; *m->buf = g; m->cap = want; }
        if (m->pos > *m->len) memset(*m->buf + *m->len, 0, m->pos - *m->len);
        memcpy(*m->buf + m->pos, d, n); m->pos += n;
        if (m->pos > *m->len) *m->len = m->pos;
        (*m->buf)[*m->len] = 0;
        return n;
    }, [](void *c, off64_t *o, int wh) { MemStream *m = (MemStream *)c; int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)m->pos : (int64_t)*m->len; if (b + *o < 0) return -1; m->pos = *o = b + *o; return 0; },
    [](void *c) { delete (MemStream *)c; return 0; }});
    g_cur->memstreams.push_back(f);
    return f;
}
X char *sim_realpath(const char *p, char *out) { if (!W->dir.count(norm(p))) { errno = ENOENT; return nullptr; } if (!out) return sim_strdup(p); return strcpy(out, p); }

// calls that move data or names between descriptors and directories
X int sim_renameat2(int, const char *a, int, const char *b, unsigned fl) { if (fl & ~1u) { errno = EINVAL; return -1; } if ((fl & 1) && W->dir.count(norm(b))) { errno = EEXIST; return -1; } return sim_rename(a, b); }
X int sim_unlinkat(int, const char *a, int) { return sim_unlink(a); }
X int sim_linkat(int, const char *a, int, const char *b, int) { return sim_link(a, b); }
X int sim_fstatat(int fd, const char *a, struct stat *s, int) { return a && *a ? sim_stat(a, s) : sim_fstat(fd, s); }
X int sim_fstatat64(int fd, const char *a, struct stat *s, int f) { return sim_fstatat(fd, a, s, f); }
X int sim_newfstatat(int fd, const char *a, struct stat *s, int f) { return sim_fstatat(fd, a, s, f); }
static ssize_t copy_fd(int in, off_t *oi, int out, off_t *oo, size_t n) {
    Bytes b(std::min<size_t>(n, 65536));
    ssize_t r = do_read(in, b.data(), b.size(), oi ? *oi : -1);
    if (r <= 0) return r;
    ssize_t w = do_write(out, b.data(), r, oo ? *oo : -1);
    if (w < 0) { if (!oi) do_lseek(in, -r, SEEK_CUR); return w; }
    if (!oi && w < r) do_lseek(in, w - r, SEEK_CUR);
    if (oi) *oi += w;
    if (oo) *oo += w;
    return w;
}
X ssize_t sim_sendfile(int out, int in, off_t *o, size_t n) { return copy_fd(in, o, out, nullptr, n); }
X ssize_t sim_sendfile64(int out, int in, off_t *o, size_t n) { return copy_fd(in, o, out, nullptr, n); }
X ssize_t sim_copy_file_range(int in, off_t *a, int out, off_t *b, size_t n, unsigned) { return copy_fd(in, a, out, b, n); }

// randomness that is not the entropy device: a sequence of its own for every process, the
// same in every start of a program unless it is seeded (rand and its kin), or the kernel's
static u64 &prng() { static u64 other = 1; return g_cur ? g_cur->libc_rand : other; }
static u32 next_rand() { u64 &x = prng(); x = x * 6364136223846793005ULL + 1442695040888963407ULL; return x >> 33; }
X int sim_rand() { return next_rand() & 0x7fffffff; }
X void sim_srand(unsigned s) { prng() = s; }
X int sim_rand_r(unsigned *s) { *s = *s * 1103515245u + 12345; return *s >> 1 & 0x7fffffff; }
X long sim_random() { return sim_rand(); }
X void sim_srandom(unsigned s) { prng() = s; }
X double sim_drand48() { return sim_rand() / 2147483648.0; }
X long sim_lrand48() { return sim_rand(); }
X long sim_mrand48() { return (int)(next_rand() << 1); }
X void sim_srand48(long s) { prng() = s; }
X void sim_arc4random_buf(void *b, size_t n) { Proc &p = enter("arc4random_buf", n); size_t d = 0; auto keep = p.allow; u32 rn = p.rate_num; int ps = p.persist; p.rate_num = 0; p.persist = -1; while (d < n) { p.ent_last_failed = false; ssize_t r = ent_read(p, (u8 *)b + d, n - d, "arc4random"); if (r <= 0) break; d += r; } p.rate_num = rn; p.persist = ps; }
X u32 sim_arc4random() { u32 v; sim_arc4random_buf(&v, 4); return v; }
X u32 sim_arc4random_uniform(u32 n) { return n ? sim_arc4random() % n : 0; }
X clock_t sim_clock() { return W->now / 1000; }

// outside of what is simulated: the call fails, or has no effect
#define REFUSE(ret, name, err, value) X ret sim_##name(...) { errno = err; return value; }
REFUSE(int, mkdir, EACCES, -1) REFUSE(int, rmdir, EACCES, -1) REFUSE(ssize_t, readlink, EINVAL, -1) REFUSE(void *, opendir, EACCES, nullptr)
REFUSE(ssize_t, splice, EINVAL, -1) REFUSE(ssize_t, tee, EINVAL, -1) REFUSE(int, mkfifo, EACCES, -1) REFUSE(int, chdir, EACCES, -1) REFUSE(int, fchdir, EACCES, -1)
REFUSE(int, fork, EAGAIN, -1) REFUSE(int, vfork, EAGAIN, -1) REFUSE(int, execv, EACCES, -1) REFUSE(int, execve, EACCES, -1) REFUSE(int, execvp, EACCES, -1)
REFUSE(int, execl, EACCES, -1) REFUSE(int, execlp, EACCES, -1) REFUSE(int, system, EAGAIN, -1) REFUSE(FILE *, popen, EAGAIN, nullptr) REFUSE(int, pclose, ECHILD, -1)
REFUSE(int, posix_spawn, EAGAIN, EAGAIN) REFUSE(int, posix_spawnp, EAGAIN, EAGAIN) REFUSE(int, pthread_create, EAGAIN, EAGAIN) REFUSE(int, daemon, EAGAIN, -1)
REFUSE(int, timer_create, EAGAIN, -1) REFUSE(int, ioctl, ENOTTY, -1) REFUSE(int, setsid, EPERM, -1)
X int sim_sigprocmask(int, const sigset_t *, sigset_t *o) { if (o) sigemptyset(o); return 0; }
X int sim_pthread_sigmask(int, const sigset_t *, sigset_t *o) { if (o) sigemptyset(o); return 0; }
X unsigned sim_alarm(unsigned) { return 0; }
X int sim_setitimer(...) { return 0; }
X int sim_setrlimit(...) { return 0; }
X int sim_mlock(...) { return 0; }
X int sim_mlock2(...) { return 0; }
X int sim_munlock(...) { return 0; }
X int sim_mlockall(int) { return 0; }
X int sim_munlockall() { return 0; }
X int sim_prctl(...) { return 0; }
X void sim_syslog(...) {}
X void sim_openlog(...) {}

// hash provider (OpenSSL), with failure injection
static bool hash_fails() {
    Proc &p = *g_cur;
    u64 k = p.hash_calls++;
    if (p.kill_at_hash >= 0 && k >= (u64)p.kill_at_hash) proc_die(p, Proc::KILLED, "");
    if (p.hash_fail_at >= 0 && k >= (u64)p.hash_fail_at && k <= (u64)p.hash_fail_at + p.hash_fail_many) { p.hash_failed++; if (p.hash_failed == 1) fault_fired(FAULT_NAMES[FK_HASH]); return true; }
    return false;
}
static u8 hash_static_out[64];
int g_keygen_pad;
static void count_keygen(const u8 *d, size_t n) { // evaluations of PRF_keygen (SP 800-208): domain separator 4
    if (n <= (size_t)g_keygen_pad || d[g_keygen_pad - 1] != 4) return;
    for (int i = 0; i + 1 < g_keygen_pad; i++) if (d[i]) return;
    g_cur->keygen_calls++;
}
X u8 *sim_SHA256(const u8 *d, size_t n, u8 *md) {
    if (!md) md = hash_static_out;
    if (g_keygen_pad) count_keygen(d, n);
    if (hash_fails()) return nullptr;
    if (g_hash_point) g_hash_point(md, 32, true);
    SHA256_CTX c; SHA256_Init(&c); SHA256_Update(&c, d, n); SHA256_Final(md, &c);
    if (g_hash_point) g_hash_point(md, 32, false);
    return md;
}
X u8 *sim_SHA512(const u8 *d, size_t n, u8 *md) {
    if (!md) md = hash_static_out;
    if (g_keygen_pad) count_keygen(d, n);
    if (hash_fails()) return nullptr;
    if (g_hash_point) g_hash_point(md, 64, true);
    SHA512_CTX c; SHA512_Init(&c); SHA512_Update(&c, d, n); SHA512_Final(md, &c);
    if (g_hash_point) g_hash_point(md, 64, false);
    return md;
}
// hashes computed in steps; the low-level and the EVP interface
static bool step_fails(u32 stage) {
    Proc &p = *g_cur;
    if (stage != p.hash_fail_stage || p.hash_fail_at < 0 || p.hash_calls < (u64)p.hash_fail_at || p.hash_calls > (u64)p.hash_fail_at + p.hash_fail_many) return false;
    if (!p.hash_failed++) fault_fired(FAULT_NAMES[FK_HASH]);
    return true;
}
static bool finish_fails() {
    if (g_cur->hash_fail_stage == 0) return hash_fails();
    long keep = g_cur->hash_fail_at;
    g_cur->hash_fail_at = -1;
    hash_fails(); // counts, and may be the point where the process is killed
    g_cur->hash_fail_at = keep;
    return false;
}
template <class F> static int finish(u8 *md, size_t n, F f) {
    if (finish_fails()) return 0;
    if (g_hash_point) g_hash_point(md, n, true);
    int r = f();
    if (g_hash_point) g_hash_point(md, n, false);
    return r;
}
X int sim_SHA256_Init(SHA256_CTX *c) { return step_fails(2) ? 0 : SHA256_Init(c); }
X int sim_SHA256_Update(SHA256_CTX *c, const void *d, size_t n) { return step_fails(1) ? 0 : SHA256_Update(c, d, n); }
X int sim_SHA256_Final(u8 *md, SHA256_CTX *c) { return finish(md, 32, [&] { return SHA256_Final(md, c); }); }
X int sim_SHA512_Init(SHA512_CTX *c) { return step_fails(2) ? 0 : SHA512_Init(c); }
X int sim_SHA512_Update(SHA512_CTX *c, const void *d, size_t n) { return step_fails(1) ? 0 : SHA512_Update(c, d, n); }
X int sim_SHA512_Final(u8 *md, SHA512_CTX *c) { return finish(md, 64, [&] { return SHA512_Final(md, c); }); }
static size_t mdlen(const EVP_MD_CTX *c) { const EVP_MD *m = EVP_MD_CTX_get0_md(c); return m ? EVP_MD_get_size(m) : 0; }
X EVP_MD_CTX *sim_EVP_MD_CTX_new() { if (step_fails(2)) return nullptr; if (g_cur) g_cur->evp_live++; return EVP_MD_CTX_new(); }
X void sim_EVP_MD_CTX_free(EVP_MD_CTX *c) { if (c && g_cur) g_cur->evp_live--; EVP_MD_CTX_free(c); }
X int sim_EVP_DigestInit(EVP_MD_CTX *c, const EVP_MD *t) { return step_fails(2) ? 0 : EVP_DigestInit(c, t); }
X int sim_EVP_DigestInit_ex(EVP_MD_CTX *c, const EVP_MD *t, ENGINE *e) { return step_fails(2) ? 0 : EVP_DigestInit_ex(c, t, e); }
X int sim_EVP_DigestInit_ex2(EVP_MD_CTX *c, const EVP_MD *t, const OSSL_PARAM *q) { return step_fails(2) ? 0 : EVP_DigestInit_ex2(c, t, q); }
X int sim_EVP_DigestUpdate(EVP_MD_CTX *c, const void *d, size_t n) { return step_fails(1) ? 0 : EVP_DigestUpdate(c, d, n); }
X int sim_EVP_DigestFinal(EVP_MD_CTX *c, u8 *md, unsigned *s) { return finish(md, mdlen(c), [&] { return EVP_DigestFinal(c, md, s); }); }
X int sim_EVP_DigestFinal_ex(EVP_MD_CTX *c, u8 *md, unsigned *s) { return finish(md, mdlen(c), [&] { return EVP_DigestFinal_ex(c, md, s); }); }
X int sim_EVP_DigestFinalXOF(EVP_MD_CTX *c, u8 *md, size_t n) { return finish(md, n, [&] { return EVP_DigestFinalXOF(c, md, n); }); }
X int sim_EVP_Digest(const void *d, size_t n, u8 *md, unsigned *s, const EVP_MD *t, ENGINE *e) {
    if (g_keygen_pad) count_keygen((const u8 *)d, n);
    if (hash_fails()) return 0;
    if (g_hash_point) g_hash_point(md, EVP_MD_get_size(t), true);
    int r = EVP_Digest(d, n, md, s, t, e);
    if (g_hash_point) g_hash_point(md, EVP_MD_get_size(t), false);
    return r;
}

X int sim_scale_params(void *pp, uint32_t oid, int mt, int rc, int (*init)(xmss_params *), unsigned long long (*skb)(const xmss_params *)) {
    if (rc) return rc;
    for (auto &s : g_scales) {
        if (s.oid != oid || (int)s.mt != mt) continue;
        xmss_params *p = (xmss_params *)pp;
        p->full_height = s.h; p->d = s.d; p->wots_w = s.w; p->bds_k = s.k;
        if (init(p)) return -1;
        if (s.tiny) {
            p->wots_len1 = s.len1; p->wots_len2 = s.len2; p->wots_len = s.len;
            p->wots_sig_bytes = p->wots_len * p->n;
            p->sig_bytes = p->index_bytes + p->n + p->d * p->wots_sig_bytes + p->full_height * p->n;
            p->sk_bytes = skb(p);
        }
        break;
    }
    return rc;
}
