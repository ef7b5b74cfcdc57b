// A file system with one key file and the signing tool at work on it; fault plans.
#pragma once
#include "os.h"
#include "keys.h"

static const int HARD[] = {FK_EINTR, FK_EIO, FK_ENOSPC, FK_EOF, FK_EPIPE, FK_OPEN, FK_SEEK, FK_SYNC_DROP, FK_SYNC_KEEP, FK_CLOSE, FK_LOCK, FK_NOMEM, FK_SIGPIPE};
static const int ENT[] = {FK_ENT_OPEN, FK_ENT_EIO, FK_ENT_EINTR, FK_ENT_EOF};

static void std_files(World &w) {
    auto u = std::make_shared<Inode>();
    u->label = "/dev/urandom"; u->entropy = true;
    w.dir["/dev/urandom"] = u; w.dir["/dev/random"] = u;
    auto z = std::make_shared<Inode>();
    z->label = "/dev/null"; z->fifo = z->null = true;
    w.dir["/dev/null"] = z;
}
// swarm: which kinds are possible in this process, how often, how many
enum { PL_NONE = 0, PL_SOFT = 1, PL_HARD = 2, PL_ENT = 4 };
static void plan(Proc &p, int what) {
    static const u32 dens[] = {6, 3, 12, 24, 40};
    static const u32 bufs[] = {4096, 4096, 64, 256, 1024, 16384, 65536};
    p.bufsize = pick(bufs);
    p.out_file = choose(2);
    if (!what) return;
    p.rate_num = 1; p.rate_den = pick(dens);
    p.max_faults = 1 + choose(what & PL_ENT ? 12 : 3);
    if (what & PL_HARD && choose(3) == 2) { // trouble with one of the files only
        static const char *const files[] = {"stdout", "stdout", "key", "msg"};
        p.fault_only = pick(files); p.rate_den = 1 + choose(4);
        p.max_faults = 1 + choose(6);
        if (choose(2)) p.allow[FK_SHORT] = 1;
        static const u32 from[] = {0, 0, 8, 14, 18};
        p.faults_from = pick(from);
    }
    if (what & PL_SOFT) p.allow[FK_SHORT] = flip(1, 2);
    if (what & PL_HARD) for (int k : HARD) p.allow[k] = flip(1, 2);
    if (what & (PL_HARD | PL_SOFT) && choose(30) == 29) { // started without some of the standard streams
        p.closed = 1 + choose(what & PL_HARD ? 7 : 3);
        if (!(what & PL_HARD) && p.closed & 2) p.closed ^= 6; // 1, 4, 5
        if (p.closed & 2) p.hard++; else p.soft++;
        std::string l;
        for (int i = 0; i < 3; i++) if (p.closed >> i & 1) { static const char *const nm[] = {"closed_stdin", "closed_stdout", "closed_stderr"}; fault_fired(nm[i]); l += l.empty() ? nm[i] : std::string("+") + nm[i]; }
        p.fired.push_back(l);
    }
    if (what & (PL_HARD | PL_SOFT) && choose(8) == 7) { // a condition that lasts
        static const int hs[] = {FK_SHORT, FK_EIO, FK_ENOSPC, FK_EOF, FK_EPIPE, FK_OPEN, FK_SEEK, FK_SYNC_DROP, FK_SYNC_KEEP, FK_CLOSE, FK_LOCK, FK_NOMEM, FK_EINTR};
        p.persist = what & PL_HARD ? pick(hs) : FK_SHORT;
        p.persist_from = choose(30);
        p.persist_left = p.persist == FK_EINTR ? 1 + choose(60) : p.persist == FK_SHORT ? 2000 : 1u << 30;
    }
    if (what & PL_ENT) { for (int k : ENT) p.allow[k] = flip(1, 2); p.allow[FK_ENT_SHORT] = flip(1, 2); static const u32 b[] = {2, 0, 1, 5, 12}; p.ent_fails_left = pick(b); }
}
static std::string outcome(const Proc &p) {
    return p.st == Proc::DONE ? sfmt("exit status %d", p.exit_code & 255) : p.st == Proc::KILLED ? "killed" : p.st == Proc::CRASHED ? "crashed (" + p.crash + ")" : "blocked";
}
static std::string faults_of(const Proc &p) { std::string s; for (auto &f : p.fired) s += " " + f; return s.empty() ? " none" : s; }
static bool exit0(const Proc &p) { return p.st == Proc::DONE && (p.exit_code & 255) == 0; }

// the same file by a longer name, now and then
static std::string by_name(const std::string &file) {
    if (choose(12) != 11) return file;
    static const u32 reps[] = {1, 12, 70, 130, 520};
    u32 k = pick(reps); std::string s;
    for (u32 i = 0; i < k; i++) s += "./";
    probe("long_file_names", k > 1);
    return s + file;
}

struct SignWorld {
    World w;
    Key *k; MP p; std::string variant;
    InodeP keyf;
    struct Run { Proc *pr; Bytes m; };
    std::vector<Run> runs;
    std::map<u64, Bytes> used; // index -> message of released signatures
    std::map<u64, std::string> who;
    bool check_reuse = true, check_release = true;
    bool torn = false; // a process died after writing part of a key update
    SignWorld(const std::string &v, const MP &mp, u32 seed, size_t life) : variant(v), p(mp) {
        k = get_key(v, mp, seed, life);
        W = &w;
        std_files(w);
        w.on_death = [this](Proc &pr) { if (pr.file_writes && !clean()) { torn = true; probe("died_mid_update"); } };
        w.on_stdout = [this](Proc &pr, const u8 *, size_t) { released(pr); };
    }
    u64 began = 0; // the indices before this one were used up before the run
    Bytes tail; // something behind the secret key
    bool start(size_t i) { if (!k->reach(i)) { probe("setup_failed"); S->scenario = "the starting state cannot be reached"; return false; } keyf = w.file("key", whole(i)); began = i; return true; }
    Bytes whole(size_t i) { Bytes f = k->file(i); f.insert(f.end(), tail.begin(), tail.end()); return f; }
    int nargs = 2; // as many as the tool is to be given
    std::vector<std::string> args(const std::string &path, const std::string &mf) {
        std::vector<std::string> a = {"sign", by_name(path), by_name(mf), mf};
        a.resize(1 + nargs);
        if (nargs != 2) probe("wrong_argument_counts");
        return a;
    }
    Proc &sign(const Bytes &m, int copy = 0, const char *with = nullptr, const char *path = "key") {
        std::string mf = sfmt("msg%zu", runs.size());
        w.file(mf, m);
        Proc &pr = tool(w, sfmt("sign%zu", runs.size()), image(sfmt("tool_sign_%s_%s.%d", p.mt ? "xmssmt" : "xmss", with ? with : variant.c_str(), copy)), args(path, mf));
        runs.push_back({&pr, m});
        return pr;
    }
    const Bytes &msg_of(Proc &pr) { for (auto &r : runs) if (r.pr == &pr) return r.m; static Bytes e; return e; }
    // index of the signature whose one-time part has begun to leave on stdout, or -1
    int64_t released_index(const Proc &pr) {
        const Bytes &o = pr.outbytes;
        if (o.size() <= (size_t)p.idxb + p.n) return -1;
        u64 idx = rdbe(o.data(), p.idxb);
        if (idx > p.maxidx()) return -1;
        Bytes r = k->mk.R(idx);
        if (memcmp(r.data(), o.data() + p.idxb, p.n)) return -1;
        return idx;
    }
    // smallest index a signer could find in the key file if power were lost now
    u64 worst_index() {
        u64 worst = ~0ULL;
        size_t off = k->idx_off();
        for (auto &c : w.crash_candidates("key")) {
            if (!c) continue;
            // durable bytes, and for un-synced sectors also the cached ones
            for (int mask = 0; mask < 4; mask++) {
                Bytes f(p.idxb);
                bool okk = true;
                for (int b = 0; b < p.idxb; b++) {
                    size_t at = off + b; u32 s = at / SECTOR; int bit = s - off / SECTOR;
                    bool cached = (mask >> bit & 1) && c->dirty.count(s);
                    const Bytes &src = cached ? c->data : c->durable;
                    if (at >= src.size()) { okk = false; break; }
                    f[b] = src[at];
                }
                if (okk) worst = std::min(worst, rdbe(f.data(), p.idxb));
            }
        }
        return worst;
    }
    void released(Proc &pr) {
        int64_t i = released_index(pr);
        if (i < 0) return;
        const Bytes &m = msg_of(pr);
        if (check_release) {
            u64 wi = worst_index();
            if (wi <= (u64)i) { set_violation("released-before-durable", sfmt("%s: %zu output bytes with the one-time signature of index %lld left while stable storage may still hold index %llu; faults:%s; %s %s", pr.name.c_str(), pr.outbytes.size(), (long long)i, (unsigned long long)wi, faults_of(pr).c_str(), variant.c_str(), p.str().c_str())); return; }
        }
        if (check_reuse && (u64)i < began) { set_violation("index-reused", sfmt("index %lld, used up before the run began at index %llu, signed another message (%s); %s %s", (long long)i, (unsigned long long)began, pr.name.c_str(), variant.c_str(), p.str().c_str())); return; }
        auto it = used.find(i);
        if (it == used.end()) { used[i] = m; who[i] = pr.name; probe("signatures_released"); }
        else if (check_reuse && (it->second != m)) set_violation("index-reused", sfmt("index %lld signed two different messages (%s and %s); %s %s", (long long)i, who[i].c_str(), pr.name.c_str(), variant.c_str(), p.str().c_str()));
    }
    Bytes expect(u64 idx, const Bytes &m) { return k->mk.sign(idx, m); }
    Bytes cur_key() { auto it = w.dir.find("key"); return it == w.dir.end() ? Bytes() : it->second->data; }
    bool clean() { // does the key file hold one of the states of the key's life, entirely?
        Bytes f = cur_key();
        if (f.size() < k->idx_off() + p.idxb) return false;
        u64 i = rdbe(f.data() + k->idx_off(), p.idxb);
        return i <= p.usable() && k->reach(i) && f == whole(i);
    }
    // would the key file survive a power loss right now exactly as it reads now?
    bool key_durable() {
        if (!w.dir.count("key")) return false;
        for (auto &m : w.journal) if (m.path == "key") return false;
        Inode &i = *w.dir["key"];
        return i.durable == i.data;
    }
    size_t choose_start(u32 need = 1) { // prefers early indices, sometimes the last ones
        size_t n = k->limit();
        if (n <= need) return 0;
        u32 c = choose(9);
        if (c == 8) { // where the index needs another byte, or deep in the key's life
            static const int bits[] = {8, 16, 24, 32, 40, 8, 8};
            u64 b = 1ULL << (variant == "fast" ? 8 : pick(bits));
            if (p.usable() > b + need) return b - choose(need + 1);
            if (variant == "ref" && p.usable() > 300) return p.usable() - need - choose(3);
            c = 2;
        }
        c &= 3;
        if (c == 0) return 0;
        if (c == 1) return n - need;
        return choose(n - need + 1);
    }
};
static void sc(const SignWorld &s, const std::string &more) { S->scenario = s.variant + " " + s.p.str() + " " + more; }
static bool usable(SignWorld &s) {
    if (!s.k->made) { probe("setup_failed"); S->scenario = "no key could be made"; return false; }
    return true;
}

