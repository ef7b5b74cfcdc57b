// Simulated operating system: processes (coroutines running the real code from their own
// shared-object copy), file system with page cache and stable storage, locks, entropy
// device, clock, memory.
#pragma once
#include "core.h"
#include "model.h"
#include <ucontext.h>
#include <csetjmp>

struct Image { // one loaded shared object
    std::string name;
    void *h = nullptr;
    struct Seg { u8 *p; size_t n; Bytes init; };
    std::vector<Seg> segs;
    bool has_tls = false;
    void reset();                  // data as right after loading
    void *sym(const char *s);
    bool writable(const void *p) const;
};
Image *image(const std::string &name); // e.g. "lib_plain_ref.0", "tool_sign_xmss_fast.1"

enum { SECTOR = 512, PAGE = 4096 };
struct Inode {
    std::string label;
    Bytes data, durable;            // page cache view and stable storage
    u64 ztail = 0;                  // so many zero bytes follow the data (files of several gigabytes, only read)
    u64 size() const { return data.size() + ztail; }
    std::set<u32> dirty, lost;      // sectors: not yet written / dropped after a failed sync
    bool dir = false, fifo = false, null = false, entropy = false, sink = false, seekable = true;
    bool flock_ex = false; int flock_holders = 0; // flock: open file descriptions
    std::set<struct OpenFile *> fl;
    int posix_owner = -1;           // process holding a record lock
    u64 reads = 0;
    void mark(size_t off, size_t n);
    void sync_all();
};
typedef std::shared_ptr<Inode> InodeP;
struct OpenFile { InodeP ino; u64 off = 0; int flags = 0; int refs = 1; std::string path; bool eof = false; };

struct MetaOp { std::string path; InodeP before, after; }; // directory entry change not yet durable

enum Fault { FK_EINTR, FK_EIO, FK_ENOSPC, FK_SHORT, FK_EOF, FK_EPIPE, FK_SIGPIPE, FK_OPEN, FK_SEEK, FK_SYNC_DROP, FK_SYNC_KEEP, FK_CLOSE, FK_LOCK, FK_NOMEM, FK_ENT_OPEN, FK_ENT_EIO, FK_ENT_EINTR, FK_ENT_SHORT, FK_ENT_EOF, FK_HASH, FK_KINDS };
extern const char *FAULT_NAMES[FK_KINDS];
inline bool fault_soft(int f) { return f == FK_SHORT || (f >= FK_ENT_OPEN && f <= FK_ENT_EOF); }

struct Proc;
struct HeapBlk { u8 *map; size_t maplen, size; u8 *user; };

struct Proc {
    int id = 0;
    std::string name;
    Image *img = nullptr;
    std::map<int, OpenFile *> fds;
    struct Stream { FILE *f; int fd; void *cookie; };
    std::vector<Stream> streams;
    FILE *in = nullptr, *out = nullptr, *err = nullptr;
    std::vector<FILE *> memstreams;
    u64 libc_rand = 1;
    std::vector<HeapBlk> heap;
    std::vector<void (*)()> at_exit;
    Bytes outbytes, errbytes;       // accepted by stdout / stderr
    u64 out_limit = ~0ULL, out_more = 0; bool out_nonzero = false; // beyond out_limit, output is counted and only looked at for bytes that are not zero
    Bytes entropy;                  // bytes the entropy device delivered to this process
    enum State { NEW, READY, BLOCKED, SLEEPING, DONE, KILLED, CRASHED, IDLE } st = NEW;
    u64 wake = 0;
    u64 stalled = 0;                // not scheduled before this time
    int exit_code = 0;
    std::string crash;              // reason
    u64 ops = 0;
    u64 file_writes = 0;            // bytes written to files
    // fault plan
    std::vector<u8> allow = std::vector<u8>(FK_KINDS, 0);
    u32 rate_num = 0, rate_den = 1; // probability of a fault at an eligible operation
    u32 max_faults = 0;
    u64 faults_from = 0;            // no fault before this system call
    std::string fault_only;         // and none on files whose label does not begin so
    const std::string *op_label = nullptr;
    int persist = -1; u64 persist_from = 0; u32 persist_left = 0, persist_hits = 0; // from this system call on, every one that can fail like this does
    u32 hard = 0, soft = 0;         // faults that fired
    u32 ent_fails_left = 0, ent_fail_run = 0;
    long kill_at = -1; bool kill_mid = false;
    std::vector<std::string> fired;
    // coroutine
    ucontext_t ctx;
    u8 *stack = nullptr;
    int saved_errno = 0;
    std::function<int()> body;
    std::string blocked_on;
    u64 ent_ops = 0, ent_last_fail_time = 0; bool ent_last_failed = false;
    u64 slept_ns = 0;
    u32 bufsize = 4096;
    u32 closed = 0;                 // standard streams that are closed when the tool starts, one bit each
    long hash_fail_at = -1;         // the k-th hash call fails (returns NULL), -1: none
    u64 hash_calls = 0; u64 hash_failed = 0; u64 keygen_calls = 0;
    long kill_at_hash = -1;         // dies at this hash call
    u32 hash_fail_many = 0;         // and how many more after it
    u32 hash_fail_stage = 0;        // of a hash computed in steps: fails when 0 finished, 1 fed, 2 started
    long evp_live = 0;              // digest contexts allocated and not freed
    bool sigpipe_ignored = false;
    bool in_call = false;
    bool out_file = false;          // stdout is a regular file instead of a pipe
};

struct World {
    std::map<std::string, InodeP> dir;      // current view
    std::vector<MetaOp> journal;            // directory changes not yet durable
    std::vector<std::unique_ptr<Proc>> procs;
    std::vector<char *> bufs;               // stream buffers, freed at the end
    u64 now = 0;                            // simulated nanoseconds
    u64 steps = 0, step_cap = 200000;
    long power_at = -1;
    bool powered_off = false;
    u32 sched_den = 0;                      // with several runnable: switch with probability 1/sched_den
    u32 stall_den = 0;                      // at a scheduling decision: one process stalls with probability 1/stall_den
    u64 stalls = 0;
    std::function<void(Proc &, const u8 *, size_t)> on_stdout;
    std::function<void()> on_step;
    std::function<void(Proc &)> on_death;     // a process is killed
    bool huge = false;                        // blocks of gigabytes can be allocated
    u64 ent_seed = 1, ent_pos = 0, ent_word = 0;
    const Bytes *ent_big = nullptr; u64 ent_big_count = 0; // stream of a request too large to record: this text over and over
    std::string deadlock;
    ~World();
    InodeP file(const std::string &path, const Bytes &content); // durable file
    Proc &spawn(const std::string &name, Image *img, std::function<int()> body, bool fresh = true);
    void run_all();                         // until nobody can run
    void power_loss();                      // kill everything, keep what is durable plus a chosen part of the rest
    void reap(Proc &p);
    u64 now_step() const { return steps; }
    // contents a reader could find under the path after a power loss now: worst case over
    // un-synced sectors and directory changes
    std::vector<InodeP> crash_candidates(const std::string &path);
};
extern World *W;
extern int g_keygen_pad;   // >0: count PRF_keygen calls, recognised by a domain prefix of that length
extern u32 g_stack_fill; // stale content of fresh stacks

// parameter scaling seen by the code under test (by identifier; others as registered)
extern std::vector<MP> g_scales;
extern thread_local Proc *g_cur;               // process whose code is running
extern void (*g_thread_point)(const char *);   // set while real threads are scheduled (C14)
extern void (*g_thread_die)();                 // ends the calling thread
extern void (*g_hash_point)(u8 *out, size_t n, bool before); // observes hash provider calls (C13, C14)
// memory, heap and descriptors of a process at a moment between calls, as fork or a machine
// snapshot would copy them; restore puts the process back (once)
struct ForkPoint {
    std::vector<Bytes> segs; Bytes tls; std::vector<std::pair<HeapBlk, Bytes>> heap; std::map<int, OpenFile *> fds;
    void save(Proc &p); void restore(Proc &p);
};
// run a function of a library image on a host process until it returns; false if it crashed / was stopped
bool call(Proc &p, std::function<void()> f);
Proc &tool(World &w, const std::string &name, Image *img, std::vector<std::string> args);
void os_init();
void proc_die(Proc &p, Proc::State st, const std::string &why); // only from the running process

// buffer of several gigabytes between unmapped pages; all but the first 16 MiB of it is one
// small piece of memory mapped again and again, so only data that repeats can be kept there
struct HugeBuf {
    u8 *p = nullptr, *map = nullptr; size_t n = 0, maplen = 0;
    explicit HugeBuf(size_t n);
    ~HugeBuf();
    HugeBuf(const HugeBuf &) = delete;
    HugeBuf &operator=(const HugeBuf &) = delete;
    static const size_t REAL = 16 << 20, CHUNK = 2 << 20;
    size_t last() const { size_t body = (n + 4095) & ~(size_t)4095; return body <= REAL ? 0 : REAL + (body - REAL - 1) / CHUNK * CHUNK - (body - n); } // from here to the end the memory is not shared with an earlier place written later
};
extern int g_watchdog_s; // processor seconds a call may take

struct Buf { // buffer ending (or starting) at an unmapped page
    u8 *p = nullptr; size_t n = 0; u8 *map = nullptr; size_t maplen = 0; u8 *pre = nullptr; size_t prelen = 0;
    explicit Buf(size_t n, bool at_end = true);
    ~Buf();
    Buf(const Buf &) = delete;
    Buf &operator=(const Buf &) = delete;
    void readonly(bool ro);
    bool slack_ok() const;   // bytes of the mapping outside the buffer untouched
    Bytes bytes() const { return Bytes(p, p + n); }
};
