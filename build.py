#!/usr/bin/env python3
"""Builds the simulator and the shared objects carrying the code under test from
/repo's working tree into build/<content hash>/ (git-ignored). Returns that path."""
import concurrent.futures as cf, fcntl, glob, hashlib, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
ROOT = os.path.join(HERE, "build")
CC, CXX = "gcc", "g++"

# libc symbols that reach outside the process (or allocate): renamed to sim_<name>
WORLD = """open open64 openat openat64 creat creat64 close read write pread pwrite pread64 pwrite64 readv writev
lseek lseek64 fsync fdatasync sync syncfs sync_file_range ftruncate ftruncate64 truncate truncate64 rename renameat unlink
remove link symlink stat stat64 fstat fstat64 lstat lstat64 access chmod fchmod chown fchown umask flock fcntl fcntl64 lockf
lockf64 dup dup2 mkstemp mkostemp tmpfile isatty mmap mmap64 munmap msync sleep usleep nanosleep clock_nanosleep time
clock_gettime gettimeofday getpid getppid getuid geteuid sched_yield getrandom getentropy malloc calloc realloc free posix_memalign
aligned_alloc memalign reallocarray asprintf vasprintf syscall strdup strndup exit _exit _Exit quick_exit abort atexit raise kill signal sigaction __assert_fail __stack_chk_fail
posix_fadvise posix_fallocate fallocate pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_spin_init pthread_spin_lock pthread_spin_unlock
mtx_init mtx_lock mtx_unlock pthread_once call_once
fseek fseeko fseeko64 rewind fopen fopen64 fdopen freopen freopen64 fclose fileno fileno_unlocked fflush fflush_unlocked printf vprintf puts putchar
putchar_unlocked perror getenv getchar dprintf
err errx warn warnx error verr verrx vwarn vwarnx poll select getline getdelim __getdelim open_memstream renameat2 unlinkat linkat fstatat fstatat64
newfstatat mkdir rmdir readlink realpath opendir copy_file_range sendfile sendfile64 splice tee arc4random arc4random_buf arc4random_uniform rand srand rand_r
random srandom drand48 lrand48 mrand48 srand48 clock fork vfork execv execve execvp execl execlp system popen pclose posix_spawn posix_spawnp
pthread_create daemon sigprocmask pthread_sigmask alarm setitimer timer_create setrlimit mlock munlock mlockall munlockall mlock2 prctl ioctl
vdprintf fcloseall setsid isatty mkfifo chdir fchdir syslog openlog SHA256 SHA512 SHA256_Init SHA256_Update SHA256_Final SHA512_Init SHA512_Update SHA512_Final
EVP_MD_CTX_new EVP_MD_CTX_free EVP_DigestInit EVP_DigestInit_ex EVP_DigestInit_ex2 EVP_DigestUpdate EVP_DigestFinal EVP_DigestFinal_ex EVP_DigestFinalXOF EVP_Digest""".split()
MEM = "memcpy memmove memset memcmp __memcpy_chk __memset_chk __memmove_chk explicit_bzero mempcpy bcopy bzero bcmp".split()

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def lib_sources():
    """(ref, fast) source lists: the Makefile's, so that the checks build what it builds."""
    try:
        mk = open(os.path.join(REPO, "Makefile")).read().replace("\\\n", " ")
        src = re.search(r"^SOURCES\s*=\s*(.*)$", mk, re.M).group(1).split()
        if "xmss_core.c" not in src or not all(os.path.exists(os.path.join(REPO, s)) for s in src):
            raise ValueError
    except Exception:
        src = sorted(os.path.basename(f) for f in glob.glob(REPO + "/*.c"))
        src = [s for s in src if s != "xmss_core_fast.c"]
    return src, [("xmss_core_fast.c" if s == "xmss_core.c" else s) for s in src]

def content_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/*.[ch]") + glob.glob(REPO + "/ui/*.[ch]") + [REPO + "/Makefile"]
                   + glob.glob(HERE + "/sim/*") + [os.path.abspath(__file__)])
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]

def build():
    os.makedirs(ROOT, exist_ok=True)
    with open(os.path.join(ROOT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(ROOT, content_hash())
        if os.path.exists(out + "/ok"):
            return out
        olds = sorted((d for d in glob.glob(ROOT + "/*") if os.path.isdir(d)), key=os.path.getmtime)
        for d in olds[:-2]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        _build(out)
        open(out + "/ok", "w").write("ok\n")
        return out

def _build(out):
    pool = cf.ThreadPoolExecutor(os.cpu_count() or 4)
    ref, fast = lib_sources()
    variants = {"ref": ref, "fast": fast}
    flavours = {  # name -> (flags, extra symbols)
        "plain": (["-O2", "-g", "-fPIC", "-w", "-U_FORTIFY_SOURCE", "-fstack-protector-strong", "-fno-builtin-printf", "-fno-builtin-putchar"], []),
        "tsan": (["-O1", "-g", "-fPIC", "-w", "-U_FORTIFY_SOURCE", "-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memset",
                  "-fno-builtin-memmove", "-fno-builtin-memcmp"], MEM),
    }
    common = [s for s in ref if s in fast]
    inc = ["-I" + REPO]

    def base_map(extra):
        m = {s: "sim_" + s for s in WORLD + extra}
        m.update(stdin="shim_stdin", stdout="shim_stdout", stderr="shim_stderr", main="tool_main")
        return m

    def compile_obj(src, obj, flags, extra):
        sh([CC] + flags + inc + ["-c", src, "-o", obj])
        defined = {l.split()[-1] for l in sh(["nm", "--defined-only", obj]).splitlines() if len(l.split()) >= 3}
        m = base_map(extra)
        for f in ("xmss_parse_oid", "xmssmt_parse_oid"):
            m[f] = ("real_" if f in defined else "shim_") + f
        for s in list(m):           # a source may define its own function of such a name
            if s in defined and s != "main" and not s.endswith("parse_oid"):
                del m[s]
        mp = obj + ".map"
        open(mp, "w").write("".join("%s %s\n" % kv for kv in m.items()))
        sh(["objcopy", "--redefine-syms=" + mp, obj])

    jobs = []
    objs = {}
    for fl, (flags, extra) in flavours.items():
        for s in sorted(set(ref + fast)):
            o = "%s/%s_%s.o" % (out, fl, s.replace("/", "_")[:-2])
            objs[fl, s] = o
            jobs.append(pool.submit(compile_obj, os.path.join(REPO, s), o, flags, extra))
    plain = flavours["plain"][0]
    ui = {}
    for prog in ("keypair", "sign", "open"):
        for mt in (0, 1):
            o = "%s/ui_%s_%d.o" % (out, prog, mt)
            ui[prog, mt] = o
            jobs.append(pool.submit(compile_obj, "%s/ui/%s.c" % (REPO, prog), o, plain + (["-DXMSSMT"] if mt else []), []))
    shimo = out + "/shim.o"
    jobs.append(pool.submit(sh, [CC, "-O2", "-fPIC", "-w"] + inc + ["-c", HERE + "/sim/shim.c", "-o", shimo]))
    simobjs = []
    for f in sorted(glob.glob(HERE + "/sim/*.cpp")):
        o = "%s/sim_%s.o" % (out, os.path.basename(f)[:-4])
        simobjs.append(o)
        jobs.append(pool.submit(sh, [CXX, "-std=c++20", "-O2", "-g", "-w", "-I" + HERE + "/sim"] + inc + ["-c", f, "-o", o]))
    for j in jobs:
        j.result()

    def link(o, parts, copies):
        tmp = o % 0
        sh([CC, "-shared", "-Wl,-z,now", "-Wl,-z,relro", "-Wl,-Bsymbolic", "-o", tmp] + parts + ["-lcrypto"])
        for i in range(1, copies):
            shutil.copy(tmp, o % i)
    jobs = [pool.submit(sh, [CXX, "-rdynamic", "-o", out + "/sim"] + simobjs + ["-lcrypto", "-ldl", "-lpthread"])]
    for v, srcs in variants.items():
        for fl in flavours:
            jobs.append(pool.submit(link, out + "/lib_%s_%s.%%d.so" % (fl, v), [objs[fl, s] for s in srcs] + [shimo], 3 if fl == "plain" else 1))
        for prog in ("keypair", "sign", "open"):
            for mt in (0, 1):
                jobs.append(pool.submit(link, out + "/tool_%s_%s_%s.%%d.so" % (prog, "xmssmt" if mt else "xmss", v),
                                        [objs["plain", s] for s in srcs] + [ui[prog, mt], shimo], 2 if prog == "keypair" else 3))
    for j in jobs:
        j.result()

if __name__ == "__main__":
    print(build())
