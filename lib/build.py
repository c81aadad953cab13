"""Builds the simulators from /repo's current working tree into /verif/build."""
import functools, concurrent.futures as cf, hashlib, os, re, shutil, subprocess, sys, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NCPU = os.cpu_count() or 4


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def repo_sources():
    """The C files the project's own compile script builds gkc from."""
    txt = open(os.path.join(REPO, "compile.sh"), errors="replace").read()
    out = []
    for line in txt.splitlines():
        if line.startswith("#"):
            continue
        for m in re.findall(r"[A-Za-z0-9_]+/[A-Za-z0-9_.]+\.c", line):
            if m not in out and os.path.exists(os.path.join(REPO, m)):
                out.append(m)
    return out


def tree_digest():
    """All headers and textually included sources of the tree."""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not d.startswith(".") and d not in ("_build", "Examples", "Doc", "html"))
        for f in sorted(files):
            if f.endswith((".h", ".inc", ".y", ".l")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def compile_all(jobs):
    """jobs: (compiler, src, obj, flags, extra-key).  Objects are cached by content."""
    os.makedirs(BUILD, exist_ok=True)
    todo = []
    for cc, src, obj, flags, key in jobs:
        k = hashlib.sha256(("\0".join([cc, src, key] + flags)).encode() + open(src, "rb").read()).hexdigest()
        try:
            if open(obj + ".key").read() == k and os.path.exists(obj):
                continue
        except OSError:
            pass
        todo.append((cc, src, obj, flags, k))

    def one(j):
        cc, src, obj, flags, k = j
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".%d.tmp" % os.getpid()
        sh([cc] + flags + ["-c", src, "-o", tmp])
        os.replace(tmp, obj)
        with open(obj + ".key", "w") as f:
            f.write(k)

    # big files first
    todo.sort(key=lambda j: -os.path.getsize(j[1]))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, todo))
    return len(todo)


LOCK_VARIANTS = {"tfqueue": 3, "rpspin": 1, "wpspin": 2}

DB_WRAPS = ["syscall", "nanosleep", "usleep", "sched_yield", "clock_gettime", "gettimeofday", "time", "clock"]
DB_WRAPS2 = ["shmget", "shmat", "shmdt", "shmctl", "getuid", "geteuid", "getgid", "getegid",
             "malloc", "calloc", "realloc", "free", "fopen", "open", "remove", "unlink", "rename", "fsync", "fdatasync", "fileno", "access"]


def variant_config(v):
    """A directory holding config.h (with the lock protocol selected) beside copied source folders."""
    d = os.path.join(BUILD, "tree-" + v)
    os.makedirs(d, exist_ok=True)
    txt = open(os.path.join(REPO, "config.h"), errors="surrogateescape").read()
    new, n = re.subn(r"(?m)^(\s*#\s*define\s+LOCK_PROTO\s+)\d+", lambda m: m.group(1) + str(LOCK_VARIANTS[v]), txt)
    if n != 1:
        raise BuildError("config.h does not define LOCK_PROTO once")
    open(os.path.join(d, "config.h"), "w", errors="surrogateescape").write(new)
    for e in os.listdir(REPO):
        s = os.path.join(REPO, e)
        t = os.path.join(d, e)
        if os.path.isdir(s) and not e.startswith(".") and e not in ("_build", "Examples", "Doc", "html"):
            # real copies: "../config.h" is looked up beside the including file
            sync_dir(s, t)
    return d, hashlib.sha256(new.encode(errors="surrogateescape")).hexdigest()


def sync_dir(s, t, edit=None):
    os.makedirs(t, exist_ok=True)
    want = set()
    for f in os.listdir(s):
        if not f.endswith((".c", ".h", ".inc", ".y", ".l")):
            continue
        want.add(f)
        a, b = os.path.join(s, f), os.path.join(t, f)
        if os.path.isdir(a):
            continue
        data = open(a, "rb").read()
        if edit:
            data = edit(f, data)
        try:
            if open(b, "rb").read() == data:
                continue
        except OSError:
            pass
        with open(b, "wb") as g:
            g.write(data)
    for f in os.listdir(t):
        if f.endswith((".c", ".h")) and f not in want:
            os.unlink(os.path.join(t, f))


def locked(f):
    """one build at a time, also between processes"""
    @functools.wraps(f)
    def g(*a, **k):
        import fcntl
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, ".lock"), "w") as l:
            fcntl.flock(l, fcntl.LOCK_EX)
            return f(*a, **k)
    return g


@locked
def build_dbsim(variant="tfqueue", full=False):
    """The database simulator: Db/*.c instrumented, everything else plain."""
    tree, ck = variant_config(variant)
    dig = tree_digest() + ck
    out = os.path.join(BUILD, "dbsim-%s%s" % (variant, "-full" if full else ""))
    od = os.path.join(BUILD, "obj-" + variant)
    jobs, objs = [], []
    for s in repo_sources():
        if s == "Main/gkc.c":
            continue
        o = os.path.join(od, s.replace("/", "_")[:-2] + ".o")
        if s.startswith("Db/"):
            fl = ["-O1", "-g", "-w", "-fno-inline-functions", "-fsanitize=thread", "--param", "tsan-distinguish-volatile=1",
                  "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-fno-omit-frame-pointer"]
        else:
            fl = ["-O1", "-w", "-U_FORTIFY_SOURCE"]
        jobs.append(("gcc", os.path.join(tree, s), o, fl, dig))
        objs.append(o)
    hs = ["sim.cpp", "tsan.cpp", "env.cpp", "main.cpp", "locks.cpp"]
    hs += ["seg.cpp", "env2.cpp", "atomics.cpp", "store.cpp", "alloc.cpp", "dump.cpp", "shmlife.cpp", "index.cpp", "reg_full.cpp"] if full else ["reg_locks_only.cpp"]
    hk = hashlib.sha256(b"".join(open(f, "rb").read() for f in sorted(glob.glob(VERIF + "/dbsim/*.h")))).hexdigest()
    for s in hs:
        o = os.path.join(od, "h_" + s[:-4] + ".o")
        jobs.append(("g++", os.path.join(VERIF, "dbsim", s), o,
                     ["-O2", "-g", "-w", "-std=c++17", "-fpermissive", "-U_FORTIFY_SOURCE", "-I" + tree + "/Db"], dig + hk))
        objs.append(o)
    n = compile_all(jobs)
    wraps = DB_WRAPS + (DB_WRAPS2 if full else [])
    if n or not os.path.exists(out):
        sh(["g++", "-no-pie", "-o", out + ".tmp"] + objs + ["-Wl,--wrap=" + w for w in wraps] +
           ["-Wl,--defsym,wg_show_database=0", "-lm"])
        os.replace(out + ".tmp", out)
    return out


GK_WRAPS = ["exit", "_exit", "abort", "fork", "waitpid", "wait", "kill", "raise", "getpid", "getppid", "prctl", "signal", "sigaction", "sigprocmask",
            "alarm", "clock", "gettimeofday", "time", "clock_gettime", "usleep", "sleep", "nanosleep", "sched_yield", "malloc", "calloc", "realloc", "free",
            "fopen", "freopen", "fileno", "isatty", "fsync", "access", "remove", "unlink", "rename", "system", "getenv",
            "shmget", "shmat", "shmdt", "shmctl", "syscall"]


SMALL = ("NROF_CLTERM_HASHVEC_ELS", "NROF_ACTIVE_UNIT_HASHVEC_ELS", "NROF_ATOM_OCCURRENCES_HASHVEC_ELS")


def small_tree(kb=False):
    """A copy of the tree whose million-entry search hash tables have 1009 buckets: clearing them costs less and buckets collide.
    For the knowledge base commands the growing clause tables also start with 20000 places instead of ten million (a dump would take a gigabyte).
    A size that cannot be found keeps its shipped value."""
    d = os.path.join(BUILD, "tree-small" + ("-kb" if kb else ""))

    def cut(f, data):
        if f != "glb.h":
            return data
        data = re.sub(rb"(?m)^(#define\s+(?:%s)\s+)1000000\b" % "|".join(SMALL).encode(), rb"\g<1>1009", data)
        return re.sub(rb"(?m)^(#define\s+NROF_DYNALLOCINITIAL_ELS\s+)10000000\b", rb"\g<1>20000", data) if kb else data
    os.makedirs(d, exist_ok=True)
    for e in os.listdir(REPO):
        s = os.path.join(REPO, e)
        if os.path.isdir(s) and not e.startswith(".") and e not in ("_build", "Examples", "Doc", "html"):
            sync_dir(s, os.path.join(d, e), cut)
    shutil.copyfile(os.path.join(REPO, "config.h"), os.path.join(d, "config.h"))
    return d


@locked
def build_gksim(small=True):
    """The whole prover, every basic block instrumented, under a simulated system."""
    var = ("-kb" if small == "kb" else "-small") if small else ""
    tree = small_tree(small == "kb") if small else REPO
    dig = tree_digest() + var
    out = os.path.join(BUILD, "gksim" + var)
    od = os.path.join(BUILD, "obj-gksim" + var)
    jobs, objs = [], []
    for s in repo_sources():
        o = os.path.join(od, s.replace("/", "_")[:-2] + ".o")
        fl = ["-O1", "-g1", "-w", "-fsanitize-coverage=trace-pc", "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-fno-builtin-malloc", "-fno-builtin-free"]
        if s == "Main/gkc.c":
            fl.append("-Dmain=gkc_real_main")
        jobs.append(("gcc", os.path.join(tree, s), o, fl, dig))
        objs.append(o)
    o = os.path.join(od, "h_gksim.o")
    jobs.append(("g++", os.path.join(VERIF, "gksim", "gksim.cpp"), o, ["-O2", "-g1", "-w", "-std=c++17", "-fpermissive", "-U_FORTIFY_SOURCE", "-fno-builtin-malloc"], ""))
    objs.append(o)
    n = compile_all(jobs)
    if n or not os.path.exists(out):
        sh(["g++", "-no-pie", "-o", out + ".tmp"] + objs + ["-Wl,--wrap=" + w for w in GK_WRAPS] + ["-lm"])
        os.replace(out + ".tmp", out)
    return out


if __name__ == "__main__":
    import time
    t = time.time()
    for a in sys.argv[1:]:
        if a.startswith("dbsim"):
            v = a.split("-")[1] if "-" in a else "tfqueue"
            print(build_dbsim(v, a.startswith("dbsimfull")))
        elif a.startswith("gksim"):
            print(build_gksim(a.endswith("small")))
    print("%.1fs" % (time.time() - t))
