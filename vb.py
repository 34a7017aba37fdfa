"""Builds the code under test straight from /repo's working tree, linked against the controlled runtime, and runs a check."""
import hashlib, os, subprocess, sys, shutil, time, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
COMMON = ["-std=gnu++11", "-w", "-fPIC", "-fno-strict-aliasing", "-fno-gnu-unique", "-DNDEBUG"]
CFG = {
    "ref": ["-DVPIC_USE_PTHREADS"],
    "digits": ["-DVPIC_USE_PTHREADS", "-DVPIC_PRINT_MORE_DIGITS"],
    "refleg": ["-DVPIC_USE_PTHREADS", "-DVPIC_USE_LEGACY_SORT"],
    "v4sse": ["-DVPIC_USE_PTHREADS", "-DUSE_V4_SSE", "-DVPIC_USE_LEGACY_SORT"],
    "v8avx2": ["-mavx2", "-mfma", "-DUSE_V4_AVX2", "-DUSE_V8_AVX2", "-DVPIC_USE_PTHREADS"],
    "v4avx2": ["-mavx2", "-mfma", "-DUSE_V4_AVX2", "-DVPIC_USE_PTHREADS"],
    "v8omp": ["-DUSE_V4_PORTABLE", "-DUSE_V8_PORTABLE", "-DVPIC_USE_OPENMP", "-fopenmp"],
    "v4port": ["-DUSE_V4_PORTABLE", "-DVPIC_USE_PTHREADS"],
    "v16avx512": ["-DUSE_V4_AVX2", "-DUSE_V8_AVX2", "-DUSE_V16_AVX512", "-DVPIC_USE_PTHREADS", "-mavx2", "-mfma", "-mavx512f", "-mavx512dq", "-mavx512bw", "-mavx512vl"],
    "v16portable": ["-DUSE_V4_PORTABLE", "-DUSE_V8_PORTABLE", "-DUSE_V16_PORTABLE", "-DVPIC_USE_PTHREADS"],
}
WRAP = ("exit abort _nanodelay log_printf dlsym sched_yield pthread_self pthread_equal pthread_join pthread_mutex_init "
        "pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init "
        "pthread_cond_destroy pthread_cond_signal pthread_cond_broadcast pthread_cond_wait pthread_cond_timedwait pthread_detach usleep sleep nanosleep clock_nanosleep fopen fopen64 malloc free calloc realloc gettimeofday clock_gettime").split()
CXX = "g++"
def avx512():
    try: fl = set(next(l for l in open("/proc/cpuinfo") if l.startswith("flags")).split())
    except (OSError, StopIteration): return False
    return {"avx2", "fma", "avx512f", "avx512dq", "avx512bw", "avx512vl"} <= fl

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:20]

_tree = None
def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for top in ("src", "deck"):
            for d, dn, fn in sorted(os.walk(os.path.join(REPO, top))):
                dn.sort()
                for f in sorted(fn):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
        for f in ("mpi.h", "vmc.h"):
            h.update(open(os.path.join(HERE, "rt", f), "rb").read())
        _tree = h.hexdigest()[:20]
    return _tree

_head = None
def head_hash():
    """Everything a source file of the program can include: all files but the other .cc files."""
    global _head
    if _head is None:
        h = hashlib.sha256()
        for top in ("src", "deck"):
            for d, dn, fn in sorted(os.walk(os.path.join(REPO, top))):
                dn.sort()
                for f in sorted(fn):
                    if f.endswith(".cc") and top == "src": continue
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
        for f in ("mpi.h", "vmc.h"): h.update(open(os.path.join(HERE, "rt", f), "rb").read())
        _head = h.hexdigest()[:20]
    return _head
def includes_source(text): return b'.cc"' in text or b".cc>" in text or b'.c"' in text

def sources():
    out = []
    for d, dn, fn in sorted(os.walk(os.path.join(REPO, "src"))):
        if "/test" in d[len(REPO):]: continue
        out += [os.path.join(d, f) for f in sorted(fn) if f.endswith(".cc")]
    return out

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:] + "\n")
        raise SystemExit("build failed: " + cmd[-1])

POOL = ThreadPoolExecutor(max_workers=int(os.environ.get("VMC_JOBS", "0")) or os.cpu_count())

def compile_one(src, flags, key):
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, sha(src, " ".join(flags), key) + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp.o" % os.getpid()
        run([CXX] + flags + ["-c", src, "-o", tmp])
        # ld's --wrap misses symbols that libstdc++ also references weakly
        if "-fPIC" in flags: run(["objcopy", "--redefine-sym", "pthread_create=vmc_pthread_create", tmp])
        os.rename(tmp, obj)
    return obj

def headers():
    return sha(*(open(os.path.join(HERE, d, f), "rb").read() for d in ("rt", "checks") for f in sorted(os.listdir(os.path.join(HERE, d))) if f.endswith(".h") or f in ("field_rank.cc", "field_host.cc")))

def lib_async(cfg, rank_cc, opt="-O2", defs=(), tsan=(), extra_src=(), bare=False):
    """Starts compiling; returns a function that links and returns the path. bare: headers only, none of the program's sources. tsan: predicate-ish list of path parts to instrument."""
    flags = COMMON + [opt] + CFG.get(cfg, []) + list(defs) + ["-I" + os.path.join(HERE, "rt"), "-I" + REPO + "/src", "-I" + REPO]
    th = tree_hash()
    jobs = []
    def fl(s):
        f = flags
        if any(t in s[len(REPO):] for t in tsan): f = f + ["-fsanitize=thread", "-fno-builtin-memset", "-fno-builtin-memcpy", "-fno-builtin-memmove"]
        return f
    for s in [] if bare else sources():
        text = open(s, "rb").read()
        jobs.append(POOL.submit(compile_one, s, fl(s), th if includes_source(text) else head_hash() + sha(text)))
    for s in [rank_cc] + list(extra_src):
        dep = sha(open(s, "rb").read(), headers())
        jobs.append(POOL.submit(compile_one, s, flags + ["-I" + os.path.join(HERE, "checks")], head_hash() + dep))
    def link():
        objs = [j.result() for j in jobs]
        d = os.path.join(BUILD, "lib"); os.makedirs(d, exist_ok=True)
        out = os.path.join(d, "%s-%s.so" % (cfg, sha("link5", *objs)))
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            open(tmp + ".list", "w").write("{ _nanodelay; log_printf; };")  # interposed even where they are defined; the rest as with -Bsymbolic
            run([CXX, "-shared", "-Wl,--dynamic-list=" + tmp + ".list", "-Wl,-z,now"] + ["-Wl,--wrap=" + w for w in WRAP + (["memset", "memcpy", "memmove"] if tsan else [])] + objs + ["-o", tmp])
            os.rename(tmp, out)
        return out
    return link

def host(host_cc, defs=()):
    rt = os.path.join(HERE, "rt")
    hh = [open(os.path.join(rt, f), "rb").read() for f in sorted(os.listdir(rt))]
    fl = ["-std=gnu++17", "-O2", "-U_FORTIFY_SOURCE", "-w", "-g1", "-I" + rt, "-I" + os.path.join(HERE, "checks")] + list(defs)
    a = POOL.submit(compile_one, os.path.join(rt, "vmc.cc"), fl, sha(*hh))
    dep = sha(open(host_cc, "rb").read(), headers(), *hh)
    b = POOL.submit(compile_one, host_cc, fl, dep)
    def link():
        o = [a.result(), b.result()]
        d = os.path.join(BUILD, "bin"); os.makedirs(d, exist_ok=True)
        out = os.path.join(d, os.path.basename(host_cc)[:-3] + "-" + sha(*o))
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            run([CXX, "-rdynamic"] + o + ["-o", tmp, "-ldl", "-lpthread"])
            os.rename(tmp, out)
        return out
    return link

def prune():
    """The cache only saves time while developing; keep it small."""
    try:
        tot = 0; fs = []
        for d, _, fn in os.walk(BUILD):
            for f in fn:
                p = os.path.join(d, f); st = os.stat(p); fs.append((st.st_mtime, st.st_size, p)); tot += st.st_size
        fs.sort()
        while tot > 6e9 and fs:
            t, s, p = fs.pop(0); os.unlink(p); tot -= s
    except OSError: pass

def run_check(prop, binary, libs, tier, args=()):
    ev = os.path.join(HERE, "evidence"); os.makedirs(ev, exist_ok=True)
    cmd = [binary, "--prop", prop, "--tier", tier, "--seed", os.environ.get("VERIF_SEED", "1"),
           "--evidence", os.path.join(ev, prop + ".json"), "--known", os.path.join(HERE, "known_findings.txt"),
           "--replays", os.path.join(HERE, "replays")]
    for c, p in libs: cmd += ["--lib", "%s=%s" % (c, p)]
    cmd += list(args)
    sys.stdout.flush()
    return subprocess.call(cmd)
