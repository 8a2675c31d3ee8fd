"""Builds the explorer and the per-rank LAIK libraries from /repo's working tree."""
import hashlib, os, subprocess, sys, glob, shutil, re, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
MC = VERIF + "/mc"
OUT = os.environ.get("MC_BUILD", VERIF + "/build")

WRAPS = """malloc calloc realloc free posix_memalign aligned_alloc strdup strndup memcpy memmove memset memcmp
strcpy strncpy strlen strcmp vsprintf sprintf snprintf __assert_fail __stack_chk_fail abort exit _exit getenv gethostname gettimeofday
clock_gettime getpid sleep usleep fopen fclose fprintf vfprintf dlopen dlsym dlclose dlerror""".split()
SOCKWRAPS = """socket bind listen accept connect select read write send recv close getaddrinfo freeaddrinfo getsockname getpeername
setsockopt getsockopt shutdown gai_strerror fcntl poll unlink nanosleep writev accept4 signal""".split()
GLIBWRAPS = """g_mutex_init g_mutex_clear g_mutex_lock g_mutex_unlock g_cond_init g_cond_clear g_cond_broadcast g_cond_signal g_cond_wait
g_cond_wait_until g_get_monotonic_time g_usleep g_thread_new g_thread_join g_thread_pool_new g_thread_pool_push g_thread_pool_free
g_async_queue_new_full g_async_queue_push g_async_queue_try_pop g_async_queue_unref g_file_new_for_commandline_arg g_file_load_contents
g_object_unref g_file_set_contents socketpair getppid""".split()
CF = """-U_FORTIFY_SOURCE -O1 -g -std=gnu99 -fPIC -fno-builtin -fno-strict-aliasing -fwrapv -w -fno-omit-frame-pointer -fstack-protector-all
-fsanitize=kernel-address --param asan-instrumentation-with-call-threshold=0 --param asan-stack=0 --param asan-globals=0
-fno-inline-functions -fno-ipa-cp""".split()

COV = bool(os.environ.get("MC_COV")) # developers: which lines do the checks reach? (tools/cov.py)

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        print("BUILD-ERROR:", " ".join(cmd)); print(p.stdout[-4000:]); sys.exit(2)
    return p.stdout

def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]

def repo_files():
    r = []
    for pat in ("src/*.c", "src/*.h", "src/backends/**/*.[ch]", "include/*.h", "include/laik/*.h"):
        r += glob.glob(f"{REPO}/{pat}", recursive=True)
    return r

def cc_all(jobs):
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda c: sh(c), jobs))

def glib_flags():
    inc = ["-I/usr/include/glib-2.0", "-I/usr/lib/x86_64-linux-gnu/glib-2.0/include", "-pthread"]
    return inc

# variants: which backends are compiled in, and which system calls are replaced
def build(variant="mpi", small_packbuf=None, extra_defs=()):
    os.makedirs(OUT, exist_ok=True)
    mcf = [f for f in glob.glob(MC + "/**/*", recursive=True) if os.path.isfile(f)]
    key = digest(repo_files() + mcf + [os.path.abspath(__file__)], repr((variant, small_packbuf, tuple(extra_defs))) + ("cov" if COV else ""))
    d = f"{OUT}/{variant}-{key}"
    lock = open(f"{OUT}/lock-{variant}", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(d + "/ok"):
            os.utime(d); return d
        # keep the cache small
        olds = sorted(glob.glob(f"{OUT}/{variant}-*"), key=os.path.getmtime)
        for o in olds[:-3]: shutil.rmtree(o, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/git-version.h", "w").write('#define GIT_VERSION "mc"\n')
        inc = [f"-I{REPO}/include", f"-I{REPO}/src", f"-I{d}", f"-I{MC}"]
        defs = list(extra_defs); srcs = sorted(glob.glob(f"{REPO}/src/*.c"))
        wraps = list(WRAPS); libs = []
        if variant == "mpi":
            defs += ["-DUSE_MPI"]; inc.insert(0, f"-I{MC}/mockmpi")
        elif variant == "tcp2":
            defs += ["-DUSE_TCP2"]; wraps += SOCKWRAPS
        elif variant == "tcp":
            defs += ["-DUSE_TCP"]; inc += glib_flags()
            srcs += sorted(glob.glob(f"{REPO}/src/backends/tcp/*.c"))
            libs += ["-lgio-2.0", "-lgobject-2.0", "-lglib-2.0"]; wraps += SOCKWRAPS + GLIBWRAPS
        srcs += sorted(glob.glob(f"{MC}/apps/*.c"))
        defs += ["-DVARIANT_" + variant.upper()]
        jobs, objs = [], []
        for s in srcs:
            o = f"{d}/" + re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(s, "/")) + ".o"
            src = s
            if small_packbuf and s.endswith("/backend-mpi.c"):
                t = open(s).read()
                t2 = re.sub(r"(?m)^\s*#\s*define\s+PACKBUFSIZE\s+.*$", f"#define PACKBUFSIZE ({small_packbuf})", t)
                src = f"{d}/backend-mpi.c"; open(src, "w").write(t2)
            objs.append(o)
            own = ["-Werror=implicit-function-declaration", "-Werror=int-conversion"] if s.startswith(MC) else []
            jobs.append(["gcc", *CF, *(["-fsanitize-coverage=trace-pc"] if COV and not own else []), *own, *defs, *inc, "-c", src, "-o", o])
        mo = []
        for s in sorted(glob.glob(MC + "/*.c")):
            o = f"{d}/main_" + os.path.basename(s) + ".o"; mo.append(o)
            jobs.append(["gcc", "-U_FORTIFY_SOURCE", "-O2", "-g", "-std=gnu11", "-w", "-fno-builtin", "-I" + MC, "-c", s, "-o", o])
        cc_all(jobs)
        sh(["gcc", "-shared", "-g", "-o", d + "/librank.so", *objs, "-Wl,-z,now", "-Wl,-Bsymbolic",
            *["-Wl,--wrap=" + w for w in wraps], *libs, "-ldl", "-lm"])
        open(d + "/librank.so.sym", "w").write("\n".join(l for l in subprocess.run(["nm", "-S", "--defined-only", d + "/librank.so"], capture_output=True, text=True, check=True).stdout.splitlines() if len(l.split()) == 4) + "\n")
        sh(["gcc", "-g", "-rdynamic", "-o", d + "/explore", *mo, "-ldl"])
        for o in objs + mo: os.remove(o)
        open(d + "/ok", "w").write("ok")
        return d
    finally:
        lock.close()

if __name__ == "__main__":
    for v in sys.argv[1:] or ["mpi"]:
        print(build(v))
