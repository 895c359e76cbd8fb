"""Builds, on every run, from /repo's current working tree: the LLVM IR (as JSON) of the translation units a
property needs, and (for replay of counterexamples / bounded stand-ins) the native library and harnesses.
Everything goes to /verif/build (git-ignored), keyed by the content of the sources."""
import os, sys, hashlib, subprocess, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-20/bin/"

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def src_files():
    out = []
    for base in ("src",):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            for f in sorted(fs):
                if f.endswith((".cpp", ".h", ".cmake", ".c", ".def", ".map")): out.append(os.path.join(d, f))
    for f in ("CMakeLists.txt", "config.h.in"): out.append(os.path.join(REPO, f))
    return sorted(out)
_hash = None
def src_hash():
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        for f in src_files():
            h.update(f.encode()); h.update(open(f, "rb").read())
        h.update(open(os.path.join(VERIF, "vc", "irdump.cpp"), "rb").read())
        h.update(open(__file__, "rb").read())
        _hash = h.hexdigest()[:16]
    return _hash

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0: raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd) if isinstance(cmd, list) else cmd, r.stdout[-4000:]))
    return r.stdout

def prune(prefix, keep):
    for d in os.listdir(BUILD):
        if d.startswith(prefix) and d != keep:
            p = os.path.join(BUILD, d)
            if time.time() - os.path.getmtime(p) > 3600: shutil.rmtree(p, ignore_errors=True)

def irdump():
    src = os.path.join(VERIF, "vc", "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(BUILD, "irdump-" + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        fl = subprocess.check_output("%sllvm-config --cxxflags --ldflags --libs core irreader support demangle --link-shared" % LLVM, shell=True, text=True).split()
        tmp = out + ".%d" % os.getpid()
        sh([LLVM + "clang++", "-O1", "-fno-rtti", "-std=c++17", src, "-o", tmp] + fl + ["-w"])
        os.rename(tmp, out)
    return out

def find_tu(tu):
    for d in ("core", "plugins", "runtime", "kernel"):
        p = os.path.join(REPO, "src", d, tu + ".cpp")
        if os.path.exists(p): return p
    raise RuntimeError("source file %s.cpp not found in %s/src" % (tu, REPO))

def ir(tus):
    """-> list of json paths"""
    os.makedirs(BUILD, exist_ok=True)
    key = "ir-" + src_hash(); d = os.path.join(BUILD, key); os.makedirs(d, exist_ok=True)
    prune("ir-", key)
    cfg = os.path.join(d, "config.h")
    if not os.path.exists(cfg):
        v = subprocess.check_output([LLVM + "llvm-config", "--version"], text=True).split(".")
        with open(cfg + ".tmp%d" % os.getpid(), "w") as f:
            f.write('#define PACKAGE_VERSION "0"\n#define HAVE_READLINE 0\n#define LLVM_VERSION %d\n#define IS_BIG_ENDIAN 0\n' % (int(v[0]) * 10 + int(v[1])))
        os.rename(cfg + ".tmp%d" % os.getpid(), cfg)
    ex = ThreadPoolExecutor(9)
    dump = ex.submit(irdump)
    def one(tu):
        out = os.path.join(d, tu + ".json")
        if os.path.exists(out): return out
        src = find_tu(tu); pid = os.getpid()
        b0 = os.path.join(d, "%s.%d.bc" % (tu, pid)); b1 = os.path.join(d, "%s.%d.o.bc" % (tu, pid)); j = out + ".%d" % pid
        sh([LLVM + "clang++", "-std=gnu++17", "-fno-rtti", "-O1", "-Xclang", "-disable-llvm-passes", "-DNDEBUG", "-g", "-fstandalone-debug",
            "-I" + d, "-I/usr/lib/llvm-20/include", "-I%s/src" % REPO, "-I%s/src/core" % REPO, "-DCL_TARGET_OPENCL_VERSION=300" if False else "-D_GNU_SOURCE",
            "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-w", "-c", "-emit-llvm", "-o", b0, src])
        sh([LLVM + "opt", "-passes=function(sroa,early-cse,simplifycfg)", b0, "-o", b1])
        sh([dump.result(), b1, j])
        os.rename(j, out); os.remove(b0); os.remove(b1)
        return out
    try: return list(ex.map(one, tus))
    finally: ex.shutdown()

def native():
    """build the library from the working tree -> build dir"""
    os.makedirs(BUILD, exist_ok=True)
    key = "native-" + src_hash(); d = os.path.join(BUILD, key)
    prune("native-", key)
    if os.path.exists(os.path.join(d, ".done")): return d
    env = dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C.UTF-8")
    sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1 -DNDEBUG",
        "-DLLVM_DIR=/usr/lib/llvm-20/lib/cmake/llvm", "-DCLANG_ROOT=/usr/lib/llvm-20", "-DPYTHON_EXECUTABLE=/usr/bin/python3"], env=env)
    sh(["ninja", "-C", d, "oclgrind", "oclgrind-rt", "oclgrind-kernel", "OPENCL_C_HEADERS"], env=env)
    open(os.path.join(d, ".done"), "w").close()
    return d

def harness(name, extra=()):
    """compile /verif/native/<name>.cpp against the native build -> executable path"""
    d = native(); src = os.path.join(VERIF, "native", name + ".cpp"); out = os.path.join(d, "h_" + name)
    hsh = hashlib.sha256(open(src, "rb").read()).hexdigest()[:8]; out += "-" + hsh
    if os.path.exists(out): return out
    fl = subprocess.check_output([LLVM + "llvm-config", "--cxxflags"], text=True).split()
    fl = [f for f in fl if f.startswith(("-I", "-D"))]
    lib = "oclgrind-rt" if name.startswith("api") else "oclgrind"
    tmp = out + ".%d" % os.getpid()
    cmd = ["g++", "-std=gnu++17", "-O1", "-fno-rtti", "-w", "-I" + d, "-I%s/src" % REPO, "-I%s/src/core" % REPO] + fl + [src, "-o", tmp, "-L" + d, "-l" + lib, "-loclgrind", "-Wl,-rpath," + d, "-lpthread"]
    lf = subprocess.check_output([LLVM + "llvm-config", "--ldflags", "--libs", "core", "irreader", "bitwriter", "support", "--link-shared"], text=True).split()
    sh(cmd + lf + list(extra))
    os.rename(tmp, out)
    return out
