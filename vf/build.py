"""Compile conformance harnesses against /repo's current working tree."""
import hashlib, os, threading, subprocess, concurrent.futures as cf, glob
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"
BASE = ["-std=c++14", "-w", "-g1", "-I" + VERIF + "/shim", "-I" + VERIF + "/harness", "-I/usr/include/eigen3",
        "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", '-DTESTS_DYNLIBSUFFIX=".so"', "-DSOT_CORE_EXPORTS"]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
LIBS = ["-lboost_filesystem", "-lboost_thread", "-lboost_regex", "-lboost_system", "-lboost_program_options", "-lpthread", "-ldl"]
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

class BuildError(Exception):
    pass

def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def _tree_hash():
    h = hashlib.sha256()
    fs = []
    for root in (REPO + "/include", REPO + "/src"):
        for d, _, names in os.walk(root):
            for n in names:
                if n.endswith((".hh", ".h", ".hxx", ".hpp")):
                    fs.append(os.path.join(d, n))
    for d, _, names in os.walk(VERIF + "/shim"):
        for n in names:
            if not n.endswith(".cpp"):
                fs.append(os.path.join(d, n))
    fs += glob.glob(VERIF + "/harness/*.hh")
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

_th = None
_guard = threading.Lock(); _locks = {}; _made = {}
def _lock(key):
    with _guard: return _locks.setdefault(key, threading.Lock())
def compile_one(src, flags):
    """compile one source file; objects are cached by content"""
    global _th
    with _guard:
        if _th is None:
            _th = _tree_hash()
    code = open(src, "rb").read()
    key = _sha(_th, src, code, " ".join(flags))
    os.makedirs(BUILD + "/obj", exist_ok=True)
    o = f"{BUILD}/obj/{os.path.basename(src)}.{key}.o"
    with _lock(o): return _compile(src, flags, o)

def _compile(src, flags, o):
    if os.path.exists(o):
        return o
    tmp = o + f".{os.getpid()}.{threading.get_ident()}.tmp"
    r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(f"compiling {src} failed:\n{r.stdout[-6000:]}")
    os.replace(tmp, o)
    return o

CORE = ["src/debug/debug.cpp", "src/debug/contiifstream.cpp", "src/exception/exception-abstract.cpp", "src/exception/exception-dynamic.cpp",
        "src/exception/exception-factory.cpp", "src/exception/exception-feature.cpp", "src/exception/exception-signal.cpp",
        "src/exception/exception-task.cpp", "src/exception/exception-tools.cpp"]

def harness(name, srcs, main, opt="-O1", asan=True, extra=(), libs=(), shim=True):
    """Build executable `name` from repo sources `srcs` and /verif/harness/`main`."""
    flags = BASE + ["-I" + REPO + "/include", "-I" + REPO + "/src", opt] + list(extra)
    # extra include flags must come first to be able to shadow
    if asan:
        flags += ASAN
    files = []
    for s in list(CORE) + list(srcs):
        p = os.path.join(REPO, s)
        if p not in files:
            files.append(p)
    if shim:
        files.append(VERIF + "/shim/dgshim.cpp")
    files.append(VERIF + "/harness/" + main)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda f: compile_one(f, flags), files))
    exe = f"{BUILD}/bin/{name}"
    os.makedirs(BUILD + "/bin", exist_ok=True)
    cmd = (ASAN if asan else []) + objs + list(libs) + LIBS
    with _lock(exe):                       # components that share an executable build it once
        if _made.get(exe) == cmd:
            return exe
        tmp = exe + f".{os.getpid()}.tmp"
        r = subprocess.run([CXX] + (ASAN if asan else []) + ["-o", tmp] + objs + list(libs) + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(f"linking {name} failed:\n{r.stdout[-6000:]}")
        os.replace(tmp, exe); _made[exe] = cmd
    return exe

def shared(name, main, defs=(), opt="-O1", asan=True):
    """Build shared library bin/lib`name`.so from /verif/harness/`main` (unloadable: no unique symbols)."""
    flags = BASE + ["-I" + REPO + "/include", "-I" + REPO + "/src", opt, "-fPIC", "-fno-gnu-unique"] + list(defs) + (ASAN if asan else [])
    obj = compile_one(VERIF + "/harness/" + main, flags)
    lib = f"{BUILD}/bin/lib{name}.so"
    os.makedirs(BUILD + "/bin", exist_ok=True)
    with _lock(lib):
        if _made.get(lib) == obj: return lib
        tmp = lib + f".{os.getpid()}.tmp"
        r = subprocess.run([CXX] + (ASAN if asan else []) + ["-shared", "-fPIC", "-o", tmp, obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise BuildError(f"linking {name} failed:\n{r.stdout[-6000:]}")
        os.replace(tmp, lib); _made[lib] = obj
    return lib
