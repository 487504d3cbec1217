"""Build and run machinery shared by all checks: compiles /repo's current sources to LLVM bitcode (and natively, for
replay), links them with a harness, runs the symbolic executor, replays its counterexamples and samples."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
NCPU = min(8, os.cpu_count() or 1)
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
LINK = "llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"
COMMON = ["-std=gnu++17", "-DNDEBUG", "-D_FILE_OFFSET_BITS=64", "-D_LARGEFILE_SOURCE", "-DTPIE_SX_SERIALIZATION_BLOCK_SIZE=16", "-w"]
BCFLAGS = COMMON + ["-O1", "-fno-pic", "-fno-pie", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-gline-tables-only", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-isystem", f"{VERIF}/rt/shim", f"-I{VERIF}/rt", "-c", "-emit-llvm"]
RTFLAGS = ["-fno-builtin", "-D_LARGEFILE64_SOURCE", "-U_FILE_OFFSET_BITS"]
NATFLAGS = COMMON + ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", f"-I{VERIF}/rt", "-c"]
DEFINES = {"TPIE_HAVE_UNISTD_H": "", "TPIE_HAVE_SYS_UNISTD_H": "", "TPIE_PARALLEL_SORT": "", "TPL_LOGGING": "1", "TPIE_NDEBUG": "", "TPIE_HAS_SNAPPY": "", "TPIE_HAS_LZ4": "", "TPIE_HAS_ZSTD": ""}
EXPORT_H = """#pragma once
#define TPIE_EXPORT
#define TPIE_NO_EXPORT
#define TPIE_DEPRECATED
#define TPIE_DEPRECATED_EXPORT
#define TPIE_DEPRECATED_NO_EXPORT
"""
class BuildError(Exception): pass

def sha(b): return hashlib.sha256(b).hexdigest()[:32]
_fh = {}
def filehash(p):
    if p not in _fh:
        try: _fh[p] = sha(open(p, "rb").read())
        except OSError: _fh[p] = None
    return _fh[p]
def write_if_changed(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    try:
        if open(p).read() == s: return
    except OSError: pass
    open(p, "w").write(s)

def generate():
    """the headers cmake would generate, from the current templates"""
    g = os.path.join(CACHE, "gen")
    out = []
    for line in open(f"{REPO}/tpie/config.h.cmake"):
        m = re.match(r"#cmakedefine\s+(\w+)(.*)", line)
        if m: out.append(f"#define {m.group(1)} {m.group(2).strip()}\n" if m.group(1) in DEFINES else f"/* #undef {m.group(1)} */\n")
        else: out.append(line)
    write_if_changed(f"{g}/tpie/config.h", "".join(out))
    write_if_changed(f"{g}/tpie/tpie_export.h", EXPORT_H)
    write_if_changed(f"{g}/tpie/sysinfo.cpp", re.sub(r"@\w+@", "x", open(f"{REPO}/tpie/sysinfo.cpp.in").read()))
    return g

def lib_sources(gen):
    txt = open(f"{REPO}/tpie/CMakeLists.txt").read()
    m = re.search(r"set\s*\(\s*SOURCES(.*?)\)", txt, re.S)
    src = [s for s in re.findall(r"[\w/]+\.cpp", m.group(1)) if s not in ("unittest.cpp", "sysinfo2.cpp") and "sysinfo.cpp" not in s]
    return [f"{REPO}/tpie/{s}" for s in src if os.path.exists(f"{REPO}/tpie/{s}")] + [f"{gen}/tpie/sysinfo.cpp"]

def compile_cached(src, flags, compiler, ext):
    """compile src; the result is keyed by the contents of every non-system file it depends on"""
    os.makedirs(f"{CACHE}/obj", exist_ok=True)
    idx = f"{CACHE}/obj/{sha((src + chr(0) + compiler + chr(0) + chr(0).join(flags)).encode())}.json"
    ents = []
    try: ents = json.load(open(idx))
    except Exception: ents = []
    for e in ents:
        if os.path.exists(e["out"]) and all(filehash(p) == h for p, h in e["deps"].items()):
            return e["out"]
    tmp = tempfile.mkdtemp(prefix="cc", dir=CACHE)
    try:
        o, d = f"{tmp}/o{ext}", f"{tmp}/d"
        r = subprocess.run([compiler, *flags, "-MD", "-MF", d, src, "-o", o], capture_output=True, text=True)
        if r.returncode: raise BuildError(f"{os.path.basename(src)} does not compile: " + "\n".join([l for l in r.stderr.splitlines() if "rror" in l][:6]))
        deps = re.sub(r"\\\n", " ", open(d).read()).split(":", 1)[1].split()
        deps = sorted({os.path.realpath(p) for p in deps if not os.path.realpath(p).startswith("/usr/")})
        h = {p: filehash(p) for p in deps}
        out = f"{CACHE}/obj/{sha((idx + json.dumps(h)).encode())}{ext}"
        os.replace(o, out)
        ents = ([{"deps": h, "out": out}] + ents)[:4]
        t = f"{tmp}/i"; json.dump(ents, open(t, "w")); os.replace(t, idx)
        return out
    finally: shutil.rmtree(tmp, ignore_errors=True)

def pmap(f, xs):
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return [x.result() for x in [ex.submit(f, y) for y in xs]]

def engine():
    exe = f"{VERIF}/sx/sx"
    srcs = [f"{VERIF}/sx/{f}" for f in sorted(os.listdir(f"{VERIF}/sx")) if f.endswith((".cpp", ".h")) or f == "Makefile"]
    key = sha("".join(filehash(s) for s in srcs).encode())
    out = f"{CACHE}/sx-{key}"
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="sx", dir=CACHE)
        for s in srcs: shutil.copy(s, tmp)
        r = subprocess.run(["make", "-s", f"-j{NCPU}", "-C", tmp], capture_output=True, text=True)
        if r.returncode: raise BuildError("engine build failed: " + r.stderr[-2000:])
        os.replace(f"{tmp}/sx", out); shutil.rmtree(tmp, ignore_errors=True)
    return out

def dflags(defs): return [f"-D{k}={v}" if v is not None else f"-D{k}" for k, v in sorted(defs.items())]

def build_bc_lib(gen):
    inc = [f"-I{gen}", f"-I{REPO}"]
    objs = pmap(lambda s: compile_cached(s, BCFLAGS + inc, CLANG, ".bc"), lib_sources(gen))
    rt = compile_cached(f"{VERIF}/rt/rt.cpp", BCFLAGS + RTFLAGS, CLANG, ".bc")
    objs = objs + [rt]
    out = f"{CACHE}/obj/lib-{sha(chr(0).join(objs).encode())}.bc"
    if not os.path.exists(out):
        t = out + f".{os.getpid()}"
        r = subprocess.run([LINK, *objs, "-o", t], capture_output=True, text=True)
        if r.returncode: raise BuildError("llvm-link: " + r.stderr[-1500:])
        os.replace(t, out)
    return out

def link_harness(lib, gen, src, defs, work):
    h = compile_cached(f"{VERIF}/{src}", BCFLAGS + [f"-I{gen}", f"-I{REPO}"] + dflags(defs), CLANG, ".bc")
    out = f"{work}/all.bc"
    r = subprocess.run([LINK, lib, h, "-o", out], capture_output=True, text=True)
    if r.returncode: raise BuildError("llvm-link: " + r.stderr[-1500:])
    return out

ATOMFLAGS = COMMON + ["-O1", "-fno-pic", "-fno-pie", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-g1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-memory-accesses=0", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-mllvm", "-tsan-instrument-memintrinsics=0", f"-I{VERIF}/rt", "-c"]
def build_atomic_native(gen, src, defs):
    """the harness natively with every atomic operation a schedule point (replays schedules that preempt at atomics)"""
    inc = [f"-I{gen}", f"-I{REPO}"]; rt = [f"{VERIF}/rt/native.cpp", f"{VERIF}/rt/nsched.cpp", f"{VERIF}/rt/natomic.cpp"]
    plain = [f for f in ATOMFLAGS if "tsan" not in f and f not in ("-mllvm", "-fsanitize=thread")]
    objs = pmap(lambda s: compile_cached(s, plain + inc + ["-U_FILE_OFFSET_BITS", "-D_LARGEFILE64_SOURCE"] if "/rt/" in s else ATOMFLAGS + inc, CLANG, ".o"), rt + lib_sources(gen))
    objs.append(compile_cached(f"{VERIF}/{src}", ATOMFLAGS + inc + dflags(defs), CLANG, ".o"))
    out = f"{CACHE}/obj/atn-{sha(chr(0).join(objs).encode())}"
    if not os.path.exists(out):
        t = out + f".{os.getpid()}.{time.time_ns()}"
        r = subprocess.run([CLANG, "-no-pie", "-o", t, *objs, "-lpthread", "-ldl"], capture_output=True, text=True)
        if r.returncode: raise BuildError("native link: " + r.stderr[-1500:])
        os.replace(t, out)
    return out

def build_nat_lib(gen):
    inc = [f"-I{gen}", f"-I{REPO}"]
    srcs = [f"{VERIF}/rt/native.cpp", f"{VERIF}/rt/nsched.cpp"] + lib_sources(gen)
    return pmap(lambda s: compile_cached(s, NATFLAGS + inc + (["-U_FILE_OFFSET_BITS", "-D_LARGEFILE64_SOURCE"] if "/rt/" in s else []), "g++", ".o"), srcs)

def link_native(objs, gen, src, defs, work):
    h = compile_cached(f"{VERIF}/{src}", NATFLAGS + [f"-I{gen}", f"-I{REPO}"] + dflags(defs), "g++", ".o")
    key = sha(chr(0).join(objs + [h]).encode())
    out = f"{CACHE}/obj/nat-{key}"
    if not os.path.exists(out):
        t = out + f".{os.getpid()}.{time.time_ns()}"
        r = subprocess.run(["g++", "-fsanitize=address", "-o", t, h, *objs, "-lpthread", "-ldl"], capture_output=True, text=True)
        if r.returncode: raise BuildError("native link: " + r.stderr[-1500:])
        os.replace(t, out)
    return out

def run_native(exe, trace, timeout=20, sched=False):
    """returns (class, text): ok, violation, mismatch, diverged, hang, crash"""
    scratch = tempfile.mkdtemp(prefix="sxn")
    env = dict(os.environ, SX_SCRATCH=scratch, TMPDIR=scratch, ASAN_OPTIONS="detect_leaks=0:exitcode=79:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=2000")
    if sched: env["SX_NSCHED"] = "1"
    try:
        r = subprocess.run([exe, trace], capture_output=True, text=True, errors="replace", timeout=timeout, env=env, cwd=scratch)
        t = (r.stdout[-1500:] + r.stderr[-2500:]) if r.returncode else r.stdout[-300:]
        rc = r.returncode
        cls = {0: "ok", 75: "mismatch", 76: "diverged", 77: "violation", 78: "violation", 79: "violation", 74: "hang"}.get(rc, "crash")
        if rc == 79: t = "AddressSanitizer: " + (re.search(r"ERROR: AddressSanitizer: (.*)", r.stderr) or [None, "?"])[1] + "\n" + r.stderr[:3000]
        return cls, t
    except subprocess.TimeoutExpired: return "hang", f"no termination within {timeout} s"
    finally: shutil.rmtree(scratch, ignore_errors=True)
