#!/usr/bin/env python3
"""Builds simulator binaries from /repo's current working tree.

Objects are cached by content (command + every file the compiler read), never by time stamp, so a
changed source is always seen and an unchanged one never rebuilt.
"""
import hashlib, os, subprocess, sys, json, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++"
LIBFLAGS = ["-include", "exception", "-std=c++11", "-O0", "-g1", "-fno-omit-frame-pointer", "-w",
            "-DDEBUG", "-D_DEBUG", "-fsanitize=thread", "-fsanitize-ignorelist=" + VERIF + "/sim/ignore.txt",
            "-fno-builtin-memcmp", "-fno-builtin-strlen", "-fno-builtin-bcmp", "-pthread"]
RTFLAGS = ["-std=c++17", "-O2", "-g1", "-fno-omit-frame-pointer", "-w", "-pthread"]

class BuildError(Exception):
    pass

def sha(b):
    return hashlib.sha256(b).hexdigest()

_filehash = {}
def fhash(p):
    if p not in _filehash:
        try:
            with open(p, "rb") as f:
                _filehash[p] = sha(f.read())
        except OSError:
            _filehash[p] = "missing"
    return _filehash[p]

def platform_dir():
    """the Makefile generates src/lightspeed/platform.h; provide the same when it is absent"""
    if os.path.exists(os.path.join(REPO, "src/lightspeed/platform.h")):
        return None
    return "missing"

def ensure_platform():
    # platform.h is ignored by git and generated by the project's Makefile; regenerate it if absent
    p = os.path.join(REPO, "src/lightspeed/platform.h")
    if not os.path.exists(p):
        with open(p, "w") as f:
            f.write("#define HAVE_PIPE2 1\n#define HAVE_VFORK 1\n#define HAVE_DECL___ATOMIC_COMPARE_EXCHANGE 1\n")

def compile_one(src, flags, redef=None):
    """returns path of a cached object"""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    cmd = [CXX] + flags
    key0 = sha(("\0".join(cmd) + "\0" + src + "\0" + (fhash(redef) if redef else "")).encode())
    depf = f"{BUILD}/obj/{key0}.deps"
    def key(deps):
        return sha((key0 + "".join(d + fhash(d) for d in deps)).encode())
    if os.path.exists(depf):
        deps = open(depf).read().split("\n")
        o = f"{BUILD}/obj/{key(deps)}.o"
        if os.path.exists(o):
            return o
    tmp = f"{BUILD}/obj/{key0}.{os.getpid()}.tmp"
    r = subprocess.run(cmd + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(f"compile {src} failed:\n{r.stderr[:6000]}")
    txt = open(tmp + ".d").read().replace("\\\n", " ")
    deps = sorted(set(os.path.normpath(x) for x in txt.split(":", 1)[1].split()))
    deps = [d for d in deps if not d.startswith("/usr/")]
    if redef:
        r = subprocess.run(["objcopy", "--redefine-syms=" + redef, tmp + ".o"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("objcopy: " + r.stderr)
    o = f"{BUILD}/obj/{key(deps)}.o"
    os.rename(tmp + ".o", o)
    with open(tmp + ".deps", "w") as f:
        f.write("\n".join(deps))
    os.rename(tmp + ".deps", depf)
    os.unlink(tmp + ".d")
    return o

def lib_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src/lightspeed")):
        dirs[:] = sorted(d for d in dirs if d != "windows")
        if ".sources.mk" not in files:
            continue
        for f in sorted(files):
            if f.endswith(".cpp"):
                out.append(os.path.join(root, f))
    return out

def build(groups, jobs=None):
    """builds the named groups; returns {group: binary path}"""
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(groups, jobs or os.cpu_count())

def _build(groups, jobs):
    ensure_platform()
    _filehash.clear()
    pool = ThreadPoolExecutor(jobs)
    rts = sorted(os.path.join(VERIF, "sim", f) for f in os.listdir(os.path.join(VERIF, "sim")) if f.endswith(".cpp"))
    rto = list(pool.map(lambda s: compile_one(s, RTFLAGS + ["-I" + VERIF + "/sim"]), rts))
    # every libc function the simulator implements as sim_X replaces X in the code under test
    names = set()
    for o in rto:
        for l in subprocess.run(["nm", "--defined-only", o], capture_output=True, text=True).stdout.split("\n"):
            p = l.split()
            if len(p) == 3 and p[1] == "T" and p[2].startswith("sim_"):
                names.add(p[2][4:])
    redef = BUILD + "/redef.txt"
    txt = "".join(f"{n} sim_{n}\n" for n in sorted(names))
    if not os.path.exists(redef) or open(redef).read() != txt:
        open(redef, "w").write(txt)
    _filehash.pop(redef, None)
    libs = lib_sources()
    flags = LIBFLAGS + ["-I" + REPO + "/src"]
    wflags = LIBFLAGS + ["-I" + REPO + "/src", "-I" + VERIF + "/sim", "-I" + VERIF + "/work"]
    futs = [pool.submit(compile_one, os.path.join(VERIF, "work", g + ".cpp"), wflags, redef) for g in groups]
    libf = [pool.submit(compile_one, s, flags, redef) for s in libs]
    wobj = [f.result() for f in futs]
    libo = [f.result() for f in libf]
    pool.shutdown()
    key = sha("".join(libo).encode())
    ar = f"{BUILD}/lib-{key[:16]}.a"
    if not os.path.exists(ar):
        for f in os.listdir(BUILD):
            if f.startswith("lib-"):
                os.unlink(os.path.join(BUILD, f))
        # archive members need distinct, readable names: use a response file of objects
        rsp = ar + ".rsp"
        open(rsp, "w").write("\n".join(libo))
        subprocess.run(["ar", "crs", ar + ".tmp", "@" + rsp], check=True)
        os.rename(ar + ".tmp", ar)
        os.unlink(rsp)
    res = {}
    for g, w in zip(groups, wobj):
        exe = f"{BUILD}/{g}"
        k = sha((w + ar + "".join(rto)).encode())
        if not (os.path.exists(exe) and os.path.exists(exe + ".key") and open(exe + ".key").read() == k):
            r = subprocess.run([CXX, "-static", "-no-pie", "-o", exe + ".tmp", w] + rto + [ar, "-lpthread"], capture_output=True, text=True)
            if r.returncode:
                raise BuildError("link " + g + ":\n" + r.stderr[-4000:])
            os.rename(exe + ".tmp", exe)
            open(exe + ".key", "w").write(k)
        res[g] = exe
    return res

if __name__ == "__main__":
    try:
        gs = sys.argv[1:] or [f[:-4] for f in sorted(os.listdir(VERIF + "/work")) if f.endswith(".cpp")]
        for g, p in build(gs).items():
            print(g, p)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
