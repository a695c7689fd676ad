#!/usr/bin/env python3
"""Builds the library in /repo's working tree together with the simulator in /verif/sim into one program.

Objects are cached by the content of everything they are made from, so a run always reflects the current tree."""
import hashlib, os, subprocess, sys, glob, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(HERE, ".build")
CXX = "clang++"
INC = ["-I", os.path.join(HERE, "sim/include"), "-I", os.path.join(REPO, "FCollada"), "-I", "/usr/include/libxml2"]
DEFS = ["-DLINUX", "-D_DEBUG", "-DFCOLLADA_STATIC_DEFINE", "-DFCOLLADA_SIM"]
BASE = ["-std=c++17", "-w", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fPIC", "-pthread"] + DEFS + INC
LIBX = ["-fsanitize-coverage=inline-8bit-counters"]
# In these files every edge is a point where the thread scheduler may switch.
PREEMPT = {"FUError.cpp", "FUErrorLog.cpp", "FULogFile.cpp", "FUFile.cpp"}
PREX = ["-fsanitize-coverage=inline-8bit-counters,trace-pc"]
WRAP = "fopen fopen64 time clock_gettime gettimeofday getcwd mkdir chdir remove unlink rename raise opendir readdir closedir readlink dlopen dlsym dlclose pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock".split()
LINK = ["-fsanitize=address", "-no-pie", "-pthread"] + ["-Wl,--wrap=" + w for w in WRAP] + ["-lxml2", "-lfmt", "-ldl"]


def sources():
    out = []
    for d in ("FCollada", "FCollada/FCDocument", "FCollada/FMath", "FCollada/FUtils", "FColladaPlugins/FArchiveXML"):
        out += sorted(glob.glob(os.path.join(REPO, d, "*.cpp")))
    return out


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(dirs, exts):
    m = []
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    m.append(os.path.relpath(p, d).encode() + b"=" + read(p))
    return h(*m)


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise RuntimeError("build failed: " + " ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])


def compile_obj(src, obj, flags):
    if os.path.exists(obj):
        os.utime(obj)
        return
    tmp = obj + ".tmp%d.o" % os.getpid()
    run([CXX] + flags + ["-c", src, "-o", tmp])
    os.rename(tmp, obj)


def prune():
    """Keep the cache small: drop the oldest files beyond 1.5 GB."""
    fs = sorted((os.path.getmtime(p), os.path.getsize(p), p) for p in glob.glob(OUT + "/*") if os.path.isfile(p))
    total = sum(s for _, s, _ in fs)
    for _, s, p in fs:
        if total < 1.5e9:
            break
        os.unlink(p)
        total -= s


def build():
    os.makedirs(OUT, exist_ok=True)
    lock = open(OUT + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    hdr = tree_hash([os.path.join(REPO, "FCollada"), os.path.join(REPO, "FColladaPlugins")], (".h", ".hpp", ".inl"))
    simhdr = tree_hash([os.path.join(HERE, "sim")], (".h",))
    flags = h(" ".join(BASE + LIBX), REPO)
    pch = os.path.join(OUT, "StdAfx-%s.h.gch" % h(hdr, simhdr, flags, "no timestamp"))
    if not os.path.exists(pch):
        tmp = pch + ".tmp"
        run([CXX] + BASE + LIBX + ["-Xclang", "-fno-pch-timestamp", "-x", "c++-header", os.path.join(REPO, "FCollada/StdAfx.h"), "-o", tmp])
        os.rename(tmp, pch)
    jobs, objs = [], []
    simsrc = sorted(glob.glob(os.path.join(HERE, "sim", "*.cpp")))
    for s in sorted(simsrc, key=os.path.getsize, reverse=True):
        o = os.path.join(OUT, "s-" + h(read(s), s, simhdr, hdr, flags) + ".o")
        jobs.append((s, o, BASE))
        objs.append(o)
    lib = []
    for s in sources():
        x = PREX if os.path.basename(s) in PREEMPT else LIBX
        o = os.path.join(OUT, "l-" + h(read(s), s, hdr, flags, " ".join(x)) + ".o")
        jobs.append((s, o, BASE + x + ["-include-pch", pch]))
        lib.append(o)
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for f in [ex.submit(compile_obj, *j) for j in jobs]:
            f.result()
    exe = os.path.join(OUT, "fcsim-" + h(*(os.path.basename(o) for o in sorted(objs) + sorted(lib)), " ".join(LINK)))
    if not os.path.exists(exe):
        tmp = exe + ".tmp"
        run([CXX] + objs + lib + ["-o", tmp] + LINK)
        os.rename(tmp, exe)
    os.utime(exe)
    prune()
    return exe


if __name__ == "__main__":
    print(build())
