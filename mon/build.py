"""Builds the library of $VERIF_REPO (default /repo) together with a harness, in one of several instrumentations.

Objects are cached in /verif/.build (git-ignored) under a hash of everything that goes into them, so a change of
/repo is always seen."""
import concurrent.futures
import fcntl
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

DBG = ["-DPGBN_DEBUG", "-DPGZXB_DEBUG"]
VARIANTS = {
    # memory and undefined-behaviour monitor, with the library's own assertions
    "asan": ("g++", ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"] + DBG),
    # the same without the library's debug code
    "asanrel": ("g++", ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-DNDEBUG"]),
    "clang": ("clang++", ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"] + DBG),
    "rel": ("g++", ["-O2", "-DNDEBUG"]),
    "dbg": ("g++", ["-O0", "-g1"] + DBG),
    "dbg1": ("g++", ["-O1", "-g1"] + DBG),
    "clangrel": ("clang++", ["-O2", "-DNDEBUG"]),
    "o0": ("g++", ["-O0", "-DNDEBUG"]),
    "o3": ("g++", ["-O3", "-DNDEBUG", "-fno-strict-overflow"]),
    "tsan": ("g++", ["-O1", "-g1", "-fsanitize=thread", "-DPGBN_MONITOR_TSAN"]),
    "tsandbg": ("g++", ["-O1", "-g1", "-fsanitize=thread", "-DPGBN_MONITOR_TSAN"] + DBG),
    "valgrind": ("g++", ["-O1", "-g1", "-gdwarf-4", "-DEX_NO_LIMIT"] + DBG),
    "cov": ("g++", ["-O0", "-g1", "--coverage"]),
}
COMMON = ["-std=c++17", "-D__STDC_FORMAT_MACROS", "-w", "-pthread"]


class BuildError(Exception):
    pass


def sources():
    s = []
    for root in ("src", "c/src"):
        for d, _, files in os.walk(os.path.join(REPO, root)):
            s += [os.path.join(d, f) for f in files if f.endswith(".cpp")]
    return sorted(s)


def tree_hash():
    h = hashlib.sha256()
    for root in ("src", "c/src", "c/include", "include", "examples"):
        for d, dirs, files in os.walk(os.path.join(REPO, root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p[len(REPO):].encode())
                try:
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                except OSError:
                    pass
    return h.hexdigest()


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def build(jobs):
    """jobs: list of (variant, harness.cpp, extra flags, link flags, need_lib) -> list of binaries, built side by side"""
    th = tree_hash()
    os.makedirs(OUT, exist_ok=True)
    compiles, links, bins = {}, [], []
    for variant, harness, extra, link, need_lib in jobs:
        cxx, flags = VARIANTS[variant]
        flags = COMMON + flags + list(extra)
        src = os.path.join(VERIF, "harness", harness)
        hh = hashlib.sha256(th.encode())
        for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
            if f.endswith((".h", ".cpp")):
                with open(os.path.join(VERIF, "harness", f), "rb") as fh:
                    hh.update(fh.read())
        hh.update(" ".join([cxx] + flags + list(link)).encode())
        d = os.path.join(OUT, "%s-%s-%s" % (variant, os.path.basename(harness).replace(".", "_"), hh.hexdigest()[:16]))
        ld = os.path.join(OUT, "%s-lib-%s" % (variant, hashlib.sha256((th + " ".join([cxx] + flags)).encode()).hexdigest()[:16]))
        exe = os.path.join(d, "run")
        bins.append(exe)
        if os.path.exists(exe):
            continue
        os.makedirs(d, exist_ok=True)
        objs = []
        o = os.path.join(d, "harness.o")
        compiles[o] = [cxx] + flags + ["-I", os.path.join(REPO, "src"), "-I", os.path.join(VERIF, "harness"), "-c", src, "-o", o]
        objs.append(o)
        if need_lib:
            os.makedirs(ld, exist_ok=True)
            for s in sources():
                o = os.path.join(ld, os.path.relpath(s, REPO).replace("/", "_") + ".o")
                if not os.path.exists(o):
                    compiles[o] = [cxx] + flags + ["-I", os.path.join(REPO, "src"), "-c", s, "-o", o]
                objs.append(o)
        links.append([cxx] + flags + objs + list(link) + ["-o", exe])
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            def comp(item):
                o, cmd = item
                if os.path.exists(o):
                    return 0, ""
                rc, out = run(cmd[:-1] + [o + ".tmp"])
                if rc == 0:
                    os.rename(o + ".tmp", o)
                return rc, " ".join(cmd) + "\n" + out
            for rc, out in ex.map(comp, compiles.items()):
                if rc:
                    raise BuildError(out[-4000:])

            def ln(cmd):
                if os.path.exists(cmd[-1]):
                    return 0, ""
                rc, out = run(cmd[:-1] + [cmd[-1] + ".tmp"])
                if rc == 0:
                    os.rename(cmd[-1] + ".tmp", cmd[-1])
                return rc, out
            for rc, out in ex.map(ln, links):
                if rc:
                    raise BuildError(out[-4000:])
    finally:
        lock.close()
    prune()
    return bins


def prune(keep_bytes=3 << 30):
    """keeps the cache small: drops the oldest directories beyond keep_bytes"""
    ds = []
    for n in os.listdir(OUT):
        p = os.path.join(OUT, n)
        if os.path.isdir(p):
            ds.append((os.path.getmtime(p), p, sum(os.path.getsize(os.path.join(p, f)) for f in os.listdir(p) if os.path.isfile(os.path.join(p, f)))))
    total = sum(x[2] for x in ds)
    for _, p, n in sorted(ds):
        if total <= keep_bytes:
            break
        for f in os.listdir(p):
            os.unlink(os.path.join(p, f))
        os.rmdir(p)
        total -= n


WRAP = ["-Wl," + ",".join("--wrap=" + f for f in (
    "pthread_mutex_lock", "pthread_mutex_unlock", "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE",
    "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv",
    "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"))]


def executor(variant):
    """variant, or variant+delay for the one with injected delays"""
    if variant.endswith("+delay"):
        return (variant[:-6], "exec_delay.cpp", [], WRAP, True)
    return (variant, "exec.cpp", [], [], True)


if __name__ == "__main__":
    import time
    t = time.time()
    print(build([executor(v) for v in sys.argv[1:]]), time.time() - t)
