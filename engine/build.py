"""Front end driver: builds the dumper and dumps the translation units."""
import hashlib
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
REF = os.path.join(VERIF, "reference")
BUILD = os.path.join(VERIF, "build")
DUMPER = os.path.join(BUILD, "dumper")
SRC = os.path.join(VERIF, "frontend", "dumper.cc")
LLVM = "/usr/lib/llvm-18"

UNITS = {
    "graph": "libclingo-dl/src/graph.cc",
    "propagator": "libclingo-dl/src/propagator.cc",
    "parsing": "libclingo-dl/src/parsing.cc",
    "clingo-dl": "libclingo-dl/src/clingo-dl.cc",
    "theory": "libclingo-dl/src/theory.cc",
    "app": "app/lib/src/app.cc",
    "main": "app/src/main.cc",
}


class AnalysisBroken(Exception):
    pass


def sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()


def build_dumper():
    os.makedirs(BUILD, exist_ok=True)
    stamp = DUMPER + ".sha"
    want = sha(SRC)
    if os.path.exists(DUMPER) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    cxx = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
    tmp = DUMPER + ".%d" % os.getpid()
    r = subprocess.run([cxx, "-std=c++17", "-O1", "-fno-rtti", "-I" + LLVM + "/include", SRC, "-o", tmp,
                        "/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18", "-L" + LLVM + "/lib", "-lLLVM-18"],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("cannot build the front end:\n" + r.stderr[-2000:])
    os.replace(tmp, DUMPER)
    with open(stamp, "w") as f:
        f.write(want)


def sources(root):
    out = []
    for d in ("libclingo-dl", "app"):
        for b, ds, fs in os.walk(os.path.join(root, d)):
            ds[:] = sorted(x for x in ds if x not in ("tests", "CMakeFiles"))
            for f in sorted(fs):
                if f.endswith((".cc", ".hh", ".h", ".c", ".cpp", ".hpp")):
                    out.append(os.path.join(b, f))
    return out


def dump_one(root, unit, out):
    src = os.path.join(root, UNITS[unit])
    if not os.path.exists(src):
        raise AnalysisBroken("missing source file %s" % src)
    tmp = out + ".%d" % os.getpid()
    r = subprocess.run([DUMPER, tmp, root, src, "--", "-std=gnu++17", "-I" + root + "/libclingo-dl", "-I" + root + "/app/lib",
                        "-resource-dir", LLVM + "/lib/clang/18"], capture_output=True, text=True,
                       env=dict(os.environ, DUMP_BASE=str((list(UNITS).index(unit) + 1) * 1000000)))
    if r.returncode != 0 or not os.path.exists(tmp):
        raise AnalysisBroken("cannot parse %s:\n%s" % (src, r.stderr[-3000:]))
    os.replace(tmp, out)


def dump(root, units=None):
    """dump translation units of a source tree; returns unit -> path"""
    build_dumper()
    units = units or list(UNITS)
    h = hashlib.sha256()
    h.update(sha(SRC).encode())
    h.update(root.encode())
    for p in sources(root):
        h.update(p.encode())
        h.update(open(p, "rb").read())
    d = os.path.join(BUILD, "dump", h.hexdigest()[:24])
    os.makedirs(d, exist_ok=True)
    res = {u: os.path.join(d, u + ".json") for u in units}
    todo = [u for u in units if not os.path.exists(res[u])]
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(dump_one, root, u, res[u]) for u in todo]:
            f.result()
    return res


def prune(keep):
    """drop outdated dumps"""
    import shutil
    base = os.path.join(BUILD, "dump")
    if not os.path.isdir(base):
        return
    ds = sorted((os.path.getmtime(os.path.join(base, x)), x) for x in os.listdir(base))
    for _, x in ds[:-40]:
        if os.path.join(base, x) not in keep:
            shutil.rmtree(os.path.join(base, x), ignore_errors=True)


if __name__ == "__main__":
    build_dumper()
    dump(REF)
    print("front end ready")
