"""Build phono3py's compiled modules from /repo's current tree, outside /repo.

Every translation unit of /repo/c is compiled with the flags of the project's
own release build; objects are cached by the hash of their preprocessed
inputs (source, headers, flags), so a changed source is always recompiled.
"""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(ROOT, "build")
SITE = "/opt/venv/lib/python3.12/site-packages"
NB = f"{SITE}/nanobind"
PYINC = "/usr/include/python3.12"

RECGRID = {"bzgrid.c", "grgrid.c", "lagrid.c", "snf3x3.c", "recgrid.c", "niggli.c"}
MODULES = ("_phono3py", "_phononcalc", "_recgrid")


class BuildError(Exception):
    """Build of /repo failed."""


def _flags(variant, src):
    """Return (compiler, flags) for a C or C++ source file in a variant."""
    base = os.path.basename(src)
    opt = ["-O3", "-DNDEBUG"]
    san = []
    if variant == "asan":
        opt = ["-O1", "-g", "-fno-omit-frame-pointer"]
        san = ["-fsanitize=address", "-fsanitize=bounds,signed-integer-overflow,"
               "integer-divide-by-zero,shift,null,object-size,pointer-overflow,"
               "float-cast-overflow",
               "-fno-sanitize-recover=all"]
    lap = [] if variant == "lapacke" else ["-DNO_INCLUDE_LAPACKE"]
    if base.endswith(".c"):
        omp = [] if base in RECGRID else ["-fopenmp"]
        return "gcc", ["-fPIC", f"-I{REPO}/c", "-DTHM_EPSILON=1e-10"] + lap + opt + omp + san
    nbs = [] if base == "nb_combined.cpp" else san
    return "g++", (
        ["-std=c++17", "-DPy_LIMITED_API=0x030C0000", f"-I{PYINC}", f"-I{NB}/include",
         f"-I{NB}/ext/robin_map/include", "-fPIC", "-fvisibility=hidden", "-O1",
         "-fno-stack-protector", "-fno-strict-aliasing", "-DNDEBUG",
         "-DTHM_EPSILON=1e-10", f"-I{REPO}/c"] + lap + nbs
    )


def _compile(src, variant, headers_digest):
    cc, flags = _flags(variant, src)
    h = hashlib.sha256()
    h.update(repr((cc, flags)).encode())
    with open(src, "rb") as f:
        h.update(f.read())
    h.update(headers_digest)
    h.update(os.path.basename(src).encode())
    obj = os.path.join(CACHE, "obj", h.hexdigest() + ".o")
    if not os.path.exists(obj):
        fd, tmp = tempfile.mkstemp(suffix=".o", dir=os.path.dirname(obj))
        os.close(fd)
        p = subprocess.run([cc, *flags, "-c", src, "-o", tmp], capture_output=True, text=True)
        if p.returncode:
            os.unlink(tmp)
            raise BuildError(f"{src}:\n{p.stderr[-4000:]}")
        os.replace(tmp, obj)
    return obj


def build(variant="main"):
    """Build variant ("main", "lapacke" or "asan") and return the directory of modules."""
    os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
    cdir = f"{REPO}/c"
    names = sorted(os.listdir(cdir))
    h = hashlib.sha256()
    for n in names:
        if n.endswith(".h") or n.endswith(".hpp"):
            with open(f"{cdir}/{n}", "rb") as f:
                h.update(n.encode() + b"\0" + f.read())
    hd = h.digest()
    csrc = [f"{cdir}/{n}" for n in names if n.endswith(".c")]
    cppsrc = [f"{cdir}/{m}.cpp" for m in MODULES]
    cppextra = [f"{cdir}/{n}" for n in names if n.endswith(".cpp") and n[:-4] not in MODULES]
    nbsrc = f"{NB}/src/nb_combined.cpp"
    # biggest first
    allsrc = [nbsrc] + cppsrc + cppextra + sorted(csrc, key=lambda s: -os.path.getsize(s))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        objs = dict(zip(allsrc, ex.map(
            lambda s: _compile(s, variant, b"nb" if s == nbsrc else hd), allsrc)))
    key = hashlib.sha256(repr(sorted(os.path.basename(o) for o in objs.values())).encode()
                         + variant.encode()).hexdigest()[:24]
    out = os.path.join(CACHE, f"{variant}-{key}")
    if os.path.isdir(out):
        return out
    tmp = tempfile.mkdtemp(prefix=f".{variant}-", dir=CACHE)
    libs = {"main": [], "asan": [], "lapacke": ["-llapacke", "-lopenblas"]}[variant]
    san = ["-fsanitize=address,undefined"] if variant == "asan" else []
    try:
        ar = f"{tmp}/libc.a"
        subprocess.run(["ar", "qcs", ar] + [objs[s] for s in csrc + cppextra], check=True,
                       capture_output=True)
        for m in MODULES:
            cmd = ["g++", "-shared", "-fPIC", "-fopenmp", *san, "-o", f"{tmp}/{m}.abi3.so",
                   objs[f"{cdir}/{m}.cpp"], objs[nbsrc], ar, *libs, "-lm"]
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode:
                raise BuildError(p.stderr[-4000:])
        os.unlink(ar)
        try:
            os.rename(tmp, out)
        except OSError:
            if not os.path.isdir(out):
                raise
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return out


if __name__ == "__main__":
    for v in sys.argv[1:] or ["main"]:
        print(build(v))
