"""Builds the harnesses and the application from /repo's working tree, cached by content."""
import fcntl, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src/OpenMps")
BUILD = os.path.join(VERIF, "build")
CLANG = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
GCC = "/usr/bin/g++"

DEFAULT_ON = ["MPS_HS", "MPS_HL", "MPS_ECS", "MPS_DS", "MPS_SPP", "PRESSURE_GRADIENT_MIDPOINT", "USE_VIENNACL"]
FLAG = {"MPS_HS": "V_HS", "MPS_HL": "V_HL", "MPS_ECS": "V_ECS", "MPS_DS": "V_DS", "MPS_SPP": "V_SPP", "MPS_GC": "V_GC",
        "PRESSURE_GRADIENT_MIDPOINT": "V_MID", "USE_VIENNACL": "V_VIENNACL", "PRESSURE_EXPLICIT": "V_EXPLICIT", "CENTRAL_GRAVITY": "V_CENTRAL"}

# name: (options switched on, options switched off)
VARIANTS = {
    "default": ([], []),
    "noHS": ([], ["MPS_HS"]), "noHL": ([], ["MPS_HL"]), "noECS": ([], ["MPS_ECS"]), "noDS": ([], ["MPS_DS"]), "noSPP": ([], ["MPS_SPP"]),
    "uBLAS": ([], ["USE_VIENNACL"]),
    "standard": ([], ["MPS_HS", "MPS_HL", "MPS_ECS", "MPS_DS", "MPS_SPP"]),
    "GC": (["MPS_GC"], []), "GCnoSPP": (["MPS_GC"], ["MPS_SPP"]), "GCnomid": (["MPS_GC"], ["PRESSURE_GRADIENT_MIDPOINT"]), "GCnomidnoSPP": (["MPS_GC"], ["PRESSURE_GRADIENT_MIDPOINT", "MPS_SPP"]), "3DGCnomid": (["DIM3", "MPS_GC"], ["PRESSURE_GRADIENT_MIDPOINT"]),
    "explicit": (["PRESSURE_EXPLICIT"], []), "explicitnoSPP": (["PRESSURE_EXPLICIT"], ["MPS_SPP"]), "explicitnoHL": (["PRESSURE_EXPLICIT"], ["MPS_HL"]),
    "3D": (["DIM3"], []), "3DGC": (["DIM3", "MPS_GC"], []), "3DnoSPP": (["DIM3"], ["MPS_SPP"]), "3DnoHL": (["DIM3"], ["MPS_HL"]),
    "3Dexplicit": (["DIM3", "PRESSURE_EXPLICIT"], []),
    "3Dstandard": (["DIM3"], ["MPS_HS", "MPS_HL", "MPS_ECS", "MPS_DS", "MPS_SPP"]), "3DexplicitnoSPP": (["DIM3", "PRESSURE_EXPLICIT"], ["MPS_SPP"]),
    "3DGCnomidnoSPP": (["DIM3", "MPS_GC"], ["PRESSURE_GRADIENT_MIDPOINT", "MPS_SPP"]), "3DGCnoSPP": (["DIM3", "MPS_GC"], ["MPS_SPP"]), "standardHL": ([], ["MPS_HS", "MPS_ECS", "MPS_DS", "MPS_SPP"]),
    "3DuBLAS": (["DIM3"], ["USE_VIENNACL"]),
    "central": (["CENTRAL_GRAVITY"], []), "3Dcentral": (["DIM3", "CENTRAL_GRAVITY"], []),
    "noHSnoSPP": ([], ["MPS_HS", "MPS_SPP"]), "noHLnoSPP": ([], ["MPS_HL", "MPS_SPP"]),
    "standarduBLAS": ([], ["MPS_HS", "MPS_HL", "MPS_ECS", "MPS_DS", "MPS_SPP", "USE_VIENNACL"]),
}

SAN = ["-g1", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
MODES = {
    "san": (CLANG, SAN),
    "opt": (CLANG, ["-O2"]),
    "fuzz": (CLANG, SAN + ["-fsanitize=fuzzer", "-DPBT_FUZZ"]),
    "sanomp": (CLANG, SAN + ["-fopenmp=libomp"]),
    "omp": (CLANG, ["-g1", "-O1", "-fopenmp=libomp"]),
    "gomp": (GCC, ["-g1", "-O2", "-fopenmp"]),
    "tsan": (CLANG, ["-g1", "-O1", "-fopenmp=libomp", "-fsanitize=thread"]),
}


class BuildError(Exception):
    pass


def headers():
    return sorted(f for f in os.listdir(SRC) if f.endswith((".hpp", ".h")))


def digest(paths, extra):
    h = hashlib.sha256()
    for p in paths:
        h.update(os.path.basename(p).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read() + b"\0")
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def prune(keep=160):
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("b-")]
        if len(ds) > keep:
            for d in sorted(ds, key=os.path.getmtime)[:len(ds) - keep]:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def locked(key, make):
    """run make(dir) once for this key; returns the directory"""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, "b-" + key)
    with open(os.path.join(BUILD, "l-" + key), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, "done")):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            make(d)
            open(os.path.join(d, "done"), "w").close()
        else:
            os.utime(d)
    return d


def compile_(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        errs = [l for l in r.stdout.splitlines() if "error:" in l]
        raise BuildError(" ".join(cmd) + "\n" + "\n".join(errs[:8]) + "\n")


def harness(check, variant="default", mode="san", extra=()):
    """executable of checks/<check>.cpp in the given method variant"""
    on, off = VARIANTS[variant]
    src = os.path.join(VERIF, "checks", check + ".cpp")
    lib = [os.path.join(VERIF, "lib", f) for f in sorted(os.listdir(os.path.join(VERIF, "lib"))) if f.endswith(".hpp")]
    compiler, flags = MODES[mode]
    hs = [os.path.join(SRC, f) for f in headers()]
    key = digest([src] + lib + hs, (check, variant, mode, on, off, extra, compiler, flags))

    def make(d):
        inc = os.path.join(d, "inc")
        os.makedirs(inc)
        for f in hs:
            name = os.path.basename(f)
            shutil.copy(f, os.path.join(inc, "defines_original.hpp" if name == "defines.hpp" else name))
        with open(os.path.join(inc, "defines.hpp"), "w") as w:
            w.write("#ifndef VERIF_DEFINES\n#define VERIF_DEFINES\n#include \"defines_original.hpp\"\n")
            for o in off:
                w.write("#undef %s\n" % o)
            w.write("#endif\n")
        ds = []
        for o in DEFAULT_ON + on:
            if o not in off:
                ds.append("-D%s=" % o)
        for o, v in FLAG.items():
            ds.append("-D%s=%d" % (v, int((o in DEFAULT_ON or o in on) and o not in off)))
        ds.append("-DV_DIM=%d" % (3 if "DIM3" in on else 2))
        ds.append("-DV_NAME=\"%s\"" % variant)
        compile_([compiler, "-std=c++17", "-w"] + flags + ds + list(extra)
                 + ["-I" + inc, "-I" + os.path.join(VERIF, "lib"), src, "-o", os.path.join(d, "exe")])
        shutil.rmtree(inc)
    return os.path.join(locked(key, make), "exe")


def app(mode="san", on=(), off=()):
    """the application, built from its own Main.cpp"""
    hs = [os.path.join(SRC, f) for f in headers()] + [os.path.join(SRC, "Main.cpp")]
    flags = {"san": SAN, "sanomp": SAN + ["-fopenmp=libomp"], "omp": ["-O1", "-fopenmp=libomp"], "opt": ["-O2"]}[mode] + ["-stdlib=libc++"]
    key = digest(hs, ("app", mode, tuple(on), tuple(off), flags))

    def make(d):
        inc = os.path.join(d, "inc")
        os.makedirs(inc)
        for f in hs:
            name = os.path.basename(f)
            shutil.copy(f, os.path.join(inc, "defines_original.hpp" if name == "defines.hpp" else name))
        with open(os.path.join(inc, "defines.hpp"), "w") as w:
            w.write("#include \"defines_original.hpp\"\n")
            for o in off:
                w.write("#undef %s\n" % o)
        compile_([CLANG, "-std=c++17", "-w"] + flags + ["-D%s=" % o for o in on]
                 + [os.path.join(inc, "Main.cpp"), "-o", os.path.join(d, "exe")])
        shutil.rmtree(inc)
    return os.path.join(locked(key, make), "exe")


def many(jobs):
    """jobs: {name: callable}; returns {name: path or BuildError}"""
    out = {}
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        fs = {k: ex.submit(f) for k, f in jobs.items()}
        for k, f in fs.items():
            try:
                out[k] = f.result()
            except BuildError as e:
                out[k] = e
    prune()
    return out
