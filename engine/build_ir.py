"""Compiles /repo's simulator sources and the harnesses to one optimised bitcode module, from the
current working tree, in a private scratch directory."""

import glob
import hashlib
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src/rpucuda")
HERE = os.path.dirname(os.path.abspath(__file__))
CPP = os.path.join(os.path.dirname(HERE), "cpp")
LLVM = "/usr/lib/llvm-18/bin"
CLANG = "clang++-18"
OBLAS = "/usr/include/x86_64-linux-gnu/openblas-pthread"


# fold small branches into selects so that they do not fork paths
FOLD = ["-two-entry-phi-node-folding-threshold=200", "-phi-node-folding-threshold=200", "-bonus-inst-threshold=8",
        "-simplifycfg-merge-cond-stores", "-simplifycfg-merge-cond-stores-aggressively"]


def tool(n):
    p = os.path.join(LLVM, n)
    return p if os.path.exists(p) else n + "-18"


def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        raise RuntimeError(f"{' '.join(cmd)[:300]}\n{r.stderr[-4000:]}")
    return r.stdout


def overlay(d):
    p = os.path.join(d, "overlay.yaml")
    with open(p, "w") as f:
        f.write('{"version":0,"case-sensitive":"true","roots":[{"type":"file","name":"%s/rng.h",'
                '"external-contents":"%s/shadow/rng.h"}]}' % (SRC, CPP))
    return p


def build(harnesses, keep=None):
    """harnesses: paths of harness .cpp files. Returns (dir, optimised bitcode path, linked bitcode path)."""
    d = tempfile.mkdtemp(prefix="verif_ir_")
    ov = overlay(d)
    base = [CLANG, "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-access-control",
            "-ffp-contract=off", "-w", "-DRPU_USE_OPENBLAS", "-I" + OBLAS, "-I" + SRC, "-I" + CPP,
            "-ivfsoverlay", ov, "-c", "-emit-llvm"]
    srcs = [f for f in sorted(glob.glob(SRC + "/*.cpp")) if not f.endswith("_test.cpp") and not f.endswith("/rng.cpp")]
    jobs = [(f, os.path.join(d, os.path.basename(f) + ".bc"), []) for f in srcs]
    for h in harnesses:
        jobs.append((h, os.path.join(d, "h_" + os.path.basename(h) + ".bc"), []))
    shim = os.path.join(d, "shim.bc")
    jobs.append((os.path.join(CPP, "shim.cpp"), shim, []))
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(run, base + x + ["-o", o, s]) for s, o, x in jobs]:
            f.result()
    allbc = os.path.join(d, "all.bc")
    run([tool("llvm-link"), *[o for _, o, _ in jobs], "-o", allbc])
    optbc = os.path.join(d, "opt.bc")
    run([tool("opt"), *FOLD, "-passes=elim-avail-extern,default<O1>", allbc, "-o", optbc])
    for _, o, _ in jobs:
        if o != shim:
            os.unlink(o)
    return d, optbc, allbc


def build_native(d, allbc):
    exe = os.path.join(d, "replay")
    if not os.path.exists(exe):
        run([CLANG, "-std=c++17", "-O1", "-w", "-rdynamic", "-x", "ir", allbc, "-x", "c++", os.path.join(CPP, "native_rt.cpp"), "-o", exe,
             "-lopenblas", "-ldl", "-lpthread"])
    return exe


def clean(d):
    if d and os.path.basename(d).startswith("verif_ir_"):
        shutil.rmtree(d, ignore_errors=True)
