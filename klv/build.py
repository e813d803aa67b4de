"""Mechanical extraction: compile /repo's current sources with clang to LLVM bitcode."""
import os
import subprocess
import hashlib
from . import ir

REPO = os.environ.get("KL_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"


def incs():
    return ["-I" + d for d in INC if os.path.isdir(d)]


INC = []
FLAGS = ["-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-fno-discard-value-names",
         "-I" + REPO + "/include", "-I" + VERIF + "/harness"]


class BuildError(Exception):
    pass


def compile_bc(src, work, extra=()):
    out = os.path.join(work, hashlib.md5(src.encode()).hexdigest()[:8] + os.path.basename(src))
    bc0, bc = out + ".0.bc", out + ".bc"
    cmd = [CLANG] + FLAGS + incs() + list(extra) + ["-emit-llvm", "-c", src, "-o", bc0]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("extraction failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
    r = subprocess.run(["opt", "-passes=mem2reg", bc0, "-o", bc], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("opt failed: " + r.stderr[-2000:])
    return bc


def load(bc):
    return ir.Module(bc)


def compile_ir(src, work, extra=()):
    return load(compile_bc(src, work, extra))
