"""Compile /repo's current library sources to LLVM IR and load them."""
import os, re, subprocess, shutil, tempfile, sys, hashlib, pickle
from concurrent.futures import ThreadPoolExecutor
from . import ir

REPO = os.environ.get("PBC_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))


class BuildError(Exception):
    pass


def lib_sources():
    txt = open(os.path.join(REPO, "Makefile.am")).read()
    txt = txt.replace("\\\n", " ")
    m = re.search(r"^libpbc_la_SOURCES\s*=\s*(.*)$", txt, re.M)
    if not m:
        raise BuildError("libpbc_la_SOURCES not found in Makefile.am")
    srcs = [s for s in m.group(1).split() if s.endswith(".c")]
    if len(srcs) < 25:
        raise BuildError("only %d library sources listed" % len(srcs))
    return srcs


def compile_ir(src, outdir, cxx=False, extra=(), passes="mem2reg"):
    """src relative to REPO (or absolute) -> IR text"""
    base = os.path.join(outdir, hashlib.md5((src + repr(extra)).encode()).hexdigest())
    cc = ["clang++" if cxx else "clang", "-std=c++14" if cxx else "-std=gnu99", "-O0", "-g", "-w",
          "-Wno-incompatible-function-pointer-types", "-Wno-int-conversion", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-U__STRICT_ANSI__",
          "-I.", "-Iinclude", "-I" + os.path.join(HERE, "include"), "-S", "-emit-llvm"]
    cc += list(extra) + [src, "-o", base + ".ll"]
    r = subprocess.run(cc, cwd=REPO, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("clang failed on %s:\n%s" % (src, r.stderr[-2000:]))
    r = subprocess.run(["opt", "-S", "-passes=" + passes, base + ".ll", "-o", base + "2.ll"],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError("opt failed on %s:\n%s" % (src, r.stderr[-2000:]))
    t = open(base + "2.ll").read()
    os.unlink(base + ".ll"); os.unlink(base + "2.ll")
    return t


class Program:
    """all modules of the library, with cross-module symbol resolution"""

    def __init__(self, mods):
        self.mods = mods
        self.ext = {}
        for m in mods:
            for f in m.functions.values():
                if f.defined and not f.internal:
                    self.ext[f.name] = f

    def resolve(self, mod, name):
        f = mod.functions.get(name)
        if f is not None and f.defined:
            return f
        return self.ext.get(name, f)

    def fn(self, name, file=None):
        """find a defined function by name"""
        for m in self.mods:
            f = m.functions.get(name)
            if f is not None and f.defined and (file is None or m.name.endswith(file)):
                return f
        return None

    def functions(self):
        for m in self.mods:
            for f in m.functions.values():
                if f.defined:
                    yield f


def load(srcs=None, extra=(), cxx=False, jobs=8, api=True):
    srcs = srcs or lib_sources()
    d = tempfile.mkdtemp(prefix="pbcir.")
    try:
        with ThreadPoolExecutor(jobs) as ex:
            hdr = os.path.join(HERE, "tu", "api.c")
            jobs_ = [(s, tuple(extra)) for s in srcs]
            if not cxx and api:
                jobs_.append((hdr, tuple(extra) + ("-femit-all-decls",)))
                srcs = list(srcs) + ["include/pbc.h"]
            texts = list(ex.map(lambda s: compile_ir(s[0], d, cxx=cxx, extra=s[1]), jobs_))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    mods = []
    for s, t in zip(srcs, texts):
        mods.append(ir.parse_module(t, s))
    return Program(mods)
