"""The default memory functions keep contents in bounds; secure builds wipe what they release."""
import os
import shutil
import tempfile
from engine.check import Check, program
from engine import absint, ir, build
from engine.absint import Ptr, Undecided, Fn
from engine.effects import walk_const
from engine.text import TextInterp
from engine.scen import Scenario
from engine.poly import *
from engine.poly import T, A

I8, I64 = ir.int_type(8), ir.int_type(64)
HOOKS = ("pbc_malloc", "pbc_realloc", "pbc_free")
SEC = ("-DSAFE_CLEAN", "-Wno-implicit-function-declaration")


# ---- whole library
def roots(prog):
    """default functions: what the three pointers start as"""
    out = {}
    for m in prog.mods:
        for h in HOOKS:
            g = m.globals.get(h)
            if g is not None and g.init is not None:
                out[h] = [n for n in walk_const(g.init)]
    if len(out) != 3:
        raise Undecided("the three function pointers have no initial values")
    return out


def mixed(prog):
    """texts GMP allocated must not reach the installed free"""
    bad = []
    for m in prog.mods:
        for f in m.functions.values():
            if not f.defined:
                continue
            src, hook = {}, set()
            for _ in range(3):
                for b in f.order:
                    for ins in f.blocks[b]:
                        if ins.op == "call" and ins.extra and ins.extra[0] == "g" and ins.extra[1] in ("__gmpz_get_str", "__gmpz_export", "__gmpf_get_str") \
                                and ins.ops and ins.ops[0][1] in (("null",), ("c", 0)) and ins.res:
                            src[ins.res] = ins
                        elif ins.op == "load" and ins.ops[0][1] == ("g", "pbc_free"):
                            hook.add(ins.res)
                        elif ins.op in ("bitcast", "phi", "select") and ins.res:
                            for o in ins.ops:
                                for v in o if isinstance(o, tuple) else ():
                                    if isinstance(v, tuple) and len(v) == 2 and v[0] == "v" and v[1] in src:
                                        src[ins.res] = src[v[1]]
            for b in f.order:
                for ins in f.blocks[b]:
                    if ins.op == "call" and ins.extra and ins.extra[0] == "v" and ins.extra[1] in hook and ins.ops and ins.ops[0][1][0] == "v" and ins.ops[0][1][1] in src:
                        bad.append(("mixed:%s" % f.name, "%s releases memory GMP allocated with the installed function" % ir.loc(ins)))
    return bad


# ---- the functions themselves, bytes one by one
class Mem(TextInterp):
    """blocks of bytes; a wider value is its bytes"""

    def __init__(self, prog):
        TextInterp.__init__(self, prog)
        self.unroll_any = True
        self.freed = []
        self.count = 0
        self.fail = False
        for n, f in (("malloc", m_malloc), ("calloc", m_malloc), ("free", m_free), ("realloc", m_realloc), ("memset", m_memset), ("explicit_bzero", m_memset), ("bzero", m_memset),
                     ("memcpy", m_memcpy), ("memmove", m_memcpy), ("strcpy", m_str), ("stpcpy", m_str), ("pbc_die", m_die)):
            self.models[n] = f
        for n, f in (("pbc_malloc", m_malloc), ("pbc_free", m_free), ("pbc_realloc", m_realloc)):
            self.models[n] = f

    def intrinsic(self, ins, name, args, st, fr):
        if name.startswith("llvm.memset"):
            return m_memset(self, ins, "memset", args[:3], st)
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            return m_memcpy(self, ins, "memcpy", args[:3], st)
        return TextInterp.intrinsic(self, ins, name, args, st, fr)

    def block(self, p):
        return isinstance(p, Ptr) and p.obj in self.limit and isinstance(p.off, int)

    def byte(self, st, p, i, ins):
        q = Ptr(p.obj, p.off + i)
        if ("gone", 0, p.obj) in st.m:
            self.beyond.append("%s reads memory after its release" % ir.loc(ins))
        self.inside(q, "reads", ins)
        return st.m.get(("b", q.obj, q.off), A("undef", q.obj.term, q.off))

    def setbyte(self, st, p, i, v, ins):
        q = Ptr(p.obj, p.off + i)
        if ("gone", 0, p.obj) in st.m:
            self.beyond.append("%s writes memory after its release" % ir.loc(ins))
        self.inside(q, "writes", ins)
        st.m[("b", q.obj, q.off)] = v

    def width(self, ty):
        return 8 if ty.kind == "ptr" else (ty.a + 7) // 8

    def load(self, st, p, ty, ins=None):
        if not self.block(p):
            return TextInterp.load(self, st, p, ty, ins)
        n = self.width(ty)
        bs = [self.byte(st, p, i, ins) for i in range(n)]
        if n == 1:
            return bs[0]
        if all(isinstance(b, int) for b in bs):
            return sum((b & 255) << (8 * i) for i, b in enumerate(bs))
        ts = [as_atom(b) if is_val(b) else None for b in bs]
        if all(t is not None and t.op == "part" and t.args[0] == i and t.args[1] == ts[0].args[1] for i, t in enumerate(ts)):
            return ts[0].args[1]
        raise Undecided("%s reads %d mixed bytes" % (ir.loc(ins), n))

    def store(self, st, p, v, ins=None, kind="m"):
        if not self.block(p) or kind != "m":
            return TextInterp.store(self, st, p, v, ins, kind)
        ty = None
        if ins is not None and ins.op == "store":
            ty = ins.ops[0][0]
        n = self.width(ty) if ty is not None else 8
        for i in range(n):
            self.setbyte(st, p, i, (v >> (8 * i)) & 255 if isinstance(v, int) else v if n == 1 else A("part", i, v), ins)


def m_die(I, ins, n, a, st):
    raise Stop()


class Stop(Exception):
    pass


def m_malloc(I, ins, n, a, st):
    z = a[0] if n != "calloc" else a[0] * a[1]
    if not isinstance(z, int):
        raise Undecided("block of %s bytes" % (z,))
    if I.fail:
        return 0
    I.count += 1
    o = I.obj("heap", T("obj", "block", I.count))
    o.size = I.limit[o] = z
    I.limit[o] = z
    if n == "calloc":
        for i in range(z):
            st.m[("b", o, i)] = 0
    return Ptr(o, 0)


def m_free(I, ins, n, a, st):
    p = a[0]
    if p == 0:
        return None
    if not I.block(p):
        raise Undecided("free of %s" % (p,))
    if p.off != 0:
        I.beyond.append("%s releases byte %d of a block" % (ir.loc(ins), p.off))
        return None
    if ("gone", 0, p.obj) in st.m:
        I.beyond.append("%s releases memory that was released before" % ir.loc(ins))
    left = [i for i in range(I.limit[p.obj]) if st.m.get(("b", p.obj, i), "?") != 0]
    I.freed.append((ir.loc(ins), p.obj, left))
    st.m[("gone", 0, p.obj)] = True


def m_realloc(I, ins, n, a, st):
    p, z = a
    q = m_malloc(I, ins, "malloc", [z], st)
    if q == 0:
        return q
    if p != 0:
        for i in range(min(I.limit[p.obj], z)):
            st.m[("b", q.obj, i)] = st.m.get(("b", p.obj, i), A("undef", p.obj.term, i))
        m_free(I, ins, n, [p], st)
    return q


def m_memset(I, ins, n, a, st):
    p, c, z = a if n == "memset" else (a[0], 0, a[1])
    if not isinstance(z, int) or not isinstance(c, int):
        raise Undecided("memset of %s bytes" % (z,))
    if z and not I.block(p):
        raise Undecided("memset at %s" % (p,))
    for i in range(min(z, 4096)):
        I.setbyte(st, p, i, c & 255, ins)
        if I.beyond:
            break
    return p


def m_memcpy(I, ins, n, a, st):
    p, q, z = a[:3]
    if not isinstance(z, int):
        raise Undecided("copy of %s bytes" % (z,))
    if z and not (I.block(p) and I.block(q)):
        raise Undecided("copy at %s" % (p,))
    vs = []
    for i in range(min(z, 4096)):
        vs.append(I.byte(st, q, i, ins))
        if I.beyond:
            return p
    for i, v in enumerate(vs):
        I.setbyte(st, p, i, v, ins)
        if I.beyond:
            return p
    return p


def m_str(I, ins, n, a, st):
    s = I.text(st, a[1], ins)
    for i, ch in enumerate(s + "\0"):
        I.setbyte(st, a[0], i, ord(ch), ins)
    return a[0] if n == "strcpy" else Ptr(a[0].obj, a[0].off + len(s))


class M:
    def __init__(self, prog):
        self.S = S = Scenario(prog, Mem(prog))
        self.I = S.I
        self.prog = prog

    def fn(self, name):
        return self.S.fn(name)

    def call(self, f, *a):
        """(result, fault); result is None if the call does not come back"""
        try:
            outs = self.S.run(f, *a)
        except Stop:
            return "stopped", None
        except Undecided:
            if self.I.beyond:
                return None, self.I.beyond[0]
            raise
        if self.I.beyond:
            return None, self.I.beyond[0]
        if not outs:
            return "stopped", None
        if len(outs) != 1:
            raise Undecided("%d ways through" % len(outs))
        self.S.st = outs[0][0]
        return outs[0][1], None

    def fill(self, p, n, tag):
        """all n bytes can be written"""
        for i in range(n):
            self.I.inside(Ptr(p.obj, p.off + i), "the caller writes", None)
            self.S.st.m[("b", p.obj, p.off + i)] = A("v", "%s%d" % (tag, i))
        return "the block is smaller than the %d bytes asked for" % n if self.I.beyond else None

    def same(self, p, n, tag):
        for i in range(n):
            if self.S.st.m.get(("b", p.obj, p.off + i)) != A("v", "%s%d" % (tag, i)):
                return "byte %d of the first %d changed" % (i, n)
            if ("gone", 0, p.obj) in self.S.st.m:
                return "the result is a released block"

    def wiped(self):
        for where, o, left in self.I.freed:
            if left:
                return "%s releases a block with byte %d of %d not zeroed" % (where, left[0], self.I.limit[o])


def fns(prog, kind):
    """the three default functions, or the three GMP gets"""
    w = M(prog)
    if kind == "pbc":
        r = roots(prog)
        return w, [w.fn(r[h][0]) for h in HOOKS]
    got = []

    def reg(I, ins, n, a, st):
        got.append(a)
    w.I.models["__gmp_set_memory_functions"] = reg
    ctor = []
    for m in prog.mods:
        g = m.globals.get("llvm.global_ctors")
        if g is not None:
            ctor += [n for n in walk_const(g.init)]
    if not ctor:
        return w, None
    for n in ctor:
        r, bad = w.call(w.fn(n))
    if not got:
        return w, None
    return w, [x.f for x in got[-1]]


def blocks(prog, kind, secure, old, new):
    w, fs = fns(prog, kind)
    if fs is None:
        return "no allocation functions are given to GMP" if secure else None
    mal, rea, fre = fs
    p, bad = w.call(mal, old)
    if bad:
        return "malloc of %d bytes: %s" % (old, bad)
    bad = w.fill(p, old, "a")
    if bad:
        return bad
    if new is not None:
        q, bad = w.call(rea, p, new) if kind == "pbc" else w.call(rea, p, old, new)
        if bad:
            return "realloc from %d to %d bytes: %s" % (old, new, bad)
        bad = w.same(q, min(old, new), "a")
        if bad:
            return "realloc from %d to %d bytes: %s" % (old, new, bad)
        bad = w.fill(q, new, "b")
        if bad:
            return bad
        if secure and w.wiped():
            return "realloc from %d to %d bytes: %s" % (old, new, w.wiped())
        p, old = q, new
    r, bad = w.call(fre, p) if kind == "pbc" else w.call(fre, p, old)
    if bad:
        return "free: %s" % bad
    if ("gone", 0, p.obj) not in w.S.st.m:
        return "free does not release the block"
    if secure:
        return w.wiped()


def null(prog, kind, secure):
    w, fs = fns(prog, kind)
    if fs is None:
        return None
    mal, rea, fre = fs
    r, bad = w.call(fre, 0) if kind == "pbc" else w.call(fre, 0, 0)
    if bad:
        return "free of NULL: %s" % bad
    q, bad = w.call(rea, 0, 24) if kind == "pbc" else w.call(rea, 0, 0, 24)
    if bad:
        return "realloc of NULL: %s" % bad
    return w.fill(q, 24, "a")


def fails(prog):
    """the default functions do not return without memory"""
    for i in (0, 1):
        w, fs = fns(prog, "pbc")
        p = 0
        if i == 1:
            p, bad = w.call(fs[0], 16)
        w.I.fail = True
        r, bad = w.call(fs[i], 16) if i == 0 else w.call(fs[i], p, 32)
        if bad:
            return "without memory: %s" % bad
        if r != "stopped":
            return "%s returns without memory" % fs[i].name
    return None


def install(prog):
    w = M(prog)
    marks = [Fn("user_" + h, None) for h in HOOKS]
    w.call("pbc_set_memory_functions", *marks)
    for h, mk in zip(HOOKS, marks):
        for m in prog.mods:
            g = m.globals.get(h)
            if g is not None and g.init is not None:
                v = w.S.st.m.get(("m", w.I.glob(m, h).obj, 0))
                if v is not mk:
                    return "after pbc_set_memory_functions %s is not the function given" % h
    return None


def hooked(w):
    """the user's functions are installed"""
    I = w.I
    seen = []
    for h in HOOKS:
        base = I.models[h]

        def f(I, ins, n, a, st, base=base, h=h):
            seen.append(h)
            return base(I, ins, h, a, st)
        I.models["user_" + h] = f
        for x in (h[4:],):
            I.models[x] = lambda I, ins, n, a, st, x=x: seen.append("C " + x) or 0
    w.call("pbc_set_memory_functions", *[Fn("user_" + h, None) for h in HOOKS])
    return seen


def calloc(prog, n, z):
    w = M(prog)
    seen = hooked(w)
    p, bad = w.call("pbc_calloc", n, z)
    if bad:
        return "%d times %d bytes: %s" % (n, z, bad)
    if seen != ["pbc_malloc"]:
        return "memory comes from %s" % (seen,)
    if w.I.limit[p.obj] - p.off < n * z:
        return "%d times %d bytes: the block has %d" % (n, z, w.I.limit[p.obj])
    for i in range(n * z):
        if w.S.st.m.get(("b", p.obj, p.off + i)) != 0:
            return "%d times %d bytes: byte %d is not zero" % (n, z, i)


def strdup(prog, s):
    w = M(prog)
    seen = hooked(w)
    t = Ptr(w.I.named("lazy", "text"), 0)
    w.I.limit[t.obj] = len(s) + 1
    for i, ch in enumerate(s + "\0"):
        w.S.st.m[("b", t.obj, i)] = ord(ch)
    p, bad = w.call("pbc_strdup", t)
    if bad:
        return "copy of %r: %s" % (s, bad)
    if seen != ["pbc_malloc"]:
        return "memory comes from %s" % (seen,)
    if p.obj is t.obj:
        return "the copy is the original"
    for i, ch in enumerate(s + "\0"):
        if w.S.st.m.get(("b", p.obj, p.off + i)) != ord(ch):
            return "copy of %r: character %d differs" % (s, i)


PROGS = {}
SIZES = (0, 1, 7, 8, 9, 16, 24, 40)


def load(extra, passes):
    d = tempfile.mkdtemp(prefix="pbcir.")
    try:
        srcs = [s for s in build.lib_sources() if "pbc_set_memory_functions" in open(os.path.join(build.REPO, s)).read()]
        return build.Program([ir.parse_module(build.compile_ir(s, d, extra=extra, passes=passes), s) for s in srcs])
    finally:
        shutil.rmtree(d, ignore_errors=True)


O2 = "default<O2>"


def main():
    absint.MAXUNROLL = 3000
    deep = os.environ.get("VERIF_TIER", "quick") != "quick"
    prog = program()
    c = Check("C27", "No GMP block reaches the installed free; byte-by-byte analysis of the default functions of the normal and the secure build, the latter also after optimisation, for a list of old and new sizes.",
              floor=60, assumptions=["block sizes from a list", "clang's optimiser stands for the compiler"])
    c.ob("GMP blocks in the installed free", lambda: mixed(prog))
    ps = {"normal": (load((), "mem2reg"), False), "secure": (load(SEC, "mem2reg"), True), "secure optimised": (load(SEC, O2), True)}
    sizes = SIZES if not deep else tuple(range(0, 34)) + (63, 64, 65, 100, 255, 256, 257)
    its = [("install", "normal"), ("install", "secure")]
    for b in ps:
        for k in ("pbc", "gmp"):
            its += [("blocks", b, k, o, n) for o in sizes for n in (None,) + tuple(sizes)] + [("null", b, k)]
        if b != "secure optimised":
            its += [("fails", b)] + [("calloc", b, n, z) for n in (0, 1, 3, 8) for z in (1, 8, 5)] + [("strdup", b, s) for s in ("", "a", "abcdefg", "a longer text, of several words")]

    def work(s, it):
        p, sec = ps[it[1]]
        if it[0] == "blocks":
            fn = lambda: blocks(p, it[2], sec, it[3], it[4])
        elif it[0] == "null":
            fn = lambda: null(p, it[2], sec)
        else:
            fn = lambda: globals()[it[0]](p, *it[2:])
        s.ob(" ".join(map(str, it)), fn)
    c.parallel(its, work)
    return c.finish()
