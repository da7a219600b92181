"""The C++ classes do what the C functions do, and own their elements."""
import os
import re
import shutil
import tempfile
from engine.check import Check
from engine import absint, ir, build
from engine.absint import Ptr, Undecided, Fn
from engine.scen import Scenario, Missing
from engine.poly import *
from engine.poly import T, A

HERE = os.path.join(build.HERE, "tu")
SI = -(1 << 40) - 7
LEN = {"Zr": 20, "G1": 40, "G2": 60, "GT": 80}
CL = ("Zr", "G1", "G2", "GT")


class Stop(Exception):
    pass


class Fault(Exception):
    pass


def load():
    d = tempfile.mkdtemp(prefix="pbcir.")
    try:
        os.symlink(os.path.join(build.REPO, "include"), os.path.join(d, "pbc"))
        t = build.compile_ir(os.path.join(HERE, "cxx.cc"), d, cxx=True, extra=("-fno-exceptions", "-fno-rtti", "-nostdinc++", "-I" + os.path.join(HERE, "cxxinc"), "-I" + d))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return build.Program([ir.parse_module(t, "include/pbcxx.h")])


class W:
    def __init__(self, prog, cmp=0, sym=True, isz=0):
        self.S = S = Scenario(prog)
        self.I = I = S.I
        I.unroll_any = True
        self.cmp, self.sym, self.isz = cmp, sym, isz
        self.el = {}            # (object, offset) -> [class, value]
        self.strs = {}          # object -> [size, data object, contents]
        self.pairs = {}         # (object, offset) -> parameters
        self.out = []
        self.nrand = 0
        for m in prog.mods:
            for f in m.functions.values():
                g = re.match(r"_ZL?(\d+)(\w+)", f.name)
                n = g.group(2)[:int(g.group(1))] if g else f.name
                if hasattr(self, "f_" + n):
                    I.models[f.name] = self.wrap(n)
                elif n.startswith(("element_", "pairing_")) and (g or not f.defined):
                    I.models[f.name] = self.unknown(n)
                g = re.match(r"_ZNK?St6string(.*)", f.name)
                if g:
                    I.models[f.name] = self.string(g.group(1))
                if re.match(r"_ZNSt\d+\w+C[12]E|_Z9cxx_throwv", f.name) and not f.name.startswith("_ZNSt6string"):
                    I.models[f.name] = lambda I, ins, n, a, st: None
        I.models["cxx_thrown"] = self.thrown
        cp = absint.m_memcpy

        def copied(I, ins, n, a, st):
            self.where = ir.loc(ins) if ins is not None else "?"
            for p in a[:2]:
                if isinstance(p, Ptr) and (p.obj, p.off) in self.pairs:
                    raise Fault("%s copies the bytes of a pairing, whose parts are then cleared twice" % self.where)
                if isinstance(p, Ptr) and (p.obj, p.off) in self.el:
                    raise Fault("%s copies the bytes of an element" % self.where)
            return cp(I, ins, n, a, st)
        I.models["memcpy"] = I.models["memmove"] = copied
        base = I.intrinsic

        def intrinsic(ins, name, args, st, fr):
            if name.startswith(("llvm.memcpy", "llvm.memmove")):
                return copied(I, ins, name, args, st)
            return base(ins, name, args, st, fr)
        I.intrinsic = intrinsic
        I.models["sink"] = self.sink
        I.models["sinkref"] = self.sinkref

    def thrown(self, I, ins, n, a, st):
        raise Stop()

    def unknown(self, name):
        def f(I, ins, n, a, st):
            raise Undecided("call of %s" % name)
        return f

    def wrap(self, n):
        m = getattr(self, "f_" + n)

        def f(I, ins, nn, a, st):
            self.where = ir.loc(ins) if ins is not None else "?"
            return m(*a)
        return f

    # elements
    def key(self, p):
        if not isinstance(p, Ptr) or not isinstance(p.off, int):
            raise Undecided("element at %s" % (p,))
        return (p.obj, p.off)

    def get(self, p, cl=None):
        k = self.key(p)
        if k not in self.el:
            raise Fault("%s uses an element that is not initialised" % self.where)
        if cl is not None and self.el[k][0] != cl:
            raise Fault("%s uses an element of %s as one of %s" % (self.where, self.el[k][0], cl))
        return self.el[k][1]

    def put(self, p, v):
        self.get(p)
        if v is None:
            raise Fault("%s uses the value of an element that was never set" % self.where)
        self.el[self.key(p)][1] = v

    def init(self, p, cl):
        if self.key(p) in self.el:
            raise Fault("%s initialises an element twice" % self.where)
        self.el[self.key(p)] = [cl, None]

    def val(self, p, cl=None):
        v = self.get(p, cl)
        if v is None:
            raise Fault("%s reads an element that was never set" % self.where)
        return v

    def f_element_init_same_as(self, e, f):
        self.get(f)
        self.init(e, self.el[self.key(f)][0])

    def same(self, e, *xs):
        self.get(e)
        cl = self.el[self.key(e)][0]
        return [self.val(x, cl) for x in xs], cl

    def f_element_clear(self, e):
        self.get(e)
        del self.el[self.key(e)]

    def f_element_set(self, e, a):
        (x,), cl = self.same(e, a)
        self.put(e, x)

    def f_element_set0(self, e):
        self.put(e, 0)

    def f_element_set1(self, e):
        self.get(e)
        self.put(e, 1 if self.el[self.key(e)][0] == "Zr" else 0)

    def f_element_set_si(self, e, i):
        self.put(e, i if is_val(i) else None)

    def f_element_set_mpz(self, e, z):
        self.put(e, A("v", "mpz", str(z)))

    def f_element_random(self, e):
        self.nrand += 1
        self.put(e, A("v", "random", self.nrand))

    def f_element_from_hash(self, e, data, n):
        self.put(e, A("v", "hash", self.text(data), n))

    def two(self, e, a, b, ring, group):
        (x, y), cl = self.same(e, a, b)
        self.put(e, ring(x, y) if cl == "Zr" else group(x, y))

    def f_element_add(self, e, a, b):
        self.two(e, a, b, add, add)

    def f_element_sub(self, e, a, b):
        self.two(e, a, b, sub, sub)

    def f_element_mul(self, e, a, b):
        self.two(e, a, b, mul, add)

    def f_element_div(self, e, a, b):
        self.two(e, a, b, lambda x, y: mul(x, inv(y)), sub)

    def one(self, e, a, ring, group):
        (x,), cl = self.same(e, a)
        self.put(e, ring(x) if cl == "Zr" else group(x))

    def f_element_double(self, e, a):
        self.one(e, a, lambda x: add(x, x), lambda x: add(x, x))

    def f_element_square(self, e, a):
        self.one(e, a, lambda x: mul(x, x), lambda x: add(x, x))

    def f_element_neg(self, e, a):
        self.one(e, a, neg, neg)

    def f_element_invert(self, e, a):
        self.one(e, a, inv, neg)

    def f_element_pow_zn(self, e, a, z):
        (x,), cl = self.same(e, a)
        if cl == "Zr":
            raise Undecided("power in Zr")
        self.put(e, mul(x, self.val(z, "Zr")))

    def f_element_mul_zn(self, e, a, z):
        (x,), cl = self.same(e, a)
        self.put(e, mul(x, self.val(z, "Zr")))

    def f_element_cmp(self, a, b):
        x, y = self.val(a), self.val(b)
        self.cmps = getattr(self, "cmps", []) + [(x, y)]
        return self.cmp

    def f_element_is0(self, a):
        self.cmps = getattr(self, "cmps", []) + [("is0", self.val(a))]
        return self.isz

    def f_element_is1(self, a):
        self.cmps = getattr(self, "cmps", []) + [("is1", self.val(a))]
        return self.isz

    def f_element_length_in_bytes(self, e):
        self.get(e)
        return LEN[self.el[self.key(e)][0]]

    def f_element_to_bytes(self, p, e):
        n = self.f_element_length_in_bytes(e)
        for s in self.strs.values():
            if isinstance(p, Ptr) and p.obj is s[1]:
                if p.off + n > s[0]:
                    raise Fault("%s writes past the end of a text of %d bytes" % (self.where, s[0]))
                s[2] = (p.off, self.val(e))
                return n
        raise Undecided("bytes at %s" % (p,))

    def f_element_from_bytes(self, e, p):
        n = self.f_element_length_in_bytes(e)
        for s in self.strs.values():
            if isinstance(p, Ptr) and p.obj is s[1]:
                if p.off + n > s[0]:
                    raise Fault("%s reads %d bytes of a text of %d" % (self.where, p.off + n, s[0]))
                self.put(e, A("v", "bytes", self.text(p)))
                return n
        raise Undecided("bytes at %s" % (p,))

    # pairings
    def f_pairing_init_set_buf(self, p, s, n):
        self.pairs[self.key(p)] = (self.text(s), n)
        return 0

    def f_pairing_init_set_str(self, p, s):
        self.pairs[self.key(p)] = (self.text(s), None)
        return 0

    def f_pairing_clear(self, p):
        if self.key(p) not in self.pairs:
            raise Fault("%s clears a pairing that is not there" % self.where)
        del self.pairs[self.key(p)]

    def f_pairing_is_symmetric(self, p):
        if self.key(p) not in self.pairs:
            raise Fault("%s uses a pairing that is not initialised" % self.where)
        return 1 if self.sym else 0

    def f_pairing_apply(self, e, a, b, p):
        self.f_pairing_is_symmetric(p)
        self.get(e, "GT")
        self.put(e, A("v", "e", self.val(a), self.val(b)))

    # texts
    def text(self, p):
        for s in self.strs.values():
            if isinstance(p, Ptr) and p.obj is s[1]:
                return "%s+%s" % (s[1].term.args[-1], p.off)
        raise Undecided("text at %s" % (p,))

    def newtext(self, name, n):
        p = Ptr(self.I.named("heap", "string", name), 0)
        self.strs[p.obj] = [n, self.I.named("heap", "chars", name), None]
        return p

    def string(self, what):
        def f(I, ins, n, a, st):
            self.where = ir.loc(ins) if ins is not None else "?"
            o = a[0].obj if isinstance(a[0], Ptr) else None
            if what == "C1Emc":
                if not isinstance(a[1], int):
                    raise Undecided("text of %s bytes" % (a[1],))
                self.strs[o] = [a[1], I.named("heap", "chars", "made", len(self.strs)), None]
                return None
            if o not in self.strs:
                if what == "C1Ev":
                    self.strs[o] = [0, I.named("heap", "chars", "made", len(self.strs)), None]
                    return None
                if what == "C1ERKS_" and a[1].obj in self.strs:
                    self.strs[o] = list(self.strs[a[1].obj])
                    return None
                raise Undecided("string %s" % what)
            s = self.strs[o]
            if what in ("4sizeEv", "6lengthEv"):
                return s[0]
            if what == "5emptyEv":
                return int(s[0] == 0)
            if what in ("4dataEv", "5c_strEv", "5frontEv"):
                return Ptr(s[1], 0)
            if what == "ixEm":
                return Ptr(s[1], a[1])
            if what in ("6resizeEm", "6resizeEmc"):
                s[0] = a[1]
                return None
            if what == "D1Ev":
                del self.strs[o]
                return None
            raise Undecided("string %s" % what)
        return f

    # the test
    def sink(self, I, ins, n, a, st):
        k = self.key(a[0])
        if k in self.el:
            self.out.append(("value",) + tuple(self.el[k]))
        elif a[0].obj in self.strs:
            self.out.append(("text",) + tuple(self.strs[a[0].obj]))
        elif k in self.pairs:
            self.out.append(("pairing", self.pairs[k]))
        else:
            self.where = ir.loc(ins)
            raise Fault("the result is not initialised")

    def sinkref(self, I, ins, n, a, st):
        k = self.key(a[0])
        self.out.append(("ref", k))

    def elem(self, cl, name, alias=None):
        p = Ptr(self.I.named("heap", "obj", name), 0)
        self.el[(p.obj, 0)] = [cl, A("v", name)]
        return p

    def pairing(self):
        p = Ptr(self.I.named("heap", "pairing"), 0)
        self.pairs[(p.obj, 0)] = ("given", 0)
        return p

    def call(self, f, *a):
        try:
            outs = self.S.run(f, *a)
        except Stop:
            return "thrown"
        if len(outs) != 1:
            raise Undecided("%d ways through" % len(outs))
        return outs[0][1]


X, Y, Z = A("v", "a"), A("v", "b"), A("v", "z")


def ringop(cl, r, g):
    return r if cl == "Zr" else g


def expected(cl):
    """operation -> (operands, value, in place)"""
    two = (X, Y)
    E = {
        "copy": ("a", X, 0), "assign": ("ab", Y, 1), "selfassign": ("a", X, 1),
        "set0": ("a", 0, 1), "set1": ("a", ringop(cl, 1, 0), 1),
        "add": ("ab", add(*two), 0), "sub": ("ab", sub(*two), 0), "mul": ("ab", ringop(cl, mul(*two), add(*two)), 0), "div": ("ab", ringop(cl, mul(X, inv(Y)), sub(*two)), 0),
        "twice": ("a", add(X, X), 0), "square": ("a", ringop(cl, mul(X, X), add(X, X)), 0), "neg": ("a", neg(X), 0), "invert": ("a", ringop(cl, inv(X), neg(X)), 0),
    }
    for k in ("add", "sub", "mul", "div"):
        E[k + "eq"] = ("ab", E[k][1], 1)
    for k in ("twice", "square", "neg", "invert"):
        E[k + "_inplace"] = ("a", E[k][1], 1)
    if cl != "Zr":
        for k in ("pow_zn", "mulz", "zmul"):
            E[k] = ("az", mul(X, Z), 0)
        for k in ("pow_zn_inplace", "mulzeq"):
            E[k] = ("az", mul(X, Z), 1)
    else:
        E["set_si"] = ("ai", SI, 1)
    return E


def finish(w, before, target, value, res, refs=None):
    """outcome of a call"""
    if res == "thrown":
        return "an exception is thrown"
    for k, v in before.items():
        if k not in w.el:
            return "an operand was cleared"
        if k != target and w.el[k] != v:
            return "an operand changed to %s" % (show(w.el[k][1]) if is_val(w.el[k][1]) else w.el[k][1],)
    if len(w.out) != 1:
        raise Undecided("no result")
    o = w.out[0]
    if target is not None:
        if o != ("ref", target):
            return "the reference returned is not the object itself"
        got = w.el[target][1]
    else:
        if o[0] != "value":
            return "no element results"
        if refs and o[1] != refs:
            return "the result is an element of %s" % o[1]
        got = o[2]
    extra = [k for k in w.el if k not in before]
    if extra:
        return "%d elements are never cleared" % len(extra)
    if got is None:
        return "the result was never set"
    if not equal(got, value):
        return "the result is %s, not %s" % (show(got), show(value))


def op(prog, cl, name):
    opnds, value, inplace = expected(cl)[name]
    for alias in (False, True) if opnds == "ab" else (False,):
        w = W(prog)
        ps = []
        for c in opnds:
            if c == "i":
                ps.append(SI)
            elif c == "b" and alias:
                ps.append(ps[0])
            else:
                ps.append(w.elem("Zr" if c == "z" else cl, c))
        v = value
        if alias:
            v = X if name == "assign" else subst_fn(value, lambda t: X if t is as_atom(Y) else None) if not isinstance(value, int) else value
            if name in ("div", "diveq") and cl == "Zr":
                v = mul(X, inv(X))
        before = {k: list(x) for k, x in w.el.items()}
        try:
            r = w.call("%s_%s" % (cl, name), *ps)
        except Fault as e:
            return str(e)
        bad = finish(w, before, (ps[0].obj, 0) if inplace else None, v, r, cl)
        if bad:
            return bad + (" (both operands the same)" if alias else "")


def new(prog, cl):
    w = W(prog)
    p = w.pairing()
    for g in CL:
        w.I.models.update({})
    try:
        r = w.call(cl + "_new", p)
    except Fault as e:
        return str(e)
    if w.out != [("value", cl, None)]:
        return "a new element is %s" % (w.out,)
    if w.el or not w.pairs:
        return "a new element is never cleared" if w.el else "the pairing was cleared"


for _g in CL:
    def _mk(g):
        def f(self, e, p):
            self.f_pairing_is_symmetric(p)
            self.init(e, g)
        return f
    setattr(W, "f_element_init_" + _g, _mk(_g))


def tests(prog, cl):
    for c in (0, 1, -1):
        for nm, want in (("compare", c), ("eq", int(c == 0)), ("ne", int(c != 0))):
            w = W(prog, cmp=c)
            a, b = w.elem(cl, "a"), w.elem(cl, "b")
            before = {k: list(x) for k, x in w.el.items()}
            try:
                r = w.call("%s_%s" % (cl, nm), a, b)
            except Fault as e:
                return str(e)
            if w.el != before:
                return "%s changes elements" % nm
            if getattr(w, "cmps", None) not in ([(X, Y)], [(Y, X)]):
                return "%s compares %s" % (nm, getattr(w, "cmps", None))
            if not isinstance(r, int):
                raise Undecided("%s returns %s" % (nm, r))
            r = r - (1 << 32) if r >> 31 == 1 else r
            if w.cmps == [(X, Y)] and r != want and not (nm == "compare" and w.cmps == [(Y, X)]):
                return "%s of elements whose comparison gives %d is %d" % (nm, c, r)
    for nm in ("is0", "is1"):
        for z in (0, 1):
            w = W(prog, isz=z)
            a = w.elem(cl, "a")
            try:
                r = w.call("%s_%s" % (cl, nm), a)
            except Fault as e:
                return str(e)
            if getattr(w, "cmps", None) != [(nm, X)]:
                return "%s asks %s" % (nm, getattr(w, "cmps", None))
            if r != z:
                return "%s gives %s for %d" % (nm, r, z)


def data(prog, cl):
    for nm, n, in (("from_hash", 33), ("from_hash", 0), ("set_random", None)):
        w = W(prog)
        a = w.elem(cl, "a")
        before = {k: list(x) for k, x in w.el.items()}
        args = [a] + ([w.newtext("given", n)] if n is not None else [])
        try:
            r = w.call("%s_%s" % (cl, nm), *args)
        except Fault as e:
            return str(e)
        bad = finish(w, before, (a.obj, 0), A("v", "random", 1) if n is None else A("v", "hash", "given+0", n), r)
        if bad:
            return "%s: %s" % (nm, bad)
    if cl == "Zr":
        w = W(prog)
        a, z = w.elem(cl, "a"), w.S.raw("mpz")
        before = {k: list(x) for k, x in w.el.items()}
        try:
            r = w.call("Zr_set_mpz", a, z)
        except Fault as e:
            return str(e)
        bad = finish(w, before, (a.obj, 0), A("v", "mpz", str(z)), r)
        if bad:
            return "set_mpz: %s" % bad


def coding(prog, cl):
    w = W(prog)
    a = w.elem(cl, "a")
    before = {k: list(x) for k, x in w.el.items()}
    try:
        r = w.call(cl + "_to_bytes", a)
    except Fault as e:
        return str(e)
    if len(w.out) != 1 or w.out[0][0] != "text":
        raise Undecided("no text")
    _, n, o, c = w.out[0]
    if n != LEN[cl]:
        return "to_bytes gives %d bytes, the element has %d" % (n, LEN[cl])
    if c != (0, X):
        return "to_bytes does not give the bytes of the element"
    if w.el != before or w.strs:
        return "to_bytes changes or leaks an object"
    for n in (LEN[cl] - 1, 0, LEN[cl], LEN[cl] + 1):
        w = W(prog)
        a = w.elem(cl, "a")
        before = {k: list(x) for k, x in w.el.items()}
        s = w.newtext("given", n)
        try:
            r = w.call(cl + "_from_bytes", a, s)
        except Fault as e:
            return "from_bytes: %s" % e
        if n < LEN[cl]:
            if r != "thrown":
                return "from_bytes accepts %d of %d bytes" % (n, LEN[cl])
            if w.el != before:
                return "from_bytes changes the element although %d of %d bytes are given" % (n, LEN[cl])
        elif n == LEN[cl]:
            bad = finish(w, before, (a.obj, 0), A("v", "bytes", "given+0"), r)
            if bad:
                return "from_bytes: %s" % bad
        elif r != "thrown":
            return "from_bytes accepts %d bytes for an element of %d" % (n, LEN[cl])


def pairings(prog, how, sym):
    g, h = {"12": ("G1", "G2"), "11": ("G1", "G1"), "22": ("G2", "G2")}[how[-2:]]
    for alias in (False, True) if g == h else (False,):
        w = W(prog, sym=sym)
        p = w.pairing()
        a = w.elem(g, "a")
        b = a if alias else w.elem(h, "b")
        r0 = w.elem("GT", "r") if how.startswith("apply") else None
        before = {k: list(x) for k, x in w.el.items()}
        try:
            r = w.call("P_" + how, *([p] + ([r0] if r0 is not None else []) + [a, b]))
        except Fault as e:
            return str(e)
        if g == h and not sym:
            if r != "thrown":
                return "two points of one group are paired although the pairing is not symmetric"
            if {k: w.el[k] for k in before} != before:
                return "an element changes although an exception is thrown"
            continue
        bad = finish(w, before, (r0.obj, 0) if r0 is not None else None, A("v", "e", X, X if alias else Y), r, "GT")
        if bad:
            return bad
        if list(w.pairs.values()) != [("given", 0)]:
            return "the pairing changed"


def whole(prog):
    for n in (200, 0):
        w = W(prog)
        s = w.newtext("params", n)
        try:
            r = w.call("P_new", s)
        except Fault as e:
            return str(e)
        if w.out not in ([("pairing", ("params+0", n))], [("pairing", ("params+0", None))]):
            return "the pairing is made from %s" % (w.out,)
        if w.pairs:
            return "the pairing is never cleared"
    w = W(prog)
    p, q = w.pairing(), Ptr(w.I.named("heap", "other pairing"), 0)
    w.pairs[(q.obj, 0)] = ("other", 0)
    for f, a in (("P_copy", (p,)), ("P_assign", (p, q))):
        try:
            w.call(f, *a)
        except Fault as e:
            return str(e)
    for sym in (True, False):
        w = W(prog, sym=sym)
        if w.call("P_symmetric", w.pairing()) != int(sym):
            return "is_symmetric is wrong"


def main():
    absint.MAXUNROLL = 300
    c = Check("C29", "Every operation of the C++ classes is instantiated and its IR interpreted with the C functions as axioms (groups as modules over Zr, Zr as a ring): value, reference returned, operands kept, "
              "every element initialised before use and cleared once; texts of wrong length are refused before they are read; pairings of one group need a symmetric pairing.",
              floor=20, assumptions=["the C functions keep their contracts (C01 to C25)", "clean-up while an exception propagates is not followed"])
    try:
        prog = load()
    except (build.BuildError, ir.IRError) as e:
        c.undecided("compilation", str(e)[:300])
        c.floor = 0
        return c.finish()
    its = [("new", cl) for cl in CL] + [("op", cl, n) for cl in CL for n in expected(cl)] + [(k, cl) for k in ("tests", "data", "coding") for cl in CL]
    its += [("pairings", h + k, s) for h in ("apply", "call") for k in ("12", "11", "22") for s in (True, False)] + [("whole",)]

    def work(s, it):
        s.ob(" ".join(map(str, it)), lambda: globals()[it[0]](prog, *it[1:]))
    c.parallel(its, work)
    return c.finish()
