"""The ring of integers and nested integer lists (multinomials) compute exactly, and lists give field elements their components."""
import itertools
import os
from engine.check import Check, program
from engine import absint, ir
from engine.scen import Missing
from engine.absint import Ptr, SlotFn, Undecided, Fn
from engine.text import Texts
from engine.poly import *
from engine.poly import T, A


class Fault(Exception):
    pass


class W:
    def __init__(self, prog, init):
        self.S = Texts(prog)
        self.I = self.S.I
        self.I.unroll_any = True
        self.I.watch_free()
        self.F = self.S.new_field("F", init)

    def el(self, name):
        return self.S.elem(self.F, name)

    def do(self, f, *a):
        try:
            outs = self.S.run(f, *a)
        except Undecided:
            if self.I.beyond:
                raise Fault("%s: %s" % (f, self.I.beyond[0]))
            raise
        if self.I.beyond:
            raise Fault("%s: %s" % (f, self.I.beyond[0]))
        if len(outs) != 1:
            raise Undecided("%s: %d outcomes" % (f, len(outs)))
        self.S.st = outs[0][0]
        return outs[0][1]

    def num(self, name, v):
        return self.S.mpz(name, v)

    def get(self, e):
        """the integer, by the library's conversion"""
        self.k = getattr(self, "k", 0) + 1
        z = self.num("get %d" % self.k, 0)
        self.do("element_to_mpz", z, e)
        return self.I.zcont(self.S.st, z)


def tq(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def sgn(x):
    return (x > 0) - (x < 0)


a, b = A("v", "a"), A("v", "b")
RING = [("element_add", 2, add(a, b)), ("element_sub", 2, sub(a, b)), ("element_mul", 2, mul(a, b)), ("element_square", 1, mul(a, a)),
        ("element_double", 1, mul(2, a)), ("element_neg", 1, neg(a)), ("element_set", 1, a)]
LAYOUTS = ("distinct", "first", "second", "both", "all")


def pick(W_, n, lay, va, vb):
    """output and operands with the given contents; None if the layout does not apply"""
    if n == 1 and lay in ("second", "both"):
        return None
    x, y, o = W_.el("x"), W_.el("y"), W_.el("o")
    W_.do("element_set_mpz", x, W_.num("va", va))
    W_.do("element_set_mpz", y, W_.num("vb", vb))
    W_.do("element_set_mpz", o, W_.num("vo", A("v", "old")))
    if lay == "first":
        o = x
    elif lay == "second":
        o = y
    elif lay == "both":
        y = x
    elif lay == "all":
        o = y = x
    return [o, x, y][:1 + n]


def ring(prog, f, n, spec, lay):
    w = W(prog, "field_init_z")
    same = lay in ("both", "all") and n == 2
    args = pick(w, n, lay, a, b)
    w.do(f, *args)
    v = w.get(args[0])
    want = subst(spec, a) if same else spec
    if v != want:
        return "%s leaves %s instead of %s" % (f, show(v), show(want))


def subst(v, x):
    """b := a"""
    r = 0
    for mon, c in v.d.items():
        t = c
        for i, e in mon:
            t = mul(t, power(a, e))
        r = add(r, t)
    return r


def scalars(prog):
    r = []
    for f, mk, spec in (("element_mul_si", lambda w, k: k, lambda k: mul(k, a)), ("element_mul_mpz", lambda w, k: w.num("k", k), lambda k: mul(k, a)),
                        ("element_set_si", lambda w, k: k, lambda k: k), ("element_set_mpz", lambda w, k: w.num("k", k), lambda k: k),
                        ("element_pow_mpz", lambda w, k: w.num("k", k), None)):
        for k in (0, 1, 2, 3, 5, 8, -1, -7, 1 << 40):
            if f == "element_pow_mpz" and not 0 <= k < 10:
                continue
            for own in (0, 1):
                w = W(prog, "field_init_z")
                o, x = w.el("o"), w.el("x")
                w.do("element_set_mpz", x, w.num("va", a))
                if own:
                    o = x
                if "set" in f:
                    w.do(f, o, mk(w, k))
                else:
                    w.do(f, o, x, mk(w, k))
                v = w.get(o)
                want = power(a, k) if spec is None else spec(k)
                if v != want:
                    return "%s with %d gives %s instead of %s" % (f, k, show(v), show(want))
    return None


def numbers(prog, f, pairs, spec, n, out):
    """operations that are no polynomials, on constants of every sign and parity"""
    for x in pairs:
        for lay in ("distinct", "first") if out else ("distinct",):
            w = W(prog, "field_init_z")
            args = pick(w, n, lay, x[0], x[1] if n == 2 else 0)
            if not out:
                args = args[1:]
            rv = w.do(f, *args)
            v = w.get(args[0]) if out else rv
            want = spec(*x)
            if not isinstance(v, int):
                raise Undecided("%s of %s gives %s" % (f, x, v))
            if out is False:
                v = v - (1 << 32) if v >= 1 << 31 else v
            if (v != want) if out else (bool(v) != bool(want) if "_is" in f else sgn(v) != want):
                return "%s of %s gives %s instead of %s" % (f, x, v, want)


NUMS = (0, 1, -1, 2, -2, 3, -3, 7, -8, 9, 16, 255, -256, (1 << 70) + 5, -(1 << 64))


def znumbers():
    two = [(x, y) for x in NUMS for y in NUMS]
    return [("element_div", [p for p in two if p[1]], tq, 2, True),
            ("element_halve", [(x,) for x in NUMS], lambda x: tq(x, 2), 1, True),
            ("element_add", two, lambda x, y: x + y, 2, True), ("element_sub", two, lambda x, y: x - y, 2, True), ("element_mul", two, lambda x, y: x * y, 2, True),
            ("element_square", [(x,) for x in NUMS], lambda x: x * x, 1, True), ("element_double", [(x,) for x in NUMS], lambda x: 2 * x, 1, True),
            ("element_neg", [(x,) for x in NUMS], lambda x: -x, 1, True), ("element_set", [(x,) for x in NUMS], lambda x: x, 1, True),
            ("element_cmp", two, lambda x, y: sgn(x - y), 2, False),
            ("element_sign", [(x,) for x in NUMS], sgn, 1, False),
            ("element_is0", [(x,) for x in NUMS], lambda x: int(x == 0), 1, False),
            ("element_is1", [(x,) for x in NUMS], lambda x: int(x == 1), 1, False)]


# ---- nested lists: shapes are nested tuples of leaves
SHAPES = ["z", ("z",), ("z", "z"), ("z", "z", "z"), (("z", "z"), "z"), ("z", ("z", "z")), (("z",), ("z", "z"), "z"), (("z", ("z", "z")), "z"), ("z",) * 10]


class M(W):
    def __init__(self, prog):
        W.__init__(self, prog, "field_init_multiz")
        self.n = 0

    def build(self, shape, sym):
        """the element and its multinomial, built by the library's functions"""
        self.n += 1
        if shape == "z":
            v = sym(self.n)
            e = self.el("leaf %d" % self.n)
            self.do("element_set_mpz", e, self.num("leaf %d" % self.n, v))
            return e, v
        l = None
        val = []
        for s in shape:
            e, v = self.build(s, sym)
            val.append(v)
            if l is None:
                l = self.do("multiz_new_list", e)
            else:
                self.do("multiz_append", l, e)
        return l, tuple(val)

    def data(self, e):
        return self.I.load(self.S.st, Ptr(e.obj, add(e.off, 8)), ir.PTR)

    def read(self, m, depth=0):
        if depth > 8:
            raise Undecided("nesting")
        z = self.do("multiz_is_z", m)
        if not isinstance(z, int):
            raise Undecided("sort of a list")
        if z:
            self.n += 1
            t = self.num("read %d" % self.n, 0)
            self.do("multiz_to_mpz", t, m)
            return self.I.zcont(self.S.st, t)
        n = self.do("multiz_count", m)
        if not isinstance(n, int):
            raise Undecided("length of a list")
        return tuple(self.read(self.do("multiz_at", m, i), depth + 1) for i in range(n))


def poly_of(v, d=0):
    if not isinstance(v, tuple):
        return v
    r = 0
    x = A("v", "X%d" % d)
    for i, c in enumerate(v):
        r = add(r, mul(poly_of(c, d + 1), power(x, i)))
    return r


def leafcount(shape):
    return 1 if shape == "z" else sum(map(leafcount, shape))


def lists(prog, f, s1, s2, lay):
    return lists1(prog, f, s1, s2, lay, lambda k: A("v", "a%d" % k), lambda k: A("v", "b%d" % k))


def patterns(n):
    """constants for n leaves: each alone zero, each alone nonzero, all alike"""
    full = [(-1) ** i * (3 + 11 * i) for i in range(n)]
    out = [[0] * n, [1] * n, [-1] * n, full]
    for i in range(n):
        out.append(full[:i] + [0] + full[i + 1:])
        out.append([0] * i + [7] + [0] * (n - 1 - i))
    return [list(t) for t in sorted(set(map(tuple, out)))]


def zlists(prog, f, s1, s2):
    """the same with constants, among them zeros, ones and equal operands"""
    for u in patterns(leafcount(s1)):
        for v in patterns(leafcount(s2)):
            iu, iv = iter(u), iter(v)
            r = lists1(prog, f, s1, s2, "distinct", lambda k: next(iu), lambda k: next(iv))
            if r:
                return r


def lists1(prog, f, s1, s2, lay, lx, ly):
    w = M(prog)
    x, vx = w.build(s1, lx)
    y, vy = w.build(s2, ly)
    o = w.el("out")
    n = 2
    if f in ("element_neg", "element_set", "element_mul_si", "element_mul_mpz"):
        n = 1
    if lay == "first":
        o = x
    elif lay == "second":
        o = y
    px, py = poly_of(vx), poly_of(vy)
    if f == "element_mul_si":
        w.do(f, o, x, -3)
        want = mul(-3, px)
    elif f == "element_mul_mpz":
        w.do(f, o, x, w.num("k", A("v", "k")))
        want = mul(A("v", "k"), px)
    else:
        w.do(f, *([o, x, y][:1 + n]))
        want = {"element_add": lambda: add(px, py), "element_sub": lambda: sub(px, py), "element_mul": lambda: mul(px, py),
                "element_neg": lambda: neg(px), "element_set": lambda: px}[f]()
    got = poly_of(w.read(w.data(o)))
    if got != want:
        return "%s of %s and %s leaves %s instead of %s" % (f, vx, vy, show(got), show(want))
    for e, v, nm in ((x, vx, "first"), (y, vy, "second")):
        if e is not o and w.read(w.data(e)) != v:
            return "%s changes its %s operand" % (f, nm)


def compare(prog, shape):
    """comparison of two lists of one shape with given coefficients"""
    k = [0]
    vals = {}

    def leaves(s):
        return 1 if s == "z" else sum(leaves(t) for t in s)
    n = leaves(shape)
    import random
    R = random.Random(5)
    tests = [tuple(R.choice((-2, -1, 0, 1, 3)) for i in range(n)) for j in range(6)]
    for t in tests:
        for u in tests + [t[:i] + (t[i] + 1,) + t[i + 1:] for i in range(n)]:
            w = M(prog)
            it = iter(t)
            x, vx = w.build(shape, lambda i: next(it))
            iu = iter(u)
            y, vy = w.build(shape, lambda i: next(iu))
            c = w.do("element_cmp", x, y)
            d = w.do("element_cmp", y, x)
            if not isinstance(c, int) or not isinstance(d, int):
                raise Undecided("result")
            c, d = (z - (1 << 32) if z >= 1 << 31 else z for z in (c, d))
            if (c == 0) != (t == u):
                return "comparing %s with %s gives %d" % (vx, vy, c)
            if sgn(c) != -sgn(d):
                return "comparing %s with %s gives %d, the other way round %d" % (vx, vy, c, d)


def text(v):
    return str(v) if not isinstance(v, tuple) else "[" + ", ".join(map(text, v)) + "]"


def printing(prog, shape):
    w = M(prog)
    x, v = w.build(shape, lambda i: (-1) ** i * (3 + 11 * i))
    f = w.S.raw("stream")
    n = w.do("element_out_str", f, 10, x)
    t = w.S.output(w.S.st, f)
    if t != text(v):
        return "%s is written as %s" % (text(v), t)
    if n != len(t):
        return "writing %s returns %s instead of %d" % (t, n, len(t))


# ---- lists into fields
def components(prog, init, n, shape):
    """element_set_multiz of an extension over an abstract field"""
    from engine.pair import abstract_fp
    w = M(prog)
    S = w.S
    m, v = w.build(shape, lambda i: A("v", "c%d" % i))
    m = w.data(m)
    abstract_fp(S)
    K = S.raw("K")
    w.do("field_init_fp", K, w.num("p", A("v", "p")))
    got = {}

    def hook(I, ins, sf, args, st, fr):
        if sf.slot == "set_multiz":
            from engine.models import eout
            eout(I, args[0], A("of", args[1].obj.term, args[1].off), st, ins)
            return None
        return NotImplemented
    w.I.slot_hook = hook
    E = S.raw("E")
    if init == "field_init_polymod":
        PX = S.raw("PX")
        w.do("field_init_poly", PX, K)
        f = S.elem(PX, "modulus")
        w.do("poly_set_coeff1", f, n)
        w.do(init, E, f)
    else:
        w.do(init, E, K)
    e = S.elem(E, "e")
    for i in range(n):
        S.setE(w.do("element_item", e, i), A("v", "old%d" % i))
    w.do("element_set_multiz", e, m)
    for i in range(n):
        p = w.do("element_item", e, i)
        c = w.I.econt(S.st, p)
        if isinstance(v, tuple):
            src = w.do("multiz_at", m, i) if i < len(v) else None
        else:
            src = m if i == 0 else None
        want = 0 if src is None else A("of", src.obj.term, src.off)
        if c != want:
            # an integer may be assigned as a number as well
            if src is not None and c == w.read(src):
                continue
            return "component %d of the element made from %s is %s" % (i, v, show(c))


def items(tier):
    for f, n, spec in RING:
        for lay in LAYOUTS:
            if n == 2 or lay in ("distinct", "first"):
                yield "ring", (f, n, spec, lay)
    yield "scalars", ()
    for t in znumbers():
        yield "numbers", t
    for s1 in SHAPES:
        for s2 in SHAPES:
            if len(s1) * len(s2) > 20 and s1 != s2:
                continue
            for f in ("element_add", "element_sub", "element_mul"):
                for lay in ("distinct", "first", "second"):
                    yield "lists", (f, s1, s2, lay)
                if leafcount(s1) + leafcount(s2) <= (7 if tier == "quick" else 9):
                    yield "zlists", (f, s1, s2)
        for f in ("element_neg", "element_set", "element_mul_si", "element_mul_mpz"):
            for lay in ("distinct", "first"):
                yield "lists", (f, s1, "z", lay)
        yield "compare", (s1,)
        yield "printing", (s1,)
    for init, ns in (("field_init_quadratic", (2,)), ("field_init_fi", (2,)), ("field_init_polymod", (2, 3, 5))):
        for n in ns:
            for sh in ("z", ("z",), ("z", "z"), ("z", "z", "z"), (("z",), "z")):
                yield "components", (init, n, sh)


def item(prog, c, it):
    kind, args = it
    name = "%s %s" % (kind, " ".join(x if isinstance(x, str) else show(x) if is_val(x) else repr(x) for x in args if not callable(x) and not isinstance(x, list)))
    fn = globals()[kind]


    def go():
        try:
            return fn(prog, *args)
        except Fault as e:
            return str(e)
    c.ob(name, go)


def main():
    absint.MAXUNROLL = 300
    tier = os.environ.get("VERIF_TIER", "quick")
    prog = program()
    c = Check("C20", "Ring operations on integers and nested lists give the polynomial that the ring prescribes for symbolic coefficients, whatever shares storage; "
              "division, halving, comparison and signs by constants of every sign and parity; lists give the components of field elements.", floor=20,
              assumptions=["shapes of nested lists: %d shapes up to depth 3" % len(SHAPES)])
    c.parallel(list(items(tier)), lambda s, it: item(prog, s, it))
    return c.finish()
