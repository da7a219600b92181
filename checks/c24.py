"""Square roots square back to their argument, and only squares are called squares."""
import os
import random
from engine.check import Check, program
from engine.scen import Scenario, Missing
from engine import absint
from engine.absint import Ptr, Fn, Undecided
from engine.circuit import Circuit, Zero, Unwritten
from engine.poly import *
from engine.poly import T, A
from engine import kinds
from engine.tate import Fp, Tower, rpow, rsqrt, relem, issquare, prime, Broken


# ------------------------------------------------------------ quadratic extensions over formal circuits
class Roots(Circuit):
    """base field whose squares have roots (either one may be taken)"""

    def __init__(self, I, p, seed):
        Circuit.__init__(self, I, p, n=1, seed=seed)
        self.B = Fp(p)

    def hook(self, I, ins, sf, a, st, fr):
        if sf.slot == "is_sqr":
            v, = self.value(self.rd(st, a[0]))
            return 1 if v == 0 or issquare(self.B, v) else 0
        if sf.slot == "sqrt":
            v, = self.value(self.rd(st, a[1]))
            if v == 0:
                r = 0
            elif not issquare(self.B, v):
                raise Broken("the root of a nonresidue of the base field is taken")
            else:
                r = rsqrt(self.B, v, self.rng)
                if self.rng.random() < 0.5:
                    r = self.p - r
            t = T("n", "sqrt", I.cur.ctx, I.cur.iter, ins.bb, ins.idx)
            self.val[t.id] = (r,)
            I.eset(st, a[0], atom(t), ins)
            return None
        return Circuit.hook(self, I, ins, sf, a, st, fr)


def quadratic(prog, init, p, seed):
    S = Scenario(prog)
    C = Roots(S.I, p, seed)
    k = kinds.Quadratic(init)
    F = k.setup(S)
    S.I.slot_hook = C.hook
    nqr = p - 1
    if init != "field_init_fi":
        nqr = next(n for n in range(2 + seed % 7, 999) if not issquare(C.B, n))
        C.val[as_atom(k.r).id] = (nqr,)
    return S, C, k, F, Tower(C.B, (p - nqr, 0))


def argument(R, what, rng, square):
    """an element of the extension of the given sort"""
    B = R.B
    for _ in range(400):
        x, y = relem(B, rng), relem(B, rng)
        if what == "y = 0":
            y = 0
        elif what == "x = 0":
            x = 0
        elif what == "0":
            x = y = 0
        elif what == "x a residue, y = 0":
            x, y = B.mul(x, x), 0
        elif what == "x a nonresidue, y = 0":
            y = 0
            if issquare(B, x):
                continue
        v = (x, y)
        if v == R.zero or issquare(R, v) == square:
            return v
    return None


def root(prog, init, p, seed, what, alias):
    S, C, k, F, R = quadratic(prog, init, p, seed)
    v = argument(R, what, C.rng, True)
    if v is None:
        return None
    vals = [C.name("a", i, values=(v[i],)) if v[i] else 0 for i in (0, 1)]
    a = k.mk(S, F, "a", vals)
    out = a if alias else k.mk(S, F, "out", [C.name("old", i) for i in (0, 1)])
    outs = S.run("element_sqrt", out, a, st=S.st.copy())
    if not outs:
        return "no root is found of a square"
    for st, _ in outs:
        r = tuple(C.value(x)[0] for x in k.value(S, out, st))
        if R.mul(r, r) != v:
            return "the square of the root differs from the argument"
    return None


def test(prog, init, p, seed, what, square):
    S, C, k, F, R = quadratic(prog, init, p, seed)
    v = argument(R, what, C.rng, square)
    if v is None:
        return None
    vals = [C.name("a", i, values=(v[i],)) if v[i] else 0 for i in (0, 1)]
    a = k.mk(S, F, "a", vals)
    outs = S.run("element_is_sqr", a, st=S.st.copy())
    want = v == R.zero or square
    for st, rv in outs:
        if not isinstance(rv, int):
            raise Undecided("result %s" % show(rv))
        if bool(rv) != want:
            return "a %s is reported as %s" % ("square" if want else "nonsquare", "square" if rv else "no square")
    return None


# ------------------------------------------------------------ polynomial extensions
def polymod(prog, n, p, seed):
    S = Scenario(prog)
    C = Small(S.I, p, seed)
    k = kinds.Polymod(n)
    K = S.field("K")
    S.st.m[("Z", K.obj, S.I.slotoff("order"))] = p
    B = Fp(p)
    low = irreducible(B, n, C.rng)
    F = k.setup(S)
    for t, v in zip(k.c, low):
        C.val[as_atom(t).id] = (v,)
    S.I.slot_hook = C.hook
    return S, C, k, F, Tower(B, low)


def irreducible(B, n, rng):
    """x^n + c or x^n + x + c with no proper factor (Rabin's test for prime n)"""
    while True:
        low = tuple([rng.randrange(1, B.p), rng.randrange(1, B.p)] + [0] * (n - 2))[:n]
        R = Tower(B, low)
        x = (0, 1) + (0,) * (n - 2)
        y = rpow(R, x, B.p)
        if y == x:
            continue
        for _ in range(n - 1):
            y = rpow(R, y, B.p)
        if y == x and invertible(R, rpow(R, x, B.p), x, B.p ** n):
            return low


def invertible(R, a, b, q):
    d = tuple((u - v) % R.B.p for u, v in zip(a, b))
    return rpow(R, d, q - 1) == R.one


class Small(Roots):
    """random elements of the base field are fresh numbers at every evaluation"""

    def zero(self, a):
        return self.value(a)[0] == 0


def pm_value(p, n, rng, sort, R):
    while True:
        v = (0,) * n if sort == "0" else (rng.randrange(1, p),) + (0,) * (n - 1) if sort == "constant" else tuple(rng.randrange(p) for _ in range(n))
        if sort == "0" or v != R.zero:
            return v


def pm_test(prog, n, p, seed, sort):
    S, C, k, F, R = polymod(prog, n, p, seed)
    for _ in range(6):
        v = pm_value(p, n, C.rng, sort, R)
        want = v == R.zero or issquare(R, v)
        a = k.mk(S, F, "a", [C.name("a", i, v[i], values=(v[i],)) if v[i] else 0 for i in range(n)])
        for st, rv in S.run("element_is_sqr", a, st=S.st.copy()):
            if not isinstance(rv, int):
                raise Undecided("result %s" % show(rv))
            if bool(rv) != want:
                return "a %s is reported as %s" % ("square" if want else "nonsquare", "square" if rv else "no square")
    return None


def pm_root(prog, n, p, seed, sort, alias):
    S, C, k, F, R = polymod(prog, n, p, seed)
    while True:
        v = pm_value(p, n, C.rng, sort, R)
        if v == R.zero or issquare(R, v):
            break
    a = k.mk(S, F, "a", [C.name("a", i, values=(v[i],)) if v[i] else 0 for i in range(n)])
    out = a if alias else k.mk(S, F, "out", [C.name("old", i) for i in range(n)])
    outs = S.run("element_sqrt", out, a, st=S.st.copy())
    if not outs:
        return "no root is found of a square"
    for st, _ in outs:
        r = tuple(C.value(x)[0] for x in k.value(S, out, st))
        if R.mul(r, r) != v:
            return "the square of the root differs from the argument"
    return None


# ------------------------------------------------------------ prime fields: discrete logarithms
class Logs:
    """every nonzero element of the abstract field is a power of a generator; elements are represented by their logarithms"""

    def __init__(self, I, order):
        self.I, self.n = I, order - 1

    def rd(self, st, e):
        v = self.I.econt(st, e)
        if isinstance(v, int):
            if v == 0:
                return None
            if v == 1:
                return 0
            if v == -1 and self.n % 2 == 0:
                return self.n // 2
        t = as_atom(v) if not isinstance(v, int) else None
        if t is None or t.op != "log":
            raise Undecided("element %s" % (show(v) if is_val(v) else v,))
        return t.args[0]

    def wr(self, st, e, l, ins):
        self.I.eset(st, e, 0 if l is None else 1 if l % self.n == 0 else A("log", l % self.n), ins)

    def hook(self, I, ins, sf, a, st, fr):
        s = sf.slot
        E = lambda i: self.rd(st, a[i])
        if s in ("set", "set0", "set1", "init", "clear"):
            return NotImplemented
        if s in ("mul", "div"):
            x, y = E(1), E(2)
            if s == "div" and y is None:
                raise Zero("the inverse of zero")
            self.wr(st, a[0], None if x is None or y is None else x + y if s == "mul" else x - y, ins)
        elif s in ("square", "cubic"):
            x = E(1)
            self.wr(st, a[0], None if x is None else x * (2 if s == "square" else 3), ins)
        elif s == "invert":
            x = E(1)
            if x is None:
                raise Zero("the inverse of zero")
            self.wr(st, a[0], -x, ins)
        elif s == "neg":
            x = E(1)
            self.wr(st, a[0], None if x is None else x + self.n // 2, ins)
        elif s == "pow_mpz":
            x, n = E(1), I.zcont(st, a[2])
            if not isinstance(n, int):
                raise Undecided("exponent %s" % show(n))
            self.wr(st, a[0], (0 if n == 0 else None) if x is None else x * n, ins)
        elif s == "is0":
            return int(E(0) is None)
        elif s == "is1":
            return int(E(0) == 0)
        elif s == "cmp":
            return int(E(0) != E(1))
        elif s == "is_sqr":
            x = E(0)
            return int(x is None or x % 2 == 0)
        elif s == "sqrt":
            raise Undecided("root of the same field")
        else:
            raise Undecided("operation %s" % s)
        return None


def tonelli(prog, fn, order, nlog, alias):
    """the root operation of prime fields, in a cyclic group of order - 1 elements, for every square"""
    if order < 2000:
        logs = [None] + list(range(0, order - 1, 2))
    else:
        rng = random.Random(order)
        logs = [rng.randrange(0, order - 1, 2) for _ in range(3)] + [order - 3]
    for l in logs:
        S = Scenario(prog)
        I = S.I
        F = S.field("K")
        L = Logs(I, order)
        S.st.m[("Z", F.obj, I.slotoff("order"))] = order
        I.slot_hook = L.hook
        I.models["field_get_nqr"] = nqr_model(L, nlog)
        a = S.elem(F, "a")
        x = a if alias else S.elem(F, "x")
        L.wr(S.st, a, l, None)
        if not alias:
            L.wr(S.st, x, 3, None)
        outs = S.run(fn, x, a, st=S.st.copy())
        if not outs:
            return "no root is found of a square"
        for st, _ in outs:
            r = L.rd(st, x)
            if l is None:
                if r is not None:
                    return "the root of 0 is not 0"
            elif r is None or (2 * r - l) % (order - 1):
                return "with 2^%d dividing q - 1, the root of a square is wrong" % (((order - 1) & -(order - 1)).bit_length() - 1)
    return None


def nqr_model(L, nlog):
    def f(I, ins, n, a, st):
        o = I.obj("lazy", T("obj", "nqr", a[0].obj.term, a[0].off))
        if ("m", o, 0) not in st.m:
            st.m[("m", o, 0)] = a[0]
            st.m[("E", o, 0)] = A("log", nlog)
        return Ptr(o, 0)
    return f


def prime_root(prog, init):
    """the function in the sqrt slot of a prime field"""
    S = Scenario(prog)
    S.st.facts[T("odd", A("v", "p"))] = 1
    F = S.new_field("F", init, S.mpz("p"))
    f = S.slot(F, "sqrt")
    if not isinstance(f, Fn):
        raise Undecided("sqrt of %s" % init)
    return f


# ------------------------------------------------------------ integers
def integers(prog):
    S = Scenario(prog)
    F = S.new_field("F", "field_init_z")
    e = S.elem(F, "a")
    d = S.data(e)
    for n in list(range(-9, 140)) + [2 ** 100, 2 ** 101, 10 ** 40, 3 ** 99, 3 ** 100]:
        S.I.zset(S.st, d, n, None)
        for st, rv in S.run("element_is_sqr", e, st=S.st.copy()):
            if not isinstance(rv, int):
                raise Undecided("result %s" % show(rv))
            if bool(rv) != (n >= 0 and isqrt(n) ** 2 == n):
                return "%d is%s reported as a square" % (n, "" if rv else " not")
    return None


def isqrt(n):
    import math
    return math.isqrt(n)


def int_root(prog):
    S = Scenario(prog)
    F = S.new_field("F", "field_init_z")
    e, x = S.elem(F, "a"), S.elem(F, "x")
    for n in list(range(20)) + [2 ** 70, 10 ** 30]:
        S.I.zset(S.st, S.data(e), n * n, None)
        for st, rv in S.run("element_sqrt", x, e, st=S.st.copy()):
            r = S.I.zcont(st, S.data(x, st))
            if not isinstance(r, int):
                raise Undecided("result %s" % show(r))
            if r * r != n * n:
                return "the root of %d is %d" % (n * n, r)
    return None


def guard(f):
    try:
        return f()
    except Zero as e:
        return "the computation takes %s" % e
    except Unwritten:
        return "the computation reads an element that was never written"
    except Broken as e:
        return str(e)


SORTS = ("general", "general", "general", "general", "x = 0", "x a residue, y = 0", "x a nonresidue, y = 0", "0")
P3, P1 = prime(4, 3, 2 ** 60), prime(8, 5, 2 ** 60)


def items(tier):
    deep = tier == "thorough"
    for init in ("field_init_quadratic", "field_init_fi"):
        for p in (P3, P1) if init == "field_init_quadratic" else (P3,):
            for i, what in enumerate(SORTS):
                for seed in range(4 if not deep else 16):
                    yield "root", init, p, 100 * i + seed, what, bool(seed % 2)
                yield "test", init, p, 100 * i, what, True
                yield "test", init, p, 100 * i + 1, what, False
    for init in ("field_init_naive_fp", "field_init_fast_fp", "field_init_faster_fp", "field_init_mont_fp"):
        for s in range(1, 6 if deep else 5):
            for t in (1, 3, 5, 9) if deep else (1, 3, 5):
                for nl in (1, 3, -1):
                    if init == "field_init_naive_fp" or (nl == 1 and t == 3):
                        yield "fp", init, 2 ** s * t + 1, nl, s % 2 == 0
    for s in (20, 36, 70) if not deep else (10, 20, 36, 70, 130):
        yield "fp", "field_init_naive_fp", 2 ** s * 3 + 1, 1, s == 36
        yield "fp", "field_init_naive_fp", 2 ** s * 5 + 1, 2 ** s + 7, s != 36
    for n in (2, 3) if not deep else (2, 3, 5):
        for i, sort in enumerate(("general", "general", "constant", "0")):
            yield "pmtest", n, 1009, i, sort
            yield "pmroot", n, 1009, i, sort, i == 1
    yield "z",
    yield "zroot",


_fn = {}


def item(prog, s, it):
    if it[0] == "root":
        _, init, p, seed, what, alias = it
        s.ob("%s, q = %d mod 4, root of %s (%d)%s" % (init, p % 4, what, seed, ", in place" if alias else ""),
             lambda: guard(lambda: root(prog, init, p, seed, what, alias)))
    elif it[0] == "test":
        _, init, p, seed, what, sq = it
        s.ob("%s, q = %d mod 4, test of %s (%d)" % (init, p % 4, what, seed), lambda: guard(lambda: test(prog, init, p, seed, what, sq)))
    elif it[0] == "fp":
        _, init, order, nl, alias = it
        nl %= order - 1

        def f():
            if init not in _fn:
                _fn[init] = prime_root(prog, init)
            return tonelli(prog, _fn[init], order, nl, alias)
        if nl % 2:
            s.ob("%s, roots in a field with %d nonzero elements, nonresidue of logarithm %d%s" % (init, order - 1, nl, ", in place" if alias else ""),
                 lambda: guard(f))
    elif it[0] == "pmtest":
        _, n, p, seed, sort = it
        s.ob("field_init_polymod/%d, test of %s (%d)" % (n, sort, seed), lambda: guard(lambda: pm_test(prog, n, p, seed, sort)))
    elif it[0] == "pmroot":
        _, n, p, seed, sort, alias = it
        s.ob("field_init_polymod/%d, root of %s (%d)%s" % (n, sort, seed, ", in place" if alias else ""),
             lambda: guard(lambda: pm_root(prog, n, p, seed, sort, alias)))
    elif it[0] == "z":
        s.ob("integers, test", lambda: guard(lambda: integers(prog)))
    else:
        s.ob("integers, root", lambda: guard(lambda: int_root(prog)))


def main():
    absint.MAXUNROLL = 300
    tier = os.environ.get("VERIF_TIER", "quick")
    prog = program()
    c = Check("C24", "Square roots: quadratic extensions over formal circuits with roots, prime fields in the domain of discrete logarithms, integers.",
              floor=10, assumptions=["powers of two dividing q - 1: exhaustively over all squares up to 2^4, by sampled logarithms up to 2^70"])
    c.parallel(list(items(tier)), lambda s, it: item(prog, s, it))
    return c.finish()
