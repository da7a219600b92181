"""The field / group implementations under analysis, each set up by analysing the
library's own initialiser over abstract base fields."""
from .poly import *
from .poly import T, A
from .scen import Scenario, Missing
from .absint import Ptr, Fn, SlotFn, Undecided, State


def items(S, e, n):
    """addresses of the n components of element e"""
    out = []
    for i in range(n):
        st = S.st.copy()
        r = S.run("element_item", e, i, st=st)
        if len(r) != 1 or not isinstance(r[0][1], Ptr):
            raise Undecided("element_item gives no address")
        # keep lazily created cells
        S.st = r[0][0]
        out.append(r[0][1])
    return out


class Kind:
    name = None
    ncomp = 0
    char = 0

    def setup(self, S):
        raise NotImplementedError

    def mk(self, S, F, name, vals=None):
        """new element with named component values"""
        e = S.elem(F, name)
        for i, p in enumerate(self.leaves(S, e)):
            S.setE(p, vals[i] if vals is not None else A("v", name, i))
        return e

    def leaves(self, S, e):
        return items(S, e, self.ncomp)

    def value(self, S, e, st):
        S0, S.st = S.st, st
        try:
            lv = self.leaves(S, e)
        finally:
            S.st = S0
        return [S.I.econt(st, p) for p in lv]


class Quadratic(Kind):
    ncomp = 2

    def __init__(self, init):
        self.init = init
        self.name = init

    def setup(self, S):
        self.K = S.field("K")
        F = S.new_field("F", self.init, self.K)
        self.r = -1 if self.init == "field_init_fi" else A("nqr", self.K.obj.term)
        return F

    # ring specification on component lists
    def one(self):
        return [1, 0]

    def mul(self, a, b):
        return [add(mul(a[0], b[0]), mul(self.r, mul(a[1], b[1]))), add(mul(a[0], b[1]), mul(a[1], b[0]))]


class Polymod(Kind):
    def __init__(self, n):
        self.n = self.ncomp = n
        self.name = "field_init_polymod/%d" % n

    def setup(self, S):
        self.K = S.field("K")
        R = S.new_field("R", "field_init_poly", self.K)
        P = S.elem(R, "P")
        n = self.n
        S.run1("poly_set_coeff1", P, n)
        self.c = []
        for i, p in enumerate(items(S, P, n)):
            v = A("v", "p", i)
            S.setE(p, v)
            self.c.append(v)
        F = S.new_field("F", "field_init_polymod", P)
        return F

    def one(self):
        return [1] + [0] * (self.n - 1)

    def mul(self, a, b):
        n = self.n
        t = [0] * (2 * n - 1)
        for i in range(n):
            for j in range(n):
                t[i + j] = add(t[i + j], mul(a[i], b[j]))
        for d in range(2 * n - 2, n - 1, -1):
            h = t[d]
            if h == 0:
                continue
            for i in range(n):
                t[d - n + i] = sub(t[d - n + i], mul(h, self.c[i]))
            t[d] = 0
        return t[:n]


class GF32m(Kind):
    """K[s]/(s^2+1), characteristic 3"""
    ncomp = 2
    char = 3
    name = "field_init_gf32m"

    def setup(self, S):
        self.K = S.field("K")
        return S.new_field("F", "field_init_gf32m", self.K)

    def one(self):
        return [1, 0]

    def mul(self, a, b):
        return [sub(mul(a[0], b[0]), mul(a[1], b[1])), add(mul(a[0], b[1]), mul(a[1], b[0]))]


class GF33m(Kind):
    """K[r]/(r^3 - r - 1), characteristic 3"""
    ncomp = 3
    char = 3
    name = "field_init_gf33m"

    def setup(self, S):
        self.K = S.field("K")
        return S.new_field("F", "field_init_gf33m", self.K)

    def one(self):
        return [1, 0, 0]

    def mul(self, a, b):
        t = [0] * 5
        for i in range(3):
            for j in range(3):
                t[i + j] = add(t[i + j], mul(a[i], b[j]))
        # r^4 = r^2 + r ; r^3 = r + 1
        return [add(t[0], t[3]), add(add(t[1], t[3]), t[4]), add(t[2], t[4])]


RINGS = [lambda: Quadratic("field_init_quadratic"), lambda: Quadratic("field_init_fi"),
         lambda: Polymod(2), lambda: Polymod(3), lambda: Polymod(4), lambda: Polymod(5), lambda: Polymod(6),
         lambda: GF32m(), lambda: GF33m()]
