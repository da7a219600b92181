"""Elliptic-curve point groups."""
from .poly import *
from .poly import T, A
from .scen import Scenario, Missing
from .absint import Ptr, Fn, SlotFn, Undecided, State

INF = "O"


class Curve:
    """Y^2 = X^3 + a X + b over an abstract field K"""
    char = 0
    name = "field_init_curve_ab"

    def setup(self, S):
        self.K = S.field("K")
        self.a, self.b = A("v", "A"), A("v", "B")
        ea = Ptr(S.I.named("heap", "elem", "coefA"), 0)
        eb = Ptr(S.I.named("heap", "elem", "coefB"), 0)
        for e, v in ((ea, self.a), (eb, self.b)):
            S.run1("element_init", e, self.K)
            S.setE(e, v)
        order = S.mpz("order")
        cof = S.mpz("cofac")
        F = S.new_field("E", "field_init_curve_ab", ea, eb, order, cof)
        self.probe(S, F)
        return F

    def probe(self, S, F):
        """where the library keeps the flag for O: the integer cell that set0 writes"""
        e = S.elem(F, "probe")
        d = S.data(e)
        if not isinstance(d, Ptr):
            raise Undecided("point has no data")
        st = S.st.copy()
        for k in [k for k in st.m if k[0] == "m" and k[1] is d.obj and isinstance(st.m[k], int)]:
            st.m[k] = A("v", "flag", k[2])
        before = dict(st.m)
        (st2, _), = S.run("element_set0", e, st=st)
        ch = [(k, v) for k, v in st2.m.items() if k[0] == "m" and k[1] is d.obj and before.get(k) != v]
        if len(ch) != 1 or not isinstance(ch[0][1], int):
            raise Undecided("cannot locate the identity flag")
        self.flagoff, self.flagval = ch[0][0][2], ch[0][1]

    def xy(self, S, e):
        out = []
        for g in ("element_x", "element_y"):
            (s, p), = S.run(g, e, st=S.st.copy())
            if not isinstance(p, Ptr):
                raise Undecided(g)
            out.append(p)
        return out

    def put(self, S, e, v, zero=False):
        d = S.data(e)
        x, y = self.xy(S, e)
        k = ("m", d.obj, add(d.off, self.flagoff))
        if v == INF:
            S.st.m[k] = self.flagval
            S.setE(x, 0 if zero else A("v", "junkx", e.obj.term))
            S.setE(y, 0 if zero else A("v", "junky", e.obj.term))
        else:
            S.st.m[k] = 1 - self.flagval
            S.setE(x, v[0])
            S.setE(y, v[1])

    def get(self, S, e, st):
        d = S.data(e, st)
        fl = st.m.get(("m", d.obj, add(d.off, self.flagoff)))
        if not isinstance(fl, int):
            return ("?", fl)
        if fl == self.flagval:
            return INF
        s0, S.st = S.st, st
        try:
            x, y = self.xy(S, e)
        finally:
            S.st = s0
        return (S.I.econt(st, x), S.I.econt(st, y))

    def rules(self, *pts):
        """y_i^2 = x_i^3 + a x_i + b"""
        r = []
        for (x, y) in pts:
            t = as_atom(y)
            if t is not None:
                r.append((t, 2, add(add(power(x, 3), mul(self.a, x)), self.b)))
        return r

    # specification
    def line(self, P, Q):
        lam = mul(sub(Q[1], P[1]), inv(sub(Q[0], P[0])))
        x3 = sub(sub(mul(lam, lam), P[0]), Q[0])
        y3 = sub(mul(lam, sub(P[0], x3)), P[1])
        return (x3, y3)

    def dbl(self, P):
        lam = mul(add(mul(3, mul(P[0], P[0])), self.a), inv(mul(2, P[1])))
        x3 = sub(mul(lam, lam), mul(2, P[0]))
        y3 = sub(mul(lam, sub(P[0], x3)), P[1])
        return (x3, y3)

    def neg(self, P):
        return INF if P == INF else (P[0], neg(P[1]))

    def same(self, got, want, rules=()):
        if got == want:
            return True
        if got == INF or want == INF or got[0] == "?":
            return False
        return all(equal(g, w, self.char, rules) for g, w in zip(got, want))


def nonzero(S, v):
    if isinstance(v, int):
        return
    c = S.I.is0(v)
    S.I.assume(S.st, c, False)


class Eta3(Curve):
    """Y^2 = X^3 - X + 1 in characteristic 3 (supersingular curve of the eta_T pairing)"""
    char = 3
    name = "field_init_eta_T_3"

    def setup(self, S):
        self.K = S.field("K")
        self.a, self.b = -1, 1
        F = S.new_field("E", "field_init_eta_T_3", self.K)
        S.I.facts3 = True
        self.order = None
        self.probe(S, F)
        e, c = S.elem(F, "probe2"), S.elem(F, "probe3")
        d, dc = S.data(e), S.data(c)
        offs = sorted([k[2] for k in S.st.m if k[0] == "E" and k[1] is d.obj])
        if len(offs) != 2:
            raise Undecided("cannot locate the coordinates")
        vs = [A("v", "c0"), A("v", "c1")]
        for o, v in zip(offs, vs):
            S.st.m[("E", d.obj, o)] = v
        S.st.m[("m", d.obj, add(d.off, self.flagoff))] = 1 - self.flagval
        (st, _), = S.run("element_neg", c, e, st=S.st.copy())
        got = [S.I.econt(st, Ptr(dc.obj, o)) for o in offs]
        ny = [i for i in (0, 1) if equal(got[i], neg(vs[i]), 3)]
        self.offs = (offs[0], offs[1]) if ny != [0] else (offs[1], offs[0])
        return F

    def xy(self, S, e):
        d = S.data(e)
        return [Ptr(d.obj, o) for o in self.offs]
