"""Lifecycles of pairings: parameters, groups, preprocessing, every method option."""
from . import ir
from .poly import *
from .poly import T, A
from .absint import Ptr, PtrSet, Fn, SlotFn, Undecided
from .life import Life, verdict
from .pair import *

KINDS = ("a", "a-", "a1", "d", "d17", "d10", "e", "f", "g", "i")


def strings(S):
    """texts passed by the analysis are compared literally"""
    I = S.I
    I.texts = {}
    I.asked = []

    def text(p):
        if isinstance(p, Ptr) and p.obj in I.texts and p.off == 0:
            return I.texts[p.obj]
        return cstring(I, p)

    def m_strcmp(I_, ins, n, a, st):
        x, y = text(a[0]), text(a[1])
        if x is None or y is None:
            return A("strcmp", T("ptr", repr(a[0])), T("ptr", repr(a[1])))
        I.asked.append((x, y))
        return 0 if x == y else (1 if x > y else -1)
    I.models["strcmp"] = m_strcmp

    def lit(s):
        p = Ptr(I.named("heap", "text", s), 0)
        I.texts[p.obj] = s
        return p
    S.lit = lit


class PairLife(Life):
    def __init__(self, prog, kind):
        Life.__init__(self, prog)
        S = self.S
        self.prog, self.kind = prog, kind
        blind(S.I)
        abstract_fp(S)
        coarse(S)
        strings(S)
        self.par, self.pr = pairing(S, kind)
        self.base = S.st

    def reset(self):
        self.S.st = self.base.copy()
        self.I.reports = {}
        self.I.vague = 0
        self.elems = []

    def group(self, nm):
        off = self.I.slotoff(nm, "pairing_s")
        if nm in ("G1", "G2"):
            return self.I.load(self.S.st, Ptr(self.pr.obj, off), ir.PTR)
        return Ptr(self.pr.obj, off)

    def el(self, nm, name=None):
        return self.S.elem(self.group(nm), name or nm)

    def point(self, nm, name):
        """a point other than the neutral element"""
        S = self.S
        e = self.el(nm, name)
        affine(S, e, name)
        return e

    def options(self):
        """[(key, value)] the pairing's option handler knows, found by following its comparisons"""
        S, I = self.S, self.I
        self.reset()

        def asked(k, v):
            I.asked = []
            S.run("pairing_option_set", self.pr, S.lit(k), S.lit(v), st=S.st.copy())
            return [y if x == k else x for x, y in I.asked if x == k or y == k], [y if x == v else x for x, y in I.asked if x == v or y == v]
        r = []
        for k in asked("?k", "?v")[0]:
            for v in asked(k, "?v")[1]:
                if (k, v) not in r:
                    r.append((k, v))
        return r

    def setopt(self, opt):
        for k, v in [] if opt is None else [opt] if isinstance(opt[0], str) else opt:
            self.S.run1("pairing_option_set", self.pr, self.S.lit(k), self.S.lit(v))

    def end(self):
        self.clear_elems()
        self.S.run1("pairing_clear", self.pr)
        self.S.run1("pbc_param_clear", self.par)
        return verdict(self, self.S.st)


def affine(S, e, name):
    """give a freshly set neutral element coordinates and the opposite mark"""
    S.run1("element_set0", e)
    d = S.data(e)
    if not isinstance(d, Ptr):
        raise Undecided("element without data")
    fl = [q for q in S.st.m if q[0] == "m" and q[1] is d.obj and isinstance(S.st.m[q], int) and S.st.m[q] in (0, 1)]
    if len(fl) != 1:
        raise Undecided("no unique neutral mark")
    S.st.m[fl[0]] = 1 - S.st.m[fl[0]]
    for q in list(S.st.m):
        if q[0] == "E" and q[1] is d.obj:
            S.st.m[q] = A("v", name, q[2])


def ppcycle(L, opt):
    def f():
        L.setopt(opt)
        out, P, Q = L.el("GT"), L.point("G1", "P"), L.point("G2", "Q")
        p = L.S.raw("ppp")
        L.S.run1("pairing_pp_init", p, P, L.pr)
        L.S.run1("pairing_pp_apply", out, Q, p)
        L.S.run1("pairing_pp_clear", p)
    return f


def applied(L, opt):
    def f():
        L.setopt(opt)
        out, P, Q = L.el("GT"), L.point("G1", "P"), L.point("G2", "Q")
        L.S.run1("pairing_apply", out, P, Q, L.pr)
    return f


def product(L, opt):
    def f():
        L.setopt(opt)
        out = L.el("GT")
        arrs = []
        for g in ("G1", "G2"):
            arr = L.S.raw("arr" + g)
            for i in range(2):
                e = Ptr(arr.obj, 16 * i)
                L.S.run1("element_init", e, L.group(g))
                L.elems.append(e)
                affine(L.S, e, "%s%d" % (g, i))
            arrs.append(arr)
        L.S.run1("element_prod_pairing", out, arrs[0], arrs[1], 2)
    return f


def elempp(L, g):
    def f():
        b = L.point(g, "b") if g in ("G1", "G2") else L.el(g, "b")
        p = L.S.raw("epp")
        L.S.run1("element_pp_init", p, b)
        L.S.run1("element_pp_pow", b, L.S.mpz("n", 5), p)
        L.S.run1("element_pp_clear", p)
    return f


def coddh(L):
    def f():
        es = [L.point("G1", "a"), L.point("G1", "b"), L.point("G2", "c"), L.point("G2", "d")]
        L.S.run1("is_almost_coddh", *es, L.pr)
    return f


def every_group(L):
    def f():
        for g in ("G1", "G2", "GT", "Zr"):
            L.el(g)
    return f


def scenarios(L):
    yield "init and clear", lambda: None
    yield "an element of every group", every_group(L)
    opts = L.options()
    for o1 in opts:
        for o2 in opts:
            if o1 != o2:
                yield "preprocessed pairing with %s %s then %s %s" % (o1 + o2), ppcycle(L, (o1, o2))
    for opt in [None] + opts:
        t = "" if opt is None else " with %s %s" % opt
        yield "pairing" + t, applied(L, opt)
        yield "preprocessed pairing" + t, ppcycle(L, opt)
        yield "product of pairings" + t, product(L, opt)
    for g in ("G1", "G2", "GT", "Zr"):
        yield "preprocessed power in " + g, elempp(L, g)
    yield "co-DDH test", coddh(L)


def rejected(prog, kind):
    """parameters that lack a number are rejected and leave nothing behind"""
    L = Life(prog)
    S, I = L.S, L.I
    I.initglobs = Start()
    strings(S)
    typ = {"a-": "a", "d17": "d", "d10": "d"}.get(kind, kind)
    text = S.lit(typ)
    for n in ("read_symtab", "symtab_init", "symtab_clear", "symtab_forall_data", "pbc_error"):
        I.models[n] = lambda I_, ins, n_, a, st: None
    I.models["symtab_has"] = lambda I_, ins, n_, a, st: 1
    I.models["symtab_at"] = lambda I_, ins, n_, a, st: text
    I.models["lookup_mpz"] = lambda I_, ins, n_, a, st: 1
    I.models["lookup_int"] = lambda I_, ins, n_, a, st: 1
    outs = S.run("pbc_param_init_set_buf", S.raw("par"), S.raw("input"), 5)
    for st, rv in outs:
        if rv == 0 or not isinstance(rv, int):
            raise Undecided("rejection not recognised")
        m = verdict(L, st)
        if m:
            return m
    return None
