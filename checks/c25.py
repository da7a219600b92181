"""Preprocessed data stands alone: what happens later to the input or to the method does not change its results."""
import os
from engine.check import Check, program
from engine import ir
from engine.absint import Ptr, Undecided
from engine.poly import *
from engine.circuit import Zero, curve_add
from engine.tate import *
from checks.c18 import output, aux, choose, one, compare, guard, types


def pairing(prog, ty, m1, later, m2=()):
    w = Tate(prog, ty)
    S = w.S
    choose(S, w, m1)
    P, Pv = w.point("P", "G1")
    Q, Qv = w.point("Q", "G2")
    R = output(w)
    if isinstance(ty, TypeE):
        aux(w, [(Pv, Qv)])
    pp = S.raw("pp")
    one(S, "pairing_pp_init", pp, P, w.pr)
    change(w, P, later, "G1")
    choose(S, w, m2)
    outs = S.run("pairing_pp_apply", R, Q, pp, st=S.st.copy())
    return verdict(outs, lambda st: compare(w, R, st, [(Pv, Qv)]))


def verdict(outs, f):
    if not outs:
        return "the computation never returns"
    if len(outs) != 1:
        raise Undecided("%d outcomes" % len(outs))
    return f(outs[0][0])


def change(w, e, later, g):
    S, ty = w.S, w.ty
    if later == "overwritten":
        if g == "GT":
            w.put(e, S.st, ty.L, [relem(ty.L, w.C.rng) for _ in range(w.C.n)], T("later"))
        else:
            R, a, b = (ty.B, ty.a, ty.b) if g == "G1" else (ty.B2, ty.a2, ty.b2)
            w.fill(e, "later", [rpoint(R, a, b, w.C.rng) for _ in range(w.C.n)], R)
    elif later == "neutral":
        one(S, "element_set0", e)
    elif later == "cleared":
        one(S, "element_clear", e)


def power(prog, ty, g, later, n):
    """element_pp_pow after the base has changed"""
    w = Tate(prog, ty)
    S = w.S
    if g == "GT":
        e, out = S.elem(w.group("GT"), "base"), output(w)
        R = ty.L
        vals = [relem(R, w.C.rng) for _ in range(w.C.n)]
        w.put(e, S.st, R, vals, T("base"))
        small_order(w, w.group("GT"))
        small_order(w, w.I.load(S.st, S.data(e), ir.PTR))
    else:
        e, vals = w.point("base", g)
        out, _ = w.point("out", g)
        R, a = (ty.B, ty.a) if g == "G1" else (ty.B2, ty.a2)
    pp = S.raw("pp")
    one(S, "element_pp_init", pp, e)
    change(w, e, later, g)
    z = S.mpz("n", n)
    outs = S.run("element_pp_pow", out, z, pp, st=S.st.copy())

    def f(st):
        if g == "GT":
            R2, got = w.at(out, st)
            want = [rpow(R, v, n) for v in vals]
        else:
            want = [times(R, a, v, n) for v in vals]
            (s, z0), = S.run("element_is0", out, st=st.copy())
            if n == 0:
                return None if z0 == 1 else "power 0 is not the neutral element"
            if z0 != 0:
                return "the power is O"
            got = list(zip(*[w.at(q, st)[1] for q in coords(S, out, st)]))
        if want != got:
            return "the power of the old base is wrong"
        return None
    return verdict(outs, f)


def small_order(w, f):
    """the order of a field sets the size of tables"""
    if not isinstance(f, Ptr):
        raise Undecided("field of an element")
    w.I.zset(w.S.st, Ptr(f.obj, add(f.off, w.I.slotoff("order"))), w.ty.r, None)


def coords(S, e, st):
    out = []
    for f in ("curve_x_coord", "curve_y_coord"):
        (s, q), = S.run(f, e, st=st.copy())
        out.append(q)
    return out


def times(R, a, P, n):
    r = None
    for _ in range(n):
        r, _l = curve_add(R, a, r, P)
    return r


def items(tier):
    deep = tier == "thorough"
    seen = set()
    for cls, args in types(tier):
        if cls in seen:
            continue
        seen.add(cls)
        for m in ((),) + tuple((m,) for m in cls.methods):
            for later in ("overwritten", "neutral", "cleared"):
                yield "pairing", cls, args, m, later, ()
            for m2 in cls.methods:
                if (m2,) != m:
                    yield "pairing", cls, args, m, "overwritten", (m2,)
    ns = (0, 1, 2, 5, 7, 10, 15, 31, 32, 33, 100, 1000) + (tuple(range(40)) if deep else ())
    for cls, args, gs in ((TypeA, (3, 1, 1, 1), ("G1", "GT")), (TypeA, (6, 2, 1, 1), ("G1",)), (TypeD, (7,), ("G2", "GT"))):
        for g in gs:
            for n in sorted(set(ns)):
                yield "power", cls, args, g, "overwritten", n
            yield "power", cls, args, g, "cleared", 7


def item(prog, s, it):
    what, cls, args, x, later, y = it
    ty = cls(*args)
    t = "type %s, %s" % (ty.key + getattr(ty, "tag", ""), ty.name)
    if what == "pairing":
        s.ob("%s, preprocessed pairing, %s: input %s%s" % (t, x[0] if x else "default method", later, ", then method " + y[0] if y else ""),
             lambda: guard(lambda: pairing(prog, ty, x, later, y)))
    else:
        s.ob("%s, preprocessed base in %s, power %d: base %s" % (t, x, y, later), lambda: guard(lambda: power(prog, ty, x, later, y)))


def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    prog = program()
    c = Check("C25", "Preprocessing of pairings and of powers, over formal circuits: after it the input is overwritten, made neutral or cleared, or another "
              "method is chosen, and the result must be that of the old input.",
              floor=10, assumptions=["points in general position", "group orders and exponents of few bits"])
    c.parallel(list(items(tier)), lambda s, it: item(prog, s, it))
    return c.finish()
