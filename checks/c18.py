"""Every way of computing a pairing gives the pairing of the textbook."""
import os
from engine.check import Check, program
from engine.scen import Missing
from engine.absint import Ptr, Undecided
from engine.poly import *
from engine.circuit import Unwritten, Zero, miller, curve_add
from engine.tate import *


def compare(w, e, st, pairs):
    """e must be the product of the reduced pairings of the given pairs of points (lists of values)"""
    ty = w.ty
    R, vals = w.at(e, st)
    full = ty.full()
    if R is not ty.L:
        raise Undecided("result with other coordinates")
    for nm in names(ty):
        if all(vals[i] == rpow(R, product(R, [value(ty, nm, P[i], Q[i], w) for P, Q in pairs]), full) for i in range(w.C.n)):
            return None
    return "the result differs from the reduced Tate pairing of generic points"


def product(R, l):
    r = R.one
    for x in l:
        r = R.mul(r, x)
    return r


def names(ty):
    if isinstance(ty, TypeE):
        return ["e", "net"]
    return [ty.r - 1, ty.r, ty.r + 1]


_memo = {}


def value(ty, nm, P, Q, w):
    key = (ty.key, ty.name, nm, P, Q, w.Rvals[w.Rvals_index[(P, Q)]] if nm == "e" else None)
    if key not in _memo:
        if nm == "e":
            _memo[key] = e_value(ty, P, Q, w)
        else:
            _memo[key] = dict(ty.cands(P, Q))[nm if nm == "net" else "f_%d" % nm]
    return _memo[key]


def e_value(ty, P, Q, w):
    """f_P(Q + R) / f_P(R) with the auxiliary point of the pairing"""
    B = ty.B
    i = w.Rvals_index[(P, Q)]
    R = w.Rvals[i]
    QR, _ = curve_add(B, ty.a, Q, R)

    def f(X):
        v = miller(B, B, lambda x: x, ty.a, P, X, ty.n)
        if ty.sign0 > 0:
            v = B.mul(v, B.sub(X[0], P[0]))
        return v
    return B.mul(f(QR), B.inv(f(R)))


def choose(S, w, methods):
    for m in methods:
        outs = S.run("pairing_option_set", w.pr, S.lit("method"), S.lit(m), st=S.st.copy())
        if len(outs) != 1:
            raise Undecided("choice of the method")
        S.st = outs[0][0]


def output(w):
    """an element of GT with old contents"""
    e = w.S.elem(w.group("GT"), "R")
    w.put(e, w.S.st, w.ty.L, [relem(w.ty.L, w.C.rng) for _ in range(w.C.n)], T("old"))
    return e


def single(prog, ty, methods, pre, twice=False):
    """e(P, Q); twice: after e(P', Q') with other points (preprocessed: the same P)"""
    w = Tate(prog, ty)
    S = w.S
    choose(S, w, methods)
    P, Pv = w.point("P", "G1")
    Q, Qv = w.point("Q", "G2")
    R = output(w)
    pairs = [(Pv, Qv)]
    if twice:
        P1, Pv1 = (P, Pv) if pre else w.point("P1", "G1")
        Q1, Qv1 = w.point("Q1", "G2")
        R1 = S.elem(w.group("GT"), "R1")
        pairs.append((Pv1, Qv1))
    if isinstance(ty, TypeE):
        aux(w, pairs)
    if pre:
        pp = S.raw("pp")
        S.run1("pairing_pp_init", pp, P, w.pr)
        if twice:
            one(S, "pairing_pp_apply", R1, Q1, pp)
        outs = S.run("pairing_pp_apply", R, Q, pp, st=S.st.copy())
    else:
        if twice:
            one(S, "pairing_apply", R1, P1, Q1, w.pr)
        outs = S.run("pairing_apply", R, P, Q, w.pr, st=S.st.copy())
    return judge(w, R, outs, pairs[:1])


def one(S, *a):
    outs = S.run(*a, st=S.st.copy())
    if not outs:
        raise Broken("the computation never returns")
    if len(outs) != 1:
        raise Undecided("%d outcomes for generic points" % len(outs))
    S.st = outs[0][0]


def judge(w, R, outs, pairs):
    if not outs:
        return "the computation never returns"
    if len(outs) != 1:
        raise Undecided("%d outcomes for generic points" % len(outs))
    return compare(w, R, outs[0][0], pairs)


def aux(w, pairs):
    """the auxiliary point: the generator kept by the curve, replaced by a generic point"""
    S = w.S
    e = S.elem(w.group("G1"), "aux")
    S.run1("curve_set_gen_no_cofac", e)
    R = w.ty.B
    old = w.get_xy(e)
    vals = [rpoint(R, w.ty.a, w.ty.b, w.C.rng) for _ in range(w.C.n)]
    for j in (0, 1):
        t = as_atom(old[j])
        if t is None:
            raise Undecided("auxiliary point")
        w.C.val[t.id] = tuple(v[j] for v in vals)
    w.Rvals = vals
    w.Rvals_index = {(Pv[i], Qv[i]): i for i in range(w.C.n) for Pv, Qv in pairs}


def several(prog, ty, methods, n):
    w = Tate(prog, ty)
    S, I = w.S, w.I
    choose(S, w, methods)
    a1, a2 = S.raw("array1"), S.raw("array2")
    pairs = []
    for i in range(n):
        _, Pv = w.point("P%d" % i, "G1", at=Ptr(a1.obj, 16 * i))
        _, Qv = w.point("Q%d" % i, "G2", at=Ptr(a2.obj, 16 * i))
        pairs.append((Pv, Qv))
    R = output(w)
    if isinstance(ty, TypeE):
        aux(w, pairs)
    outs = S.run("element_prod_pairing", R, a1, a2, n, st=S.st.copy())
    return judge(w, R, outs, pairs)


def guard(f):
    try:
        return f()
    except Zero as e:
        return "for generic points the computation takes %s" % e
    except Unwritten:
        return "the computation reads an element that was never written"
    except Broken as e:
        return str(e)


def types(tier):
    ts = []
    for e2, e1 in ((3, 1), (4, 2), (2, 1), (4, 1)) + (((5, 3), (6, 2), (3, 2)) if tier == "thorough" else ()):
        for s1 in (1, -1):
            for s0 in (1, -1):
                ts.append((TypeA, (e2, e1, s1, s0)))
                ts.append((TypeE, (e2, e1, s1, s0)))
    for r in (5, 7, 11, 13, 15) + ((19, 21, 23, 37) if tier == "thorough" else ()):
        ts.append((TypeA1, (r,)))
    for r in (7, 13, 19) + ((31, 37, 43) if tier == "thorough" else ()):
        ts.append((TypeD, (r,)))
    for r in (13, 37) + ((61, 73) if tier == "thorough" else ()):
        ts.append((TypeF, (r,)))
    for r in (11, 31) + ((41, 61) if tier == "thorough" else ()):
        ts.append((TypeG, (r,)))
    ts.append((TypeD10, (11,)))
    ts = [t for t in ts if t[1][0] != 2 or t[1][1:] == (1, 1, 1)]
    return ts


def items(tier):
    seen = set()
    only = os.environ.get("C18_TYPES")
    for cls, args in types(tier):
        if only and cls.key not in only.split():
            continue
        first = cls not in seen
        seen.add(cls)
        if only and not first and not os.environ.get("C18_ALL"):
            continue
        for m in ((),) + tuple((m,) for m in cls.methods):
            yield cls, args, m, "map"
            yield cls, args, m, "pp"
            if first:
                yield cls, args, m, "map2"
                yield cls, args, m, "pp2"
                yield cls, args, m, 2
        if first:
            for m1 in cls.methods:
                for m2 in cls.methods:
                    if m1 != m2:
                        yield cls, args, (m1, m2), "map"
                        yield cls, args, (m1, m2), "pp"
                        yield cls, args, (m1, m2), 2
        for n in (1, 2, 3):
            yield cls, args, (), n


WHAT = {"map": "", "pp": ", preprocessed", "map2": ", second pairing", "pp2": ", second preprocessed"}


def item(prog, s, it):
    cls, args, m, what = it
    ty = cls(*args)
    name = "type %s, %s, %s%s" % (ty.key + getattr(ty, "tag", ""), ty.name, " then ".join(m) or "default method", WHAT.get(what) or
                                   (", product of %d" % what if isinstance(what, int) else ""))
    if isinstance(what, int):
        s.ob(name, lambda: guard(lambda: several(prog, ty, m, what)))
    else:
        s.ob(name, lambda: guard(lambda: single(prog, ty, m, what[:2] == "pp", what[-1] == "2")))


def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    prog = program()
    c = Check("C18", "The library's pairing maps analysed over formal circuits: symbolic points, a symbolic prime q, loop parameters of every shape; the "
              "result equals the textbook's Miller function raised to (q^k - 1)/r, as an identity on the curve.",
              floor=20 if not os.environ.get("C18_TYPES") else 0, assumptions=["points in general position", "loop parameters of few bits stand for all"])
    c.parallel(list(items(tier)), lambda s, it: item(prog, s, it))
    return c.finish()
