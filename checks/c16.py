"""Pairings with the neutral element, with equal points and with opposite points."""
import os
from engine.check import Check, program
from engine.absint import Ptr, Undecided
from engine.poly import *
from engine.tate import *
from checks.c18 import output, aux, choose, one, compare, guard, types, product, value, names


def place(w, nm, g, how, at=None, other=None):
    """a point of G1 or G2: generic, O, or equal or opposite to another one; its values (None: O)"""
    S, ty = w.S, w.ty
    if how == "P":
        return w.point(nm, g, at=at)
    if how == "O":
        e = at if at is not None else S.elem(w.group(g), nm)
        if at is not None:
            S.run1("element_init", e, w.group(g))
        w.fill(e, nm, [rpoint(*((ty.B, ty.a, ty.b) if g == "G1" else (ty.B2, ty.a2, ty.b2)), w.C.rng) for _ in range(w.C.n)],
               ty.B if g == "G1" else ty.B2)
        S.run1("element_set0", e)
        (s, z), = S.run("element_is0", e, st=S.st.copy())
        if z != 1:
            raise Undecided("cannot make O")
        return e, None
    if how == "same":
        return other
    e = S.elem(w.group(g), nm)
    vals = other[1] if how == "equal" else [(x, ty.B.neg(y)) for x, y in other[1]]
    w.fill(e, nm, vals, ty.B)
    return e, vals


def start(prog, ty, methods):
    w = Tate(prog, ty)
    choose(w.S, w, methods)
    return w


def neutral(w, R, st, pairs):
    """the product of the pairings of those pairs that have no O"""
    pairs = [p for p in pairs if p[0] is not None and p[1] is not None]
    if pairs:
        return compare(w, R, st, pairs)
    L, got = w.at(R, st)
    if any(g != L.one for g in got):
        return "the result is not 1"
    return None


def single(prog, ty, methods, h1, h2, front):
    w = start(prog, ty, methods)
    S = w.S
    P = place(w, "P", "G1", h1)
    Q = place(w, "Q", "G2", h2, other=P)
    R = output(w)
    if isinstance(ty, TypeE) and P[1] is not None and Q[1] is not None:
        aux(w, [(P[1], Q[1])])
    if front == "pp":
        pp = S.raw("pp")
        one(S, "pairing_pp_init", pp, P[0], w.pr)
        outs = S.run("pairing_pp_apply", R, Q[0], pp, st=S.st.copy())
    elif front == "element":
        outs = S.run("element_pairing", R, P[0], Q[0], st=S.st.copy())
    else:
        outs = S.run("pairing_apply", R, P[0], Q[0], w.pr, st=S.st.copy())
    if not outs:
        return "the computation never returns"
    if len(outs) != 1:
        raise Undecided("%d outcomes" % len(outs))
    return neutral(w, R, outs[0][0], [(P[1], Q[1])])


def several(prog, ty, methods, hs):
    w = start(prog, ty, methods)
    S = w.S
    a1, a2 = S.raw("array1"), S.raw("array2")
    pairs = []
    for i, (h1, h2) in enumerate(hs):
        P = place(w, "P%d" % i, "G1", h1, at=Ptr(a1.obj, 16 * i))
        Q = place(w, "Q%d" % i, "G2", h2, at=Ptr(a2.obj, 16 * i))
        pairs.append((P[1], Q[1]))
    R = output(w)
    if isinstance(ty, TypeE):
        aux(w, [p for p in pairs if None not in p])
    outs = S.run("element_prod_pairing", R, a1, a2, len(hs), st=S.st.copy())
    if not outs:
        return "the computation never returns"
    if len(outs) != 1:
        raise Undecided("%d outcomes" % len(outs))
    return neutral(w, R, outs[0][0], pairs)


def items(tier):
    deep = tier == "thorough"
    seen = set()
    for cls, args in types(tier):
        if cls in seen:
            continue
        seen.add(cls)
        for m in ((),) + tuple((m,) for m in cls.methods):
            for h in ("OP", "PO", "OO"):
                for front in ("map", "pp", "element"):
                    yield cls, args, m, (h[0], h[1]), front
            if not m:
                yield cls, args, m, ("P", "P"), "element"
            if cls.sym and cls is not TypeE:
                for h in ("same", "equal", "opposite"):
                    for front in ("map", "pp"):
                        yield cls, args, m, ("P", h), front
            if m and not deep:
                yield cls, args, m, [("P", "P"), ("O", "P")], "prod"
        import itertools
        kinds = [("P", "P"), ("O", "P"), ("P", "O"), ("O", "O")]
        for n in (1, 2, 3) if deep or cls in (TypeA, TypeD) else (1, 2):
            for hs in itertools.product(kinds, repeat=n):
                if any("O" in h for h in hs) and (n < 3 or deep or sum(h == ("P", "P") for h in hs) == 2):
                    yield cls, args, (), list(hs), "prod"
        yield cls, args, (), [], "prod"


def item(prog, s, it):
    cls, args, m, hs, front = it
    ty = cls(*args)
    name = "type %s, %s, %s: %s%s" % (ty.key + getattr(ty, "tag", ""), ty.name, " then ".join(m) or "default method", front + " ", hs)
    if front == "prod":
        s.ob(name, lambda: guard(lambda: several(prog, ty, m, hs)))
    else:
        s.ob(name, lambda: guard(lambda: single(prog, ty, m, hs[0], hs[1], front)))


def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    prog = program()
    c = Check("C16", "The front ends of every type of pairing and every method, with the neutral element in each argument and each place of a product, "
              "and with equal or opposite points, over formal circuits.",
              floor=10, assumptions=["the other points are in general position", "products of up to three pairings"])
    c.parallel(list(items(tier)), lambda s, it: item(prog, s, it))
    return c.finish()
