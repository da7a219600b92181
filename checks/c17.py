"""The last power of a pairing is the power (q^k - 1)/r."""
import os
from engine.check import Check, program
from engine import ir
from engine.absint import Ptr, Fn, Undecided
from engine.poly import *
from engine.circuit import Unwritten, Zero
from engine.tate import *


def final(prog, ty, n=None):
    """pairing->finalpow of a generic element; n: with this number for Phi_k(q)/r"""
    w = Tate(prog, ty)
    S, I = w.S, w.I
    full = ty.full()
    if n is not None:
        full = full // int(ty.c) * n
        I.zset(S.st, Ptr(w.pr.obj, add(w.pr.off, I.slotoff("phikonr", "pairing_s"))), n, None)
    f = I.load(S.st, Ptr(w.pr.obj, add(w.pr.off, I.slotoff("finalpow", "pairing_s"))), ir.PTR)
    if not isinstance(f, Fn):
        raise Undecided("last power of the pairing")
    e = S.elem(w.group("GT"), "e")
    ls = w.leaves(e, S.st)
    R = w.ring(len(ls))
    vals = [relem(R, w.C.rng) for _ in range(w.C.n)]
    w.put(e, S.st, R, vals, T("input"))
    outs = S.run(f.name, e, st=S.st.copy())
    if not outs:
        return "the computation never returns"
    if len(outs) != 1:
        raise Undecided("%d outcomes for a generic element" % len(outs))
    R2, got = w.at(e, outs[0][0])
    if R2 is not R:
        raise Undecided("result with other coordinates")
    for v, g in zip(vals, got):
        if rpow(R, v, full) != g:
            if g == v:
                return "the element is left as it was"
            return "the result is not the power (q^%d - 1)/r" % ty.k
    return None


def drawn(prog, ty, how):
    """a random or hashed element of GT lies in the subgroup of order Phi_k(q)"""
    w = Tate(prog, ty)
    S = w.S
    e = S.elem(w.group("GT"), "e")
    args = (e,) if how == "random" else (e, S.raw("data"), A("v", "len"))
    outs = S.run("element_" + how, *args, st=S.st.copy())
    if len(outs) != 1:
        raise Undecided("%d outcomes" % len(outs))
    R, got = w.at(e, outs[0][0])
    if R is not ty.L:
        raise Undecided("element with other coordinates")
    if any(rpow(R, g, ty.phi()) != R.one for g in got):
        return "the element need not have an order that divides Phi_%d(q)" % ty.k
    return None


def guard(f):
    try:
        return f()
    except Zero as e:
        return "for a generic element the computation takes %s" % e
    except Unwritten:
        return "the computation reads an element that was never written"
    except Broken as e:
        return str(e)


def items(tier):
    deep = tier == "thorough"
    for s1 in (1, -1):
        for s0 in (1, -1):
            yield TypeA, (3, 1, s1, s0), None
            yield TypeE, (3, 1, s1, s0), None
    for cls, rs in ((TypeA1, (5, 15)), (TypeD, (7, 13)), (TypeD10, (11,)), (TypeG, (11,)), (TypeF, (13,))):
        for r in rs:
            yield cls, (r,), None
        for how in ("random", "from_hash"):
            yield cls, rs[:1], how
    for how in ("random", "from_hash"):
        yield TypeA, (3, 1, 1, 1), how
    for n in range(4, 64 if not deep else 256, 4):
        yield TypeA, (3, 1, 1, 1), n
        yield TypeA1, (7,), n
    for n in range(1, 32 if not deep else 128):
        yield TypeE, (3, 1, 1, 1), n
    for n in range(3, 32 if not deep else 128, 2):
        yield TypeD, (7,), n
    for n in range(3, 14 if not deep else 64, 2):
        yield TypeG, (11,), n


def item(prog, s, it):
    cls, args, n = it
    ty = cls(*args)
    if isinstance(n, str):
        return s.ob("type %s, %s, element_%s" % (ty.key + getattr(ty, "tag", ""), ty.name, n), lambda: guard(lambda: drawn(prog, ty, n)))
    s.ob("type %s, %s%s" % (ty.key + getattr(ty, "tag", ""), ty.name, "" if n is None else ", cofactor %d" % n), lambda: guard(lambda: final(prog, ty, n)))


def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    prog = program()
    c = Check("C17", "The last power of each type of pairing, analysed over formal circuits on a generic element of the extension field, with the "
              "prime q symbolic: once with a symbolic cofactor, and with each small cofactor so that the ladder itself is analysed.",
              floor=10, assumptions=["element in general position", "cofactors of few bits stand for all"])
    c.parallel(list(items(tier)), lambda s, it: item(prog, s, it))
    return c.finish()
