"""Operations leave their inputs and the shared field description unchanged."""
from engine.check import Check, program
from engine.opscheck import *


def frame(r):
    """cells that may not change: inputs, integers, buffers read, the field and everything it owns"""
    S, k = r.S, r.k
    F = r.F
    b = r.before
    writable = set()
    for e in [r.out] if r.out is not None else []:
        writable.add(e.obj)
        writable |= {o for _, o in owned(S, e, b, k.stop)}
    if getattr(r, "zout", None) is not None:
        writable.add(r.zout.obj)
    if "B" in r.sig:
        writable.add(r.buf.obj)
    nqr = S.I.slotoff("nqr")
    bad = []
    for st, rv in r.res:
        for i, e in enumerate(r.ins):
            va, vb = k.view(S, e, b), k.view(S, e, st)
            try:
                d = cmp_views((b, va, None), (st, vb, None), k.char)
            except Undecided as x:
                if va == vb:
                    continue
                raise
            if d:
                bad.append("operand %d changes: %s" % (i + 1, d))
        own = set()
        for e in r.ins:
            own |= {o for _, o in owned(S, e, b, k.stop)}
        for c, v in b.m.items():
            if len(c) < 2 or not isinstance(c[1], Obj) or c[1] in writable or c[1] in own:
                continue
            if c[1].kind == "glob":
                continue
            w = st.m.get(c)
            if w == v or w is None and c[0] == "L":
                continue
            if c[1] is F.obj and c[0] in ("m", "E") and is_val(c[2]) and c[2] == nqr:
                continue
            if is_val(v) and not isinstance(v, int) and any(t.op == "undef" for t in terms(v)):
                continue
            if is_val(v) and is_val(w):
                q = cmp_val(v, w, 0)
                if q is True:
                    continue
                if q is None:
                    raise Undecided("a shared cell could not be compared: %s" % (c,))
            elif not isinstance(v, (Ptr, Fn, int)) or w is None:
                raise Undecided("shared cell %s lost" % (c,))
            bad.append("%s at offset %s is %s before and %s after" % (c[1].term, show(c[2]) if len(c) > 2 and is_val(c[2]) else "*",
                                                                     show(v) if is_val(v) else v, show(w) if is_val(w) else w))
    return "; ".join(sorted(set(bad)))[:900] or None


def item(prog, c, it):
    k, api, slot, sig, vs, kw = it
    go = Memo(prog, c, it)
    if not go.provided():
        return

    def f():
        r = go()
        r.sig = sig
        return frame(r)
    c.ob(jobname(k, api, vs, kw), f)


def main():
    prog = program()
    c = Check("C05", "For every provided operation, the abstract memory after every exit is compared with the memory before: "
              "operands other than the output, integer arguments, the field description and everything reachable from it keep "
              "their contents (the lazily chosen non-residue excepted).", floor=50)
    c.parallel(list(jobs()), lambda s, it: item(prog, s, it))
    return c.finish()
