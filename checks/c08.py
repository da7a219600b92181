"""Clear functions release exactly what was acquired."""
import itertools
from engine.check import Check, program
from engine.life import *
from engine.absint import Confused
from engine.ops import *
from engine.poly import TooBig
from engine.opscheck import cases
from engine.pair import blind
from engine import pairlife


def run_kind(prog, c, it):
    tag, k, what, args = it
    name = "%s:%s" % (k.name, what if isinstance(what, str) else what[0])
    L = Life(prog)
    S = L.S
    F = k.setup(S)
    blind(S.I)
    S.I.vague = 0
    if isinstance(k, PolyKind):
        S.I.split = "branches"
    outs = None
    if what == "life":
        for i, v in enumerate(k.variants()):
            e = S.elem(F, "e%d" % i)
            k.put(S, e, "x%d" % i, v)
    elif what == "pp":
        b = S.elem(F, "b")
        r = S.elem(F, "r")
        k.put(S, b, "b", k.variants()[0])
        pp = S.raw("pp")
        S.st.m[("Z", F.obj, add(F.off, S.I.slotoff("order")))] = 37
        S.run1("element_pp_init", pp, b)
        S.run1("element_pp_pow", r, S.mpz("n", 13), pp)
        S.run1("element_pp_clear", pp)
    else:
        api, slot, sig = what
        vs, kw = args
        name += "(%s%s)" % (",".join(vs), " exponent %s" % kw["z"] if kw.get("z") is not None else "")
        if slot is not None and not provided(S, F, slot):
            return
        vi = iter(vs)
        a = []
        for i, ch in enumerate(sig):
            if ch in "oe":
                e = S.elem(F, "a%d" % i)
                k.put(S, e, "a%d" % i, next(vi) if ch == "e" else k.variants()[0])
                a.append(e)
            elif ch == "z":
                a.append(S.mpz("z", kw.get("z")))
            elif ch == "Z":
                a.append(S.mpz("zout"))
            elif ch == "n":
                a.append(A("v", "n"))
            else:
                b = S.raw("buf" + ch)
                S.st.m[("L", b.obj)] = A("v", "buf" + ch)
                a.append(b)
        S.seq = 100
        outs = S.run(api, *a, st=S.st.copy(), label="op")
    keep = list(L.elems)
    v0 = L.I.vague
    msgs, held = [], 0
    for st in [s for s, _ in outs] if outs is not None else [S.st]:
        S.st = st
        L.elems = list(keep)
        L.I.vague = v0
        held += len(L.left(st))
        L.clear_elems()
        S.run1("field_clear", F)
        m = verdict(L, S.st)
        if m:
            msgs.append(m)
    if msgs:
        c.violation(name, msgs[0])
    else:
        c.good("%s: %d resources" % (name, held))


def run_pairing(prog, c, it):
    kind = it[1]
    L = pairlife.PairLife(prog, kind)
    done = 0
    for what, f in pairlife.scenarios(L):
        name = "pairing %s:%s" % (kind, what)
        L.reset()
        try:
            f()
            held = len(L.left(L.S.st))
            m = L.end()
        except Confused as e:
            if not L.I.vague:
                c.violation(name, "what is cleared is not what was initialised: %s" % e)
            else:
                c.und.append((name, str(e)))
            continue
        except Undecided as e:
            c.und.append((name, str(e)))
            continue
        except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, TooBig, Missing) as e:
            c.und.append((name, "internal: %s %s" % (type(e).__name__, e)))
            continue
        if m:
            c.violation(name, m)
        else:
            c.good("%s: %d resources" % (name, held))
    name = "parameters %s:rejected" % kind
    m = pairlife.rejected(prog, kind)
    if m:
        c.violation(name, m)
    else:
        c.good(name)


def run_item(prog, c, it):
    (run_pairing if it[0] == "pairing" else run_kind)(prog, c, it)


def items():
    for k in pairlife.KINDS:
        yield ("pairing", k)
    for k in all_kinds():
        yield ("kind", k, "life", None)
        yield ("kind", k, "pp", None)
        for api, slot, sig in OPS:
            for vs in itertools.product(k.variants(), repeat=sig.count("e")):
                for kw in cases(api, slot, sig):
                    yield ("kind", k, (api, slot, sig), (vs, kw))


def main():
    prog = program()
    c = Check("C08", "Abstract interpretation of whole lifecycles with a typestate per integer, element, field and heap block: "
              "initialise, operate, clear; at the end every resource acquired since the initialisation is released exactly once.",
              floor=50)
    c.parallel(list(items()), lambda s, it: run_item(prog, s, it))
    return c.finish()
