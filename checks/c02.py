"""Elliptic-curve group law, every case."""
from engine.check import Check, program
from engine.scen import Scenario
from engine.groupkinds import *
from engine.poly import *
from engine.poly import A, T
from engine.absint import Fn, Undecided, Ptr

x1, y1, x2, y2 = (A("v", n) for n in ("x1", "y1", "x2", "y2"))
P, Q = (x1, y1), (x2, y2)


class Case:
    """an entry partition: named points, facts"""

    def __init__(self, name, p, q, nz=(), sq0=False):
        self.name, self.p, self.q, self.nz, self.sq0 = name, p, q, nz, sq0


PAIRS = [
    ("O+O", INF, INF, (), lambda k: INF),
    ("O+Q", INF, Q, (), lambda k: Q),
    ("P+O", P, INF, (), lambda k: P),
    ("P+P", P, P, (y1,), lambda k: k.dbl(P)),
    ("T+T, T of order 2", (x1, 0), (x1, 0), (), lambda k: INF),
    ("P+(-P)", P, (x1, neg(y1)), (y1,), lambda k: INF),
    ("P+Q, different x", P, Q, (sub(x2, x1), sub(x1, x2)), lambda k: k.line(P, Q)),
    ("P+T, T of order 2", P, (x2, 0), (sub(x2, x1), sub(x1, x2), y1), lambda k: k.line(P, (x2, 0))),
]


def prepare(prog, k, S, pts):
    F = k.setup(S)
    es = []
    for i, v in enumerate(pts):
        e = S.elem(F, "e%d" % i)
        k.put(S, e, v)
        es.append(e)
    return F, es


def facts(S, nz):
    for v in nz:
        nonzero(S, v)
        if is_val(v) and not isinstance(v, int):
            nonzero(S, mul(2, v))


def partition(k, S, *outs):
    ds = [S.data(o) for o in outs]
    keys = [("m", d.obj, add(d.off, k.flagoff)) for d in ds]
    S.I.part_key = lambda st: tuple(st.m.get(q) if isinstance(st.m.get(q), int) else "?" for q in keys)


def check_result(k, S, api, args, out, want, rules, what):
    res = S.run(api, *args, st=S.st.copy())
    if not res:
        return "%s: no execution path returns" % what
    for st, rv in res:
        got = k.get(S, out, st)
        if got != INF and got[0] == "?":
            raise Undecided("identity flag of the result is %s" % (got[1],))
        if not k.same(got, want, rules):
            return "%s: %s gives %s, expected %s" % (what, api, showp(got), showp(want))
    return None


def showp(p):
    if p == INF:
        return "O"
    s = "(%s, %s)" % (show(p[0]), show(p[1]))
    return s if len(s) < 300 else s[:300] + "..."


def obligations(chk, prog, mk):
    k0 = mk()
    OUTS = [("fresh", INF), ("used", (A("v", "ox"), A("v", "oy")))]
    # binary
    for api, negate in (("element_add", False), ("element_mul", False), ("element_sub", True), ("element_div", True)):
        for name, p, q, nz, want in PAIRS:
            for oname, oval in OUTS:
                for alias in (None, 1, 2):
                    if alias and oname == "used":
                        continue
                    def run(api=api, negate=negate, p=p, q=q, nz=nz, want=want, oval=oval, alias=alias):
                        k = mk()
                        S = Scenario(prog)
                        qq = k.neg(q) if negate else q
                        F, (c, a, b) = prepare(prog, k, S, [oval, p, qq])
                        facts(S, nz)
                        if alias == 1:
                            c = a
                        elif alias == 2:
                            c = b
                        partition(k, S, c)
                        r = k.rules(*[z for z in {(x1, y1), (x2, y2)}])
                        return check_result(k, S, api, (c, a, b), c, want(k), r, name + (", output is operand %d" % alias if alias else ", output " + oname))
                    chk.ob("%s:%s:%s:%s%s" % (k0.name, api, name, oname, ":alias%d" % alias if alias else ""), run)
            # same object for both operands
            if p == q and not negate:
                for alias in (False, True):
                    def run(api=api, p=p, nz=nz, want=want, alias=alias):
                        k = mk()
                        S = Scenario(prog)
                        F, (c, a) = prepare(prog, k, S, [INF, p])
                        facts(S, nz)
                        if alias:
                            c = a
                        partition(k, S, c)
                        return check_result(k, S, api, (c, a, a), c, want(k), k.rules(P), name + ", same operand twice")
                    chk.ob("%s:%s:%s:same%s" % (k0.name, api, name, "+out" if alias else ""), run)
    # unary
    UN = [("O", INF, (), lambda k: INF, lambda k: INF),
          ("P", P, (y1,), lambda k: k.dbl(P), lambda k: k.neg(P)),
          ("T of order 2", (x1, 0), (), lambda k: INF, lambda k: (x1, 0))]
    for name, p, nz, dbl, ng in UN:
        for api, want in (("element_double", dbl), ("element_square", dbl), ("element_neg", ng), ("element_invert", ng),
                          ("element_set", lambda k, p=p: p)):
            for oname, oval in OUTS + [("alias", None)]:
                def run(api=api, p=p, nz=nz, want=want, oval=oval):
                    k = mk()
                    S = Scenario(prog)
                    F, (c, a) = prepare(prog, k, S, [oval or INF, p])
                    facts(S, nz)
                    if oval is None:
                        c = a
                    partition(k, S, c)
                    return check_result(k, S, api, (c, a), c, want(k), k.rules(P), name)
                chk.ob("%s:%s:%s:%s" % (k0.name, api, name, oname), run)
    for api in ("element_set0", "element_set1"):
        def run(api=api):
            k = mk()
            S = Scenario(prog)
            F, (c,) = prepare(prog, k, S, [P])
            return check_result(k, S, api, (c,), c, INF, (), "neutral element")
        chk.ob("%s:%s" % (k0.name, api), run)
    # predicates
    for api in ("element_is0", "element_is1"):
        for name, p, truth in (("O", INF, True), ("P", P, False), ("(0,0)", (0, 0), False)):
            def run(api=api, p=p, truth=truth):
                k = mk()
                S = Scenario(prog)
                F, (a,) = prepare(prog, k, S, [p])
                return pred(S, api, (a,), truth)
            chk.ob("%s:%s:%s" % (k0.name, api, name), run)
    for name, p, q, nz, differ in (("O,O", INF, INF, (), False), ("O,P", INF, P, (), True), ("P,O", P, INF, (), True),
                                   ("P,P", P, P, (), False), ("P,-P", P, (x1, neg(y1)), (y1,), True),
                                   ("P,Q with different x, same y", P, (x2, y1), (sub(x1, x2), sub(x2, x1)), True)):
        def run(p=p, q=q, nz=nz, differ=differ):
            k = mk()
            S = Scenario(prog)
            F, (a, b) = prepare(prog, k, S, [p, q])
            facts(S, nz)
            return pred(S, "element_cmp", (a, b), differ)
        chk.ob("%s:element_cmp:%s" % (k0.name, name), run)


def pred(S, api, args, truth):
    res = S.run(api, *args, st=S.st.copy())
    for st, rv in res:
        if rv is None:
            raise Undecided("no value")
        d = S.I.decide(sub(1, S.I.is0(rv)) if is_val(rv) else rv, st)
        if d is None:
            raise Undecided("predicate value %s" % show(rv))
        if bool(d) != truth:
            return "%s returns %s where %s is required" % (api, show(rv), "nonzero" if truth else "zero")
    return None


RULE = ("The inputs of every group operation on curve points are partitioned into the cases of the group law (neutral "
        "element, equal points, opposite points, points of order two, general position) and, inside each, the value "
        "numbering of the result's coordinates in the ring of polynomials modulo the curve equation is compared with the "
        "chord-and-tangent law; the output may be a fresh element, a used one or one of the operands.")


def main():
    chk = Check("C02", RULE, 90, ["base-field operations satisfy the field laws (C01, and the prime field's operations modulo p)"])
    prog = program()
    obligations(chk, prog, Curve)
    obligations(chk, prog, Eta3)
    return chk.finish()
