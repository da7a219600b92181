"""Batch group operations agree with the individual ones."""
import itertools
from engine.check import Check, program
from engine.scen import Scenario
from engine.groupkinds import *
from engine.poly import *
from engine.poly import A, T
from engine.absint import Fn, Undecided, Ptr
from checks.c02 import showp, partition


def v(n, i):
    return A("v", n, i)


def pt(i, n=""):
    return (v("x" + n, i), v("y" + n, i))


DBL = {"generic": lambda i: (pt(i), [v("y", i)], lambda k: k.dbl(pt(i))),
       "O": lambda i: (INF, [], lambda k: INF),
       "order 2": lambda i: ((v("x", i), 0), [], lambda k: INF)}
ADD = {"generic": lambda i: (pt(i), pt(i, "'"), [sub(v("x", i), v("x'", i))], lambda k: k.line(pt(i), pt(i, "'"))),
       "O+Q": lambda i: (INF, pt(i, "'"), [], lambda k: pt(i, "'")),
       "P+O": lambda i: (pt(i), INF, [], lambda k: pt(i)),
       "P+P": lambda i: (pt(i), pt(i), [v("y", i)], lambda k: k.dbl(pt(i))),
       "T+T": lambda i: ((v("x", i), 0), (v("x", i), 0), [], lambda k: INF),
       "P-P": lambda i: (pt(i), (v("x", i), neg(v("y", i))), [v("y", i)], lambda k: INF)}


def at(S, F, name, i):
    """element i of an array of elements"""
    e = Ptr(S.I.named("heap", "elem", name), 16 * i)
    S.run1("element_init", e, F)
    return e


def batch(prog, mk, api, combo, table, outfresh, alias, zero=False):
    k = mk()
    S = Scenario(prog)
    F = k.setup(S)
    n = len(combo)
    rows = [table[c](i) for i, c in enumerate(combo)]
    nin = len(rows[0]) - 2
    ins = []
    for j in range(nin):
        es = []
        for i, r in enumerate(rows):
            e = at(S, F, "in%d" % j, i)
            k.put(S, e, r[j], zero)
            es.append(e)
        ins.append(es)
    outs = []
    for i in range(n):
        if alias:
            outs.append(ins[0][i])
        else:
            e = at(S, F, "out", i)
            k.put(S, e, INF if outfresh else (v("ox", i), v("oy", i)))
            outs.append(e)
    for r in rows:
        for z in r[-2]:
            nonzero(S, z)
            nonzero(S, mul(2, z))
            nonzero(S, neg(z))
    partition(k, S, *outs)
    res = S.run(api, outs[0], *[es[0] for es in ins], n, st=S.st.copy())
    if not res:
        return "no execution path returns"
    rules = []
    for i in range(n):
        rules += k.rules(pt(i), pt(i, "'"))
    for st, rv in res:
        for i, (o, r) in enumerate(zip(outs, rows)):
            got, want = k.get(S, o, st), r[-1](k)
            if got != INF and got[0] == "?":
                raise Undecided("identity flag of result %d" % i)
            if not k.same(got, want, rules):
                return "%s on (%s): result %d is %s, expected %s" % (api, ", ".join(combo), i, showp(got), showp(want))
    return None


RULE = ("Batch addition and batch doubling are analysed for batches of one to three points, each member in any case of "
        "the group law, outputs fresh, used or sharing the inputs' storage; the value numbering of every result is "
        "compared with the group law applied to that member alone.")


def main():
    chk = Check("C03", RULE, 30, ["batch lengths above three behave as the loops do for three"])
    prog = program()
    for api, table in (("element_multi_double", DBL), ("element_multi_add", ADD)):
        for n in (1, 2, 3):
            if n == 3:
                combos = [("generic",) * 3] + [tuple("generic" if j != i else c for j in range(3)) for i in range(3) for c in table if c != "generic"]
            else:
                combos = list(itertools.product(table, repeat=n))
            for combo in combos:
                for fresh, alias in ((True, False), (False, False), (False, True)):
                    if n == 2 and "generic" not in combo and not fresh:
                        continue
                    nm = "%s:%s:%s" % (api, "/".join(combo), "in place" if alias else "fresh" if fresh else "used")
                    chk.ob(nm, lambda: batch(prog, Curve, api, combo, table, fresh, alias))
                    if any("O" in c for c in combo):
                        chk.ob(nm + " (O as initialised)", lambda: batch(prog, Curve, api, combo, table, fresh, alias, True))
    return chk.finish()
