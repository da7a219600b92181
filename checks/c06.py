"""Results do not depend on what the output object held before."""
from engine.check import Check, program
from engine.opscheck import *


def item(prog, c, it):
    k, api, slot, sig, vs, kw = it
    go = Memo(prog, c, it)
    if not go.provided():
        return
    c.ob(jobname(k, api, vs, kw, ", other old contents"), lambda: compare(go(), go(oldname="old2")))
    for v in k.variants()[1:]:
        c.ob(jobname(k, api, vs, kw, ", output previously %s" % v), lambda: compare(go(), go(outvar=v)))


def main():
    prog = program()
    c = Check("C06", "For every provided operation that writes an element, value numbering of the result for two unrelated "
              "previous contents of the output and for every representation class of the previous contents; "
              "exit states must agree on every path.", floor=50)
    c.parallel([j for j in jobs() if "o" in j[3]], lambda s, it: item(prog, s, it))
    return c.finish()
