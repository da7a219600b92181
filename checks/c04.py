"""The output of an operation may be one of its inputs."""
from engine.check import Check, program
from engine.opscheck import *


def item(prog, c, it):
    k, api, slot, sig, vs, kw = it
    nin = sig.count("e")
    go = Memo(prog, c, it)
    if not go.provided():
        return

    def layout(name, a, b):
        c.ob(jobname(k, api, vs, kw, ", " + name), lambda: compare(go(**a), go(**b)))
    layout("output is operand 1", {}, dict(alias=(1,)))
    if nin == 2:
        layout("output is operand 2", {}, dict(alias=(2,)))
        if vs[0] == vs[1]:
            layout("operands are one object", dict(equal=True), dict(alias="same"))
            layout("all operands are one object", dict(equal=True), dict(alias=(1, 2)))


def main():
    prog = program()
    c = Check("C04", "For every provided operation of every field/group implementation, value numbering of the result with the "
              "output object distinct from the inputs, with the output being the first or second input, with both inputs being "
              "one object, and with all operands being one object; exit states must agree on every path.",
              floor=50)
    c.parallel([j for j in jobs() if "o" in j[3] and "e" in j[3]], lambda s, it: item(prog, s, it))
    return c.finish()
