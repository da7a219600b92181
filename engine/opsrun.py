from .ops import *


class Run:
    """one analysed application of an operation to elements with named contents"""

    def __init__(self, prog, kind, api, slot, sig, variants, alias=(), outvar=None, n=None, z=None, equal=False, oldname="old"):
        self.k = kind
        S = self.S = Scenario(prog)
        F = self.F = kind.setup(S)
        if slot is not None and not provided(S, F, slot):
            raise NotProvided(api)
        self.ins, self.args = [], []
        self.out = None
        self.zs = []
        vi = iter(variants)
        names = {}
        nin = 0
        # aliased operand groups: alias is a tuple of operand positions merged with the output
        if "o" in sig:
            self.out = S.elem(F, "out")
        for i, c in enumerate(sig):
            if c == "o":
                self.args.append(self.out)
            elif c == "e":
                nin += 1
                v = next(vi)
                if alias != "same" and nin in alias:
                    kind.put(S, self.out, "e%d" % min(alias), v)
                    self.args.append(self.out)
                elif alias == "same" and nin == 2:
                    self.args.append(self.ins[0])
                else:
                    e = S.elem(F, "in%d" % nin)
                    kind.put(S, e, "e%d" % (1 if equal else nin), v)
                    self.ins.append(e)
                    self.args.append(e)
            elif c == "z":
                z = S.mpz("z", z)
                self.zs.append(z)
                self.args.append(z)
            elif c == "Z":
                self.zout = S.mpz("zout")
                self.args.append(self.zout)
            elif c == "n":
                self.args.append(A("v", "n") if n is None else n)
            elif c in "bB":
                b = S.raw("buf" + c)
                S.st.m[("L", b.obj)] = A("v", "buf" + c)
                self.buf = b
                self.args.append(b)
        if self.out is not None and (alias == "same" or not alias):
            kind.put(S, self.out, oldname, outvar or kind.variants()[0])
        self.vals = {}
        if self.out is not None:
            kind.part(S, [self.out])
        self.before = S.st.copy()
        S.I.effects.clear()
        S.seq = 100
        S.I.split = getattr(kind, "split", False)
        self.res = S.run(api, *self.args, st=S.st.copy(), label="op")

    def views(self):
        """[(facts, view, return value)]"""
        return [(st, self.k.view(self.S, self.out, st), rv) for st, rv in self.res]


class NotProvided(Exception):
    pass
