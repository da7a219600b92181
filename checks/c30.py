"""Discrete logarithms: whatever equality of group elements ends a search, the result is the logarithm that follows from it."""
import os, random
from engine.check import Check, program
from engine import absint
from engine.ops import *
from engine.scen import Missing
from engine.models import eout, ein, zout
from engine.poly import *
from engine.poly import T, A

G0, H0 = A("v", "g"), A("v", "h")
BYTES = 3
ADD = {"mul": add, "add": add, "div": sub, "sub": sub}
SUBG = {"invert": neg, "neg": neg, "square": lambda a: mul(2, a), "doub": lambda a: mul(2, a), "set": lambda a: a}


class Wrong(Exception):
    pass


class World:
    """the group generated by g and h, written additively: elements are a g + b h.

    symbolic: random numbers are symbols, the n-th comparison of different terms is answered `equal`
    concrete: numbers modulo r, h = x g, random numbers from a sequence; the group is Z/r"""

    def __init__(self, prog, hit=None, r=None, x=None, seed=0):
        self.S = S = Scenario(prog, absint.Interp(prog))
        self.I = I = S.I
        I.numtab = []
        I.unroll_any = True
        self.hit, self.r, self.x = hit, r, x
        self.seed = seed
        I.slot_hook = self.hook
        I.models["element_length_in_bytes"] = lambda *a: BYTES
        I.models["element_to_bytes"] = self.to_bytes
        I.models["element_printf"] = lambda *a: 0
        I.models["element_fprintf"] = lambda *a: 0
        I.models["__gmpz_probab_prime_p"] = self.prime
        self.minv = I.models.get("__gmpz_invert") or absint.EXTERN["__gmpz_invert"]
        I.models["__gmpz_invert"] = self.invert
        self.G, self.Z = S.field("G"), S.field("Zr")
        for f in (self.G, self.Z):
            S.st.m[("Z", f.obj, I.slotoff("order"))] = r if r is not None else A("v", "r")
        self.px, self.pg, self.ph = S.elem(self.Z, "x"), S.elem(self.G, "g"), S.elem(self.G, "h")
        S.setE(self.pg, G0)
        S.setE(self.ph, H0)

    def bump(self, st, k):
        k = ("count", k, 0)
        n = st.m[k] = st.m.get(k, 0) + 1
        if n > 3000:
            raise Undecided("too long")
        return n

    def prime(self, I, ins, n, a, st):
        v = I.zcont(st, a[0])
        if isinstance(v, int):
            return 2 if v > 1 and all(v % d for d in range(2, v)) else 0
        if v == A("v", "r"):
            return 1
        raise Undecided("primality of " + show(v))

    def invert(self, I, ins, n, a, st):
        v, m = I.zcont(st, a[1]), I.zcont(st, a[2])
        if isinstance(v, int) and isinstance(m, int) and m > 0:
            try:
                zout(I, a[0], pow(v, -1, m) if m > 1 else 0, st, ins)
                return 1
            except ValueError:
                zout(I, a[0], A("v", "no inverse", self.bump(st, "inv")), st, ins)
                return 0
        return self.minv(I, ins, n, a, st)

    def log(self, v):
        """concrete world: the logarithm of an element"""
        v = subst_fn(v, lambda t: 1 if atom(t) == G0 else self.x if atom(t) == H0 else None)
        if not isinstance(v, int):
            raise Undecided("not in the group: " + show(v))
        return v % self.r

    def to_bytes(self, I, ins, n, a, st):
        v = ein(I, a[1], st, ins)
        if self.r is not None:
            k = self.log(v)
            b = [(k * 37 + 11) % 256, (k * k * 5 + k) % 256, k % 256]
        else:
            k = self.bump(st, "bytes")
            b = [(k * 29) % 256, 255 - k % 7, (k * 91 + 200) % 256]
        for i in range(BYTES):
            I.store(st, Ptr(a[0].obj, add(a[0].off, i)), b[i], ins)
        return BYTES

    def same(self, u, v, st):
        if u == v:
            return True
        if self.r is not None:
            return self.log(u) == self.log(v)
        n = self.bump(st, "cmp")
        if n in self.hit:
            k = ("equal", 0, 0)
            st.m[k] = st.m.get(k, ()) + ((u, v),)
            return True
        return False

    def fix(self, v):
        if self.r is not None and isinstance(v, int):
            return v % self.r
        return v

    def hook(self, I, ins, sf, a, st, fr):
        s = sf.slot
        grp = sf.obj is self.G.obj
        E = lambda i: ein(I, a[i], st, ins)
        if s in ("init", "clear"):
            return NotImplemented
        if grp:
            if s in ADD:
                eout(I, a[0], ADD[s](E(1), E(2)), st, ins)
            elif s in SUBG:
                eout(I, a[0], SUBG[s](E(1)), st, ins)
            elif s in ("pow_mpz", "mul_mpz"):
                eout(I, a[0], mul(E(1), I.zcont(st, a[2])), st, ins)
            elif s in ("mul_si",):
                eout(I, a[0], mul(E(1), a[2]), st, ins)
            elif s in ("set0", "set1"):
                eout(I, a[0], 0, st, ins)
            elif s == "cmp":
                return 0 if self.same(E(0), E(1), st) else 1
            elif s in ("is0", "is1"):
                return 1 if self.same(E(0), 0, st) else 0
            else:
                raise Undecided("operation %s of the group" % s)
            return None
        # numbers modulo the order
        if s == "random":
            n = self.bump(st, "random")
            if self.r is None:
                v = A("v", "rnd", n)
            else:
                v = random.Random("%d %d" % (self.seed, n)).randrange(self.r)
            eout(I, a[0], v, st, ins)
            return None
        if s == "to_mpz":
            zout(I, a[0], E(1), st, ins)
            return None
        if s == "set_mpz":
            eout(I, a[0], self.fix(I.zcont(st, a[1])), st, ins)
            return None
        if self.r is None:
            if s in ("cmp", "is0", "is1"):
                d = sub(E(0), E(1)) if s == "cmp" else sub(E(0), int(s == "is1"))
                eq = d == 0      # generic numbers
                return (0 if eq else 1) if s == "cmp" else int(eq)
            return NotImplemented
        if s in ("add", "sub", "mul"):
            eout(I, a[0], self.fix({"add": add, "sub": sub, "mul": mul}[s](E(1), E(2))), st, ins)
        elif s in ("div", "invert"):
            d = E(2) if s == "div" else E(1)
            try:
                v = pow(d, -1, self.r)
            except ValueError:
                raise Wrong("division by %d modulo %d, which has no inverse (%s)" % (d, self.r, ir.loc(ins)))
            eout(I, a[0], self.fix(v * (E(1) if s == "div" else 1)), st, ins)
        elif s in ("neg", "doub", "square", "set"):
            v = E(1)
            eout(I, a[0], self.fix({"neg": -v, "doub": 2 * v, "square": v * v, "set": v}[s]), st, ins)
        elif s in ("set0", "set1"):
            eout(I, a[0], int(s == "set1") % self.r, st, ins)
        elif s == "set_si":
            eout(I, a[0], self.fix(a[1]), st, ins)
        elif s == "mul_mpz":
            eout(I, a[0], self.fix(E(1) * I.zcont(st, a[2])), st, ins)
        elif s == "mul_si":
            eout(I, a[0], self.fix(E(1) * a[2]), st, ins)
        elif s == "cmp":
            return 0 if E(0) == E(1) else 1
        elif s in ("is0", "is1"):
            return int(E(0) == int(s == "is1") % self.r)
        else:
            raise Undecided("operation %s modulo r" % s)
        return None

    def run(self, name):
        return self.S.run(name, self.px, self.pg, self.ph)


def symbolic(prog, name, hit):
    w = World(prog, hit=hit)
    outs = w.run(name)
    if len(outs) != 1:
        raise Undecided("%d ways" % len(outs))
    st = outs[0][0]
    eqs = st.m.get(("equal", 0, 0), ())
    if not eqs:
        return "gives a result although no two elements were found equal"
    x = w.I.econt(st, w.px)
    u, v = eqs[-1]
    d = sub(u, v)
    # d = a g + b h; the logarithm x has a + b x = 0
    f = lambda k: lambda t: (1 if k == 0 else 0) if atom(t) == G0 else (1 if k == 1 else 0) if atom(t) == H0 else None
    a, b = subst_fn(d, f(0)), subst_fn(d, f(1))
    if not equal(add(a, mul(b, x)), 0):
        return "%s = %s gives the logarithm %s" % (show(u), show(v), show(x))
    for p, v in ((w.pg, G0), (w.ph, H0)):
        if w.I.econt(st, p) != v:
            return "changes an operand"


def concrete(prog, name, r, seeds):
    n = 0
    for x in range(r):
        for seed in range(seeds):
            w = World(prog, r=r, x=x, seed=seed)
            try:
                outs = w.run(name)
            except Wrong as e:
                return "order %d, h = g^%d: %s" % (r, x, e)
            if len(outs) != 1:
                raise Undecided("%d ways" % len(outs))
            got = w.I.econt(outs[0][0], w.px)
            if not isinstance(got, int) or got % r != x:
                return "order %d, h = g^%d: the result is %s" % (r, x, show(got))


BRUTE, RHO = "element_dlog_brute_force", "element_dlog_pollard_rho"


def jobs(tier):
    deep = tier == "thorough"
    L = [("s", BRUTE, (k,)) for k in ((1, 2, 3, 7, 40) if not deep else range(1, 120))]
    L += [("s", RHO, (k,)) for k in ((1, 2, 3, 5, 20, 31, 32, 33, 34, 35, 60) if not deep else range(1, 140))]
    for r in (2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16) if not deep else range(2, 40):
        L.append(("c", BRUTE, r))
        L.append(("c", RHO, r))
    return L


def work(c, job):
    absint.MAXUNROLL = 400
    k, name, arg = job
    what = "%s, %s" % (name, "equality %d" % arg[0] if k == "s" else "order %d" % arg)
    try:
        if k == "s":
            m = symbolic(program(), name, arg)
        else:
            m = concrete(program(), name, arg, 3 if os.environ.get("VERIF_TIER") != "thorough" else 8)
    except Missing as e:
        c.undecided(what, "no function %s" % e)
        return
    if m:
        c.violation("%s %s" % (name, "prime" if k == "c" and all(arg % d for d in range(2, arg)) else k), "%s: %s" % (what, m))
    else:
        c.good(what)


def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    program()
    c = Check("C30", "Discrete logarithm routines analysed in the group generated by g and h, elements as a g + b h: with symbolic random numbers "
              "and the search ended at any comparison, the result solves the equation found; with numbers modulo small orders the result is the logarithm.",
              floor=10, assumptions=["group operations and arithmetic modulo the order are right (C02, C22)"])
    c.parallel(jobs(tier), work)
    return c.finish()
