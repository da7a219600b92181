"""Random interpretation of abstract values (Gulwani and Necula): every uninterpreted term gets a
pseudo-random value determined by its operator and the values of its arguments, ring operations are
computed modulo a large prime.  Two abstract values that are equal as terms always agree; two that
differ disagree except with negligible probability, so a disagreement names a reachable difference of
the analysed program points as long as no term stands for a loop or an unresolved choice."""
import hashlib
from .poly import Term, Poly, is_val, all_terms
from .absint import Undecided, Ptr, PtrSet, Fn, SlotFn

P = (1 << 127) - 1
LOOPY = {"lphi", "loopw", "mayover", "ptrsel", "ret"}
MEM = {"sel", "upd", "undef", "blk", "cat", "over", "wop", "lin"}


class Model:
    def __init__(self, seed, loops=True):
        self.seed = seed
        self.memo = {}
        self.allow_loops = loops

    def h(self, *x):
        b = hashlib.blake2b(repr((self.seed,) + x).encode(), digest_size=16).digest()
        return int.from_bytes(b, "big") % P

    def ev(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v % P
        if isinstance(v, Poly):
            r = self.memo.get(v)
            if r is None:
                r = 0
                for m, c in v.d.items():
                    x = c % P
                    for t, e in m:
                        x = x * pow(self.term(Term.byid[t]), e, P) % P
                    r += x
                r = self.memo[v] = r % P
            return r
        if isinstance(v, Term):
            return self.term(v)
        if isinstance(v, (tuple, list)):
            return self.h("tup", tuple(self.ev(x) for x in v))
        if isinstance(v, Ptr):
            return self.h("ptr", repr(v.obj.term), self.ev(v.off))
        if isinstance(v, (PtrSet, Fn, SlotFn)):
            return self.h("p", repr(v))
        return self.h("c", repr(v))

    def truth(self, t):
        """0/1 value of a condition term"""
        x = self.term(t)
        if t.op == "nz":
            return int(self.ev(t.args[0]) != 0)
        return x

    def term(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.term_(t)
        return r

    def term_(self, t):
        op = t.op
        if op == "inv":
            x = self.ev(t.args[0])
            return pow(x, P - 2, P)
        if op == "is0":
            return int(self.ev(t.args[0]) == 0)
        if op == "nz":
            return int(self.ev(t.args[0]) != 0)
        if op == "neg":
            x = self.ev(t.args[0])
            if x == 0:
                return 0
            # a sign function: odd under negation
            y = P - x
            s = self.h("sgn", min(x, y)) & 1
            return s if x < y else 1 - s
        if op in ("zsize", "zcmp"):
            x = self.ev(t.args[0])
            if x == 0:
                return 0
            y = P - x
            s = self.h("sgn", min(x, y)) & 1
            n = s if x < y else 1 - s
            return P - 1 if n else 1
        if op in ("odd", "is_sqr", "isnull", "bool", "ult"):
            return self.h(op, tuple(self.ev(a) for a in t.args)) & 1
        if op == "phi":
            sel = []
            for g, v in t.args[0]:
                if g.op != "gate":
                    raise Undecided("choice between pointers")
                if all(self.truth(k) == w for k, w in g.args[0] if True):
                    sel.append(v)
            vals = {self.ev(v) for v in sel}
            if len(vals) != 1:
                raise Undecided("unresolved choice")
            return vals.pop()
        if op in LOOPY and not self.allow_loops:
            raise Undecided("value depends on a loop")
        return self.h(op, tuple(self.ev(a) for a in t.args))


def loopy(v):
    return any(t.op in LOOPY or t.op in MEM for t in all_terms(v))


def same_value(a, b, seeds=3):
    """True / False / None (unknown)"""
    if a == b:
        return True
    if not (is_val(a) and is_val(b)):
        return None if is_val(a) or is_val(b) else False
    if loopy(a) or loopy(b):
        return None
    try:
        for s in range(seeds):
            m = Model(s)
            if m.ev(a) != m.ev(b):
                return False
    except Undecided:
        return None
    return True


class IntModel(Model):
    """integers for values of residue classes: names get residues below a random odd modulus, comparisons,
    parity and reductions are evaluated exactly; anything else is unknown"""

    def __init__(self, seed, bits=100):
        Model.__init__(self, seed)
        self.p = (self.h("p") % (1 << bits)) | (1 << (bits - 1)) | 1

    def ev(self, v):
        if isinstance(v, (bool, int)):
            return int(v)
        if isinstance(v, Poly):
            r = self.memo.get(v)
            if r is None:
                r = 0
                for m, c in v.d.items():
                    x = c
                    for t, e in m:
                        x *= self.term(Term.byid[t]) ** e
                    r += x
                self.memo[v] = r
            return r
        if isinstance(v, Term):
            return self.term(v)
        return Model.ev(self, v)

    def term_(self, t):
        op = t.op
        a = t.args
        if op == "v":
            if a and a[0] == "p":
                return self.p
            x = self.h("v", repr(a))
            if self.seed % 3:
                L = [1, 2, self.p - 1, self.p - 2, self.p >> 1, (self.p >> 1) + 1]
                if self.seed % 3 == 2:
                    L = L[x % 2:][::3]
                return L[(x >> 8) % len(L)]
            return 1 + x % (self.p - 1)
        if op == "zlimbs" and len(a) == 1:
            return (abs(self.ev(a[0])).bit_length() + 63) // 64
        if op == "B" and len(a) == 1:
            n = self.ev(a[0])
            if 0 <= n < 4096:
                return 1 << (8 * n)
        if op in ("is0", "nz", "odd", "neg"):
            x = self.ev(a[0])
            return int({"is0": x == 0, "nz": x != 0, "odd": x & 1, "neg": x < 0}[op])
        if op in ("zsize", "zcmp") and len(a) == 1:
            x = self.ev(a[0])
            return (x > 0) - (x < 0)
        if op == "mod" and len(a) == 2 and is_val(a[0]) and is_val(a[1]):
            y = self.ev(a[1])
            if y > 0:
                return self.ev(a[0]) % y
        if op == "phi":
            return Model.term_(self, t)
        raise Undecided("no integer interpretation of " + op)

    def truth(self, t):
        return self.term(t)
