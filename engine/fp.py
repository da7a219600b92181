"""Prime-field implementations: exact meaning of their results as residues."""
from fractions import Fraction
from .opsrun import *
from .ops import _fp
from .poly import inv, subst_fn
from .lin import rows, canon, Lin
from .randint import Model
from . import words

M = 1 << 64
IMPL = (("field_init_naive_fp", False), ("field_init_fast_fp", False), ("field_init_faster_fp", True),
        ("field_init_mont_fp", True))


def fpkind(name, flagged, limbs=None, exact=True):
    """exact: bounds of products are available to decide conditions"""
    base = _fp(name, limbs, True if exact or "mont" not in name else "branches")

    def setup(self, S):
        F = base(self, S)
        if self.mont and limbs is None:
            contract(S.I, self)
        if limbs is not None and not exact:
            S.I.lin.products = False
        return F
    k = Kind(name, setup, flagged)
    k.mont = "mont" in name
    k.nlimbs = limbs
    return k


# ---- contracts of the Montgomery kernels (their bodies are analysed separately)
def contract(I, k):
    t = k.nlimbs if k.nlimbs is not None else I.zlimbs(k.p)
    sz = mul(8, t)

    def mont_mul(I, ins, n, a, st):
        x, y = I.rawread(st, a[1], sz), I.rawread(st, a[2], sz)
        I.rawwrite(st, a[0], sz, A("mred", mul(x, y), k.p), ins)
        return None

    def mont_reduce(I, ins, n, a, st):
        y = I.rawread(st, a[1], mul(2, sz))
        I.rawwrite(st, a[1], mul(2, sz), A("scratch", I.cur.ctx, I.cur.iter, ins.bb, ins.idx), ins)
        I.rawwrite(st, a[0], sz, A("mred", y, k.p), ins)
        return None
    for n, ar, f in (("mont_mul", 4, mont_mul), ("mont_reduce", 3, mont_reduce)):
        g = I.prog.fn(n)
        if g is not None and len(g.params) == ar:
            I.models[n] = f


# ---- residues
class Residue:
    """normal form modulo p"""

    def __init__(self, k):
        self.k = k
        self.p = k.p
        self.memo = {}

    def R(self):
        if self.k.nlimbs is not None:
            return M ** self.k.nlimbs
        return A("B", mul(8, A("zlimbs", self.p)))

    def nf(self, v):
        if isinstance(v, int):
            return v
        r = self.memo.get(v)
        if r is None:
            r = subst_fn(v, self.term)
            r = canon(self.zero_p(r)) if isinstance(r, Poly) else r
            self.memo[v] = r
        return r

    def zero_p(self, v):
        if not isinstance(v, Poly):
            return v
        if self.k.nlimbs is None:
            return subst_fn(v, lambda t: 0 if atom(t) == self.p else None)
        low = T("v", "p", 0, "limb")
        rest = neg(sub(self.p, atom(low)))
        return subst_fn(v, lambda t: rest if t is low else None)

    def term(self, t):
        op, a = t.op, t.args
        if op == "mod" and a[1] == self.p:
            return self.nf(a[0])
        if op == "mred" and a[1] == self.p:
            return mul(self.nf(a[0]), inv(self.R()))
        if op == "modinv" and a[1] == self.p:
            return inv(self.nf(a[0]))
        if op == "pow" and a[0] == 2 and a[1] == mul(64, A("zlimbs", self.p)):
            return self.R()
        if op == "pow":
            x = self.nf(a[0])
            return A("pow", x, a[1]) if not isinstance(a[1], int) else None
        if op == "hi" and a[1] == 8:
            lo = words.W(a[0])
            return mul(sub(self.nf(a[0]), self.nf(lo)), inv(M))
        return None

    def same(self, a, b):
        d = sub(self.nf(a), self.nf(b))
        return d == 0 or (isinstance(d, Poly) and not rows(d))


class FpModel(Model):
    """an integer interpretation of the names: a modulus, residues below it, arbitrary integers"""

    def __init__(self, seed, k, small=False):
        Model.__init__(self, seed)
        self.k = k
        t = k.nlimbs
        self.small = small
        self.over = {}
        h = self.h("p")
        bits = 64 * t if t else (100, 128, 64, 61, 127)[seed % 5]
        if seed % 2 == 0:
            p = (1 << bits) - 1 - 2 * (h % 60)
        else:
            p = (h % (1 << bits)) | (1 << (bits - 1)) | 1
            if seed % 3 == 0:
                p = (1 << (bits - 1)) + 1 + 2 * (h % 50)
        self.p = p
        self.n = (p.bit_length() + 63) // 64
        self.R = M ** self.n

    def number(self, name):
        if name[0] == "p":
            return self.p
        x = self.h("v", repr(name))
        if name[0] == "z":
            if self.small:
                return (0, 1, 2, 3, 7, 20)[x % 6]
            return (0, 1, -1, self.p, -self.p, 2 * self.p + 3, -(x % self.p) - 5, x % (3 * self.p), 5 * self.p)[(x >> 9) % 9]
        if name[0] == "n":
            return (0, 1, -1, 5, -5, (1 << 63) - 1, -(1 << 63) + 1, x % (1 << 62), -(x % (1 << 62)))[(x >> 9) % 9]
        o = self.over.get(name)
        if o is not None:
            return o
        s = (x >> 20) % 6
        if s == 5:
            v = 0
            for i in range(self.n):
                y = self.h("v", repr(name), i)
                v |= (0, 0, 1, M - 1, M - 2, 1 << 32, 1 << 63, y % M)[(y >> 70) % 8] << (64 * i)
            v %= self.p
            return v or (1 if self.k.flagged else 0)
        if not self.k.flagged and (x >> 40) % 8 == 0:
            return 0
        if s == 4:
            return max(1, self.p - 1 - (x >> 30) % 16)
        if s < 2:
            L = [1, 2, self.p - 1, self.p - 2, self.p >> 1, (self.p >> 1) + 1, self.R % self.p, (1 << (self.p.bit_length() - 1)) - 1]
            v = L[(x >> 8) % len(L)]
            return v if 0 < v < self.p else 1
        return 1 + x % (self.p - 1)

    def ev(self, v):
        if isinstance(v, (bool, int)):
            return int(v)
        if isinstance(v, Poly):
            r = self.memo.get(v)
            if r is None:
                r = 0
                for m, c in v.d.items():
                    x = c
                    for t, e in m:
                        x *= self.term(Term.byid[t]) ** e
                    r += x
                if isinstance(r, Fraction) and r.denominator == 1:
                    r = int(r)
                self.memo[v] = r
            return r
        if isinstance(v, Term):
            return self.term(v)
        raise Undecided("not a number")

    def i(self, v):
        x = self.ev(v)
        if not isinstance(x, int):
            raise Undecided("fraction")
        return x

    def term_(self, t):
        op, a = t.op, t.args
        if op == "v":
            if a[-1] == "limb":
                return (self.number(a[:-2]) >> (64 * a[-2])) % M
            return self.number(a)
        if op in ("is0", "nz", "odd", "neg"):
            x = self.ev(a[0])
            if op == "odd":
                return self.i(a[0]) & 1
            return int({"is0": x == 0, "nz": x != 0, "neg": x < 0}[op])
        if op in ("zsize", "zcmp") and len(a) == 1:
            x = self.ev(a[0])
            return (x > 0) - (x < 0)
        if op == "mod":
            y = self.i(a[1])
            if y > 0:
                if as_pow(a[0]) is not None:
                    b, e = as_pow(a[0])
                    e = self.i(e)
                    if e >= 0:
                        return pow(self.i(b), e, y)
                return self.i(a[0]) % y
        if op == "pow":
            e = self.i(a[1])
            if 0 <= e < 400:
                return self.i(a[0]) ** e
            raise Undecided("large power")
        if op == "mred":
            return self.i(a[0]) * pow(self.R, -1, self.p) % self.p
        if op == "modinv":
            try:
                return pow(self.i(a[0]), -1, self.i(a[1]))
            except ValueError:
                raise Undecided("not invertible")
        if op == "inv" and is_val(a[0]):
            return Fraction(1, self.i(a[0]))
        if op == "hi":
            return self.i(a[0]) >> (8 * self.i(a[1]))
        if op == "W":
            return self.i(a[0]) % M
        if op == "zget":
            return abs(self.i(a[0])) % M
        if op == "sel":
            return (self.i(a[0]) >> (8 * self.i(a[1]))) % (1 << (8 * self.i(a[2])))
        if op in ("or", "and", "xor"):
            x, y = self.i(a[0]) % M, self.i(a[1]) % M
            return x | y if op == "or" else x & y if op == "and" else x ^ y
        if op in ("z_tdiv_q_2exp", "z_fdiv_q_2exp"):
            x, e = self.i(a[0]), self.i(a[1])
            return x >> e if x >= 0 or "fdiv" in op else -(-x >> e)
        if op in ("z_tdiv_q", "z_tdiv_r", "z_fdiv_q", "z_fdiv_r"):
            x, y = self.i(a[0]), self.i(a[1])
            q = abs(x) // abs(y) * (1 if (x >= 0) == (y > 0) else -1) if "tdiv" in op else x // y
            return q if op[-1] == "q" else x - q * y
        if op == "zlimbs":
            return (abs(self.i(a[0])).bit_length() + 63) // 64
        if op == "zbits" and a[1] == 2:
            return max(1, abs(self.i(a[0])).bit_length())
        if op == "udiv":
            return self.i(a[0]) // self.i(a[1])
        if op == "B":
            n = self.i(a[0])
            if 0 <= n < 4096:
                return 1 << (8 * n)
        if op == "intr" and "abs" in str(a[0]):
            return abs(self.i(a[1][0]))
        if op == "jacobi":
            return jacobi(self.i(a[0]), self.i(a[1]))
        if op == "phi":
            return Model.term_(self, t)
        if op == "bool" and a and a[0] == "bit":
            return (self.i(a[1]) >> self.i(a[2])) & 1
        raise Undecided("no integer meaning of " + op)

    def truth(self, t):
        return self.term(t)


def as_pow(v):
    """(base, exponent) if the value is a single symbolic power"""
    if isinstance(v, Poly) and len(v.d) == 1:
        (m, c), = v.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            t = Term.byid[m[0][0]]
            if t.op == "pow":
                return t.args
    return None


def jacobi(a, n):
    a %= n
    r = 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5):
                r = -r
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3:
            r = -r
        a %= n
    return r if n == 1 else 0
