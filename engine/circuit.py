"""Field elements as formal circuits over named inputs.

Every product, quotient or power becomes a node; sums stay linear forms.  Two circuits are compared as rational functions
on the given variety by identity testing (their values at random generic points of the variety, over a large prime field,
that has nothing to do with the numbers in the analysed parameters)."""
import random
from .poly import *
from .poly import T, A, Poly, Term, atom
from .absint import Ptr, PtrSet, Fn, SlotFn, Undecided


class Zero(Exception):
    pass


class Unwritten(Exception):
    """an element is read that nothing was ever stored in"""


class Circuit:
    def __init__(self, I, p, n=2, seed=1):
        self.I, self.p, self.n = I, p, n
        self.rng = random.Random(seed)
        self.val = {}
        self.cache = {}

    def name(self, *nm, values=None):
        a = A("v", *nm)
        t = as_atom(a)
        self.val[t.id] = tuple(values) if values is not None else tuple(self.rng.randrange(2, self.p) for _ in range(self.n))
        return a

    def value(self, x):
        p = self.p
        if isinstance(x, int):
            return (x % p,) * self.n
        r = [0] * self.n
        for m, c in x.d.items():
            v = [c % p] * self.n
            for tid, e in m:
                w = self.val.get(tid)
                if w is None:
                    w = self.term(Term.byid[tid])
                for i in range(self.n):
                    v[i] = v[i] * pow(w[i], e, p) % p
            for i in range(self.n):
                r[i] += v[i]
        return tuple(a % p for a in r)

    def term(self, t):
        if t.op == "inv":
            v = self.value(t.args[0])
            if any(a == 0 for a in v):
                raise Zero("inverse of zero")
            w = tuple(pow(a, -1, self.p) for a in v)
            self.val[t.id] = w
            return w
        if t.op == "undef":
            raise Unwritten()
        raise Undecided("value of %s is not a function of the inputs" % show(atom(t))[:80])

    def node(self, op, vals, *args):
        t = T("n", op, *args)
        if t.id not in self.val:
            self.val[t.id] = vals
        return atom(t)

    def mul(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int):
                return mul(x, y)
        va, vb = self.value(a), self.value(b)
        if sorted(a.d.items()) > sorted(b.d.items()):
            a, b = b, a
        return self.node("mul", tuple(x * y % self.p for x, y in zip(va, vb)), a, b)

    def inv(self, a):
        v = self.value(a)
        if any(x == 0 for x in v):
            raise Zero("the inverse of a value that is always zero")
        if a in (1, -1):
            return a
        return self.node("inv", tuple(pow(x, -1, self.p) for x in v), a)

    def pow(self, a, n):
        if isinstance(a, int) and a in (0, 1):
            return a if n else 1
        return self.node("pow", tuple(pow(x, n, self.p) for x in self.value(a)), a, n)

    def zero(self, a):
        v = self.value(a)
        if all(x == 0 for x in v):
            return True
        if any(x == 0 for x in v):
            raise Undecided("not generic")
        return False

    def hook(self, I, ins, sf, a, st, fr):
        s = sf.slot
        E = lambda i: self.rd(st, a[i])
        if s in ("mul", "square", "cubic", "invert", "div", "halve", "pow_mpz", "random", "sqrt", "mul_mpz", "from_hash"):
            if s == "mul":
                r = self.mul(E(1), E(2))
            elif s == "square":
                x = E(1)
                r = self.mul(x, x)
            elif s == "cubic":
                x = E(1)
                r = self.mul(x, self.mul(x, x))
            elif s == "invert":
                r = self.inv(E(1))
            elif s == "div":
                r = self.mul(E(1), self.inv(E(2)))
            elif s == "halve":
                x = E(1)
                h = (self.p + 1) // 2
                r = x // 2 if isinstance(x, int) and x % 2 == 0 else self.node("half", tuple(v * h % self.p for v in self.value(x)), x)
            elif s == "pow_mpz":
                n = I.zcont(st, a[2])
                if not isinstance(n, int) or n < 0:
                    raise Undecided("exponent %s" % show(n))
                r = self.pow(E(1), n)
            elif s == "mul_mpz":
                n = I.zcont(st, a[2])
                if not isinstance(n, int):
                    raise Undecided("scalar %s" % show(n))
                r = mul(E(1), n)
            else:
                t = T("n", s, I.cur.ctx, I.cur.iter, ins.bb, ins.idx)
                self.val.setdefault(t.id, tuple(self.rng.randrange(2, self.p) for _ in range(self.n)))
                r = atom(t)
            I.eset(st, a[0], r, ins)
            return None
        if s == "is0":
            return 1 if self.zero(E(0)) else 0
        if s == "is1":
            return 1 if self.zero(sub(E(0), 1)) else 0
        if s == "cmp":
            return 0 if self.zero(sub(E(0), E(1))) else 1
        if s == "is_sqr":
            return 1
        return NotImplemented

    def rd(self, st, e):
        v = self.I.econt(st, e)
        if not is_val(v):
            raise Undecided("element content %s" % (v,))
        return v


# ------------------------------------------------------------ numbers at one generic point
class Ext:
    """F_p[t]/(t^d + c_{d-1} t^(d-1) + ... + c_0), elements as tuples; F_p itself has d = 1"""

    def __init__(self, p, low=None):
        self.p, self.low = p, low
        self.d = len(low) if low else 1
        self.zero = (0,) * self.d
        self.one = (1,) + (0,) * (self.d - 1)

    def c(self, n):
        return (n % self.p,) + (0,) * (self.d - 1)

    def add(self, a, b):
        return tuple((x + y) % self.p for x, y in zip(a, b))

    def sub(self, a, b):
        return tuple((x - y) % self.p for x, y in zip(a, b))

    def neg(self, a):
        return tuple(-x % self.p for x in a)

    def mul(self, a, b):
        d, p = self.d, self.p
        if d == 1:
            return (a[0] * b[0] % p,)
        r = [0] * (2 * d - 1)
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                r[i + j] += x * y
        for i in range(2 * d - 2, d - 1, -1):
            c = r[i] % p
            for j in range(d):
                r[i - d + j] -= c * self.low[j]
        return tuple(x % p for x in r[:d])

    def pow(self, a, n):
        r = self.one
        while n:
            if n & 1:
                r = self.mul(r, a)
            a = self.mul(a, a)
            n >>= 1
        return r

    def inv(self, a):
        return self.pow(a, self.p ** self.d - 2)

    def issq(self, a):
        return a == self.zero or self.pow(a, (self.p ** self.d - 1) // 2) == self.one

    def sqrt(self, a):
        q = self.p ** self.d
        assert q % 4 == 3
        return self.pow(a, (q + 1) // 4)


class Quad:
    """B[s]/(s^2 - v), elements as pairs"""

    def __init__(self, B, v):
        self.B, self.v = B, v
        self.one = (B.one, B.zero)
        self.zero = (B.zero, B.zero)

    def add(self, a, b):
        return (self.B.add(a[0], b[0]), self.B.add(a[1], b[1]))

    def sub(self, a, b):
        return (self.B.sub(a[0], b[0]), self.B.sub(a[1], b[1]))

    def neg(self, a):
        return (self.B.neg(a[0]), self.B.neg(a[1]))

    def mul(self, a, b):
        B = self.B
        return (B.add(B.mul(a[0], b[0]), B.mul(self.v, B.mul(a[1], b[1]))), B.add(B.mul(a[0], b[1]), B.mul(a[1], b[0])))

    def conj(self, a):
        return (a[0], self.B.neg(a[1]))

    def inv(self, a):
        B = self.B
        n = B.inv(B.sub(B.mul(a[0], a[0]), B.mul(self.v, B.mul(a[1], a[1]))))
        return (B.mul(a[0], n), B.neg(B.mul(a[1], n)))

    def scal(self, a):
        return (a, self.B.zero)

    def pow(self, a, n):
        if n < 0:
            return self.pow(self.inv(a), -n)
        r = self.one
        while n:
            if n & 1:
                r = self.mul(r, a)
            a = self.mul(a, a)
            n >>= 1
        return r


def curve_add(B, a, P, Q):
    """affine addition over B; returns the sum and the slope (None: vertical)"""
    if P is None:
        return Q, None
    if Q is None:
        return P, None
    if P[0] == Q[0]:
        if P[1] != Q[1] or P[1] == B.zero:
            return None, None
        x2 = B.mul(P[0], P[0])
        l = B.mul(B.add(B.add(B.add(x2, x2), x2), a), B.inv(B.add(P[1], P[1])))
    else:
        l = B.mul(B.sub(Q[1], P[1]), B.inv(B.sub(Q[0], P[0])))
    x = B.sub(B.sub(B.mul(l, l), P[0]), Q[0])
    return (x, B.sub(B.mul(l, B.sub(P[0], x)), P[1])), l


def miller(B, L, up, a, P, Q, n, verticals=True):
    """f_{n,P}(Q) for n > 0 with P over B and Q over L; up embeds B in L"""
    def line(R, S):
        T_, l = curve_add(B, a, R, S)
        if l is None:
            g = L.sub(Q[0], up(R[0] if R is not None else S[0]))
            return T_, g, None
        g = L.sub(L.sub(Q[1], up(R[1])), L.mul(up(l), L.sub(Q[0], up(R[0]))))
        return T_, g, L.sub(Q[0], up(T_[0]))
    f, V = L.one, P
    for c in bin(n)[3:]:
        V2, g, v = line(V, V)
        f = L.mul(L.mul(f, f), g)
        if verticals and v is not None:
            f = L.mul(f, L.inv(v))
        V = V2
        if c == "1":
            V2, g, v = line(V, P)
            f = L.mul(f, g)
            if verticals and v is not None:
                f = L.mul(f, L.inv(v))
            V = V2
    return f
