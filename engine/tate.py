"""Pairings as formal circuits: the maps of the library, analysed with symbolic points over a symbolic prime field of order q,
against the textbook definition (Miller's function and the exponent (q^k - 1)/r)."""
from fractions import Fraction
from . import ir
from .poly import *
from .poly import T, A, Poly, Term, atom, as_atom
from .absint import Ptr, PtrSet, Fn, SlotFn, Undecided
from .scen import Scenario, Missing
from . import pair as PR
from .pair import abstract_fp, parameters
from .pairlife import strings
from .circuit import *


# ------------------------------------------------------------ rings at a generic point
class Fp:
    d = 1

    def __init__(self, p):
        self.p = p
        self.zero, self.one = 0, 1
        self.order = p

    def add(self, a, b):
        return (a + b) % self.p

    def sub(self, a, b):
        return (a - b) % self.p

    def neg(self, a):
        return -a % self.p

    def mul(self, a, b):
        return a * b % self.p

    def inv(self, a):
        if a % self.p == 0:
            raise Zero("inverse of zero")
        return pow(a, -1, self.p)

    def const(self, n):
        return n % self.p

    def flat(self, a):
        return [a]

    def make(self, l):
        return l[0]


class Tower:
    """B[t]/(t^d + low[d-1] t^(d-1) + ... + low[0])"""

    def __init__(self, B, low):
        self.B, self.low, self.d = B, low, len(low)
        self.p = B.p
        self.zero = (B.zero,) * self.d
        self.one = (B.one,) + (B.zero,) * (self.d - 1)
        self.order = B.order ** self.d

    def add(self, a, b):
        return tuple(map(self.B.add, a, b))

    def sub(self, a, b):
        return tuple(map(self.B.sub, a, b))

    def neg(self, a):
        return tuple(map(self.B.neg, a))

    def up(self, b):
        return (b,) + (self.B.zero,) * (self.d - 1)

    def const(self, n):
        return self.up(self.B.const(n))

    def mul(self, a, b):
        d, B = self.d, self.B
        r = [B.zero] * (2 * d - 1)
        for i, x in enumerate(a):
            if x == B.zero:
                continue
            for j, y in enumerate(b):
                r[i + j] = B.add(r[i + j], B.mul(x, y))
        for i in range(2 * d - 2, d - 1, -1):
            c = r[i]
            for j in range(d):
                if self.low[j] != B.zero:
                    r[i - d + j] = B.sub(r[i - d + j], B.mul(c, self.low[j]))
        return tuple(r[:d])

    def inv(self, a):
        if a == self.zero:
            raise Zero("inverse of zero")
        return rpow(self, a, self.order - 2)

    def conj(self, a):
        return (a[0], self.B.neg(a[1]))

    def flat(self, a):
        return [y for x in a for y in self.B.flat(x)]

    def make(self, l):
        k = len(l) // self.d
        return tuple(self.B.make(l[i * k:(i + 1) * k]) for i in range(self.d))


def rpow(R, a, n):
    if n < 0:
        return rpow(R, R.inv(a), -n)
    r = R.one
    while n:
        if n & 1:
            r = R.mul(r, a)
        a = R.mul(a, a)
        n >>= 1
    return r


def issquare(R, a):
    return a != R.zero and rpow(R, a, (R.order - 1) // 2) == R.one


def rsqrt(R, a, rng):
    """Tonelli and Shanks"""
    q, s = R.order - 1, 0
    while q % 2 == 0:
        q, s = q // 2, s + 1
    while True:
        z = relem(R, rng)
        if z != R.zero and not issquare(R, z):
            break
    m, c, t, r = s, rpow(R, z, q), rpow(R, a, q), rpow(R, a, (q + 1) // 2)
    while t != R.one:
        i, u = 0, t
        while u != R.one:
            u, i = R.mul(u, u), i + 1
        b = c
        for _ in range(m - i - 1):
            b = R.mul(b, b)
        m, c = i, R.mul(b, b)
        t, r = R.mul(t, c), R.mul(r, b)
    return r


def relem(R, rng):
    if isinstance(R, Fp):
        return rng.randrange(R.p)
    return tuple(relem(R.B, rng) for _ in range(R.d))


def rpoint(R, a, b, rng):
    while True:
        x = relem(R, rng)
        z = R.add(R.mul(R.add(R.mul(x, x), a), x), b)
        if issquare(R, z):
            return (x, rsqrt(R, z, rng))


# ------------------------------------------------------------ types of pairing
P61 = 2305843009213693951 - 0     # replaced per type below


def isprime(n):
    return all(pow(a, n - 1, n) == 1 for a in (2, 3, 5, 7, 11, 13))


def prime(mod, res, start):
    n = start - start % mod + res
    while not isprime(n):
        n += mod
    return n


QS = A("v", "q")


class Type:
    methods = ()
    k = 2
    sym = True

    # Phi_k(q) / r, whatever r is: at the generic point the quotient is this number, since with a true r that divides
    # Phi_k(q) all values would lie in a group of r elements and nothing could be told apart
    c = Fraction(982451653 * 57885161)

    def phi(self):
        p = self.p
        return {1: p - 1, 2: p + 1, 6: p * p - p + 1, 10: p ** 4 - p ** 3 + p * p - p + 1, 12: p ** 4 - p * p + 1}[self.k]

    def full(self):
        """(q^k - 1) / r"""
        return (self.p ** self.k - 1) // self.phi() * int(self.c)


class TypeA(Type):
    key, init = "a", "pbc_param_init_a"
    methods = ("miller", "miller-affine", "shipsey-stange")
    k = 2

    def __init__(self, exp2, exp1, sign1, sign0):
        self.r = 2 ** exp2 + sign1 * 2 ** exp1 + sign0
        self.par = dict(q=QS, r=self.r, h=A("v", "h"), exp2=exp2, exp1=exp1, sign1=sign1, sign0=sign0)
        self.n = self.r - sign0
        self.name = "r = 2^%d %s 2^%d %s 1" % (exp2, "+-"[sign1 < 0], exp1, "+-"[sign0 < 0])
        self.p = prime(4, 3, 2 ** 60)
        self.setup()

    def setup(self):
        self.B = Fp(self.p)
        self.L = Tower(self.B, (1, 0))
        self.rings = {1: self.B, 2: self.L}
        self.a, self.b = 1, 0
        self.B2, self.a2, self.b2 = self.B, 1, 0

    def image(self, Q):
        return ((self.p - Q[0], 0), (0, Q[1]))

    def exps(self):
        return {"h": self.c}

    def cands(self, P, Q):
        Q = self.image(Q)
        for m in sorted({self.n, self.r - 1, self.r, self.r + 1}):
            if m > 0:
                yield "f_%d" % m, miller(self.B, self.L, self.L.up, self.a, P, Q, m)


class TypeA1(TypeA):
    key, init = "a1", "pbc_param_init_a1"

    def __init__(self, n):
        self.r = n
        self.n = n - 1
        self.par = dict(p=QS, n=n, l=A("v", "l"))
        self.name = "r = %d" % n
        self.p = prime(4, 3, 2 ** 60)
        self.setup()

    def exps(self):
        return {"l": self.c}


class TypeE(Type):
    key, init = "e", "pbc_param_init_e"
    methods = ("miller", "miller-affine", "shipsey-stange")
    k = 1

    def __init__(self, exp2, exp1, sign1, sign0):
        self.r = 2 ** exp2 + sign1 * 2 ** exp1 + sign0
        self.n, self.sign0 = self.r - sign0, sign0
        self.par = dict(q=QS, r=self.r, h=A("v", "h"), a=3, b=5, exp2=exp2, exp1=exp1, sign1=sign1, sign0=sign0)
        self.name = "r = 2^%d %s 2^%d %s 1" % (exp2, "+-"[sign1 < 0], exp1, "+-"[sign0 < 0])
        self.p = prime(4, 3, 2 ** 60)
        self.B = self.L = Fp(self.p)
        self.rings = {1: self.B}
        self.a, self.b = 3, 5
        self.B2, self.a2, self.b2 = self.B, 3, 5

    def exps(self):
        return {"h": Fraction(self.c * self.c, self.p - 1)}

    def cands(self, P, Q):
        """the elliptic net associated with P and Q"""
        m = miller(self.B, self.B, lambda x: x, self.a, (P[0], self.B.neg(P[1])), Q, self.r + 1)
        yield "net", self.B.inv(m)


class Twisted(Type):
    sym = False

    def exps(self):
        return {}

    def image(self, Q):
        """(x, y) -> (x / v, y / v^2 * sqrt v)"""
        D = self.D
        vi = D.inv(self.v)
        return (self.L.up(D.mul(Q[0], vi)), (D.zero, D.mul(Q[1], D.mul(vi, vi))))

    def cands(self, P, Q):
        Q = self.image(Q)
        up = lambda x: self.L.up(self.D.up(x))
        for m in (self.r - 1, self.r, self.r + 1):
            yield "f_%d" % m, miller(self.B, self.L, up, self.a, P, Q, m)


def irreducible(p, d):
    """small coefficients of an irreducible polynomial of degree d (3 or 5) over F_p"""
    import itertools
    B = Fp(p)
    for low in itertools.product(range(1, 9), repeat=d):
        R = Tower(B, low)
        x = (0, 1) + (0,) * (d - 2)
        y = rpow(R, x, p)
        if y == x:
            continue
        # x^(p^d) = x and x^p - x is a unit: no factor of degree 1; d prime, so irreducible
        z = x
        for _ in range(d):
            z = frob(R, z, y)
        if z == x and unit(R, R.sub(y, x)):
            return low


def frob(R, z, y):
    r, w = R.zero, R.one
    for c in z:
        r = R.add(r, tuple(c * t % R.p for t in w))
        w = R.mul(w, y)
    return r


def unit(R, a):
    """invertible modulo the polynomial: extended Euclid over F_p"""
    p = R.p
    f, g = list(R.low) + [1], list(a)

    def trim(u):
        while u and u[-1] % p == 0:
            u.pop()
        return u
    f, g = trim(f), trim(g)
    while g:
        while len(f) >= len(g):
            c = f[-1] * pow(g[-1], -1, p) % p
            s = len(f) - len(g)
            for i, x in enumerate(g):
                f[s + i] = (f[s + i] - c * x) % p
            trim(f)
            if not f:
                break
        f, g = g, f
    return len(f) == 1


class TypeD(Twisted):
    key, init = "d", "pbc_param_init_d"
    methods = ("miller", "miller-affine")
    deg = 3
    _low = {}

    def __init__(self, r):
        self.r, self.name = r, "r = %d" % r
        self.k = 2 * self.deg
        self.p = p = prime(4, 3, 2 ** 60 + 4096)
        if p not in self._low:
            self._low[p] = irreducible(p, self.deg)
        low = self._low[p]
        self.B = Fp(p)
        self.D = Tower(self.B, low)
        nqr = next(n for n in range(2, 99) if pow(n, (p - 1) // 2, p) == p - 1)
        self.v = self.D.const(nqr)
        self.L = Tower(self.D, (self.D.neg(self.v), self.D.zero))
        self.rings = {1: self.B, self.deg: self.D, self.k: self.L}
        self.a, self.b = 5, 7
        self.par = dict(q=QS, n=A("v", "n"), h=A("v", "h"), r=r, a=5, b=7, k=self.k, nk=A("v", "nk"), hk=A("v", "hk"), nqr=nqr)
        for i, c in enumerate(low):
            self.par["coeff%d" % i] = c
        self.B2 = self.D
        v2 = self.D.mul(self.v, self.v)
        self.a2, self.b2 = self.D.mul(self.D.const(5), v2), self.D.mul(self.D.const(7), self.D.mul(v2, self.v))


class TypeD10(TypeD):
    deg = 5
    tag = " (k = 10)"
    _low = {}


class TypeG(TypeD):
    key, init = "g", "pbc_param_init_g"
    methods = ("miller", "miller-affine", "shipsey-stange")
    deg = 5
    _low = {}

    def __init__(self, r):
        TypeD.__init__(self, r)
        del self.par["k"]


class TypeF(Type):
    key, init = "f", "pbc_param_init_f"
    sym = False
    k = 12
    _als = {}

    def __init__(self, r):
        self.r, self.name = r, "r = %d" % r
        self.p = p = prime(12, 7, 2 ** 60)
        self.B = Fp(p)
        self.D = Tower(self.B, (1, 0))
        D = self.D
        if p not in self._als:
            self._als[p] = next((a0, t - a0) for t in range(2, 99) for a0 in range(1, t) if self.generates(D, D.neg((a0, t - a0))))
        self.al = al = self._als[p]
        self.L = Tower(D, (al,) + (D.zero,) * 5)
        self.rings = {1: self.B, 2: D, 12: self.L}
        self.a, self.b = 0, 3
        self.par = dict(q=QS, r=r, b=3, beta=-1, alpha0=al[0], alpha1=al[1])
        self.B2, self.a2, self.b2 = D, D.zero, D.mul(D.neg(al), D.const(3))

    def generates(self, D, m):
        """t^6 - m is irreducible over D"""
        n = D.order - 1
        return rpow(D, m, n // 2) != D.one and rpow(D, m, n // 3) != D.one

    def exps(self):
        return {}

    def cands(self, P, Q):
        D, L = self.D, self.L
        t = (D.zero, D.one) + (D.zero,) * 4
        ti = L.inv(t)
        t2 = L.mul(ti, ti)
        Q = (L.mul(L.up(Q[0]), t2), L.mul(L.up(Q[1]), L.mul(t2, ti)))
        up = lambda x: L.up(D.up(x))
        for m in (self.r - 1, self.r, self.r + 1):
            yield "f_%d" % m, miller(self.B, L, up, self.a, P, Q, m)


# ------------------------------------------------------------ the library's map over circuits
class Tate:
    def __init__(self, prog, ty, seed=1):
        self.ty = ty
        self.S = S = Scenario(prog)
        self.I = I = S.I
        PR.PARAMS["tate"] = (ty.init, ty.par)
        abstract_fp(S)
        strings(S)
        self.C = C = Circuit(I, ty.p, seed=seed)
        self.pows = []
        self.shape = {}
        I.slot_hook = self.hook
        I.models["field_get_nqr"] = self.m_nqr
        setup = {"element_mul_mpz": lambda *a: None, "element_is_sqr": lambda *a: 1, "element_sqrt": self.m_any}
        I.models.update(setup)
        I.models["element_pow_mpz"] = self.m_pow
        for f in ("lucas_odd", "lucas_even"):
            I.models[f] = self.m_lucas
        par, self.pr = PR.pairing(S, "tate")
        for nm in setup:
            del I.models[nm]
        self.base = S.st

    # ---- elements
    def leaves(self, e, st):
        """the coordinates of an element over the prime field"""
        f = st.m.get(("m", e.obj, e.off))
        d = st.m.get(("m", e.obj, add(e.off, 8)))
        if not isinstance(f, Ptr):
            raise Undecided("field of an element")
        sl = self.I.load(st, Ptr(f.obj, add(f.off, self.I.slotoff("add"))), ir.PTR)
        if isinstance(sl, SlotFn):
            return [e]
        gt = self.I.slotoff("GT", "pairing_s")
        if f.obj is self.S.raw("pairing").obj and f.off == gt:
            return self.leaves(d, st)
        key = (e.obj, e.off, repr(d))
        if key not in self.shape:
            saved = self.I.cur
            (s, n), = self.S.run("element_item_count", e, st=st.copy())
            if not isinstance(n, int) or n <= 0:
                raise Undecided("number of coordinates")
            out = []
            for i in range(n):
                (s, c), = self.S.run("element_item", e, i, st=st.copy())
                out.append(c)
            self.I.cur = saved
            self.shape[key] = out
        return [l for c in self.shape[key] for l in self.leaves(c, st)]

    def get(self, e, st):
        return [self.C.rd(st, l) for l in self.leaves(e, st)]

    def ring(self, n):
        R = self.ty.rings.get(n)
        if R is None:
            raise Undecided("element with %d coordinates" % n)
        return R

    def at(self, e, st):
        """value of an element at each generic point"""
        v = [self.C.value(x) for x in self.get(e, st)]
        R = self.ring(len(v))
        return R, [R.make([x[i] for x in v]) for i in range(self.C.n)]

    def put(self, e, st, R, vals, tag):
        ls = self.leaves(e, st)
        fl = [R.flat(v) for v in vals]
        for i, l in enumerate(ls):
            t = T("n", tag, i)
            self.C.val[t.id] = tuple(f[i] for f in fl)
            self.I.eset(st, l, atom(t), None)

    # ---- set-up
    def m_nqr(self, I, ins, n, a, st):
        if isinstance(a[0], Ptr):
            v = I.load(st, Ptr(a[0].obj, add(a[0].off, I.slotoff("nqr"))), ir.PTR)
            if isinstance(v, Ptr) and v.obj.kind != "lazy":
                return v
        return NotImplemented

    def m_any(self, I, ins, n, a, st):
        """some element"""
        ls = self.leaves(a[0], st)
        R = self.ring(len(ls))
        self.put(a[0], st, R, [relem(R, self.C.rng) for _ in range(self.C.n)], T("any", I.cur.ctx, I.cur.iter, ins.bb, ins.idx))

    # ---- powers
    def power(self, out, inp, e, st, tag):
        R, vals = self.at(inp, st)
        if e == QS:
            self.put(out, st, R, [rpow(R, v, self.ty.p) for v in vals], T("frob", tag))
            return
        n = self.frac(e)
        if n.denominator != 1:
            raise Broken("the exponent %s is not a whole number" % show(e))
        self.put(out, st, R, [rpow(R, v, int(n)) for v in vals], T("pow", len(self.pows)))
        self.pows.append(e)

    def m_pow(self, I, ins, n, a, st):
        e = I.zcont(st, a[2])
        if isinstance(e, int):
            return NotImplemented
        self.power(a[0], a[1], e, st, T("at", I.cur.ctx, I.cur.iter, ins.bb, ins.idx))

    def m_lucas(self, I, ins, n, a, st):
        e = I.zcont(st, a[-1])
        if isinstance(e, int):
            return NotImplemented
        R, vals = self.at(a[1], st)
        for v in vals:
            if R.d != 2 or R.mul(v, R.conj(v)) != R.one:
                raise Broken("a Lucas sequence is used for an element whose norm is not 1")
        self.power(a[0], a[1], e, st, None)

    def hook(self, I, ins, sf, a, st, fr):
        if sf.slot == "pow_mpz" and not isinstance(I.zcont(st, a[2]), int):
            return self.m_pow(I, ins, "", a, st)
        return self.C.hook(I, ins, sf, a, st, fr)

    # ---- inputs
    def group(self, nm):
        off = self.I.slotoff(nm, "pairing_s")
        if nm in ("G1", "G2"):
            return self.I.load(self.S.st, Ptr(self.pr.obj, off), ir.PTR)
        return Ptr(self.pr.obj, off)

    def point(self, nm, g, at=None):
        """a generic point of G1 or G2; its element and its values"""
        S, ty = self.S, self.ty
        R, a, b = (ty.B, ty.a, ty.b) if g == "G1" else (ty.B2, ty.a2, ty.b2)
        vals = [rpoint(R, a, b, self.C.rng) for _ in range(self.C.n)]
        if at is None:
            e = S.elem(self.group(g), nm)
        else:
            e = at
            S.run1("element_init", e, self.group(g))
        self.fill(e, nm, vals, R)
        return e, vals

    def fill(self, e, nm, vals, R):
        S = self.S
        xy = []
        for f in ("curve_x_coord", "curve_y_coord"):
            (s, q), = S.run(f, e, st=S.st.copy())
            xy.append(q)
        for j, q in enumerate(xy):
            fl = [R.flat(v[j]) for v in vals]
            for i, l in enumerate(self.leaves(q, S.st)):
                S.setE(l, self.C.name(nm, "xy"[j], i, values=[f[i] for f in fl]))
        d = S.data(e)
        S.st.m[("m", d.obj, d.off)] = 0
        (s, z), = S.run("element_is0", e, st=S.st.copy())
        if z != 0:
            raise Undecided("cannot make a point")

    def frac(self, e):
        """an exponent at the generic prime"""
        if isinstance(e, int):
            return Fraction(e)
        ex = self.ty.exps()
        r = Fraction(0)
        for m, c in e.d.items():
            v = Fraction(c)
            for tid, k in m:
                t = Term.byid[tid]
                if t.op == "v" and t.args == ("q",):
                    w = Fraction(self.ty.p)
                elif t.op == "v" and len(t.args) == 1 and t.args[0] in ex:
                    w = ex[t.args[0]]
                elif t.op == "inv":
                    w = 1 / self.divisor(t.args[0])
                elif len(t.args) == 2 and t.op in DIVS:
                    w = self.frac(t.args[0]) / self.divisor(t.args[1])
                else:
                    raise Undecided("exponent %s" % show(e))
                v *= w ** k
            r += v
        return r

    def divisor(self, d):
        n = 1
        while isinstance(d, int) and self.ty.r > 1 and d % self.ty.r == 0:
            d, n = d // self.ty.r, n * self.ty.phi() / self.ty.c
        return n * self.frac(d)

    def get_xy(self, e):
        out = []
        for f in ("curve_x_coord", "curve_y_coord"):
            (s, q), = self.S.run(f, e, st=self.S.st.copy())
            out += self.get(q, self.S.st)
        return out


DIVS = ("divexact", "zdivexact", "udiv", "sdiv", "divexact_ui", "tdiv_q")


class Broken(Exception):
    pass
