"""Generated parameters satisfy the conditions documented for their type.

The generators are analysed with random numbers as symbols (or, where the generator asks for a number below a small
bound, one of its values per partition), prime fields abstract, and the tests the generators rely on - is this number
prime, is this polynomial irreducible, is this element a square, is this multiple of a random point O - answered in
every pattern that matters. What is written at the end must satisfy the documented equations, and every number that has
to be prime (polynomial irreducible, element no square) must be one that the test was asked about and accepted."""
import os
import random
from fractions import Fraction
from engine.check import Check, program
from engine import absint, ir
from engine.scen import Missing
from engine.absint import Ptr, SlotFn, Undecided
from engine.text import Texts
from engine.pair import abstract_fp
from engine.ops import SLOTNAMES
from engine.models import eout, ein, zout
from engine.poly import *
from engine.poly import T, A


class Gen:
    def __init__(self, prog, script):
        self.prog = prog
        self.S = S = Texts(prog)
        self.I = I = S.I
        I.numtab = []
        I.unroll_any = True
        self.script = script
        abstract_fp(S)
        I.slot_hook = self.hook
        I.models["pbc_mpz_random"] = self.rnd
        I.models["pbc_mpz_randomb"] = self.rnd
        I.models["__gmpz_probab_prime_p"] = self.prime
        I.models["poly_is_irred"] = self.irred
        I.models["poly_findroot"] = self.findroot
        I.models["pbc_hilbert"] = self.hilbert
        I.models["pbc_hilbert_free"] = lambda *a: None
        for n in ("field_init_curve_ab", "field_reinit_curve_twist"):
            I.models[n] = self.curve
        I.models["field_init_polymod"] = self.polymod
        self.par = S.raw("par")
        self.groups = {}
        self.mods = {}

    # ---- bookkeeping per path
    def next(self, st, kind, default):
        k = ("count", kind, 0)
        i = st.m.get(k, 0)
        st.m[k] = i + 1
        if i > 400:
            raise Undecided("too many questions")
        s = self.script.get(kind, ())
        return s[i] if i < len(s) else default

    def note(self, st, what):
        st.m[("notes", 0, 0)] = st.m.get(("notes", 0, 0), ()) + (what,)

    def notes(self, st, kind):
        return [x[1:] for x in st.m.get(("notes", 0, 0), ()) if x[0] == kind]

    def fresh(self, st, kind):
        k = ("fresh", kind, 0)
        i = st.m[k] = st.m.get(k, 0) + 1
        return A("v", "%s%d" % (kind, i))

    # ---- questions
    def rnd(self, I, ins, n, a, st):
        l = I.zcont(st, a[1]) if n == "pbc_mpz_random" else a[1]
        if n == "pbc_mpz_random" and isinstance(l, int) and l <= 4096:
            f = self.next(st, "small", 0.5)
            zout(I, a[0], int(f * l), st, ins)
            return None
        v = self.fresh(st, "rnd")
        self.note(st, ("random", v, l if n == "pbc_mpz_random" else (1 << l if isinstance(l, int) else None)))
        zout(I, a[0], v, st, ins)

    def prime(self, I, ins, n, a, st):
        v = I.zcont(st, a[0])
        r = self.next(st, "prime", 1)
        self.note(st, ("prime", v, r))
        return r

    def irred(self, I, ins, n, a, st):
        st, c = self.items(st, a[0])
        r = self.next(st, "irred", 1)
        self.note(st, ("irred", c, r))
        return [(st, r)]

    def findroot(self, I, ins, n, a, st):
        st, c = self.items(st, a[1])
        v = self.fresh(st, "root")
        self.note(st, ("root", c, v))
        eout(I, a[0], v, st, ins)
        return [(st, 0)]

    def hilbert(self, I, ins, n, a, st):
        d = a[1]
        self.note(st, ("hilbert", d))
        p = Ptr(I.named("heap", "hilbert"), 0)
        for i in range(3):
            st.m[("Z", p.obj, 16 * i)] = A("v", "H%d" % i) if i < 2 else 1
        I.store(st, a[0], p, ins)
        return 3

    # ---- curves: coefficients by the library's own code, points opaque
    def real(self, n, a, st, ins):
        outs = self.I.call_fn(self.S.fn(n), a, st, self.I.cur, ins)
        if len(outs) != 1:
            raise Undecided("%s: %d outcomes" % (n, len(outs)))
        return outs[0][0]

    def one(self, n, a, st):
        outs = self.S.run(n, *a, st=st)
        if len(outs) != 1:
            raise Undecided("%s: %d outcomes" % (n, len(outs)))
        return outs[0]

    def curve(self, I, ins, n, a, st):
        F = a[0]
        cur = I.cur
        k = ("slots", F.obj, F.off)
        if k in st.m:
            for nm, v in st.m[k]:
                st.m[("m", F.obj, add(F.off, I.slotoff(nm)))] = v
        st = self.real(n, a, st, ins)
        st, p = self.one("curve_field_a_coeff", [F], st)
        st, q = self.one("curve_field_b_coeff", [F], st)
        st, va = self.comps(st, p)
        st, vb = self.comps(st, q)
        I.cur = cur
        st.m[("curve", F.obj, F.off)] = (va, vb)
        o = I.obj("field", T("obj", "group", F.obj.term, F.off))
        self.groups[o] = F
        st.m[k] = tuple((nm, st.m.get(("m", F.obj, add(F.off, I.slotoff(nm))))) for nm in SLOTNAMES if ("m", F.obj, add(F.off, I.slotoff(nm))) in st.m)
        for nm in SLOTNAMES:
            st.m[("m", F.obj, add(F.off, I.slotoff(nm)))] = SlotFn(o, nm)
        return [(st, None)]

    def polymod(self, I, ins, n, a, st):
        cur = I.cur
        st = self.real(n, a, st, ins)
        st, c = self.items(st, a[1])
        I.cur = cur
        o = I.obj("field", T("obj", "mod", a[0].obj.term, a[0].off))
        self.mods[o] = c
        st.m[("m", a[0].obj, add(a[0].off, I.slotoff("is_sqr")))] = SlotFn(o, "is_sqr")
        return [(st, None)]

    def items(self, st, e):
        cur = self.I.cur
        st, n = self.one("element_item_count", [e], st)
        if not isinstance(n, int):
            raise Undecided("number of coefficients")
        r = []
        for i in range(n):
            st, p = self.one("element_item", [e, i], st)
            st, c = self.comps(st, p)
            r.append(c)
        self.I.cur = cur
        return st, tuple(r)

    def comps(self, st, e):
        F = self.I.load(st, e, ir.PTR)
        if not isinstance(F, Ptr):
            raise Undecided("field of an element")
        if isinstance(self.S.slot_in(F, "add", st), SlotFn):
            return st, self.I.econt(st, e)
        return self.items(st, e)

    def hook(self, I, ins, sf, a, st, fr):
        if sf.obj in self.groups:
            F = self.groups[sf.obj]
            if sf.slot == "random":
                v = self.fresh(st, "point")
                st.m[("point", v, 0)] = st.m.get(("curve", F.obj, F.off))
                eout(I, a[0], v, st, ins)
                return None
            if sf.slot in ("mul_mpz", "pow_mpz"):
                eout(I, a[0], A("multiple", ein(I, a[1], st, ins), I.zcont(st, a[2])), st, ins)
                return None
            if sf.slot in ("is0", "is1"):
                v = ein(I, a[0], st, ins)
                r = self.next(st, "is0", 1)
                t = as_atom(v)
                m = 1
                while t is not None and t.op == "multiple":
                    m = mul(m, t.args[1])
                    v = t.args[0]
                    t = as_atom(v)
                self.note(st, ("point", st.m.get(("point", v, 0)), m, r))
                return r
            return NotImplemented
        if sf.slot == "is_sqr":
            if sf.obj in self.mods:
                st2, c = self.items(st, a[0])
                r = self.next(st2, "sqr", 0)
                self.note(st2, ("sqr", c, r, self.mods[sf.obj]))
                return [(st2, r)]
            v = ein(I, a[0], st, ins)
            t = as_atom(v) if is_val(v) and not isinstance(v, int) else None
            if t is not None and t.op in ("rnd", "v"):
                r = self.next(st, "sqr", 0)
                self.note(st, ("sqr", (v,), r, None))
                return r
            return 1
        if sf.slot == "random":
            v = self.fresh(st, "e")
            eout(I, a[0], v, st, ins)
            return None
        if sf.slot == "set_mpz":
            v = I.zcont(st, a[1])
            t = as_atom(v) if is_val(v) and not isinstance(v, int) else None
            if t is not None and t.op == "tompz":
                eout(I, a[0], t.args[0], st, ins)
                return None
        return NotImplemented

    # ---- generate and write
    def generate(self, f, *args):
        S = self.S
        outs = S.run(f, self.par, *args)
        if len(outs) != 1:
            raise Undecided("%d outcomes" % len(outs))
        st = self.st = outs[0][0]
        out = S.raw("stream")
        outs = S.run("pbc_param_out_str", out, self.par, st=st.copy())
        if len(outs) != 1:
            raise Undecided("%d outcomes" % len(outs))
        t = S.output(outs[0][0], out).split()
        self.d = {}
        for k, v in zip(t[::2], t[1::2]):
            if v[0] == "@":
                self.d[k] = self.I.numtab[int(v[1:])] if v[1:].isdigit() else A("v", v)
            elif v.lstrip("-").isdigit():
                self.d[k] = int(v)
            else:
                self.d[k] = v
        return self.d


# ---- values at random points
class Eval:
    def __init__(self, seed, pos=True):
        self.r = random.Random(seed)
        self.env = {}

    def __call__(self, v):
        if isinstance(v, (int, Fraction)):
            return v
        if isinstance(v, tuple):
            return tuple(self(x) for x in v)
        s = 0
        for mon, c in v.d.items():
            x = c
            for t, e in mon:
                x *= self.term(t) ** e
            s += x
        return s

    def term(self, tid):
        from engine.poly import Term
        t = Term.byid[tid]
        if t.op == "inv":
            x = self(t.args[0])
            if x == 0:
                raise Undecided("division by zero")
            return 1 / Fraction(x)
        if t.op == "tompz":
            return self(t.args[0])
        if t.op == "pow" and len(t.args) == 2:
            return self(t.args[0]) ** self(t.args[1])
        if t.op in ("v", "nqr", "rnd"):
            if tid not in self.env:
                self.env[tid] = self.r.randrange(1 << 40, 1 << 41)
            return self.env[tid]
        raise Undecided("number %s" % show_term(t))


def same(x, y):
    for s in range(3):
        E = Eval(s)
        if E(x) != E(y):
            return False
    return True


def always(f):
    for s in range(3):
        r = f(Eval(s))
        if r is not True:
            return r
    return True


def accepted(G, v):
    """the number was found to be prime"""
    return any(r and same(x, v) for x, r in G.notes(G.st, "prime"))


def need(d, keys):
    for k in keys.split():
        if k not in d:
            return "the written parameters lack %s" % k
    return None


def solinas(d):
    e1, e2, s1, s0 = (d[k] for k in ("exp1", "exp2", "sign1", "sign0"))
    if not all(isinstance(x, int) for x in (e1, e2, s1, s0)):
        raise Undecided("exponents")
    if s1 not in (1, -1) or s0 not in (1, -1) or not 0 < e1 < e2:
        return "signs %s, %s and exponents %s, %s" % (s1, s0, e1, e2)
    if not same(d["r"], (1 << e2) + s1 * (1 << e1) + s0):
        return "r is not 2^%d %+d*2^%d %+d" % (e2, s1, e1, s0)


def type_a(G, rbits, qbits):
    d = G.generate("pbc_param_init_a_gen", rbits, qbits)
    m = need(d, "q r h exp2 exp1 sign1 sign0") or solinas(d)
    if m:
        return m
    if d["exp2"] not in (rbits - 1, rbits):
        return "r has about %d bits instead of %d" % (d["exp2"], rbits)
    if not same(add(d["q"], 1), mul(d["h"], d["r"])):
        return "q + 1 is not h r"
    if not always(lambda E: E(d["h"]) % 12 == 0):
        return "h is not a multiple of 12"
    for k in "qr":
        if not accepted(G, d[k]):
            return "%s was not accepted by the primality test" % k
    rs = [l for v, l in G.notes(G.st, "random") if l is not None]
    if rs and all(isinstance(l, int) for l in rs) and isinstance(d["r"], int):
        b = ((max(rs) - 1) * 12 * d["r"]).bit_length()
        if not qbits - 2 <= b <= max(qbits + 2, rbits + 8):
            return "q has up to %d bits instead of %d" % (b, qbits)
    return None


def type_a1(G, order):
    z = G.S.mpz("order", order)
    d = G.generate("pbc_param_init_a1_gen", z)
    m = need(d, "p n l")
    if m:
        return m
    if not same(d["n"], order):
        return "n is not the given order"
    if not same(add(d["p"], 1), mul(d["l"], d["n"])):
        return "p + 1 is not l n"
    if not isinstance(d["l"], int) or d["l"] % 4:
        return "l is %s, so p need not be 3 mod 4" % (d["l"],)
    if not accepted(G, d["p"]):
        return "p was not accepted by the primality test"
    if not same(G.I.zcont(G.st, z), order):
        return "the given order is changed"
    return None


def isqrt(n):
    import math
    return math.isqrt(n) if n >= 0 else 0


def curveok(G, a, b, ok, twist=True):
    """the written curve is one on which the right multiple of a random point was O, or the twist of one where it was not"""
    ts = G.notes(G.st, "point")
    if not ts:
        return "no point of the curve was tried"
    for c, m, r in ts:
        if c is None or not ok(m):
            continue
        ca, cb = c
        if r and same(a, ca) and same(b, cb):
            return None
        if not r and twist:
            for t in {t for x in (a, b) if isinstance(x, Poly) for mon in x.d for t, e in mon}:
                for nq in nqrs(t):
                    if same(a, mul(ca, power(nq, 2))) and same(b, mul(cb, power(nq, 3))):
                        return None
    return "the curve is neither one on which a random point has the right order nor the twist of one on which it has not"


def nqrs(tid):
    from engine.poly import Term
    t = Term.byid[tid]
    if t.op == "tompz":
        r = []
        for mon in getattr(t.args[0], "d", {}):
            for u, e in mon:
                r += nqrs(u)
        return r
    return [A("nqr", *t.args)] if t.op == "nqr" else []


def type_e(G, rbits, qbits):
    d = G.generate("pbc_param_init_e_gen", rbits, qbits)
    m = need(d, "q r h a b exp2 exp1 sign1 sign0") or solinas(d)
    if m:
        return m
    if d["exp2"] not in (rbits - 1, rbits):
        return "r has about %d bits instead of %d" % (d["exp2"], rbits)
    if not same(d["q"], add(mul(d["h"], mul(d["r"], d["r"])), 1)):
        return "q is not h r^2 + 1"
    if not always(lambda E: E(d["h"]) % 3 == 0 and isqrt(E(d["h"]) // 3) ** 2 == E(d["h"]) // 3):
        return "h is not 3 times a square"
    for k in "qr":
        if not accepted(G, d[k]):
            return "%s was not accepted by the primality test" % k
    if not same(d["a"], 0):
        return "a is not 0"
    return curveok(G, d["a"], d["b"], lambda m: same(m, sub(d["q"], 1)))


def trace(q, t, k):
    a, b = 2, t
    for i in range(k - 1):
        a, b = b, t * b - q * a
    return b


def type_f(G, bits):
    d = G.generate("pbc_param_init_f_gen", bits)
    m = need(d, "q r b beta alpha0 alpha1")
    if m:
        return m
    q, r = d["q"], d["r"]
    if not isinstance(q, int) or not isinstance(r, int):
        raise Undecided("q or r")
    t = q + 1 - r
    x = isqrt((t - 1) // 6) if t > 0 else 0
    if 6 * x * x + 1 != t:
        return "the trace q + 1 - r is not 6 x^2 + 1"
    if q not in [36 * x ** 4 + s * 36 * x ** 3 + 24 * x * x + s * 6 * x + 1 for s in (1, -1)]:
        return "q is not 36 x^4 + 36 x^3 + 24 x^2 + 6 x + 1"
    if not bits - 8 <= q.bit_length() <= bits + 4:
        return "q has %d bits instead of %d" % (q.bit_length(), bits)
    for k, v in (("q", q), ("r", r)):
        if not accepted(G, v):
            return "%s was not accepted by the primality test" % k
    m = curveok(G, 0, d["b"], lambda m: same(m, r), False)
    if m:
        return m
    if not nqr_of(d["beta"]):
        return "beta is not the nonresidue of the field"
    al = (d["alpha0"], d["alpha1"])
    beta = d["beta"]
    n12 = q ** 12 + 1 - trace(q, t, 12)

    def cmul(x, y):
        return (add(mul(x[0], y[0]), mul(beta, mul(x[1], y[1]))), add(mul(x[0], y[1]), mul(x[1], y[0])))

    def cpow5(x):
        y = cmul(x, x)
        return cmul(cmul(y, y), x)
    alphas = []
    for c, res in G.notes(G.st, "irred"):
        if res and len(c) == 7 and all(tuple(y) == (0, 0) if isinstance(y, tuple) else y == 0 for y in c[1:6]) and c[6] in ((1, 0), 1):
            alphas.append(c[0])
    for a0 in alphas:
        for c, m, res in G.notes(G.st, "point"):
            if c is None or not isinstance(c[1], tuple) or m != n12 // r // r:
                continue
            if not same(c[0], (0, 0)) or not same(c[1], (sub(0, mul(d["b"], a0[0])), sub(0, mul(d["b"], a0[1])))):
                continue
            if same(al, cpow5(a0) if res else a0):
                return None
    return "x^6 + alpha is not the irreducible polynomial whose twist has points of order r"


def nqr_of(v):
    ts = [t for mon in getattr(v, "d", {}) for t, e in mon]
    return len(ts) == 1 and bool(nqrs(ts[0])) and same(v, nqrs(ts[0])[0])


def type_dg(G, fn, k, cmk=None):
    S = G.S
    cm = S.raw("cm")
    q, h, r = A("v", "q"), A("v", "h"), A("v", "r")
    n = mul(h, r)
    st = cm_fields(G, cm)
    for nm, v in (("q", q), ("n", n), ("h", h), ("r", r)):
        S.st.m[("Z", cm.obj, st[nm])] = v
    S.st.m[("m", cm.obj, st["k"])] = k
    D = 43
    S.st.m[("m", cm.obj, st["D"])] = D
    d = G.generate(fn, cm)
    m = need(d, "q n h r a b nk hk nqr " + " ".join("coeff%d" % i for i in range(k // 2)))
    if m:
        return m
    for nm, v in (("q", q), ("n", n), ("h", h), ("r", r)):
        if not same(d[nm], v):
            return "%s is not the given one" % nm
    if "k" in d and d["k"] != k:
        return "k is %s" % (d["k"],)

    def order(E):
        return E(q) ** k + 1 - trace(E(q), E(q) + 1 - E(n), k) == E(d["nk"])
    if not always(order):
        return "nk is not the order of the curve over the extension of degree %d" % k
    if not always(lambda E: E(d["hk"]) * E(r) ** 2 == E(d["nk"])):
        return "hk r^2 is not nk"
    # the curve
    roots = [v for c, v in G.notes(G.st, "root") if c == (A("v", "H0"), A("v", "H1"), 1)]
    if not roots or (D,) not in G.notes(G.st, "hilbert"):
        return "the j-invariant is not a root of the class polynomial"

    def jinv(E):
        a, b = E(d["a"]), E(d["b"])
        x = 4 * Fraction(a) ** 3
        y = 27 * Fraction(b) ** 2
        return x + y != 0 and any(1728 * x / (x + y) == E(v) for v in roots)
    if not always(jinv):
        return "the j-invariant of the curve is not the root of the class polynomial"
    m = curveok(G, d["a"], d["b"], lambda m: same(m, n))
    if m:
        return m
    co = tuple(d["coeff%d" % i] for i in range(k // 2)) + (1,)
    if not any(res and len(c) == len(co) and all(same(x, y) for x, y in zip(c, co)) for c, res in G.notes(G.st, "irred")):
        return "the coefficients are not those of a monic polynomial that was found irreducible"
    for c, res, mod in G.notes(G.st, "sqr"):
        if not res and same(c[0], d["nqr"]) and all(same(x, 0) for x in c[1:]) and (mod is None or all(same(x, y) for x, y in zip(mod, co))):
            break
    else:
        return "nqr is no element that was found to be no square"
    return None


def cm_fields(G, cm):
    """offsets of the fields of the description, from the type's declaration"""
    t = G.prog.structs.get("pbc_cm_s") if hasattr(G.prog, "structs") else None
    if os.environ.get("VERIF_DEBUG") and t:
        print(t)
    return CM


CM = dict(q=0, n=16, h=32, r=48, D=64, k=68)


def millerrabin(n):
    if n < 2:
        return False
    d, s = n - 1, 0
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for i in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def type_i(G, size, ok):
    d = G.generate("pbc_param_init_i_gen", size)
    m = need(d, "m t n n2")
    if m:
        return m
    n, n2, e, t = d["n"], d["n2"], d["m"], d["t"]
    if not all(isinstance(x, int) for x in (n, n2, e, t)):
        raise Undecided("not constants")
    if n * n2 not in (3 ** e + 3 ** ((e + 1) // 2) + 1, 3 ** e - 3 ** ((e + 1) // 2) + 1):
        return "n n2 is not the order of the curve over F_3^%d" % e
    if not millerrabin(n):
        return "n is not prime"
    if n.bit_length() < size:
        return "n has %d bits although %d were wanted" % (n.bit_length(), size)
    if (e, t) not in ok:
        ok[e, t] = irreducible3(e, t)
    if not ok[e, t]:
        return "x^%d + x^%d + 2 is not irreducible over F_3" % (e, t)
    return None


def irreducible3(m, t):
    """Rabin's test for x^m + x^t + 2 over F_3, polynomials as lists"""
    def red(c):
        for i in range(len(c) - 1, m - 1, -1):
            if c[i]:
                c[i - m + t] = (c[i - m + t] - c[i]) % 3
                c[i - m] = (c[i - m] + c[i]) % 3
                c[i] = 0
        return (c + [0] * m)[:m]

    def cube(c):
        r = [0] * (3 * len(c))
        for i, x in enumerate(c):
            r[3 * i] = x
        return red(r)

    def pgcd(a, b):
        def trim(x):
            while x and not x[-1]:
                x.pop()
            return x
        a, b = trim(list(a)), trim(list(b))
        while b:
            while len(a) >= len(b):
                f = a[-1] * b[-1] % 3
                o = len(a) - len(b)
                for i, y in enumerate(b):
                    a[o + i] = (a[o + i] - f * y) % 3
                trim(a)
                if not a:
                    break
            a, b = b, a
        return a
    f = [0] * (m + 1)
    f[m] = 1
    f[t] = (f[t] + 1) % 3
    f[0] = (f[0] + 2) % 3
    x = red([0, 1] + [0] * m)
    ps, k, n = [], 2, m
    while n > 1:
        if n % k == 0:
            ps.append(k)
            while n % k == 0:
                n //= k
        k += 1
    y = x
    for i in range(1, m + 1):
        y = cube(y)
        if m % i == 0 and i < m and m // i in ps:
            g = pgcd(f, [(u - v) % 3 for u, v in zip(y, x)])
            if len(g) != 1:
                return False
    return y == x


def jobs(tier):
    js = []
    smalls = [(b1, e, b0) for b1 in (0, 0.9) for e in (0, 0.3, 0.9999) for b0 in (0, 0.9)]
    for s in smalls:
        js.append(("a", (160, 512), dict(small=s)))
        js.append(("e", (160, 1024), dict(small=s)))
    for bits in ((80, 200), (20, 21)):
        js.append(("a", bits, {}))
        js.append(("e", bits, {}))
    two = smalls[1] + smalls[10] + smalls[5]
    for p in ((0, 1, 1), (1, 0, 1), (1, 0, 0, 0, 1), (0, 1, 0, 1), (1,) + (0,) * 10 + (1, 1), (0, 0, 1) + (0,) * 10 + (1, 0, 1)):
        js.append(("a", (160, 512), dict(small=two, prime=p)))
        js.append(("e", (160, 1024), dict(small=two, prime=p)))
    js.append(("e", (160, 1024), dict(is0=(0,))))
    for p in ((), (0,), (0, 0), (0, 0, 0), (0,) * 7):
        js.append(("a1", None, dict(prime=p)))
    for p in ((), (0,), (1, 0), (0, 1, 0), (1, 0, 1, 0), (0, 0), (0, 0, 0, 1, 0)):
        js.append(("f", (160,), dict(prime=p)))
    for bits in (40, 159, 161, 224, 301):
        js.append(("f", (bits,), {}))
    for i0 in ((), (0,), (0, 0, 1), (1, 0), (1, 1), (0, 1, 0)):
        for ir_ in ((), (0,), (0, 0)):
            js.append(("f", (160,), dict(is0=i0, irred=ir_)))
    for k in (6, 10):
        for i0 in ((), (0,)):
            for ir_ in ((), (0,), (0, 0)):
                for sq in ((), (1,), (1, 1)):
                    js.append(("d", k, dict(is0=i0, irred=ir_, sqr=sq)))
                    if k == 10:
                        js.append(("g", k, dict(is0=i0, irred=ir_, sqr=sq)))
    for lo in range(1, 893, 56):
        js.append(("i", (lo, min(lo + 56, 893)), {}))
    return js


def work(c, job):
    typ, arg, script = job
    absint.MAXUNROLL = 400
    G = Gen(program(), script)
    name = "type %s, %s, answers %s" % (typ, arg, script)
    try:
        if typ == "a":
            m = type_a(G, *arg)
        elif typ == "a1":
            m = type_a1(G, A("v", "order"))
        elif typ == "e":
            m = type_e(G, *arg)
        elif typ == "f":
            m = type_f(G, *arg)
        elif typ in "dg":
            m = type_dg(G, "pbc_param_init_%s_gen" % typ, arg)
        else:
            ok = {}
            for size in range(*arg):
                m = type_i(Gen(program(), script), size, ok)
                if m:
                    m = "size %d: %s" % (size, m)
                    break
    except Missing as e:
        c.undecided(name, "no function %s" % e)
        return
    if m:
        c.violation("%s gen %s" % (typ, m[:60]), "%s: %s" % (name, m))
    else:
        c.good(name)


def main():
    absint.MAXUNROLL = 400
    tier = os.environ.get("VERIF_TIER", "quick")
    program()
    c = Check("C19", "Generators of parameters analysed with symbolic random numbers and every pattern of answers of the tests they use; the written "
              "parameters satisfy the documented equations, and what has to be prime, irreducible or no square was accepted as such.",
              floor=10, assumptions=["the tests for primes, irreducible polynomials and squares and the class polynomial are right",
                                     "small random numbers (signs, exponents) by partition, large ones symbolic"])
    c.parallel(jobs(tier), work)
    return c.finish()
