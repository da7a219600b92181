"""Type I: the eta_T pairing in characteristic three and its parameters."""
import os
from engine.check import Check, program
from engine import absint, ir
from engine.absint import Ptr, SlotFn, Undecided, Fn, State
from engine.scen import Scenario, Missing
from engine import pair
from engine.poly import *
from engine.poly import T, A, Term, Poly


# ---- characteristic 3: polynomials with coefficients 0, 1, 2; x_j stands for x^(3^j)
def red(v):
    """coefficients mod 3"""
    if isinstance(v, int):
        return v % 3
    d = {k: c % 3 for k, c in v.d.items() if c % 3}
    if not d:
        return 0
    if list(d) == [()]:
        return d[()]
    return Poly(d)


def frob(v, m, n=1):
    """v^(3^n)"""
    v = red(v)
    if isinstance(v, int):
        return v
    r = {}
    for mono, c in v.d.items():
        w = c
        for t, e in mono:
            tt = Term.byid[t]
            if tt.op != "v" or len(tt.args) != 2:
                raise Undecided("Frobenius of %s" % show(atom(tt)))
            w = mul(w, power(A("v", tt.args[0], (tt.args[1] + n) % m), e))
        r = w if r == {} else add(r, w)
    return red(r)


class Sextic:
    """six components over K: 1, s, r, rs, r^2, r^2 s with s^2 = -1, r^3 = r + 1"""

    def __init__(self, m):
        self.m = m

    def frob(self, a, n=1):
        """a^(3^n): the components' powers, s -> (-1)^n s, r -> r + n"""
        c = [frob(x, self.m, n) for x in a]
        if n % 2:
            c = [x if i % 2 == 0 else red(neg(x)) for i, x in enumerate(c)]
        k = n % 3
        out = [0] * 6
        for s in (0, 1):
            a0, a1, a2 = c[s], c[2 + s], c[4 + s]
            # (r + k)^2 = r^2 + 2 k r + k^2
            out[s] = red(add(a0, add(mul(k, a1), mul(k * k, a2))))
            out[2 + s] = red(add(a1, mul(2 * k, a2)))
            out[4 + s] = red(a2)
        return tuple(out)

    def canon(self, a):
        """(g, j) with a = +-g^(3^j), the least such g"""
        best = None
        seen = set()
        for x in a:
            if not isinstance(x, int):
                for mono in x.d:
                    for t, e in mono:
                        tt = Term.byid[t]
                        if tt.op != "v" or len(tt.args) != 2:
                            raise Undecided("component %s" % show(x))
                        seen.add((tt.args[0], tt.args[1]))
        if not seen:
            return None
        first = min(n for n, j in seen)
        for j in sorted({j for n, j in seen if n == first}):
            # s and r have period 6 under the Frobenius map, so powers differ by multiples of m
            g = self.frob(a, -j)
            lead = next(x for x in g if x != 0)
            c = lead if isinstance(lead, int) else lead.d[min(lead.d)]
            if c == 2:
                g = tuple(red(neg(x)) for x in g)
            key = tuple(str(x if isinstance(x, int) else sorted((tuple(sorted((str(Term.byid[t].args), e) for t, e in mono)), cc) for mono, cc in x.d.items())) for x in g)
            if best is None or key < best[0]:
                best = (key, j, g)
        return best[0], best[1]


class World:
    def __init__(self, prog, m, known=False):
        self.m = m
        self.Q6 = 3 ** (6 * m) - 1
        self.S = S = Scenario(prog)
        S.I.unroll_any = True
        pair.abstract_fp(S)
        keep = dict(pair.PARAMS)
        n, n2 = 19, 5
        pair.PARAMS["i"] = (pair.PARAMS["i"][0], dict(m=m, t=1, n=n, n2=n2))
        self.par, self.pr = pair.pairing(S, "i")
        pair.PARAMS.update(keep)
        self.X = Sextic(m)
        self.prods = {}
        S.I.slot_hook = self.hook
        self.E1 = Ptr(self.pr.obj, 0)
        for nm in "element_mul element_square element_cubic element_invert element_div element_set".split():
            S.I.models[nm] = self.op(nm)

    # K
    def hook(self, I, ins, sf, a, st, fr):
        if sf.slot == "cubic":
            I.eset(st, a[0], frob(I.econt(st, a[1], ins), self.m), ins)
            return None
        if sf.slot in ("add", "sub", "mul", "square", "doub", "neg"):
            x = [red(I.econt(st, p, ins)) for p in a[1:]]
            f = {"add": add, "sub": sub, "mul": mul, "square": lambda u: mul(u, u), "doub": lambda u: add(u, u), "neg": neg}[sf.slot]
            I.eset(st, a[0], red(f(*x)), ins)
            return None
        return NotImplemented

    # the degree six extension
    def cells(self, st, e):
        """the six components, or None"""
        if not isinstance(e, Ptr):
            return None
        d3 = st.m.get(("m", e.obj, add(e.off, 8)))
        if not isinstance(d3, Ptr):
            return None
        out = []
        for i in range(3):
            d2 = st.m.get(("m", d3.obj, add(d3.off, 16 * i + 8)))
            if not isinstance(d2, Ptr):
                return None
            for j in range(2):
                p = Ptr(d2.obj, add(d2.off, 16 * j))
                if ("E", p.obj, p.off) not in st.m:
                    f = st.m.get(("m", p.obj, p.off))
                    if not isinstance(f, Ptr) or isinstance(st.m.get(("m", p.obj, add(p.off, 8))), Ptr):
                        return None
                out.append(p)
        return out

    def get(self, st, ps):
        """product of powers, as {canonical factor: exponent mod 3^6m - 1}"""
        vs = [red(self.S.I.econt(st, p)) for p in ps]
        t0 = as_atom(vs[0]) if not isinstance(vs[0], int) else None
        if t0 is not None and t0.op == "comp":
            key = t0.args[0]
            if all(as_atom(v) is T("comp", key, i) for i, v in enumerate(vs)):
                return dict(self.prods[key])
            if all((v == A("comp", key, i)) if i % 2 == 0 else red(add(v, A("comp", key, i))) == 0 for i, v in enumerate(vs)):
                return {g: e * 3 ** (3 * self.m) % self.Q6 for g, e in self.prods[key].items()}
            raise Undecided("components of a product used one by one")
        if all(isinstance(v, int) for v in vs):
            if vs in ([1, 0, 0, 0, 0, 0], [2, 0, 0, 0, 0, 0]):
                return {}
            raise Undecided("constant %s" % (vs,))
        g, j = self.X.canon(tuple(vs))
        return {g: 3 ** j}

    def put(self, st, ps, d, ins):
        d = {g: e % self.Q6 for g, e in d.items() if e % self.Q6}
        if not d:
            for i, p in enumerate(ps):
                self.S.I.eset(st, p, 1 if i == 0 else 0, ins)
            return
        key = T("prod", tuple(sorted((g, e) for g, e in d.items())))
        self.prods[key] = d
        for i, p in enumerate(ps):
            self.S.I.eset(st, p, A("comp", key, i), ins)

    def op(self, name):
        def f(I, ins, n, a, st):
            ps = [self.cells(st, x) for x in a]
            if any(p is None for p in ps):
                return NotImplemented
            if name == "element_set":
                vs = [I.econt(st, p) for p in ps[1]]
                for p, v in zip(ps[0], vs):
                    I.eset(st, p, v, ins)
                return None
            x = self.get(st, ps[1])
            if name in ("element_mul", "element_div"):
                y = self.get(st, ps[2])
                s = 1 if name == "element_mul" else -1
                r = dict(x)
                for g, e in y.items():
                    r[g] = r.get(g, 0) + s * e
            else:
                k = {"element_square": 2, "element_cubic": 3, "element_invert": -1}[name]
                r = {g: e * k for g, e in x.items()}
            self.put(st, ps[0], r, ins)
        return f

    def group(self, nm):
        off = self.S.I.slotoff(nm, "pairing_s")
        return Ptr(self.pr.obj, off)

    def point(self, name):
        S = self.S
        G = S.st.m[("m", self.pr.obj, S.I.slotoff("G1", "pairing_s"))]
        e = S.elem(G, name)
        d = S.data(e)
        S.run1("element_set0", e)
        before = {k: v for k, v in S.st.m.items() if k[0] == "m" and k[1] is d.obj and isinstance(v, int)}
        es = sorted(k[2] for k in S.st.m if k[0] == "m" and k[1] is d.obj and isinstance(S.st.m[k], Ptr) and k[2] % 16 == 0)
        if len(before) != 1:
            raise Undecided("cannot find the mark of O")
        (fk, fv), = before.items()
        S.st.m[fk] = 1 - fv
        offs = sorted({k[2] for k in S.st.m if k[0] == "E" and k[1] is d.obj}) or es
        if len(offs) != 2:
            raise Undecided("cannot find the coordinates")
        for o, c in zip(offs, "xy"):
            S.st.m[("E", d.obj, o)] = A("v", c + name, 0)
        return e


def mu(m):
    return 1 if m % 12 in (1, 11) else -1


def oracle(m):
    """factors of the unreduced pairing of (xP, yP), (xQ, yQ): Beuchat et al., algorithm 4, b = 1"""
    X = Sextic(m)
    x = lambda n, j: A("v", n, j % m)
    xp, yp = add(x("xP", 0), 1), mul(-mu(m), x("yP", 0))
    d = {}

    def factor(vec, e):
        g, j = X.canon(tuple(red(v) for v in vec))
        d[g] = d.get(g, 0) + e * 3 ** j
    h = (m - 1) // 2
    for i in range(h + 1):
        xq = sub(x("xQ", 2 * i + 1), i)
        yq = mul((-1) ** i, x("yQ", 2 * i + 1))
        t = add(xp, xq)
        factor([neg(mul(t, t)), mul(yp, yq), neg(t), 0, -1, 0], 3 ** (h - i))
        if i == 0:
            factor([mul(yp, t), neg(yq), neg(yp), 0, 0, 0], 3 ** h)
    return d


def lastpower(m):
    return (3 ** (3 * m) - 1) * (3 ** m + 1) * (3 ** m + 1 - mu(m) * 3 ** ((m + 1) // 2))


def helpers(w):
    """the two steps of the last power, by what they were shown to do"""
    I = w.S.I

    def six(I_, ins, n, a, st):
        ps = [w.cells(st, x) for x in a[:2]]
        if any(p is None for p in ps):
            raise Undecided("operands of %s" % n)
        w.put(st, ps[0], {g: e * (3 ** (3 * w.m) - 1) for g, e in w.get(st, ps[1]).items()}, ins)

    def seven(I_, ins, n, a, st):
        ps = [w.cells(st, x) for x in a[:2]]
        if any(p is None for p in ps):
            raise Undecided("operands of %s" % n)
        x = w.get(st, ps[1])
        for g, e in x.items():
            if e % (3 ** (3 * w.m) - 1):
                raise Undecided("%s: %s of an element that need not have norm 1" % (ir.loc(ins), n))
        w.put(st, ps[0], {g: e * (3 ** w.m + 1) for g, e in x.items()}, ins)
    I.models["algorithm6"] = six
    I.models["algorithm7"] = seven


def value(prog, m, same=False):
    w = World(prog, m)
    S = w.S
    P, Q = w.point("P"), w.point("Q")
    GT = Ptr(w.pr.obj, S.I.slotoff("GT", "pairing_s"))
    R = S.elem(GT, "R")
    helpers(w)
    for f in ("algorithm6", "algorithm7"):
        S.fn(f)
    outs = S.run("pairing_apply", R, P, Q, w.pr, st=S.st.copy())
    if len(outs) != 1:
        raise Undecided("%d ways through" % len(outs))
    st = outs[0][0]
    inner = st.m.get(("m", R.obj, 8))
    ps = w.cells(st, inner) or w.cells(st, R)
    if ps is None:
        raise Undecided("cannot find the result")
    got = w.get(st, ps)
    W = lastpower(m)
    want = {g: e * W % w.Q6 for g, e in oracle(m).items()}
    want = {g: e for g, e in want.items() if e}
    if got == want:
        return None
    extra = [g for g in got if g not in want]
    miss = [g for g in want if g not in got]
    if extra or miss:
        return "degree %d: the value has %d factors that are not line values of the pairing, and lacks %d of its %d" % (m, len(extra), len(miss), len(want))
    return "degree %d: %d of %d line values have the wrong exponent" % (m, sum(got[g] != want[g] for g in got), len(want))


# ---- the two steps
def steps(prog, m):
    w = World(prog, m)
    S = w.S
    for n in list(S.I.models):
        if n in ("element_mul", "element_square", "element_cubic", "element_invert", "element_div", "element_set"):
            del S.I.models[n]
    GT = Ptr(w.pr.obj, S.I.slotoff("GT", "pairing_s"))
    r, u = S.elem(GT, "r"), S.elem(GT, "u")
    return w, S, S.st.m[("m", r.obj, 8)], S.st.m[("m", u.obj, 8)]


def rmul(a, b):
    """components 1, r, r^2"""
    t = [0] * 5
    for i in range(3):
        for j in range(3):
            t[i + j] = add(t[i + j], mul(a[i], b[j]))
    return [red(x) for x in (add(t[0], t[3]), add(add(t[1], t[3]), t[4]), add(t[2], t[4]))]


def vadd(a, b, s=1):
    return [red(add(x, mul(s, y))) for x, y in zip(a, b)]


def smul(a, b):
    """six components"""
    a0, a1, b0, b1 = a[0::2], a[1::2], b[0::2], b[1::2]
    c0, c1 = vadd(rmul(a0, b0), rmul(a1, b1), -1), vadd(rmul(a0, b1), rmul(a1, b0))
    return [c0[0], c1[0], c0[1], c1[1], c0[2], c1[2]]


def conj(a):
    return [x if i % 2 == 0 else red(neg(x)) for i, x in enumerate(a)]


def quotient(prog, m):
    """algorithm6: u^(3^3m - 1), the conjugate over u"""
    w, S, r, u = steps(prog, m)
    ps, qs = w.cells(S.st, r), w.cells(S.st, u)
    us = [A("v", "u%d" % i, 0) for i in range(6)]
    for p, v in zip(qs, us):
        S.st.m[("E", p.obj, p.off)] = v
    dens = {}

    def hook(I, ins, sf, a, st, fr):
        if sf.slot == "invert":
            v = red(I.econt(st, a[1], ins))
            dens[T("den", v)] = v
            I.eset(st, a[0], A("den", v), ins)
            return None
        return w.hook(I, ins, sf, a, st, fr)
    S.I.slot_hook = hook
    for al in (False, True):
        dens.clear()
        outs = S.run("algorithm6", u if al else r, u, st=S.st.copy())
        if len(outs) != 1:
            raise Undecided("%d ways" % len(outs))
        got = [red(S.I.econt(outs[0][0], p)) for p in (qs if al else ps)]
        if len(dens) != 1:
            raise Undecided("%d inversions" % len(dens))
        (dt, dv), = dens.items()
        num = []
        for g in got:
            # every component is a multiple of the inverse, or free of it
            s = 0
            for mono, c in (g.d.items() if not isinstance(g, int) else [((), g)] if g else []):
                k = dict(mono)
                e = k.pop(dt.id, 0)
                if e > 1:
                    raise Undecided("power of an inverse")
                x = Poly({tuple(sorted(k.items())): c})
                if e == 0:
                    x = mul(x, dv)
                s = add(s, x)
            num.append(red(s))
        lhs = smul(num, us)
        rhs = [red(mul(dv, x)) for x in conj(us)]
        if lhs != rhs:
            return "algorithm6%s does not give the conjugate over its operand" % (" in place" if al else "")


def torus(prog, m):
    """algorithm7: U^(3^m + 1) for U of norm 1, U = (1 - z^2 + 2 z s)/(1 + z^2)"""
    w, S, r, u = steps(prog, m)
    ps, qs = w.cells(S.st, r), w.cells(S.st, u)
    us = [A("v", "u%d" % i, 0) for i in range(6)]
    for p, v in zip(qs, us):
        S.st.m[("E", p.obj, p.off)] = v
    z = [A("v", "z%d" % i, 0) for i in range(3)]
    z2 = rmul(z, z)
    den = vadd([1, 0, 0], z2)
    # norm and cofactor of den from its conjugates r -> r + 1, r -> r + 2
    def shift(a, k):
        return [red(add(a[0], add(mul(k, a[1]), mul(k * k, a[2])))), red(add(a[1], mul(2 * k, a[2]))), red(a[2])]
    cof = rmul(shift(den, 1), shift(den, 2))
    nrm = rmul(den, cof)
    if nrm[1] != 0 or nrm[2] != 0:
        raise Undecided("norm")
    D = nrm[0]
    v0 = rmul(vadd([1, 0, 0], z2, -1), cof)
    v1 = rmul([mul(2, x) for x in z], cof)
    U = [v0[0], v1[0], v0[1], v1[1], v0[2], v1[2]]
    n1 = smul(U, conj(U))
    if n1 != [red(mul(D, D)), 0, 0, 0, 0, 0]:
        raise Undecided("norm of the generic element")
    F = list(Sextic(m).frob([A("v", "w%d" % i, 0) for i in range(6)], m))
    sub_ = {T("v", "w%d" % i, 0): U[i] for i in range(6)}
    FU = [red(subst_fn(x, lambda t: sub_.get(t))) for x in F]
    want = smul(U, FU)
    usub = {T("v", "u%d" % i, 0): U[i] for i in range(6)}
    for al in (False, True):
        outs = S.run("algorithm7", u if al else r, u, st=S.st.copy())
        if len(outs) != 1:
            raise Undecided("%d ways" % len(outs))
        got = [red(S.I.econt(outs[0][0], p)) for p in (qs if al else ps)]
        for i, g in enumerate(got):
            s = 0
            for mono, c in (g.d.items() if not isinstance(g, int) else [((), g)] if g else []):
                deg = sum(e for t, e in mono)
                if deg > 2:
                    raise Undecided("degree %d" % deg)
                x = subst_fn(Poly({mono: c}), lambda t: usub.get(t)) if mono else c
                s = red(add(s, mul(x, power(D, 2 - deg))))
            if s != want[i]:
                return "algorithm7%s, degree %d: component %d of the power 3^m + 1 is wrong" % (" in place" if al else "", m, i)


# ---- the parameters that can be generated
def prime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in range(2, 42):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def irreducible(f, m):
    """Rabin's test over GF(3); f a list of coefficients, degree m"""
    low = [(i, c) for i, c in enumerate(f[:m]) if c]

    def mod(a):
        for i in range(len(a) - 1, m - 1, -1):
            c = a[i] % 3
            if c:
                for j, k in low:
                    a[i - m + j] -= c * k
            a[i] = 0
        return [x % 3 for x in a[:m]]

    def cube(a):
        b = [0] * (3 * m)
        for i, x in enumerate(a):
            b[3 * i] = x
        return mod(b)

    def gcd1(a):
        x, y = list(f), list(a)

        def trim(p):
            while p and p[-1] % 3 == 0:
                p.pop()
            return p
        trim(x), trim(y)
        while y:
            inv_ = y[-1] % 3
            while len(x) >= len(y):
                c = x[-1] * inv_ % 3
                k = len(x) - len(y)
                for i, v in enumerate(y):
                    x[k + i] = (x[k + i] - c * v) % 3
                trim(x)
                if not x:
                    break
            x, y = y, x
        return len(x) == 1
    ds = {m // p for p in range(2, m + 1) if m % p == 0 and prime(p)}
    a = [0, 1] + [0] * (m - 2)
    for k in range(1, m + 1):
        a = cube(a)
        if k in ds:
            b = list(a)
            b[1] -= 1
            if not gcd1([x % 3 for x in b]):
                return False
    return a == [0, 1] + [0] * (m - 2)


def modulus(prog, m, t):
    """the polynomial field_init_gf3m makes for m, t: +-x^m + ... from its documentation x^m + x^t + 2"""
    f = [0] * (m + 1)
    f[0], f[t], f[m] = 2, 1, 1
    return f


def generated(prog, size):
    S = Scenario(prog)
    S.I.unroll_any = True
    S.I.initglobs = pair.Start()
    par = S.raw("param")
    vals = {}

    def setstr(I, ins, n, a, st):
        s = pair.cstring(I, a[1])
        if s is None or not isinstance(a[2], int):
            raise Undecided("number")
        I.zset(st, a[0], int(s, a[2] or 10), ins)
        return 0
    S.I.models["__gmpz_set_str"] = setstr
    stop = []

    def die(I, ins, n, a, st):
        stop.append(1)
        return []
    S.I.models["pbc_die"] = die
    outs = S.run("pbc_param_init_i_gen", par, size)
    if stop or not outs:
        return None
    if len(outs) != 1:
        raise Undecided("%d ways" % len(outs))
    S.st = outs[0][0]
    # what the parameters say, by their own output
    got = {}

    def oint(I, ins, n, a, st):
        got[pair.cstring(I, a[1])] = a[2]

    def ompz(I, ins, n, a, st):
        got[pair.cstring(I, a[1])] = I.zcont(st, a[2])
    S.I.models["param_out_int"] = oint
    S.I.models["param_out_mpz"] = ompz
    S.I.models["param_out_type"] = lambda I, ins, n, a, st: got.update(type=pair.cstring(I, a[1]))
    S.run("pbc_param_out_str", S.raw("stream"), par)
    if set(got) != {"type", "m", "t", "n", "n2"} or not all(isinstance(got[k], int) for k in ("m", "t", "n", "n2")):
        raise Undecided("parameters %s" % (got,))
    m, t, n, n2 = (got[k] for k in ("m", "t", "n", "n2"))
    return check_params(size, got["type"], m, t, n, n2)


SEEN = {}


def check_params(size, ty, m, t, n, n2):
    if (ty, m, t, n, n2) not in SEEN:
        SEEN[ty, m, t, n, n2] = table(ty, m, t, n, n2)
    bad = SEEN[ty, m, t, n, n2]
    if bad:
        return bad
    if n.bit_length() < size:
        return "group size %d: the order has %d bits" % (size, n.bit_length())


def table(ty, m, t, n, n2):
    if ty != "i":
        return "type %s" % ty
    if m % 2 == 0 or m % 3 == 0 or not 0 < t < m:
        return "m = %d, t = %d" % (m, t)
    if n * n2 != 3 ** m + 1 + mu(m) * 3 ** ((m + 1) // 2):
        return "m = %d: n n2 is not the number of points of the curve" % m
    if not prime(n):
        return "m = %d: n is not prime" % m
    f = [0] * (m + 1)
    f[0], f[t], f[m] = 2, 1, 1
    if not irreducible(f, m):
        return "m = %d, t = %d: the modulus is reducible" % (m, t)


def main():
    absint.MAXUNROLL = 3000
    deep = os.environ.get("VERIF_TIER", "quick") != "quick"
    prog = program()
    c = Check("C28", "The value of the type I pairing is followed as a product of powers of sparse line values (Frobenius powers of the coordinates as symbols, exponents mod 3^6m - 1) and compared with the published "
              "eta_T formula raised to its last power; the two steps of the last power are polynomial identities over GF(3); the generated parameters are read off and checked against the theory.",
              floor=12, assumptions=["degrees m from a list that has every residue mod 12 several times", "the published formula is a pairing", "the field of 3^m elements computes as a field (C01, C25)"])
    ms = [5, 7, 11, 13, 17, 19, 23, 25, 97, 199] if not deep else [m for m in range(5, 140) if m % 6 in (1, 5)] + [163, 167, 193, 199, 235, 239, 353, 395, 467, 503, 509, 617]
    its = [("value", m) for m in sorted(ms, reverse=True)] + [(k, m) for k in ("quotient", "torus") for m in (5, 7, 11, 13, 17, 19, 97)]
    sizes = [1, 97, 150, 151, 160, 206, 207, 259, 260, 316, 317, 376, 377, 430, 431, 484, 485, 552, 553, 644, 645, 696, 697, 803, 804, 892, 893, 5000] if not deep else list(range(1, 900))
    its += [("generated", s) for s in sizes]

    def work(s, it):
        s.ob(" ".join(map(str, it)), lambda: globals()[it[0]](prog, it[1]))
    c.parallel(its, work)
    return c.finish()
