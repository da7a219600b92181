"""Every exponentiation routine computes the power."""
import random
from engine.check import Check, program
from engine.ops import *
from engine.poly import show
import engine.absint as AI

SIZES = (1, 2, 3, 4, 5, 8, 16, 31, 32, 33, 47, 48, 49, 63, 64, 65, 128, 157, 158, 256, 474, 475, 512, 1324, 1325)
DEEP = (3529, 3530, 9065, 9066)


def exponents(thorough):
    """small exponents, and for every size class of the window tables the extreme and mixed bit patterns"""
    L = list(range(0, 70 if not thorough else 600))
    rnd = random.Random(7)
    for b in SIZES + (DEEP if thorough else DEEP[:2]):
        L += [1 << (b - 1), (1 << b) - 1, (1 << (b - 1)) + 1, ((1 << b) - 1) ^ 2 if b > 2 else 1,
              int("10" * ((b + 1) // 2), 2), int("1100" * ((b + 3) // 4), 2), int("1" + "0" * (b // 2) + "1" * (b // 2), 2)]
        for _ in range(2 if not thorough else 12):
            L.append(rnd.getrandbits(b) | 1 << (b - 1))
    return sorted(set(L))


ORDERS = (2, 3, 7, 31, 32, 33, 1009, 1021, (1 << 31) - 1, (1 << 61) - 1, (1 << 89) - 1, (1 << 127) - 1)


class Group:
    """an abstract group reached through `make(S) -> (field, put, get)`"""

    def __init__(self, name, make):
        self.name, self.make = name, make


def generic(S, order=None):
    k = GenericKind(order, PRIMITIVE)
    F = k.setup(S)
    return F, lambda e, v: S.setE(e, v), lambda e, st: S.I.econt(st, e)


def gt(S, order=None):
    """the target group wrapping a field that inherits the default operations"""
    k = GenericKind(order, PRIMITIVE)
    K = k.setup(S)
    P = S.raw("pairing")
    if order is not None:
        S.st.m[("Z", P.obj, S.I.slotoff("r", "pairing_s"))] = order
    S.run1("pairing_GT_init", P, K)
    G = pairing_member(S, P, "GT")

    def inner(e, st):
        d = st.m.get(("m", e.obj, add(e.off, 8)))
        if not isinstance(d, Ptr):
            raise Undecided("no wrapped element")
        return d

    def put(e, v):
        S.setE(inner(e, S.st), v)
    return G, put, lambda e, st: S.I.econt(st, inner(e, st))


def pairing_member(S, P, name):
    n = S.I.slotoff(name, "pairing_s")
    if name in ("G1", "G2"):
        return S.I.load(S.st, Ptr(P.obj, n), ir.PTR)
    return Ptr(P.obj, n)


def power(v, n):
    r = 1
    b = v
    while n:
        if n & 1:
            r = mul(r, b)
        b = mul(b, b)
        n >>= 1
    return r


def expo(v, names, order=None):
    """exponents of the named bases in a monomial, or None"""
    if v == 1:
        return {}
    if not isinstance(v, Poly) or len(v.d) != 1:
        return None
    (m, c), = v.d.items()
    if c != 1:
        return None
    out = {}
    for t, e in m:
        t = Term.byid[t]
        if t.op == "inv":
            return None
        for n in names:
            if A("v", n) == atom(t):
                out[n] = out.get(n, 0) + e
                break
        else:
            return None
    return out


def check_value(v, spec, order=None):
    """v is the product of bases with the exponents in spec"""
    names = list(spec)
    if not is_val(v):
        raise Undecided("result is not a value")
    bad = {t.op for t in all_terms(v)} - {"v", "inv"}
    if bad:
        raise Undecided("result not resolved: %s" % ", ".join(sorted(bad)))
    got = expo(v, names)
    if got is None:
        return "result %s is not a product of powers of the bases" % show(v)[:120]
    for n in names:
        g, w = got.get(n, 0), spec[n]
        if g != w and (order is None or (g - w) % order):
            return "%s is raised to %s instead of %s" % (n, sh(g), sh(w))
    return None


def sh(n):
    return str(n) if n < 1 << 70 else hex(n)[:24] + "...(%d bits)" % n.bit_length()


def single(prog, c, g, api, n, alias=False):
    def f():
        S = Scenario(prog)
        F, put, get = g.make(S)
        a, x = S.elem(F, "a"), S.elem(F, "x")
        put(a, A("v", "a"))
        put(x, A("v", "old"))
        z = S.mpz("z", n)
        if alias:
            x = a
        res = S.run(api, x, a, z)
        c.funcs.update(q.name for q in S.I.analysed)
        return all_exits(res, lambda st: get(x, st), {"a": n})
    c.ob("%s: %s, exponent %s%s" % (g.name, api, sh(n), " in place" if alias else ""), f)


def all_exits(res, get, spec, order=None):
    if len(res) < 1:
        raise Undecided("no exit")
    for st, rv in res:
        d = check_value(get(st), spec, order)
        if d:
            return d
    return None


def multi(prog, c, g, api, ns, alias=0):
    names = ["a%d" % (i + 1) for i in range(len(ns))]

    def f():
        S = Scenario(prog)
        F, put, get = g.make(S)
        es = [S.elem(F, n) for n in names]
        for e, n in zip(es, names):
            put(e, A("v", n))
        x = S.elem(F, "x")
        put(x, A("v", "old"))
        if alias:
            x = es[alias - 1]
        args = [x]
        for i, n in enumerate(ns):
            args += [es[i], S.mpz("z%d" % i, n)]
        res = S.run(api, *args)
        c.funcs.update(q.name for q in S.I.analysed)
        return all_exits(res, lambda st: get(x, st), dict(zip(names, ns)))
    c.ob("%s: %s, exponents %s%s" % (g.name, api, ", ".join(map(sh, ns)), ", output is base %d" % alias if alias else ""), f)


def table(prog, c, g, order, ns):
    """preprocess once, then every exponent; the analysed states branch off the prepared one"""
    S = Scenario(prog)
    name = "%s: preprocessed power, order %s" % (g.name, sh(order))
    try:
        F, put, get = g.make(S, order)
        a, x = S.elem(F, "a"), S.elem(F, "x")
        put(a, A("v", "a"))
        put(x, A("v", "old"))
        pp = S.raw("pp")
        S.run1("element_pp_init", pp, a)
        put(a, A("v", "changed"))       # the table may not refer to the caller's element
    except (Undecided, Missing) as e:
        c.undecided(name, str(e))
        return
    for n in ns:
        def f():
            res = S.run("element_pp_pow", x, S.mpz("z", n), pp, st=S.st.copy())
            return all_exits(res, lambda st: get(x, st), {"a": n}, order)
        c.ob("%s, exponent %s" % (name, sh(n)), f)
    c.funcs.update(q.name for q in S.I.analysed)


def zn(prog, c, g, api, ns):
    """exponents given as elements of a residue ring"""
    def f():
        S = Scenario(prog)
        F, put, get = g.make(S, (1 << 61) - 1) if "pp" in api else g.make(S)
        R = S.new_field("Zn", "field_init_naive_fp", S.mpz("n", (1 << 61) - 1))
        names = ["a%d" % (i + 1) for i in range(len(ns))]
        x = S.elem(F, "x")
        put(x, A("v", "old"))
        args = [x]
        for n, v in zip(names, ns):
            e, r = S.elem(F, n), S.elem(R, "r" + n)
            put(e, A("v", n))
            S.run1("element_set_mpz", r, S.mpz("m" + n, v))
            args += [e, r]
        if "pp" in api:
            pp = S.raw("pp")
            S.run1("element_pp_init", pp, args[1])
            args = [x, args[2], pp]
        res = S.run(api, *args)
        c.funcs.update(q.name for q in S.I.analysed)
        if api == "element_mul_zn":
            for st, rv in res:
                v = get(x, st)
                if v != mul(ns[0], A("v", "a1")):
                    if is_val(v) and not ({t.op for t in all_terms(v)} - {"v", "inv"}):
                        return "%s instead of %d times the element" % (show(v), ns[0])
                    raise Undecided("not resolved")
            return None
        return all_exits(res, lambda st: get(x, st), dict(zip(names, ns)))
    c.ob("%s: %s, exponents %s" % (g.name, api, ", ".join(map(sh, ns))), f)


def main():
    AI.MAXUNROLL = 20000
    prog = program()
    c = Check("C23", "Exponentiation routines are interpreted over an abstract group (multiplication adds exponents of a monomial) for "
              "each exponent of an enumerated family: every small exponent and the extreme, sparse and mixed bit patterns of every "
              "length class at which a routine changes its window; the resulting monomial must have exactly the requested exponent.",
              floor=50)
    th = c.tier == "thorough"
    groups = [Group("default operations", generic), Group("target group", gt)]
    E = exponents(th)
    jobs = []
    for g in groups:
        for i in range(0, len(E), 12):
            jobs.append(("single", g, E[i:i + 12]))
        small = [0, 1, 2, 3, 5, 6, 13, 64, 127]
        big = [0, 1, 2, (1 << 40) + 5, (1 << 160) - 3, (1 << 161) + (1 << 80)]
        pairs = [(a, b) for a in small for b in small] + [(a, b) for a in big for b in big]
        for i in range(0, len(pairs), 20):
            jobs.append(("multi", g, "element_pow2_mpz", pairs[i:i + 20]))
        s3 = [0, 1, 2, 5, 12]
        b3 = [0, 1, (1 << 40) + 5, (1 << 160) - 3]
        tr = [(x, y, z) for x in s3 for y in s3 for z in s3] + [(x, y, z) for x in b3 for y in b3 for z in b3]
        for i in range(0, len(tr), 20):
            jobs.append(("multi", g, "element_pow3_mpz", tr[i:i + 20]))
        for o in ORDERS:
            ns = sorted({0, 1, 2, 3, 30, 31, 32, 33, 62, 63, 1023, 1024, 1025, o - 1, o, o + 1, o // 2, 2 * o, 3 * o + 5, o * o + 1,
                         (1 << o.bit_length()) - 1, 1 << o.bit_length()} | set(random.Random(o).randrange(o) for _ in range(8 if not th else 60)))
            jobs.append(("table", g, o, ns))
        jobs.append(("zn", g))

    def work(s, j):
        AI.MAXUNROLL = 20000
        g = j[1]
        if j[0] == "single":
            for n in j[2]:
                single(prog, s, g, "element_pow_mpz", n)
                single(prog, s, g, "element_pow_mpz", n, True)
        elif j[0] == "multi":
            for ns in j[3]:
                for al in range(0, len(ns) + 1):
                    multi(prog, s, g, j[2], ns, al)
        elif j[0] == "table":
            table(prog, s, g, j[2], j[3])
        else:
            for n in (0, 1, 2, 77, (1 << 60) + 12345):
                zn(prog, s, g, "element_pow_zn", (n,))
                zn(prog, s, g, "element_pp_pow_zn", (n,))
                zn(prog, s, g, "element_pow2_zn", (n, 9))
                zn(prog, s, g, "element_pow2_zn", (6, n))
                zn(prog, s, g, "element_pow3_zn", (n, 9, 4))
                zn(prog, s, g, "element_pow3_zn", (3, 10, n))
                if g is groups[0]:
                    zn(prog, s, g, "element_mul_zn", (n,))
    c.parallel(jobs, work, limit=600)
    return c.finish()
