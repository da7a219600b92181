"""Points that the library makes or accepts lie on the curve."""
from engine.check import Check, program
from engine.scen import Scenario, Missing
from engine.absint import Fn, Ptr, SlotFn, Undecided
from engine.ops import *
from engine.poly import *
from engine.poly import T, A, as_atom, Poly, terms, all_terms
from engine import ir, groupkinds as G_


class World:
    def __init__(self, prog, g, cofac=True, scalar="point", how=None):
        self.S = S = Scenario(prog)
        self.I = I = S.I
        self.k = k = CurveKind(g)
        self.scalar = scalar
        self.bad, self.n, self.mults, self.F, self.cofac = [], 0, {}, None, cofac
        self.eta = g is not G_.Curve
        k.setup(S)
        c = k.c
        self.K = c.K
        for nm in ("element_mul_mpz", "element_pow_mpz"):
            I.models[nm] = self.m_mul
        I.split = "branches"
        self.F = F = Ptr(I.named("heap", "field", "F2"), 0)
        if self.eta:
            outs = S.run(c.name, F, self.K, st=S.st.copy())
            for st, _ in outs:
                st.m[("m", F.obj, I.slotoff("pairing"))] = S.raw("pairing")
                st.m[("m", S.raw("pairing").obj, I.slotoff("data", "pairing_s"))] = S.raw("pairing data")
        else:
            es = []
            for nm, v in (("A2", c.a), ("B2", c.b)):
                e = Ptr(I.named("heap", "elem", nm), 0)
                S.run1("element_init", e, self.K)
                S.setE(e, v)
                es.append(e)
            outs = S.run(how or c.name, F, es[0], es[1], S.mpz("order"), S.mpz("cofac") if cofac else 0, st=S.st.copy())
        self.starts = [st for st, _ in outs]
        if not self.starts:
            raise Undecided("the group is not set up")

    def elem(self, st, name, F=None):
        S = self.S
        s0, S.st = S.st, st
        e = S.elem(F or self.F, name)
        st2, S.st = S.st, s0
        return e, st2

    def coef(self, st):
        if self.eta:
            return self.k.c.a, self.k.c.b
        out = []
        for f in ("curve_field_a_coeff", "curve_field_b_coeff"):
            (s, p), = self.S.run(f, self.F, st=st.copy())
            out.append(self.I.econt(s, p))
        return out

    def eq(self, x, y, st):
        a, b = self.coef(st)
        return sub(power(y, 2), add(add(power(x, 3), mul(a, x)), b))

    def ours(self, e, st):
        f = st.m.get(("m", e.obj, e.off)) if isinstance(e, Ptr) else None
        return isinstance(f, Ptr) and f.obj.kind != "field" and f.obj is self.F.obj

    def m_mul(self, I, ins, n, a, st):
        if not self.ours(a[0], st) or not self.ours(a[1], st):
            return NotImplemented
        m = self.judge(a[1], st)
        if m:
            self.bad.append("the point multiplied: " + m)
        prev = self.origin(a[1], st)
        if self.scalar == "O":
            self.putO(a[0], st)
        else:
            self.n += 1
            x, y = A("v", "m%d" % self.n, "x"), A("v", "m%d" % self.n, "y")
            self.mults[(as_atom(x), as_atom(y))] = prev + [I.zcont(st, a[2])]
            self.put(a[0], st, x, y)
            I.assume(st, I.is0(self.eq(x, y, st)), True)

    def origin(self, e, st):
        v = self.view(e, st)
        if "x" in v:
            return self.mults.get((as_atom(v["x"]), as_atom(v["y"])), [])
        return []

    def putO(self, e, st):
        s0, self.S.st = self.S.st, st
        self.k.c.put(self.S, e, G_.INF)
        self.S.st = s0

    def put(self, e, st, x, y):
        s0, self.S.st = self.S.st, st
        self.k.c.put(self.S, e, (x, y))
        self.S.st = s0

    def view(self, e, st):
        return self.k.view(self.S, e, st)

    def judge(self, e, st):
        """None if the element is O or a point of the curve on this path"""
        v = self.view(e, st)
        if v.get("zero"):
            return None
        if "flag" in v:
            raise Undecided("flag of the point: %s" % show(v["flag"])[:120])
        x, y = v["x"], v["y"]
        if oncurve(self, x, y, st):
            return None
        r = repr(x) + repr(y)
        ph = {t for v in (x, y) if isinstance(v, Poly) for t in all_terms(v) if t.op in ("phi", "lphi")}
        one = len(ph) == 1 and isinstance(x, Poly) and any(t in ph for t in all_terms(x))
        if ph and not one or "undef" in r:
            raise Undecided("point (%s, %s)" % (show(x)[:80], show(y)[:80]))
        return "(%s, %s) is not known to satisfy the equation of the curve" % (show(x)[:70], show(y)[:90])


def oncurve(w, x, y, st):
    d = w.eq(x, y, st)
    rules = []
    for t, b in st.facts.items():
        if t.op == "is_sqr" and b:
            rules.append((T("sqrt", t.args[0]), 2, t.args[0]))
    if equal(d, 0, w.k.char, rules):
        return True
    for t, b in st.facts.items():
        if t.op == "is0" and b and is_val(t.args[0]):
            f = t.args[0]
            for c in (1, -1):
                if equal(d, mul(c, f), w.k.char, rules):
                    return True
    # y a linear function of an atom whose square is known
    for t, b in st.facts.items():
        if t.op == "is0" and b and isinstance(t.args[0], Poly):
            for c in (1, -1):
                f = mul(c, t.args[0])
                for a in (terms(y) if isinstance(y, Poly) else ()):
                    r = sub(power(A1(a), 2), f)
                    if a.op == "sqrt" and a not in terms(r) and equal(reduce_(d, [(a, 2, r)]), 0, w.k.char):
                        return True
    return False


def A1(t):
    return A(t.op, *t.args)


def reduce_(d, rules):
    from engine.poly import reduce_rules
    return reduce_rules(d, rules)


def random_(w, how):
    S = w.S
    for st in w.starts:
        if how == "solve":
            (st, _), = S.run("field_curve_use_random_solvefory", w.F, st=st)
        a, st = w.elem(st, "a")
        w.putO(a, st)
        yield a, S.run("element_random", a, st=st.copy()), True


def hash_(w):
    S = w.S
    for st in w.starts:
        a, st = w.elem(st, "a")
        w.putO(a, st)
        yield a, S.run("element_from_hash", a, S.raw("data"), A("v", "n"), st=st.copy()), True


def generator(w):
    S = w.S
    for st in w.starts:
        a, st = w.elem(st, "a")
        w.putO(a, st)
        yield a, S.run("curve_set_gen_no_cofac", a, st=st.copy()), False


def decode(w, fn):
    S, I = w.S, w.I
    LEN = A("v", "len")
    for st in w.starts:
        st.m[("m", w.K.obj, I.slotoff("fixed_length_in_bytes"))] = LEN
        st.facts[T("neg", LEN)] = 0
        b = S.raw("data")
        st.m[("L", b.obj)] = A("v", "data")
        for old in (0, 1):
            a, st1 = w.elem(st.copy(), "a")
            w.put(a, st1, A("v", "old", "x"), A("v", "old", "y")) if old else w.putO(a, st1)
            yield a, S.run(fn, a, b, st=st1), False


def fresh(w):
    def hook(I_, ins, sf, a, st, fr):
        if sf.slot in ("set_multiz", "set_str", "set_mpz"):
            w.n += 1
            w.I.eset(st, a[0], A("v", "given%d" % w.n), ins)
            return A("v", "ret%d" % w.n)
        return NotImplemented
    w.I.slot_hook = hook


def multiz_(w, isz):
    S, I = w.S, w.I
    fresh(w)
    I.models["multiz_is_z"] = lambda I_, ins, n, a, st: isz
    I.models["multiz_is0"] = lambda I_, ins, n, a, st: A("nz", A("v", "whether it is zero"))
    I.models["multiz_count"] = lambda I_, ins, n, a, st: A("v", "count")
    I.models["multiz_at"] = lambda I_, ins, n, a, st: S.raw("item %s" % (a[1],))
    I.models["pbc_warn"] = lambda I_, ins, n, a, st: None
    for st in w.starts:
        for old in (0, 1):
            a, st1 = w.elem(st.copy(), "a")
            if old:
                x, y = A("v", "old", "x"), A("v", "old", "y")
                w.put(a, st1, x, y)
                I.assume(st1, I.is0(w.eq(x, y, st1)), True)
            else:
                w.putO(a, st1)
            f = S.slot_in(w.F, "set_multiz", st1)
            yield a, S.run(f, a, S.raw("multiz"), st=st1), False


def text(w):
    S, I = w.S, w.I
    fresh(w)
    I.models["__ctype_b_loc"] = lambda I_, ins, n, a, st: S.raw("ctype")
    for st in w.starts:
        a, st = w.elem(st, "a")
        w.put(a, st, A("v", "old", "x"), A("v", "old", "y"))
        yield a, S.run("element_set_str", a, S.raw("text"), 10, st=st.copy()), False


def from_x(w):
    S = w.S
    for st in w.starts:
        a, st = w.elem(st, "a")
        w.putO(a, st)
        x, st = w.elem(st, "x", w.K)
        st.m[("E", x.obj, x.off)] = A("v", "x")
        yield a, S.run("curve_from_x", a, x, st=st.copy()), False


def twist(w, then):
    S, I = w.S, w.I
    new = []
    for st in w.starts:
        for st2, _ in S.run("field_reinit_curve_twist", w.F, st=st.copy()):
            new.append(st2)
    w.starts = new
    return then(w)


def drive(w, gen):
    n = 0
    for a, outs, sub_ in gen:
        for st, _ in outs:
            n += 1
            if w.bad:
                return w.bad[0]
            m = w.judge(a, st)
            if m:
                return m
            v = w.view(a, st)
            if sub_ and w.cofac and not w.eta and w.scalar == "point" and "x" in v:
                if not any(equal(z, A("v", "cofac")) for z in w.origin(a, st)):
                    return "the point is not multiplied by the cofactor, so it may lie outside the group of the given order"
    if not n:
        raise Undecided("no path returns")
    return None


def cases():
    C = G_.Curve
    for cof in (True, False):
        for sc in ("point", "O"):
            t = "%s cofactor%s" % ("with" if cof else "without", "" if sc == "point" else ", multiple O")
            yield "random point, " + t, lambda p, cof=cof, sc=sc: drive2(p, C, cof, sc, lambda w: random_(w, None))
            yield "random point by solving for y, " + t, lambda p, cof=cof, sc=sc: drive2(p, C, cof, sc, lambda w: random_(w, "solve"))
            yield "hashed point, " + t, lambda p, cof=cof, sc=sc: drive2(p, C, cof, sc, hash_)
        yield "generator, with%s cofactor" % ("" if cof else "out"), lambda p, cof=cof: drive2(p, C, cof, "point", generator)
        yield "random point of the twist, with%s cofactor" % ("" if cof else "out"), \
            lambda p, cof=cof: drive2(p, C, cof, "point", lambda w: twist(w, lambda w: random_(w, None)))
        yield "generator of the twist, with%s cofactor" % ("" if cof else "out"), \
            lambda p, cof=cof: drive2(p, C, cof, "point", lambda w: twist(w, generator))
    for fn in ("element_from_bytes", "element_from_bytes_compressed", "element_from_bytes_x_only"):
        yield fn, lambda p, fn=fn: drive2(p, C, True, "point", lambda w: decode(w, fn))
    yield "point of given x", lambda p: drive2(p, C, True, "point", from_x)
    for z in (0, 1):
        yield "coordinates given as integers, " + ("one integer" if z else "a list"), lambda p, z=z: drive2(p, C, True, "point", lambda w: multiz_(w, z))
    yield "coordinates given as text", lambda p: drive2(p, C, True, "point", text)
    yield "random point of the ternary curve", lambda p: drive2(p, G_.Eta3, True, "point", lambda w: random_(w, None))


def drive2(prog, g, cof, sc, f):
    w = World(prog, g, cof, sc)
    return drive(w, f(w))


def main():
    prog = program()
    c = Check("C12", "Abstract interpretation of every way a point is made, on every path: the result is O or its coordinates satisfy the equation "
              "under the path's conditions (a root is used only where a square was established, or the equation was tested).",
              floor=10, assumptions=["multiples of points of the curve are points of the curve (C02)"])
    c.parallel(list(cases()), lambda s, it: s.ob(it[0], lambda: it[1](prog)))
    return c.finish()
