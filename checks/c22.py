"""Prime fields compute modulo p and keep residues canonical."""
from engine.check import Check, program
from engine.fp import *
from engine.poly import show, TooBig

a, b = A("$a"), A("$b")
Z, N = A("v", "z"), A("v", "n")


def two():
    return inv(2)


SPEC = {
    "element_set": lambda a: a, "element_add": lambda a, b: add(a, b), "element_sub": lambda a, b: sub(a, b),
    "element_mul": lambda a, b: mul(a, b), "element_div": lambda a, b: mul(a, inv(b)), "element_double": lambda a: add(a, a),
    "element_halve": lambda a: mul(a, inv(2)), "element_square": lambda a: mul(a, a), "element_neg": lambda a: neg(a),
    "element_invert": lambda a: inv(a), "element_mul_mpz": lambda a: mul(a, Z), "element_mul_si": lambda a: mul(a, N),
    "element_pow_mpz": lambda a: A("pow", a, Z) if a != 0 else None, "element_set_mpz": lambda: Z, "element_set_si": lambda: N,
    "element_set0": lambda: 0, "element_set1": lambda: 1,
}
ANY = ("element_from_hash", "element_from_bytes", "element_random")


def concrete(api, xs, m):
    """the specification on integers modulo m.p"""
    p = m.p
    if api == "element_div":
        return xs[0] * pow(xs[1], -1, p) % p
    if api == "element_invert":
        return pow(xs[0], -1, p)
    if api == "element_halve":
        return xs[0] * pow(2, -1, p) % p
    if api == "element_pow_mpz":
        return pow(xs[0], m.number(("z",)), p)
    z, n = m.number(("z",)), m.number(("n",))
    return {"element_set": lambda: xs[0], "element_add": lambda: xs[0] + xs[1], "element_sub": lambda: xs[0] - xs[1],
            "element_mul": lambda: xs[0] * xs[1], "element_double": lambda: 2 * xs[0], "element_square": lambda: xs[0] ** 2,
            "element_neg": lambda: -xs[0], "element_mul_mpz": lambda: xs[0] * z, "element_mul_si": lambda: xs[0] * n,
            "element_set_mpz": lambda: z, "element_set_si": lambda: n, "element_set0": lambda: 0, "element_set1": lambda: 1}[api]() % p


def stored(view):
    """the stored number of a view: 0 for the marked zero"""
    if "zero" in view:
        return 0
    vs = [v for p, v in view.items() if isinstance(p, tuple) and p[1] in ("L", "Z")]
    if len(vs) != 1 or not is_val(vs[0]):
        raise Undecided("stored number not resolved")
    return vs[0]


def inputs(r):
    return [0 if "zero" in (w := r.k.view(r.S, e, r.before)) else stored(w) for e in r.args_in]


def match(m, run, st):
    for k, v in st.facts.items():
        if run.before.facts.get(k) == v:
            continue
        if m.truth(k) != v:
            return False
    return True


def witness(r, api, exits, judge, seeds):
    """search an interpretation of the names that reaches an exit with a wrong result"""
    k = r.k
    sat = 0
    for seed in range(seeds):
        m = FpModel(seed, k, small=api == "element_pow_mpz")
        for st, view, rv in exits:
            try:
                if not match(m, r, st):
                    continue
                sat += 1
                d = judge(m, st, view, rv)
            except (Undecided, ZeroDivisionError, ValueError):
                continue
            if d:
                return d + " (modulus %s)" % hex(m.p)
    return None


def decode(m, k, x):
    return x * pow(m.R, -1, m.p) % m.p if k.mont else x % m.p


def arithmetic(r, api, proof):
    k = r.k
    S = r.S
    ins = inputs(r)
    exits = [(st, k.view(S, r.out, st), rv) for st, rv in r.res]

    def judge(m, st, view, rv):
        v = m.i(stored(view))
        lo = 1 if k.flagged and "zero" not in view else 0
        if not (lo <= v < m.p) and "zero" not in view:
            return "stored number %s is outside [%d, modulus): %s" % (hex(v), lo, show(stored(view))[:120])
        if api in ANY:
            return None
        xs = [decode(m, k, m.i(x)) for x in ins]
        want = concrete(api, xs, m)
        if decode(m, k, v) != want:
            return "for operands %s the result represents %s instead of %s: %s" % (
                ", ".join(map(hex, xs)), hex(decode(m, k, v)), hex(want), show(stored(view))[:120])
        return None
    d = witness(r, api, exits, judge, 160)
    if d:
        return d
    if not proof:
        raise Undecided("no counterexample, not proved at this size")
    rs = Residue(k)
    Rinv = inv(rs.R()) if k.mont else 1
    L = S.I.lin
    for st, view, rv in exits:
        v = stored(view)
        lo = 1 if k.flagged and "zero" not in view else 0
        if "zero" not in view:
            cs = L.sharpen(st)
            if not (isinstance(v, int) and v == 1):
                if not L.entails(st, sub(v, lo), cs) and not nonneg(v, lo, st):
                    raise Undecided("lower bound of %s not derived" % show(v)[:80])
                if not L.entails(st, sub(sub(k.p, 1), v), cs) and not below(v, k.p):
                    raise Undecided("upper bound of %s not derived" % show(v)[:80])
        if api in ANY:
            continue
        sp = SPEC[api](*[mul(x, Rinv) for x in ins])
        if sp is None:
            continue
        if not rs.same(mul(v, Rinv), sp):
            # equal under the path's equations?
            if not congruent(rs, st, sub(mul(v, Rinv), sp)):
                raise Undecided("residue %s not recognised" % show(rs.nf(mul(v, Rinv)))[:100])
    return None


def congruent(rs, st, d):
    """d is a rational multiple of a value the path knows to be zero"""
    x = rs.nf(d)
    if not isinstance(x, Poly):
        return x == 0
    rx = rows(x)
    known = [k.args[0] for k, v in st.facts.items() if k.op == "is0" and v and is_val(k.args[0])]
    # a number that is not negative and not positive
    known += [k.args[0] for k, v in st.facts.items() if k.op == "neg" and not v and is_val(k.args[0]) and nonneg(neg(k.args[0]), 0, st)]
    for z0 in known:
        y = rows(rs.nf(z0)) if isinstance(rs.nf(z0), Poly) else {}
        if y and set(y) == set(rx):
            q = {rx[m] / y[m] for m in y}
            if len(q) == 1:
                return True
        z = rs.nf(mul(z0, inv(rs.R())))
        y = rows(z) if isinstance(z, Poly) else {}
        if y and set(y) == set(rx) and len({rx[m] / y[m] for m in y}) == 1:
            return True
    return False


def nonneg(v, lo, st):
    t = as_single(v)
    if t is None:
        return False
    if t.op in ("mod", "mred", "modinv", "rnd") and lo == 0:
        return True
    if lo == 1 and t.op in ("mod", "mred", "modinv", "rnd", "lphi"):
        return any(k.op == "is0" and not w and k.args[0] == v for k, w in st.facts.items()) or \
            any(k.op == "neg" and w and k.args[0] == neg(v) for k, w in st.facts.items())
    return False


def below(v, p):
    t = as_single(v)
    return t is not None and (t.op in ("mod", "mred", "modinv") and t.args[1] == p or t.op == "rnd")


def as_single(v):
    if isinstance(v, Poly) and len(v.d) == 1:
        (m, c), = v.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return Term.byid[m[0][0]]
    return None


def predicate(r, api, proof):
    """tests and conversions to integers"""
    k = r.k
    S = r.S
    ins = inputs(r)
    exits = [(st, {}, rv) for st, rv in r.res]

    def judge(m, st, view, rv):
        xs = [decode(m, k, m.i(x)) for x in ins]
        if api == "element_to_mpz":
            z = m.i(st.m.get(("Z", r.zout.obj, 0)))
            if z != xs[0]:
                return "converts %s to %s" % (hex(xs[0]), hex(z))
            return None
        v = m.i(rv)
        v = v - M if v >= M // 2 else v
        if api == "element_is0" and bool(v) != (xs[0] == 0):
            return "answers %d for %s" % (v, hex(xs[0]))
        if api == "element_is1" and bool(v) != (xs[0] == 1):
            return "answers %d for %s" % (v, hex(xs[0]))
        if api == "element_cmp" and bool(v) != (xs[0] != xs[1]):
            return "compares %s with %s as %d" % (hex(xs[0]), hex(xs[1]), v)
        if api == "element_sgn" and (bool(v) != (xs[0] != 0) or v not in (-1, 0, 1)):
            return "sign of %s is %d" % (hex(xs[0]), v)
        if api == "element_is_sqr" and bool(v) != (xs[0] == 0 or jacobi(xs[0], m.p) == 1):
            return "answers %d for %s" % (v, hex(xs[0]))
        return None
    d = witness(r, api, exits, judge, 160)
    if d is None and api == "element_sgn" and ins[0] != 0:
        d = opposite(r, exits, ins[0])
    if d:
        return d
    if not proof:
        raise Undecided("no counterexample, not proved at this size")
    rs = Residue(k)
    Rinv = inv(rs.R()) if k.mont else 1
    L = S.I.lin
    for st, rv in r.res:
        if api == "element_to_mpz":
            z = st.m.get(("Z", r.zout.obj, 0))
            if not is_val(z):
                raise Undecided("integer not resolved")
            if not rs.same(z, mul(ins[0], Rinv)):
                raise Undecided("integer %s not recognised" % show(z)[:100])
            cs = L.sharpen(st)
            if not (L.entails(st, z, cs) or nonneg(z, 0, st)) or not (L.entails(st, sub(sub(k.p, 1), z), cs) or below(z, k.p)):
                raise Undecided("range of %s not derived" % show(z)[:80])
            continue
        # a 0/1 answer: replace by its condition and require the equivalence with the specification
        if api == "element_is0":
            cond = ins[0]
        elif api == "element_is1":
            cond = sub(ins[0], rs.R() if k.mont else 1)
        elif api == "element_cmp":
            cond = sub(ins[0], ins[1])
        else:
            raise Undecided("no counterexample")
        decided_by(S, st, rv, cond, api != "element_cmp", k)
    return None


def opposite(r, exits, x):
    """the sign of -x is the opposite of the sign of x"""
    t = as_single(x)
    name = t.args if t is not None and t.op == "v" else None
    for seed in range(160):
        m = FpModel(seed, r.k)
        try:
            v = m.i(x)
            if v == 0:
                continue
            name = name or limbname(x)
            m2 = FpModel(seed, r.k)
            m2.over[name] = m.p - v
            if m2.i(x) != m.p - v:
                continue
            got = []
            for mm in (m, m2):
                for st, view, rv in exits:
                    if match(mm, r, st):
                        w = mm.i(rv)
                        got.append(w - M if w >= M // 2 else w)
                        break
            if len(got) == 2 and got[0] != -got[1]:
                return "sign of %s is %d and the sign of its negative is %d (modulus %s)" % (hex(v), got[0], got[1], hex(m.p))
        except (Undecided, ZeroDivisionError, ValueError):
            continue
    return None


def limbname(x):
    for m in x.d:
        for t, e in m:
            t = Term.byid[t]
            if t.op == "v" and t.args[-1] == "limb":
                return t.args[:-2]
    raise Undecided("operand not named")


def decided_by(S, st, rv, cond, positive, k):
    """rv is nonzero exactly when cond is zero modulo p (positive) or nonzero (not positive)"""
    if isinstance(cond, int):
        z = int(cond == 0)
    else:
        z = S.I.fact(T("is0", cond), st)
        if z is None:
            z = S.I.fact(T("is0", neg(cond)), st)
    if isinstance(rv, int) and z is not None:
        if bool(rv) == (bool(z) == positive):
            return
    if is_val(rv) and not isinstance(rv, int):
        for x in (cond, neg(cond)):
            for form in (S.I.is0(x), sub(1, S.I.is0(x)), A("zcmp", x), S.I.isneg(x), sub(1, S.I.isneg(x))):
                if form == rv:
                    return
    raise Undecided("answer %s not recognised" % (show(rv)[:80] if is_val(rv) else rv))


def kernel(prog, c, n, limbs):
    """bodies of the Montgomery kernels, through the operations that use them"""


def item(prog, c, it):
    name, fl, limbs, exact, api, slot, sig, vs = it
    k = fpkind(name, fl, limbs, exact)
    size = "any size" if limbs is None else "%d-limb modulus" % limbs

    def f():
        try:
            r = Run(prog, k, api, slot, sig, vs)
        except NotProvided:
            return None
        r.args_in = [x for x, s in zip(r.args, sig) if s == "e"]
        c.funcs.update(q.name for q in r.S.I.analysed)
        if "o" in sig:
            return arithmetic(r, api, exact)
        return predicate(r, api, exact)
    c.ob("%s:%s(%s), %s" % (name, api, ",".join(vs), size), f)


PRED = ("element_is0", "element_is1", "element_cmp", "element_sgn", "element_is_sqr", "element_to_mpz")


def jobs(tier):
    import itertools
    for name, fl in IMPL:
        for limbs, exact in ((None, True), (1, True), (2, False), (3, False)):
            if limbs == 3 and "mont" not in name:
                continue
            for api, slot, sig in OPS:
                if api not in SPEC and api not in ANY and api not in PRED:
                    continue
                if limbs is not None and api in ANY + ("element_pow_mpz",):
                    continue
                for vs in itertools.product(["nonzero", "zero"] if fl else ["value"], repeat=sig.count("e")):
                    if api in ("element_invert",) and vs[0] == "zero" or api == "element_div" and vs[1] == "zero":
                        continue
                    yield name, fl, limbs, exact, api, slot, sig, vs


def main():
    prog = program()
    c = Check("C22", "Value analysis of every F_p implementation with exact carries: each exit's stored number is compared with the "
              "specification as a residue (normal form modulo p) and bounded by a polyhedral entailment; a violation is an exit state "
              "together with an integer interpretation of the operands that satisfies its conditions and gives a wrong or non-canonical "
              "residue.", floor=60)
    c.parallel(list(jobs(c.tier)), lambda s, it: item(prog, s, it), limit=100)
    return c.finish()
