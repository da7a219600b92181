"""Extension-field arithmetic = arithmetic of K[x]/(m(x))."""
from engine.check import Check, program
from engine.scen import Scenario
from engine.kinds import *
from engine.cases import matches
from engine.poly import *
from engine.poly import A, T, deps_of
from engine.absint import Fn, Undecided, Ptr
from engine.groupkinds import nonzero


def generic_fact(t, st):
    """operands in general position: a value that is not identically zero does not vanish"""
    return 0 if t.op == "is0" and not deps_of(t) else None


def cmpvec(k, got, want, facts=()):
    u = False
    for i, (g, w) in enumerate(zip(got, want)):
        r = matches(g, w, k.char, (), facts)
        if r is False and deps_of(g):
            r = None
        if r is False:
            return "component %d is %s, expected %s" % (i, show(g), show(w))
        if r is None:
            u = True
    if u:
        raise Undecided("not comparable")
    return None


def available(S, F, slot):
    f = S.slot(F, slot)
    return isinstance(f, (Fn, ))


def outcome(S, k, api, args, out, want):
    res = S.run(api, *args, st=S.st.copy())
    if not res:
        return "no execution path returns"
    for st, rv in res:
        m = cmpvec(k, k.value(S, out, st), want, tuple(st.facts.items()))
        if m:
            return "%s (%s): %s" % (api, k.name, m)
    return None


def pred(S, api, args, truth):
    """the predicate must be nonzero (truth) / zero on this entry state"""
    res = S.run(api, *args, st=S.st.copy())
    for st, rv in res:
        if rv is None:
            raise Undecided("no value")
        d = S.I.decide(sub(1, S.I.is0(rv)) if is_val(rv) else rv, st)
        if d is None:
            raise Undecided("predicate value %s" % show(rv))
        if bool(d) != truth:
            return "%s returns %s where %s is required" % (api, show(rv), "nonzero" if truth else "zero")
    return None


def ring_obligations(chk, prog, mk):
    def fresh(*vals):
        k = mk()
        S = Scenario(prog)
        F = k.setup(S)
        es = [k.mk(S, F, n, v) for n, v in vals]
        if isinstance(k, Polymod):
            S.I.fact_hook = generic_fact
        return k, S, F, es

    k0 = mk()
    n = k0.ncomp
    va = [A("v", "a", i) for i in range(n)]
    vb = [A("v", "b", i) for i in range(n)]
    old = [A("v", "old", i) for i in range(n)]

    def binary(api, spec, slot, alias=None):
        def run():
            k, S, F, (c, a, b) = fresh(("c", old), ("a", va), ("b", vb))
            if not available(S, F, slot):
                raise Undecided("operation not provided")
            return outcome(S, k, api, (c, a, b), c, spec(k))
        chk.ob("%s:%s" % (k0.name, api), run)

    def unary(api, spec, slot, *more):
        def run():
            k, S, F, (c, a) = fresh(("c", old), ("a", va))
            if not available(S, F, slot):
                raise Undecided("operation not provided")
            extra = [m(S) if callable(m) else m for m in more]
            return outcome(S, k, api, [c, a] + extra, c, spec(k))
        chk.ob("%s:%s" % (k0.name, api), run)

    def nullary(api, spec, slot, *more):
        def run():
            k, S, F, (c,) = fresh(("c", old))
            if not available(S, F, slot):
                raise Undecided("operation not provided")
            extra = [m(S) if callable(m) else m for m in more]
            return outcome(S, k, api, [c] + extra, c, spec(k))
        chk.ob("%s:%s" % (k0.name, api), run)

    binary("element_add", lambda k: [add(x, y) for x, y in zip(va, vb)], "add")
    binary("element_sub", lambda k: [sub(x, y) for x, y in zip(va, vb)], "sub")
    binary("element_mul", lambda k: k.mul(va, vb), "mul")
    unary("element_square", lambda k: k.mul(va, va), "square")
    unary("element_double", lambda k: [mul(2, x) for x in va], "doub")
    unary("element_neg", lambda k: [neg(x) for x in va], "neg")
    unary("element_set", lambda k: va, "set")
    if k0.char != 3:
        unary("element_halve", lambda k: [mul(inv(2), x) for x in va], "halve")
    if k0.char != 3:
      unary("element_mul_si", lambda k: [mul(A("v", "n"), x) for x in va], "mul_si", A("v", "n"))
      unary("element_mul_mpz", lambda k: [mul(A("v", "z"), x) for x in va], "mul_mpz", lambda S: S.mpz("z"))
    nullary("element_set0", lambda k: [0] * n, "set0")
    nullary("element_set1", lambda k: k.one(), "set1")
    if k0.char != 3:
      nullary("element_set_si", lambda k: [A("v", "n")] + [0] * (n - 1), "set_si", A("v", "n"))
      nullary("element_set_mpz", lambda k: [A("v", "z")] + [0] * (n - 1), "set_mpz", lambda S: S.mpz("z"))

    def cubic():
        k, S, F, (c, a) = fresh(("c", old), ("a", va))
        f = S.slot(F, "cubic")
        if not isinstance(f, Fn):
            raise Undecided("operation not provided")
        return outcome(S, k, f, (c, a), c, k.mul(va, k.mul(va, va)))
    if k0.char == 3:
        chk.ob("%s:cubic" % k0.name, cubic)

    # inverse: a * a^-1 = 1, generic invertible a
    def invert():
        k, S, F, (c, a) = fresh(("c", old), ("a", va))
        if not available(S, F, "invert"):
            raise Undecided("operation not provided")
        S.I.fact_hook = lambda t, st: 0 if t.op == "is0" else None
        res = S.run("element_invert", c, a, st=S.st.copy())
        for st, rv in res:
            got = k.value(S, c, st)
            pr = k.mul(va, got)
            for i, (g, w) in enumerate(zip(pr, k.one())):
                if not equal(g, w, k.char):
                    return "element_invert (%s): a * inverse(a) has component %d != %s" % (k.name, i, w)
        return None
    if not (isinstance(k0, Polymod) and k0.n > 3):
        chk.ob("%s:element_invert" % k0.name, invert)

    def div():
        k, S, F, (c, a, b) = fresh(("c", old), ("a", va), ("b", vb))
        if not available(S, F, "div") or not available(S, F, "invert"):
            raise Undecided("operation not provided")
        S.I.fact_hook = lambda t, st: 0 if t.op == "is0" else None
        res = S.run("element_div", c, a, b, st=S.st.copy())
        for st, rv in res:
            pr = k.mul(vb, k.value(S, c, st))
            m = cmpvec(k, pr, va)
            if m:
                return "element_div (%s): b * (a/b): %s" % (k.name, m)
        return None
    if not isinstance(k0, Polymod) or k0.n == 2:
        chk.ob("%s:element_div" % k0.name, div)

    # predicates
    def pz(vals, nz, api, slot, truth, two=None):
        def run():
            sets = [("a", vals)] + ([("b", two)] if two is not None else [])
            k, S, F, es = fresh(*sets)
            if not available(S, F, slot):
                raise Undecided("operation not provided")
            for v in nz:
                nonzero(S, v)
            return pred(S, api, es, truth)
        return run
    one = k0.one()
    chk.ob("%s:is0(0)" % k0.name, pz([0] * n, [], "element_is0", "is0", True))
    chk.ob("%s:is1(1)" % k0.name, pz(one, [], "element_is1", "is1", True))
    chk.ob("%s:cmp(a,a)" % k0.name, pz(va, [], "element_cmp", "cmp", False, va))
    for i in range(n):
        v = [0] * n
        v[i] = va[i]
        chk.ob("%s:is0(only component %d nonzero)" % (k0.name, i), pz(v, [va[i]], "element_is0", "is0", False))
        v = list(one)
        v[i] = add(v[i], va[i])
        chk.ob("%s:is1(1 + component %d)" % (k0.name, i), pz(v, [va[i], ], "element_is1", "is1", False))
        w = list(va)
        w[i] = add(va[i], vb[i])
        chk.ob("%s:cmp(differ in component %d)" % (k0.name, i), pz(va, [vb[i]], "element_cmp", "cmp", True, w))

    # square roots: s^2 = a whatever root the base field returns
    def sqrt_():
        k, S, F, (c, a) = fresh(("c", old), ("a", va))
        if not available(S, F, "sqrt"):
            raise Undecided("operation not provided")
        S.I.fact_hook = lambda t, st: 0 if t.op == "is0" else None
        res = S.run("element_sqrt", c, a, st=S.st.copy())
        from engine.cases import expand
        n_alt = 0
        for st, rv in res:
            vec = tuple(k.value(S, c, st))
            alts = [((), vec)]
            # expand jointly over all components
            tag = 0
            for i, v in enumerate(vec):
                tag = add(tag, mul(A("slotno", i), v))
            for g, tv in expand(tag):
                comp = []
                for i in range(n):
                    t = T("slotno", i)
                    comp.append(subst_fn(tv, lambda u: (1 if u is t else (0 if u.op == "slotno" else None))))
                n_alt += 1
                sq = k.mul(comp, comp)
                rules = []
                for u in set().union(*[all_terms(x) for x in comp]):
                    if u.op == "sqrt":
                        rules.append((u, 2, u.args[0]))
                for i, (x, w) in enumerate(zip(sq, va)):
                    d, _ = to_rat(sub(x, w))
                    for _ in range(6):
                        d2 = reduce_rules(d, rules)
                        d2, _ = to_rat(d2)
                        if d2 == d:
                            break
                        d = d2
                    if d != 0:
                        return "element_sqrt (%s): component %d of root^2 - a does not vanish" % (k.name, i)
        return None if n_alt else "no path"
    if isinstance(k0, Quadratic):
        chk.ob("%s:element_sqrt" % k0.name, sqrt_)


RULE = ("For every extension-field implementation the analysis computes, by value numbering over the ring of polynomials "
        "in the operands' components, the value each public operation leaves in every component of its result, with the "
        "field table and its precomputed data obtained by analysing the library's own initialiser over an abstract base "
        "field, and compares it with multiplication modulo the defining polynomial; predicates are evaluated on the "
        "partition of inputs by which components vanish.")


def main():
    chk = Check("C01", RULE, 150, ["base-field operations satisfy the commutative ring laws",
                                   "polymod inverse: the leading coefficients met by Euclid's algorithm are nonzero (generic case)"])
    prog = program()
    for mk in RINGS:
        ring_obligations(chk, prog, mk)
    return chk.finish()
