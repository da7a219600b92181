"""Comparison of analysed results with a specification: gated phi terms are expanded
into their alternatives, each compared under the equalities its gate implies."""
from .poly import *
from .poly import T, A, Term, Poly
from .absint import Undecided


def expand(v, limit=64):
    """value -> [(gate facts tuple, value without phi)]"""
    todo = [((), v)]
    out = []
    while todo:
        g, x = todo.pop()
        ph = None
        for t in sorted(all_terms(x), key=lambda t: -t.id):
            if t.op == "phi":
                ph = t
                break
        if ph is None:
            out.append((g, x))
            if len(out) > limit:
                raise Undecided("too many alternatives")
            continue
        for gate, alt in ph.args[0]:
            fs = gate.args[0] if gate.op == "gate" else ()
            # consistent with g?
            d = dict(g)
            bad = False
            for k, b in fs:
                if d.get(k, b) != b:
                    bad = True
                    break
                d[k] = b
            if bad:
                continue
            if not is_val(alt):
                raise Undecided("pointer alternative")
            todo.append((tuple(sorted(d.items(), key=lambda z: z[0].id)), deep_subst(x, ph, alt)))
        if len(todo) > limit:
            raise Undecided("too many alternatives")
    return out


def deep_subst(x, ph, alt):
    cache = {}

    def f(t):
        if t is ph:
            return alt
        if t in cache:
            return cache[t]
        r = None
        if any(ph is u for u in all_terms(t)):
            if t.op == "inv":
                y = deep_subst(t.args[0], ph, alt)
                r = inv(y) if y != 0 else A("div0", 1)
            elif t.op in ("is0",):
                y = deep_subst(t.args[0], ph, alt)
                r = (1 if y == 0 else 0) if isinstance(y, int) else A("is0", y)
            else:
                r = atom(T(t.op, *[deep_subst(a, ph, alt) if is_val(a) else a for a in t.args]))
        cache[t] = r
        return r
    return subst_fn(x, f)


def solve(facts):
    """substitutions implied by is0(p)=1 facts with an atom occurring linearly with coefficient +-1;
    returns (list of (term, value)), unsolved?)"""
    subs = []
    unsolved = False
    for k, b in facts:
        if k.op == "is0" and b == 1:
            p = k.args[0]
            for t, v in subs:
                p = subst_fn(p, lambda u: v if u is t else None)
            if p == 0:
                continue
            done = False
            if isinstance(p, Poly):
                for m, c in p.d.items():
                    if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
                        t = Term.byid[m[0][0]]
                        if t.op in ("inv",):
                            continue
                        rest = sub(p, mul(c, atom(t)))
                        if any(t is u for u in all_terms(rest)):
                            continue
                        subs.append((t, mul(-c, rest)))
                        done = True
                        break
            if not done:
                unsolved = True
        elif k.op == "is0":
            continue
        else:
            pass
    return subs, unsolved


def apply_subs(v, subs):
    for t, w in subs:
        def f(u, t=t, w=w):
            if u is t:
                return w
            if u.op == "inv" and any(t is z for z in all_terms(u)):
                y = apply_subs(u.args[0], [(t, w)])
                return inv(y) if y != 0 else A("div0", 1)
            return None
        v = subst_fn(v, f)
    return v


def matches(got, want, char=0, rules=(), facts=()):
    """True / False / None(undecided)"""
    if not (is_val(got) and is_val(want)):
        return got == want
    try:
        alts = expand(got)
    except Undecided:
        return None
    res = True
    for g, v in alts:
        fs = tuple(facts) + tuple(g)
        if equal(v, want, char, rules):
            continue
        subs, uns = solve(fs)
        v2, w2 = apply_subs(v, subs), apply_subs(want, subs)
        r2 = [(t, k, apply_subs(rep, subs)) for t, k, rep in rules]
        if equal(v2, w2, char, r2):
            continue
        if uns:
            res = None
            continue
        return False
    return res
