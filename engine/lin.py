"""Linear integer facts about abstract values (the polyhedra domain, monomials as dimensions):
entailment is decided exactly by searching a Farkas certificate."""
from fractions import Fraction
from .poly import T, A, Term, Poly, add, sub, mul, neg, as_atom, terms, is_val, atom, show

ZERO, ONE = Fraction(0), Fraction(1)


def rows(p):
    """value -> {monomial: rational}, constant inverses folded into the coefficient"""
    if isinstance(p, int):
        return {(): Fraction(p)} if p else {}
    r = {}
    for m, c in p.d.items():
        f = Fraction(c)
        mm = []
        for t, e in m:
            tt = Term.byid[t]
            if tt.op == "inv" and isinstance(tt.args[0], int):
                f /= tt.args[0] ** e
            else:
                mm.append((t, e))
        mm = tuple(mm)
        v = r.get(mm, ZERO) + f
        if v:
            r[mm] = v
        else:
            r.pop(mm, None)
    return r


def canon(p):
    """value with constant denominators in one canonical form: num * inv(den)"""
    if isinstance(p, int):
        return p
    r = rows(p)
    out = 0
    from .poly import inv
    for m, f in r.items():
        v = f.numerator
        x = Poly({m: v}) if m else v
        if f.denominator != 1:
            x = mul(x, inv(f.denominator))
        out = add(out, x)
    return out


def infeasible(cons):
    """no rational point satisfies all  sum a_m x_m + a_0 >= 0"""
    vars_ = sorted({m for c in cons for m in c if m != ()})
    idx = {m: i for i, m in enumerate(vars_)}
    nr = len(vars_) + 1
    # columns = constraints; rows: sum lambda a_m = 0 ; sum lambda (-a_0) = 1
    n = len(cons)
    # elimination of variables that occur with one sign only is done by the simplex
    tab = [[ZERO] * (n + nr + 1) for _ in range(nr)]
    for j, c in enumerate(cons):
        for m, v in c.items():
            if m == ():
                tab[nr - 1][j] = -v
            else:
                tab[idx[m]][j] = v
    tab[nr - 1][n + nr] = ONE
    basis = []
    for i in range(nr):
        tab[i][n + i] = ONE
        basis.append(n + i)
    # minimise the sum of the artificials
    obj = [ZERO] * (n + nr + 1)
    for i in range(nr):
        for j in range(n + nr + 1):
            if tab[i][j]:
                obj[j] -= tab[i][j]
    for i in range(nr):
        obj[n + i] = ZERO
    W = n + nr + 1
    for it in range(4000):
        if obj[W - 1] == 0:
            return True
        piv = -1
        if it < 60:
            best = ZERO
            for j in range(n):
                if obj[j] < best:
                    best, piv = obj[j], j
        else:
            for j in range(n):
                if obj[j] < 0:
                    piv = j
                    break
        if piv < 0:
            return obj[W - 1] == 0
        r, bestq = -1, None
        for i in range(nr):
            a = tab[i][piv]
            if a > 0:
                q = tab[i][W - 1] / a
                if bestq is None or q < bestq or (q == bestq and basis[i] < basis[r]):
                    r, bestq = i, q
        if r < 0:
            return False
        pr = tab[r]
        a = pr[piv]
        if a != 1:
            pr = tab[r] = [x / a if x else x for x in pr]
        for i in range(nr):
            if i != r:
                f = tab[i][piv]
                if f:
                    ti = tab[i]
                    for j in range(W):
                        if pr[j]:
                            ti[j] -= f * pr[j]
        f = obj[piv]
        if f:
            for j in range(W):
                if pr[j]:
                    obj[j] -= f * pr[j]
        basis[r] = piv
    return False


class Lin:
    """entailment oracle over a state's facts"""

    def __init__(self, I):
        self.I = I
        self.base = []            # values known to be >= 0
        self.products = False
        self.numbers = []         # (value, [values >= 0]) multi-limb numbers with their bounds
        self.memo = {}
        self.busy = False

    # ---- constraints from the meaning of terms
    def term_axioms(self, t):
        x = atom(t)
        op = t.op
        if op in ("mod", "mred"):
            return [x, sub(sub(t.args[1], 1), x)]
        if op == "modinv":
            return [x, sub(sub(t.args[1], 1), x)]
        if op in ("sel", "W") and (op == "W" or isinstance(t.args[2], int)):
            n = 8 if op == "W" else t.args[2]
            return [x, sub((1 << (8 * n)) - 1, x)]
        if op == "v" and t.args[-1] == "limb":
            return [x, sub((1 << 64) - 1, x)]
        if op == "hi":
            w, sz = t.args
            b = self.I.B(sz)
            lo = sub(w, mul(x, b))
            return [lo, sub(sub(b, 1), lo)]
        if op == "B":
            r = [sub(x, 1)]
            p = t.args[0]
            if isinstance(p, Poly) and len(p.d) == 1:
                (m, c), = p.d.items()
                if c == 8 and len(m) == 1 and m[0][1] == 1 and Term.byid[m[0][0]].op == "zlimbs":
                    z = Term.byid[m[0][0]].args[0]
                    r.append(sub(sub(x, 1), z))
            return r
        if op in ("neg", "is0", "odd", "nz", "bool", "is_sqr"):
            return [x, sub(1, x)]
        if op in ("zlimbs", "zbits", "strlen"):
            return [x]
        return []

    def cons_of(self, st):
        out = list(self.base)
        for k, v in st.facts.items():
            if not k.args:
                continue
            x = k.args[0]
            if not is_val(x):
                continue
            if k.op == "neg":
                out.append(sub(neg(x), 1) if v else x)
            elif k.op == "is0" and v:
                out.append(x)
                out.append(neg(x))
        return out

    def relevant(self, cons, q):
        """constraints connected to the query through monomials, closed under term axioms"""
        need = set(rows(q)) - {()}
        pool = [rows(c) for c in cons]
        used = [False] * len(pool)
        seen_t = set()
        out = []
        changed = True
        n = 0
        while changed and n < 12:
            n += 1
            changed = False
            for m in list(need):
                for t, e in m:
                    if t in seen_t:
                        continue
                    seen_t.add(t)
                    for a in self.term_axioms(Term.byid[t]):
                        r = rows(a)
                        if r not in pool:
                            pool.append(r)
                            used.append(False)
            for i, r in enumerate(pool):
                if not used[i] and (set(r) & need):
                    used[i] = True
                    out.append(r)
                    need |= set(r) - {()}
                    changed = True
            if self.products:
                for r in self.rlt(need):
                    if r not in pool:
                        pool.append(r)
                        used.append(False)
                        changed = True
        return out

    def factor(self, t):
        """[(key, slacks)] of the quantities a term belongs to"""
        out = []
        ax = self.term_axioms(Term.byid[t])
        if ax:
            out.append((t, ax))
        for i, (v, sl) in enumerate(self.numbers):
            if any(t == x for m in v.d for x, e in m):
                out.append((("n", i), sl))
        return out

    def rlt(self, need):
        """products of bounds for the degree-2 monomials"""
        done = set()
        for m in need:
            ts = [t for t, e in m for _ in range(e)]
            if len(ts) != 2:
                continue
            for k1, s1 in self.factor(ts[0]):
                for k2, s2 in self.factor(ts[1]):
                    k = frozenset((k1, k2))
                    if k in done:
                        continue
                    done.add(k)
                    for x in s1:
                        for y in s2:
                            yield rows(mul(x, y))

    def entails(self, st, q, cons=None):
        """q >= 0 follows from the facts"""
        if isinstance(q, int):
            return q >= 0
        cs = self.cons_of(st) if cons is None else cons
        rel = self.relevant(cs, q)
        nq = rows(sub(neg(q), 1)) if all(f.denominator == 1 for f in rows(q).values()) else None
        if nq is None:
            # rational coefficients: scale to integers first
            from math import lcm
            l = 1
            for f in rows(q).values():
                l = lcm(l, f.denominator)
            r = {m: f * l for m, f in rows(q).items()}
            nq = {m: -f for m, f in r.items()}
            nq[()] = nq.get((), ZERO) - 1
        if len(rel) > 400:
            return False
        return infeasible(rel + [nq])

    def sharpen(self, st):
        """disequalities become strict inequalities where one side is excluded"""
        cs = self.cons_of(st)
        for k, v in st.facts.items():
            if k.op == "is0" and not v and isinstance(k.args[0], Poly):
                x = k.args[0]
                if self.entails(st, x, cs):
                    cs.append(sub(x, 1))
                elif self.entails(st, neg(x), cs):
                    cs.append(sub(neg(x), 1))
        return cs

    def fact(self, t, st):
        if self.busy or t.op not in ("neg", "is0"):
            return None
        x = t.args[0]
        if not isinstance(x, Poly):
            return None
        key = (t, frozenset(st.facts.items()))
        if key in self.memo:
            return self.memo[key]
        self.busy = True
        try:
            cs = self.sharpen(st)
            r = None
            if t.op == "neg":
                if self.entails(st, x, cs):
                    r = 0
                elif self.entails(st, sub(neg(x), 1), cs):
                    r = 1
            else:
                if self.entails(st, sub(x, 1), cs) or self.entails(st, sub(neg(x), 1), cs):
                    r = 0
                elif self.entails(st, x, cs) and self.entails(st, neg(x), cs):
                    r = 1
        finally:
            self.busy = False
        self.memo[key] = r
        return r
