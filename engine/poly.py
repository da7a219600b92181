"""Value domain of the analyses: polynomials with integer coefficients over
interned terms.  Two expressions get the same abstract value iff they are equal
by the laws of commutative rings (the value-numbering lattice); operations with
no ring meaning stay uninterpreted terms."""
from math import gcd


class Term:
    __slots__ = ("id", "op", "args", "lph", "atoms_", "__weakref__")
    table = {}
    byid = []

    def __repr__(self):
        return show_term(self)


_empty = frozenset()


def deps_of(x):
    if isinstance(x, Term):
        return x.lph
    if isinstance(x, Poly):
        return x.lph()
    if isinstance(x, (tuple, list, frozenset)):
        r = _empty
        for y in x:
            d = deps_of(y)
            if d:
                r = r | d
        return r
    l = getattr(x, "lph", None)
    if l is not None:
        return l() if callable(l) else l
    return _empty


def T(op, *args):
    k = (op, args)
    t = Term.table.get(k)
    if t is None:
        t = Term()
        t.id = len(Term.byid)
        t.op, t.args = op, args
        l = deps_of(args)
        if op == "lphi":
            l = l | {(args[0], args[1])}
        t.lph = l
        t.atoms_ = None
        Term.table[k] = t
        Term.byid.append(t)
    return t


class Poly:
    """immutable; d maps monomial -> nonzero int, monomial = tuple of (term id, exponent)"""
    __slots__ = ("d", "_h", "_l")

    def __init__(self, d):
        self.d = d
        self._h = None
        self._l = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def lph(self):
        if self._l is None:
            r = _empty
            for m in self.d:
                for t, _ in m:
                    l = Term.byid[t].lph
                    if l:
                        r = r | l
            self._l = r
        return self._l

    def __repr__(self):
        return show(self)


def is_val(x):
    return isinstance(x, (int, Poly))


def atom(t):
    return Poly({((t.id, 1),): 1})


def A(op, *args):
    return atom(T(op, *args))


def norm(d):
    if not d:
        return 0
    if len(d) == 1 and () in d:
        return d[()]
    return Poly(d)


def _d(x):
    if isinstance(x, int):
        return {(): x} if x else {}
    return x.d


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    d = dict(_d(a))
    for m, c in _d(b).items():
        v = d.get(m, 0) + c
        if v:
            d[m] = v
        else:
            d.pop(m, None)
    return norm(d)


def neg(a):
    if isinstance(a, int):
        return -a
    return Poly({m: -c for m, c in a.d.items()})


def sub(a, b):
    return add(a, neg(b))


_inv_single = {}     # term id of inv(t) -> term id of t


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    e = dict(m1)
    for t, k in m2:
        e[t] = e.get(t, 0) + k
    # cancel t * inv(t)
    for t in list(e):
        s = _inv_single.get(t)
        if s is not None and s in e and t in e:
            k = min(e[t], e[s])
            for z in (t, s):
                e[z] -= k
                if e[z] == 0:
                    del e[z]
    return tuple(sorted((t, k) for t, k in e.items() if k))


LIMIT = 60000


class TooBig(Exception):
    pass


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == 1:
            return a
        return Poly({m: c * b for m, c in a.d.items()})
    if len(a.d) * len(b.d) > LIMIT:
        raise TooBig("polynomial product too large")
    d = {}
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = mmul(m1, m2)
            v = d.get(m, 0) + c1 * c2
            if v:
                d[m] = v
            else:
                d.pop(m, None)
    return norm(d)


def power(a, n):
    r = 1
    for _ in range(n):
        r = mul(r, a)
    return r


def inv(p):
    """multiplicative inverse"""
    if isinstance(p, int):
        if p in (1, -1):
            return p
        s = -1 if p < 0 else 1
        t = T("inv", abs(p))
        return Poly({((t.id, 1),): s})
    g = 0
    for c in p.d.values():
        g = gcd(g, c)
    lead = p.d[min(p.d)]
    if lead < 0:
        g = -g
    if g != 1:
        q = Poly({m: c // g for m, c in p.d.items()})
        return mul(inv(g), inv(q))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        r = 1
        for t, e in m:
            tt = Term.byid[t]
            if tt.op == "inv":
                x = tt.args[0]
                f = x
            else:
                it = T("inv", atom(tt))
                _inv_single[it.id] = t
                f = atom(it)
            r = mul(r, power(f, e))
        return r
    return atom(T("inv", p))


def as_atom(p):
    """the single term this value is, or None"""
    if isinstance(p, Poly) and len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return Term.byid[m[0][0]]
    return None


def terms(p):
    """terms directly occurring"""
    if isinstance(p, Poly):
        s = set()
        for m in p.d:
            for t, _ in m:
                s.add(t)
        return [Term.byid[t] for t in s]
    return []


def all_terms(x, seen=None):
    """all terms occurring, transitively"""
    if seen is None:
        seen = set()
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, Term):
            if y in seen:
                continue
            seen.add(y)
            st.extend(y.args)
        elif isinstance(y, Poly):
            for m in y.d:
                for t, _ in m:
                    st.append(Term.byid[t])
        elif isinstance(y, (tuple, frozenset, list)):
            st.extend(y)
        elif hasattr(y, "parts"):
            st.extend(y.parts())
    return seen


def subst_fn(p, f):
    """replace terms: f(term) -> value or None (keep)"""
    if isinstance(p, int):
        return p
    r = 0
    for m, c in p.d.items():
        v = c
        for t, e in m:
            tt = Term.byid[t]
            w = f(tt)
            if w is None:
                w = atom(tt)
            v = mul(v, power(w, e))
        r = add(r, v)
    return r


def to_rat(p):
    """p with inv-terms -> (num, den) polynomials without inv-terms"""
    if isinstance(p, int):
        return p, 1
    invs = {}
    for m in p.d:
        for t, e in m:
            tt = Term.byid[t]
            if tt.op == "inv":
                invs[t] = max(invs.get(t, 0), e)
    if not invs:
        return p, 1
    fr = {}
    for t in invs:
        n, d = to_rat(Term.byid[t].args[0])
        fr[t] = (d, n)          # 1/(n/d)
    num = 0
    for m, c in p.d.items():
        v = c
        es = dict(m)
        for t, mx in invs.items():
            k = es.pop(t, 0)
            v = mul(v, power(fr[t][0], k))
            v = mul(v, power(fr[t][1], mx - k))
        rest = tuple(sorted(es.items()))
        v = mul(v, norm({rest: 1}))
        num = add(num, v)
    den = 1
    for t, mx in invs.items():
        den = mul(den, power(fr[t][1], mx))
    return num, den


def reduce_rules(p, rules):
    """rules: list of (term, k, replacement): term^k -> replacement"""
    if not rules or isinstance(p, int):
        return p
    for _ in range(200):
        if isinstance(p, int):
            return p
        hit = False
        r = {}
        extra = 0
        for m, c in p.d.items():
            done = False
            for (t, k, rep) in rules:
                for i, (tid, e) in enumerate(m):
                    if tid == t.id and e >= k:
                        rest = m[:i] + (((tid, e - k),) if e > k else ()) + m[i + 1:]
                        extra = add(extra, mul(Poly({rest: c}) if rest else c, rep))
                        done = True
                        break
                if done:
                    break
            if not done:
                r[m] = c
            else:
                hit = True
        p = add(norm(r), extra)
        if not hit:
            return p
    raise TooBig("rewriting does not terminate")


def is_zero(p, char=0, rules=()):
    n, d = to_rat(p)
    n = reduce_rules(n, rules)
    if char:
        if isinstance(n, int):
            return n % char == 0
        return all(c % char == 0 for c in n.d.values())
    return n == 0


def equal(a, b, char=0, rules=()):
    if a == b:
        return True
    if not (is_val(a) and is_val(b)):
        return False
    return is_zero(sub(a, b), char, rules)


# ------------------------------------------------------------ printing
def show_term(t, depth=3):
    if t.op in ("v", "in"):
        return ".".join(str(a) for a in t.args)
    if depth == 0:
        return t.op + "(..)"
    return "%s(%s)" % (t.op, ",".join(show(a, depth - 1) for a in t.args))


def show(p, depth=3):
    if isinstance(p, Term):
        return show_term(p, depth)
    if isinstance(p, Poly):
        out = []
        for i, (m, c) in enumerate(p.d.items()):
            if i > 12:
                out.append("...")
                break
            s = "*".join(show_term(Term.byid[t], depth) + ("^%d" % e if e > 1 else "") for t, e in m)
            if c == 1 and s:
                out.append(s)
            elif c == -1 and s:
                out.append("-" + s)
            else:
                out.append(("%d" % c) + ("*" + s if s else ""))
        return " + ".join(out)
    if isinstance(p, tuple):
        return "(" + ",".join(show(a, depth) for a in p) + ")"
    return str(p)
