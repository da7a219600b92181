"""Machine words inside multi-limb numbers: exact integer meaning of word arithmetic (64-bit wrap
around), used when the number of limbs is fixed."""
from .poly import T, A, Term, Poly, add, sub, mul, neg, inv, as_atom, terms, is_val, atom, subst_fn
from .lin import rows, canon

M = 1 << 64


def wordy(v):
    """does the value involve a machine word of a number?"""
    return isinstance(v, Poly) and any(
        t.op in ("W", "hi", "zget") or (t.op == "sel" and t.args[2] == 8) or (t.op == "v" and t.args[-1] == "limb")
        for t in terms(v))


def decompose(v, n):
    """limbs of an explicit sum of limbs, or None"""
    if isinstance(v, int):
        return [(v >> (64 * i)) & (M - 1) for i in range(n)] if 0 <= v < M ** n else None
    out = [0] * n
    for m, c in v.d.items():
        if len(m) != 1 or m[0][1] != 1:
            return None
        t = Term.byid[m[0][0]]
        if not (t.op == "W" or (t.op == "v" and t.args[-1] == "limb")):
            return None
        for i in range(n):
            if c == M ** i and out[i] == 0:
                out[i] = atom(t)
                break
        else:
            return None
    return out


def W(v):
    """v mod 2^64"""
    if isinstance(v, int):
        return v % M
    v = canon(v)
    frac, integ = 0, 0
    for m, c in v.d.items():
        if any(Term.byid[t].op == "inv" and isinstance(Term.byid[t].args[0], int) for t, e in m):
            frac = add(frac, Poly({m: c}))
        else:
            integ = add(integ, Poly({m: c}) if m else c)
    if frac != 0:
        # the fractional monomials together are an integer
        integ = add(integ, A("W", frac))

    def strip(t):
        if t.op == "W":
            x = t.args[0]
            if not any(Term.byid[y].op == "inv" for m in x.d for y, e in m):
                return x
        if t.op == "sel" and t.args[1] == 0 and t.args[2] == 8:
            return t.args[0]
        return None
    for _ in range(6):
        n = subst_fn(integ, strip) if isinstance(integ, Poly) else integ
        n = reduce64(n)
        if n == integ:
            break
        integ = n
    if isinstance(integ, int):
        return integ % M
    t = as_atom(integ)
    if t is not None and (t.op == "W" or (t.op == "v" and t.args[-1] == "limb")):
        return integ
    return A("W", integ)


def reduce64(v):
    """coefficients mod 2^64; low limb of p times the inverse of p is 1"""
    if isinstance(v, int):
        return v % M
    r = 0
    for m, c in v.d.items():
        c %= M
        if c == 0:
            continue
        if c > M // 2:
            c -= M
        zg = [(t, e) for t, e in m if Term.byid[t].op == "zget"]
        mm = dict(m)
        done = False
        for t, e in zg:
            a = as_atom(Term.byid[t].args[0])
            if a is not None and a.op == "modinv" and isinstance(a.args[1], int) and a.args[1] % M == 0:
                # p == p0 (mod 2^64)
                p0 = lowpart(a.args[0])
                q = as_atom(p0)
                if q is not None and q.id in mm and mm.get(t):
                    k = min(mm[q.id], mm[t])
                    for z in (q.id, t):
                        mm[z] -= k
                        if not mm[z]:
                            del mm[z]
        m2 = tuple(sorted(mm.items()))
        r = add(r, Poly({m2: c}) if m2 else c)
    return r


def lowpart(v):
    if isinstance(v, int):
        return v % M
    d = decompose(v, 8)
    return d[0] if d is not None else v


def low(v, k):
    """v mod 2^(64k)"""
    r = 0
    for i in range(k):
        r = add(r, mul(M ** i, limb(v, i)))
    return r


def limb(v, i):
    if isinstance(v, int):
        return (v >> (64 * i)) % M
    d = decompose(v, 8)
    if d is not None:
        return d[i]
    if i == 0:
        return W(v)
    return W(mul(sub(v, low(v, i)), inv(M ** i)))


def block(v, k, m, total=None):
    """limbs k..k+m-1 of a number (which has `total` limbs)"""
    d = decompose(v, 8)
    if d is not None:
        r = 0
        for i in range(m):
            r = add(r, mul(M ** i, d[k + i]))
        return r
    if total is not None and k + m == total:
        return canon(mul(sub(v, low(v, k)), inv(M ** k))) if k else v
    r = 0
    for i in range(m):
        r = add(r, mul(M ** i, limb(v, k + i)))
    return r
