"""Hashing to elements depends on the bytes alone, in the documented way."""
import itertools
import os
from engine.check import Check, program
from engine import absint, ir
from engine import kinds as K_, groupkinds as G_
from engine.absint import Ptr, SlotFn, Undecided, Fn
from engine.models import zout, zin
from engine.ops import CurveKind, gt_kind
from engine.opsrun import Run, NotProvided
from engine.scen import Scenario, Missing
from engine.text import Texts
from engine.fp import fpkind, Residue, FpModel
from engine.poly import *
from engine.poly import T, A
from checks import c12, c22

I8 = ir.int_type(8)


def m_import(I, ins, n, a, st):
    """bytes of a buffer as a number, each byte a constant or a symbol"""
    z, count, order, size, endian, nails, p = a
    if size != 1 or nails != 0 or not isinstance(count, int) or order not in (1, -1, (1 << 32) - 1) or not isinstance(p, Ptr):
        raise Undecided("import of %s words" % (count,))
    v = 0
    for i in range(count):
        b = I.load(st, Ptr(p.obj, add(p.off, i)), I8, ins)
        if not is_val(b):
            raise Undecided("byte %s" % (b,))
        if isinstance(b, int):
            b &= 255
        v = add(v, mul(b, 1 << (8 * (count - 1 - i if order == 1 else i))))
    zout(I, z, v, st, ins)


class H:
    def __init__(self, prog, data):
        self.S = S = Texts(prog)
        self.I = S.I
        S.I.unroll_any = True
        S.I.watch_free()
        S.I.models["__gmpz_import"] = m_import
        copy = S.I.models["memcpy"]

        def bytewise(I, ins, n, a, st):
            if isinstance(a[1], Ptr) and a[1].obj is self.data.obj and isinstance(a[2], int) and isinstance(a[0], Ptr):
                for i, v in enumerate([I.load(st, Ptr(a[1].obj, add(a[1].off, i)), I8, ins) for i in range(a[2])]):
                    I.store(st, Ptr(a[0].obj, add(a[0].off, i)), v, ins)
                return a[0]
            return copy(I, ins, n, a, st)
        for x in ("memcpy", "memmove"):
            S.I.models[x] = bytewise
        self.data = S.lit("", nul=False)
        S.I.limit[self.data.obj] = len(data)
        for i, b in enumerate(data):
            S.st.m[("m", self.data.obj, i)] = b

    def run(self, f, *a):
        try:
            outs = self.S.run(f, *a)
        except Undecided:
            if self.I.beyond:
                return None, self.I.beyond[0]
            raise
        if self.I.beyond:
            return None, self.I.beyond[0]
        return outs, None


def expand(data, count):
    """H || 0 || H || 1 || ..., cut to count bytes"""
    out = []
    c = 0
    while len(out) < count:
        out += list(data) + [c & 255]
        c += 1
    return out[:count]


def number(bs):
    v = 0
    for b in bs:
        v = add(mul(v, 256), b)
    return v


def shifted(v):
    """(value, bits) of a value shifted right"""
    k = 0
    while not isinstance(v, int):
        t = as_atom(v)
        if t is None or t.op not in ("z_tdiv_q_2exp", "z_fdiv_q_2exp", "tdiv_q_2exp", "fdiv_q_2exp") or not isinstance(t.args[1], int):
            break
        v, k = t.args[0], k + t.args[1]
    return v, k


def orders(bits):
    return sorted({(1 << bits) - 1, (1 << (bits - 1)) + 1, (1 << bits) - (1 << bits // 2) + 1, (5 << bits >> 3) | 1})


def sequence(prog, bits, ln):
    """the bytes of every data of ln bytes reach the number at their places"""
    count = (bits + 7) // 8
    n = orders(bits)[-1]
    data = [A("v", "byte", i) for i in range(ln)]
    w = H(prog, data)
    z, lim = w.S.mpz("z", A("v", "old")), w.S.mpz("limit", n)
    w.I.models["__gmpz_cmp"] = lambda I, ins, f, a, st: -1 if zin(I, a[1], st, ins) == n and zin(I, a[0], st, ins) != n else NotImplemented
    outs, bad = w.run("pbc_mpz_from_hash", z, lim, w.data, ln)
    if bad:
        return bad
    if len(outs) != 1:
        raise Undecided("%d outcomes" % len(outs))
    got = w.I.zcont(outs[0][0], z)
    want = number(expand(data, count))
    if got == want:
        return None
    if any(t.op not in ("v",) for t in terms(got)) if not isinstance(got, int) else False:
        raise Undecided("number %s" % show(got)[:100])
    return "%d bytes hashed below a limit of %d bits give %s instead of %s" % (ln, bits, show(got)[:200], show(want)[:200])


def constants(prog, bits, ln):
    """the number below the limit, for constant bytes"""
    count = (bits + 7) // 8
    for n in orders(bits):
        ob = list(n.to_bytes(count, "big"))
        pats = [[0] * ln, [255] * ln, [128] + [0] * (ln - 1), [(37 * i + 11) & 255 for i in range(ln)], [0] * (ln - 1) + [1]]
        for m in (n, n - 1, n + 1, 2 * n, 2 * n - 1, 2 * n + 1, n // 2):
            if m.bit_length() <= 8 * count and ln >= count:
                pats.append(list(m.to_bytes(count, "big")) + [7] * (ln - count))
        for data in {tuple(p[:ln]) for p in pats}:
            w = H(prog, data)
            z, lim = w.S.mpz("z", 5), w.S.mpz("limit", n)
            outs, bad = w.run("pbc_mpz_from_hash", z, lim, w.data, ln)
            if bad:
                return bad
            if len(outs) != 1:
                raise Undecided("%d outcomes" % len(outs))
            got = w.I.zcont(outs[0][0], z)
            if not isinstance(got, int):
                raise Undecided("number %s" % show(got)[:100])
            want = int.from_bytes(bytes(expand(data, count)), "big")
            while want >= n:
                want >>= 1
            if got != want:
                return "bytes %s hashed below %s give %s instead of %s" % (bytes(data).hex(), hex(n), hex(got), hex(want))
            if w.I.zcont(outs[0][0], lim) != n:
                return "the limit is changed"


def prime(prog, name, fl, limbs, zero):
    """an element of a prime field is the number hashed below the order"""
    k = fpkind(name, fl, limbs, limbs in (None, 1))
    hv = 0 if zero else A("v", "h")
    calls = []
    base = k.setup

    def setup(S):
        F = base(S)

        def m(I, ins, n, a, st):
            calls.append((zin(I, a[1], st, ins), a[2], a[3]))
            zout(I, a[0], hv, st, ins)
            if not zero and fl:
                I.assume(st, I.is0(hv), False)
        S.I.models["pbc_mpz_from_hash"] = m
        if not zero:
            S.I.lin.base += [hv if not fl else sub(hv, 1), sub(sub(k.p, 1), hv)]
        return F
    k.setup = setup
    try:
        r = Run(prog, k, "element_from_hash", "from_hash", "obn", ())
    except NotProvided:
        return None
    if len(calls) != 1:
        raise Undecided("%d numbers hashed" % len(calls))
    lim, d, n = calls[0]
    if lim != k.p:
        return "the number is hashed below %s instead of the order" % show(lim)[:80]
    if d != r.buf or n not in (A("v", "n"),):
        t = as_atom(n) if is_val(n) else None
        if d != r.buf or t is None or t.op not in ("trunc", "zext", "sext", "and", "v"):
            return "not exactly the given bytes are hashed"
    rs = Residue(k)
    Rinv = inv(rs.R()) if k.mont else 1
    und = None
    for st, _ in r.res:
        view = k.view(r.S, r.out, st)
        v = c22.stored(view)
        if not rs.same(mul(v, Rinv), hv) and not c22.congruent(rs, st, sub(mul(v, Rinv), hv)):
            und = show(v)[:100]
    if und is None:
        return None
    exits = [(st, k.view(r.S, r.out, st), rv) for st, rv in r.res]

    def judge(m, st, view, rv):
        v = m.i(c22.stored(view))
        if c22.decode(m, k, v) != m.i(hv):
            return "for the number %s the element is %s" % (hex(m.i(hv)), hex(c22.decode(m, k, v)))
    d = c22.witness(r, "element_from_hash", exits, judge, 100)
    if d:
        return d
    raise Undecided("element %s" % und)


def ring(prog, init, ln):
    """the ring of integers and the nested lists take the bytes as one number"""
    data = [A("v", "byte", i) for i in range(ln)]
    w = H(prog, data)
    F = w.S.new_field("F", init)
    e = w.S.elem(F, "e")
    z = w.S.mpz("z", 0)
    outs, bad = w.run("element_from_hash", e, w.data, ln)
    if bad:
        return bad
    if len(outs) != 1:
        raise Undecided("%d outcomes" % len(outs))
    w.S.st = outs[0][0]
    outs, bad = w.run("element_to_mpz", z, e)
    got = w.I.zcont(outs[0][0], z)
    want = number(data[::-1])
    if got != want:
        return "%d bytes give %s instead of %s" % (ln, show(got)[:150], show(want)[:150])


class Parts:
    """base field hashes as names of the bytes they take"""

    def __init__(self, w, start=0):
        self.w, self.seen = w, []
        w.I.slot_hook = self.hook

    def hook(self, I, ins, sf, a, st, fr):
        if sf.slot == "from_hash":
            if not isinstance(a[1], Ptr) or not isinstance(a[2], int) or not isinstance(a[1].off, int):
                raise Undecided("bytes hashed")
            n = a[2] - (1 << 32) if a[2] >= 1 << 31 else a[2]
            self.seen.append((a[1].obj, a[1].off, n))
            if a[1].obj is self.w.data.obj:
                if n < 0 or a[1].off < 0 or a[1].off + n > I.limit[a[1].obj]:
                    I.beyond.append("%s hashes bytes %d to %d of %d" % (ir.loc(ins), a[1].off, a[1].off + n, I.limit[a[1].obj]))
                I.eset(st, a[0], A("hash", "data", a[1].off, n), ins)
            else:
                I.eset(st, a[0], A("hash", a[1].obj.term, a[1].off, n), ins)
            return None
        return NotImplemented


def components(prog, mk, split, ln):
    data = [A("v", "byte", i) for i in range(ln)]
    w = H(prog, data)
    Parts(w)
    k = mk()
    F = k.setup(w.S)
    e = k.mk(w.S, F, "e")
    outs, bad = w.run("element_from_hash", e, w.data, ln)
    if bad:
        return bad
    n = k.ncomp
    want = [A("hash", "data", 0, ln // 2), A("hash", "data", ln // 2, ln - ln // 2)] if split else [A("hash", "data", 0, ln)] * n
    for st, _ in outs:
        got = k.value(w.S, e, st)
        for i, (x, y) in enumerate(zip(got, want)):
            if x != y:
                return "component %d of an element hashed from %d bytes is %s instead of %s" % (i, ln, show(x)[:100], show(y))


def points(prog, g, cofac, root):
    """the point has the first suitable abscissa and the root of sign +, whichever root is found"""
    w = c12.World(prog, g, cofac=cofac)
    I, S = w.I, w.S
    if not isinstance(w.starts, list):
        raise Undecided("no group")
    R = A("v", "root")
    roots = []
    X = A("v", "hashed")
    buf = S.raw("data")
    got = []
    n0 = [0]
    inner = I.slot_hook

    def hook(I_, ins, sf, a, st, fr):
        if sf.slot == "from_hash":
            if a[1] != buf or a[2] != A("v", "n"):
                t = as_atom(a[2]) if is_val(a[2]) else None
                if a[1] != buf or t is None or t.op not in ("trunc", "zext", "sext"):
                    got.append("not exactly the given bytes are hashed")
            w.I.eset(st, a[0], X, ins)
            return None
        if sf.slot == "is_sqr":
            v = w.I.econt(st, a[0])
            st.m[("tries", 0, 0)] = st.m.get(("tries", 0, 0), 0) + 1
            if st.m[("tries", 0, 0)] < tries[0]:
                return 0
            return 1
        if sf.slot == "sqrt":
            roots.append(w.I.econt(st, a[1]))
            w.I.eset(st, a[0], R, ins)
            return None
        if sf.slot == "sign":
            v = w.I.econt(st, a[0])
            if v == R:
                return root
            if v == neg(R):
                return -root
            raise Undecided("sign of %s" % show(v)[:60])
        return NotImplemented
    I.slot_hook = hook
    mulp = []

    def m_mul(I_, ins, n, a, st):
        if not w.ours(a[0], st) or not w.ours(a[1], st):
            return NotImplemented
        mulp.append((w.view(a[1], st), w.I.zcont(st, a[2])))
        w.put(a[0], st, A("v", "multiple", "x"), A("v", "multiple", "y"))
    for nm in ("element_mul_mpz", "element_pow_mpz"):
        I.models[nm] = m_mul
    a_, b_ = None, None
    tries = [1]
    for t in (1, 2, 3):
        tries[0] = t
        for st in w.starts:
            for old in (0, 1):
                del mulp[:], roots[:]
                a, st1 = w.elem(st.copy(), "a%d" % old)
                w.put(a, st1, A("v", "old", "x"), A("v", "old", "y")) if old else w.putO(a, st1)
                outs = S.run("element_from_hash", a, buf, A("v", "n"), st=st1)
                if got:
                    return got[0]
                if len(outs) != 1:
                    raise Undecided("%d outcomes" % len(outs))
                x = X
                for _ in range(t - 1):
                    x = add(mul(x, x), 1)
                y = R if root >= 0 else neg(R)
                v = w.view(a, outs[0][0])
                if cofac:
                    if len(mulp) != 1:
                        raise Undecided("%d multiplications of the point" % len(mulp))
                    if mulp[0][1] != w.I.zcont(st, S.mpz("cofac")):
                        return "the point is multiplied by %s instead of the cofactor" % show(mulp[0][1])
                    if v.get("x") != A("v", "multiple", "x"):
                        return "the multiple by the cofactor is not the result"
                    v = mulp[0][0]
                if "x" not in v:
                    return "after %d unsuitable abscissas the result is O" % (t - 1)
                ca, cb = w.coef(outs[0][0])
                t3 = add(add(power(x, 3), mul(ca, x)), cb)
                if v["x"] != x:
                    return "after %d unsuitable abscissas the point has abscissa %s instead of %s" % (t - 1, show(v["x"])[:100], show(x)[:100])
                if not roots or roots[-1] != t3:
                    return "the ordinate is a root of %s instead of %s" % (show(roots[-1])[:100] if roots else "nothing", show(t3)[:100])
                if v["y"] != y and not (root == 0 and v["y"] == neg(y)):
                    return "when the root found has sign %d, the ordinate is %s: the point depends on which root is found" % (root, show(v["y"])[:60])


def signs(prog, mk, pat):
    """the sign of -a is the opposite of the sign of a, and 0 only for 0"""
    res = []
    for s in (1, -1):
        S = Scenario(prog)
        k = mk()
        F = k.setup(S)
        vals = [A("v", "a", i) if p else 0 for i, p in enumerate(pat)]
        e = k.mk(S, F, "a", [v if s == 1 else neg(v) for v in vals])
        of = {}
        for v, p in zip(vals, pat):
            of[v] = p
            of[neg(v)] = -p
        of[0] = 0

        def hook(I, ins, sf, a, st, fr):
            if sf.slot == "sign":
                v = I.econt(st, a[0])
                if v not in of:
                    raise Undecided("sign of %s" % show(v)[:60])
                return of[v]
            return NotImplemented
        S.I.slot_hook = hook
        for v in vals:
            if v != 0:
                S.I.assume(S.st, S.I.is0(v), False)
        outs = S.run("element_sign", e)
        rs = {rv - (1 << 32) if isinstance(rv, int) and rv >= 1 << 31 else rv for _, rv in outs}
        if len(rs) != 1 or not isinstance(next(iter(rs)), int):
            raise Undecided("sign %s" % rs)
        res.append(next(iter(rs)))
    if bool(res[0]) != any(pat):
        return "components of signs %s give sign %d" % (pat, res[0])
    if (res[0] > 0) != (res[1] < 0) or (res[0] < 0) != (res[1] > 0):
        return "components of signs %s give sign %d, their negatives %d" % (pat, res[0], res[1])


QUAD = [(n, lambda n=n: K_.Quadratic(n), True) for n in ("field_init_quadratic", "field_init_fi")]
EXT = QUAD + [("field_init_polymod/%d" % n, lambda n=n: K_.Polymod(n), False) for n in (2, 3, 5, 6)]


def items(tier):
    deep = tier == "thorough"
    for bits in (2, 3, 7, 8, 9, 12, 16, 17, 31, 64, 65, 160, 256, 521) + ((1024, 1536) if deep else ()):
        c = (bits + 7) // 8
        lens = sorted(set(range(0, min(c, 8) + 3)) | {c // 2, c - 1, c, c + 1, c + 2} | ({20, 32, 64} if bits < 300 or deep else set()) | (set(range(c + 3)) if deep else set()))
        for ln in lens:
            if ln >= 0:
                yield "sequence", (bits, ln)
                if bits <= 65 or ln in (0, 1, 5, c - 1, c, c + 1, 20) or deep:
                    yield "constants", (bits, ln)
    yield "sequence", (2200, 0)
    for name, fl in c22.IMPL:
        for limbs in (None, 1, 2):
            for zero in (0, 1):
                yield "prime", (name, fl, limbs, zero)
    for init in ("field_init_z", "field_init_multiz"):
        for ln in range(0, 12):
            yield "ring", (init, ln)
    for name, mk, split in EXT:
        for ln in range(0, 14 if not deep else 70):
            yield "components", (name, mk, split, ln)
    for cofac in (False, True):
        for root in (1, -1, 0):
            yield "points", (G_.Curve, cofac, root)
    for name, mk, split in EXT:
        n = 2 if split else int(name.split("/")[1])
        for pat in itertools.product((0, 1, -1), repeat=n):
            if n > 3 and sum(map(bool, pat)) > (2 if not deep else n):
                continue
            yield "signs", (name, mk, pat)


def item(prog, c, it):
    kind, args = it
    fn = globals()[kind]
    name = "%s %s" % (kind, " ".join(str(getattr(x, "__name__", x)) for x in args if not callable(x) or isinstance(x, type)))
    if kind in ("components", "signs"):
        args = args[1:]
    c.ob(name, lambda: fn(prog, *args))


def main():
    absint.MAXUNROLL = 3000
    tier = os.environ.get("VERIF_TIER", "quick")
    prog = program()
    c = Check("C21", "The bytes given reach the hashed number at the documented places, for symbolic bytes and limits of many lengths, and the number is cut below the limit; "
              "every prime field takes that number, extensions give each component its bytes, curves take the first suitable abscissa and the root of positive sign; signs of opposites are opposite.",
              floor=20, assumptions=["lengths of data and limit from a list"])
    c.parallel(list(items(tier)), lambda s, it: item(prog, s, it))
    return c.finish()
