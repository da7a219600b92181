"""Encoded elements decode to equal elements; lengths agree; nothing else is written."""
from engine.check import Check, program
from engine.scen import Scenario, Missing
from engine.absint import Fn, Ptr, SlotFn, Undecided
from engine.ops import *
from engine.ops import gt_kind
from engine.poly import *
from engine.poly import T, A, as_atom, Poly, deps_of, subst_fn
from engine import ir, groupkinds as G_

LEN = A("v", "len")


def setup(prog, k):
    S = Scenario(prog)
    I = S.I
    K = S.field("K")
    S.st.m[("m", K.obj, I.slotoff("fixed_length_in_bytes"))] = LEN
    for i in range(1, 13):
        S.st.facts[T("neg", mul(i, LEN))] = 0
        for j in (2, 3, 4, 8):
            S.st.facts[T("neg", A("sdiv", mul(i, LEN), j))] = 0
    F = k.setup(S)
    return S, I, F


def is_fp(k):
    return getattr(k, "p", None) is not None


def buffer(S, name="buf"):
    b = S.raw(name)
    S.st.m[("L", b.obj)] = A("v", name + "old")
    return b


def valid(S, k, name):
    """the named point satisfies the curve equation"""
    c = k.c
    x, y = A("v", name, "x"), A("v", name, "y")
    S.I.assume(S.st, S.I.is0(sub(add(add(power(x, 3), mul(c.a, x)), c.b), power(y, 2))), True)


def case(prog, k, v):
    for r in (k.variants() if k.flagged else k.variants()[:1]):
        m = case1(prog, k, v, r)
        if m:
            return m
    return None


def case1(prog, k, v, r):
    S, I, F = setup(prog, k)
    if not provided(S, F, "to_bytes") or not provided(S, F, "from_bytes"):
        return None
    if isinstance(k, CurveKind):
        I.split = "branches"
    a, b = S.elem(F, "a"), S.elem(F, "b")
    k.put(S, a, "a", v)
    k.put(S, b, "b", r)
    if isinstance(k, CurveKind) and v != "O":
        valid(S, k, "a")
    buf = buffer(S)
    if k.flagged:
        k.part(S, [b])
    base = S.st
    va = k.view(S, a, base)
    for st, n in S.run("element_length_in_bytes", a, st=base.copy()):
        for st1, n1 in S.run("element_to_bytes", buf, a, st=st.copy()):
            m = same(n, n1, "element_to_bytes returns %s for an element of length %s")
            if m:
                return m
            m = frame(I, st1, buf, n1)
            if m:
                return m
            for st2, n2 in S.run("element_from_bytes", b, buf, st=st1.copy()):
                m = same(n1, n2, "of %s encoded bytes element_from_bytes uses %s", swap=True)
                if m:
                    return m
                if not possible(st2):
                    continue
                vb = k.view(S, b, st2)
                m = views(k, va, vb)
                if m:
                    return m
    return None


def possible(st):
    """false if the path's conditions contradict each other"""
    zero = {}
    for t, b in st.facts.items():
        if t.op == "is0" and b:
            a = as_atom(t.args[0])
            if a is not None:
                zero[a] = 0
    if not zero:
        return True
    for t, b in st.facts.items():
        if t.op == "is0" and isinstance(t.args[0], Poly):
            v = subst_fn(t.args[0], lambda x: zero.get(x))
            if isinstance(v, int) and (v == 0) != bool(b) and abs(v) <= 1:
                return False
    return True


def same(a, b, msg, swap=False):
    if equal(a, b):
        return None
    if any(x in repr(a) + repr(b) for x in ("phi", "undef", "ld(")):
        raise Undecided("lengths %s and %s" % (show(a), show(b)))
    return msg % ((show(a), show(b)) if swap else (show(b), show(a)))


def frame(I, st, buf, n):
    after = I.rawread(st, Ptr(buf.obj, n), 8)
    if not equal(after, A("sel", A("v", "bufold"), n, 8)):
        if "phi" in repr(after):
            raise Undecided("bytes after the encoding: %s" % show(after)[:100])
        return "encoding writes beyond the reported length"
    return None


def views(k, va, vb):
    if va == vb:
        return None
    if set(va) != set(vb):
        if any("flag" in str(x) for x in vb) or any("phi" in repr(x) for x in vb.values()):
            raise Undecided("decoded element %s" % str(vb)[:200])
        return "decoding gives an element with other components: %s instead of %s" % (str(vb)[:100], str(va)[:100])
    for q in va:
        x, y = va[q], vb[q]
        if isinstance(x, bool) or isinstance(y, bool):
            if x != y:
                return "decoding changes %s" % (q,)
            continue
        if not equal(x, y, k.char):
            if any(t in repr(y) for t in ("phi", "lshr", "frombytes")) and not clean(y):
                raise Undecided("decoded component %s" % show(y)[:200])
            return "decoding gives %s for %s" % (show(y)[:100], show(x)[:100])
    return None


def clean(y):
    a = as_atom(y)
    return a is not None and a.op == "v" or isinstance(y, int)


# ---------------------------------------------------------------- prime fields
def fp(prog, k, v):
    """big-endian, padded to the fixed length"""
    S, I, F = setup(prog, k)
    cell = ("m", F.obj, I.slotoff("fixed_length_in_bytes"))
    fl = S.st.m.get(cell)
    want = A("udiv", add(A("zbits", k.p, 2), 7), 8)
    if not is_val(fl):
        raise Undecided("length of the field %s" % (fl,))
    if not equal(fl, want):
        if deps_of(fl) <= deps_of(want) and "phi" not in repr(fl):
            return "the length of an element is %s instead of the number of bytes of the prime" % show(fl)
        raise Undecided("length %s" % show(fl))
    S.st.m[cell] = LEN
    S.st.facts[T("neg", LEN)] = 0
    val = A("v", "integer of a")
    tm, sm = S.slot(F, "to_mpz"), S.slot(F, "set_mpz")
    if not isinstance(tm, Fn) or not isinstance(sm, Fn):
        raise Undecided("conversions not resolved")
    a, b = S.elem(F, "a"), S.elem(F, "b")
    k.put(S, a, "a", v)
    k.put(S, b, "b", k.variants()[0])
    if v == "zero":
        val = 0
    sets = []

    def to_mpz(I_, ins, n, x, st):
        if x[1] != a:
            return NotImplemented
        I.zset(st, x[0], val, ins)

    def set_mpz(I_, ins, n, x, st):
        if x[0] != b:
            return NotImplemented
        sets.append(I.zcont(st, x[1]))
    I.models[tm.name] = to_mpz
    I.models[sm.name] = set_mpz
    I.models["pbc_mpz_out_raw_n"] = lambda I_, ins, n, x, st: I.rawwrite(st, x[0], x[1], A("be", I.zcont(st, x[2]), x[1]), ins)
    buf = buffer(S)
    for st, n in S.run("element_to_bytes", buf, a, st=S.st.copy()):
        m = same(LEN, n, "element_to_bytes returns %s for an element of length %s")
        if m:
            return m
        got = I.rawread(st, buf, LEN)
        direct = {repr(x) for q, x in k.view(S, a, S.st).items() if x is not True}
        if not equal(got, A("be", val, LEN)) and not (val == 0 and got == 0):
            t = as_atom(got)
            if t is not None and t.op == "be" and repr(t.args[0]) in direct and not k.name.endswith("mont_fp"):
                pass
            elif t is not None and t.op in ("be", "export") and "phi" not in repr(got):
                return "the encoding of the integer %s is %s" % (show(val), show(got)[:120])
            else:
                raise Undecided("encoding %s" % show(got)[:200])
        if not (val == 0 and got == 0):
            m = frame(I, st, buf, LEN)
            if m:
                return m
    # decoding
    S.st.m[("L", buf.obj)] = A("v", "bufold")
    I.rawwrite(S.st, buf, LEN, A("be", A("v", "number"), LEN), None)
    outs = S.run("element_from_bytes", b, buf, st=S.st.copy())
    for st, n in outs:
        m = same(LEN, n, "of %s encoded bytes element_from_bytes uses %s", swap=True)
        if m:
            return m
    num = A("v", "number")
    if sets:
        for x in sets:
            if not equal(x, num):
                t = as_atom(x)
                if t is not None and t.op == "mod" and equal(t.args[0], num) and equal(t.args[1], k.p):
                    continue
                if deps_of(x) <= deps_of(num) | deps_of(k.p) and "phi" not in repr(x):
                    return "decoding the number %s sets the element to %s" % (show(num), show(x))
                raise Undecided("decoded number %s" % show(x)[:200])
        return None
    if k.flagged:
        raise Undecided("decoding not recognised")
    for st, n in outs:
        for q, x in k.view(S, b, st).items():
            t = as_atom(x)
            if equal(x, num) or t is not None and t.op == "mod" and equal(t.args[0], num) and equal(t.args[1], k.p):
                continue
            if "phi" in repr(x):
                raise Undecided("decoded number %s" % show(x)[:200])
            return "decoding the number %s gives %s" % (show(num), show(x)[:100])
    return None


def out_raw(prog, zero):
    """pbc_mpz_out_raw_n writes n bytes, big-endian, padded with zeroes in front"""
    S = Scenario(prog)
    I = S.I
    I.split = "branches"
    z = S.mpz("z", 0 if zero else None)
    n = A("v", "n")
    data = buffer(S)
    LOG = ("log",)

    def m_export(I_, ins, nm, a, st):
        st.m[LOG] = st.m.get(LOG, ()) + (("export", tuple(a)),)

    def m_set(I_, ins, nm, a, st):
        st.m[LOG] = st.m.get(LOG, ()) + (("memset", tuple(a)),)
        return a[0]
    I.models["__gmpz_export"] = m_export
    I.models["memset"] = m_set
    if not zero:
        G_.nonzero(S, A("v", "z"))
        S.st.facts[T("neg", A("v", "z"))] = 0
        S.st.facts[T("neg", neg(A("v", "z")))] = 1
    cnt = 0 if zero else A("udiv", add(A("zbits", A("v", "z"), 2), 7), 8)
    base = dict(S.st.facts)
    outs = S.run("pbc_mpz_out_raw_n", data, n, z)
    try:
        return raw_paths(outs, base, data, n, z, cnt, zero, LOG)
    except Undecided:
        bad = None if zero else raw_small(prog)
        if bad:
            return bad
        raise


def raw_small(prog):
    """numbers of few bytes in short buffers, when the general argument does not apply"""
    for n in range(1, 6):
        for c in range(1, n + 1):
            S = Scenario(prog)
            I = S.I
            z = S.mpz("z")
            G_.nonzero(S, A("v", "z"))
            S.st.facts[T("neg", A("v", "z"))] = 0
            S.st.facts[T("neg", neg(A("v", "z")))] = 1
            data = buffer(S)

            def bytes_(st, p, k, f):
                if not isinstance(k, int) or not isinstance(p.off, int):
                    raise Undecided("length %s" % show(k))
                for i in range(k):
                    I.store(st, Ptr(p.obj, p.off + i), f(i))

            def m_export(I_, ins, nm, a, st):
                bytes_(st, a[0], c, lambda i: A("v", "z%d" % i))

            def m_set(I_, ins, nm, a, st):
                bytes_(st, a[0], a[2], lambda i: a[1])
                return a[0]
            I.models["__gmpz_export"] = m_export
            I.models["memset"] = m_set
            I.models["__gmpz_sizeinbase"] = lambda I_, ins, nm, a, st: 8 * c if a[1] == 2 else c if a[1] == 256 else NotImplemented
            for st, _ in S.run("pbc_mpz_out_raw_n", data, n, z):
                got = [(st.m[("m", data.obj, i)] if ("m", data.obj, i) in st.m else I.rawread(st, Ptr(data.obj, i), 1)) for i in range(n)]
                want = [0] * (n - c) + [A("v", "z%d" % i) for i in range(c)]
                for i in range(n):
                    if equal(got[i], want[i]):
                        continue
                    r = repr(got[i])
                    if "bufold" in r and "phi" not in r:
                        return "byte %d of the %d-byte encoding of a %d-byte number is not written" % (i, n, c)
                    raise Undecided("byte %d is %s" % (i, show(got[i])))
    return None


def raw_paths(outs, base, data, n, z, cnt, zero, LOG):
    for st, _ in outs:
        pads = [d for d in range(0, 5) if reachable(st, base, n, add(cnt, d))]
        m = raw_path(st, st.m.get(LOG, ()), data, n, z, cnt, zero, pads)
        if m:
            return m
    return None


def reachable(st, base, n, v):
    """the path can be taken when n has the given value"""
    at = as_atom(n)
    for t, b in st.facts.items():
        if t in base or not t.args or not isinstance(t.args[0], Poly):
            continue
        x = subst_fn(t.args[0], lambda y: v if y == at else None)
        if not isinstance(x, int):
            continue
        if t.op == "neg" and bool(b) != (x < 0) or t.op == "is0" and bool(b) != (x == 0):
            return False
        if t.op not in ("neg", "is0"):
            continue
    return True


def raw_path(st, log, data, n, z, cnt, zero, pads):
    ex = [a for w, a in log if w == "export"]
    ms = [a for w, a in log if w == "memset"]
    w = touched(st, data)
    if zero and not ex:
        if not ms and len(w) <= 1 and any(pads[1:] if w else pads):
            return "zero is written into %d bytes only" % len(w)
        if len(ms) != 1:
            raise Undecided("writes %s" % (log,))
        if ms[0][0] == data and ms[0][1] == 0 and equal(ms[0][2], n):
            return None
        return "zero is written as %s" % (ms[0],)
    if len(ex) != 1 or len(ms) > 1:
        raise Undecided("writes %s" % (log,))
    e = ex[0]
    if e[2] != 1 or e[3] != 1 or e[6] != z:
        if isinstance(e[2], int) and isinstance(e[3], int):
            return "the integer is not written most significant byte first"
        raise Undecided("export %s" % (e,))
    if not isinstance(e[0], Ptr) or e[0].obj is not data.obj:
        raise Undecided("export to %s" % (e[0],))
    if not equal(e[0].off, sub(n, cnt)):
        if "phi" in repr(e[0].off):
            raise Undecided("export to %s" % (e[0],))
        return "the integer is written at offset %s, not at the end of the %s bytes" % (show(e[0].off), show(n))
    if not ms:
        if not any(pads):
            return None
        if not w:
            return "the bytes before the integer are not set to zero"
        raise Undecided("padding not recognised")
    if not (ms[0][0] == data and ms[0][1] == 0 and equal(ms[0][2], sub(n, cnt))):
        if ms[0][0] == data and ms[0][1] == 0 and equal(ms[0][2], n) and [x for x, _ in log] == ["memset", "export"]:
            return None
        return "the bytes before the integer are not all set to zero"
    return None


def touched(st, data):
    """the writes to the buffer; None for one of unknown size"""
    t = as_atom(st.m.get(("L", data.obj), 0))
    w = []
    while t is not None and t.op == "upd":
        if t.args[2] != 1:
            w += [None, None]
        w.append(t.args[1])
        t = as_atom(t.args[0])
    if t is None or t.op != "v":
        w += [None, None]
    for q in st.m:
        if q[0] != "L" and len(q) > 2 and q[1] is data.obj:
            w.append(q[2])
    return w


# ---------------------------------------------------------------- compressed points
def compressed(prog, form, case):
    for r in ("point", "O"):
        m = compressed1(prog, form, case, r)
        if m:
            return m
    return None


def compressed1(prog, form, case, r):
    """case: (sign of y, sign of the root found) or 'O'"""
    k = CurveKind(G_.Curve)
    S, I, F = setup(prog, k)
    I.split = "branches"
    a, b = S.elem(F, "a"), S.elem(F, "b")
    k.put(S, a, "a", "O" if case == "O" else "point")
    k.put(S, b, "b", r)
    if case != "O":
        valid(S, k, "a")
    x, y = A("v", "a", "x"), A("v", "a", "y")
    rhs = add(add(power(x, 3), mul(k.c.a, x)), k.c.b)
    if case != "O":
        sy, sr = case
        (G_.nonzero(S, y) if sy else S.I.assume(S.st, S.I.is0(y), True))

    def hook(I_, ins, sf, args, st, fr):
        if case == "O":
            return NotImplemented
        if sf.slot == "is_sqr" and on(I.econt(st, args[0])):
            return 1
        if sf.slot == "sqrt" and on(I.econt(st, args[1])):
            I.eset(st, args[0], mul(sr, y), ins)
            return None
        if sf.slot == "sign":
            v = I.econt(st, args[0])
            if equal(v, y):
                return sy
            if equal(v, neg(y)):
                return -sy
        return NotImplemented

    def on(v):
        return equal(v, rhs) or equal(v, power(y, 2))
    I.slot_hook = hook
    buf = buffer(S)
    sfx = "_" + form
    for st, n in S.run("element_length_in_bytes" + sfx, a, st=S.st.copy()):
        for st1, n1 in S.run("element_to_bytes" + sfx, buf, a, st=st.copy()):
            m = same(n, n1, "the %s form has %%s bytes, its reported length is %%s" % form)
            if m:
                return m
            m = frame(I, st1, buf, n1)
            if m:
                return m
            for st2, n2 in S.run("element_from_bytes" + sfx, b, buf, st=st1.copy()):
                m = same(n1, n2, "of %%s bytes of the %s form %%s are used" % form, swap=True)
                if m:
                    return m
                va, vb = k.view(S, a, st2), k.view(S, b, st2)
                if "flag" in vb:
                    raise Undecided("decoded point %s" % str(vb)[:200])
                if form == "x_only" and "y" in vb and equal(vb["y"], neg(y)):
                    vb["y"] = y
                m = views(k, va, vb)
                if m:
                    return m
    return None


def lengths(prog):
    """the lengths a pairing reports are those of its groups' elements"""
    S = Scenario(prog)
    I = S.I
    pr = S.raw("pairing")
    fs = {}
    for g in ("G1", "G2"):
        fs[g] = S.field(g)
        S.st.m[("m", pr.obj, I.slotoff(g, "pairing_s"))] = fs[g]
    L = {}
    for g in ("G1", "G2", "GT", "Zr"):
        L[g] = A("v", "len" + g)
        off = I.slotoff("fixed_length_in_bytes")
        k = ("m", fs[g].obj, off) if g in fs else ("m", pr.obj, add(I.slotoff(g, "pairing_s"), off))
        S.st.m[k] = mul(2, L[g]) if g in fs else L[g]
    bad = []
    for g in ("G1", "G2"):
        for nm, want in (("pairing_length_in_bytes_" + g, mul(2, L[g])), ("pairing_length_in_bytes_x_only_" + g, L[g]),
                         ("pairing_length_in_bytes_compressed_" + g, add(L[g], 1))):
            bad += one(S, nm, pr, want)
    for g in ("GT", "Zr"):
        bad += one(S, "pairing_length_in_bytes_" + g, pr, L[g])
    return bad or None


def one(S, nm, pr, want):
    try:
        outs = S.run(nm, pr, st=S.st.copy())
    except Missing:
        return []
    for st, n in outs:
        if not equal(n, want) and not equal(n, subst_div(want)):
            r = repr(n)
            if "lenG" in r or "lenZr" in r:
                v = n
                a = as_atom(n)
                # halves of even numbers
                h = half(n)
                if h is not None and equal(h, want):
                    continue
                if h is None and not isinstance(n, Poly):
                    raise Undecided("%s is %s" % (nm, show(n)))
                return [(nm, "%s is %s for elements of %s bytes" % (nm, show(n), show(want)))]
            raise Undecided("%s is %s" % (nm, n))
    return []


def subst_div(w):
    return w


def half(n):
    """resolve (2 m) / 2"""
    from engine.poly import subst_fn

    def f(t):
        if t.op in ("sdiv", "udiv", "ashr", "lshr") and len(t.args) == 2 and t.args[1] in (1, 2):
            x = t.args[0]
            if isinstance(x, Poly):
                for g in ("G1", "G2"):
                    if equal(x, mul(2, A("v", "len" + g))):
                        return A("v", "len" + g)
        return None
    return subst_fn(n, f) if isinstance(n, Poly) else None


# ---- nested integers
NESTED = [0, 1, -1, 5, 127, 128, -128, 255, -255, 256, 32767, -32768, 65535, 1 << 31, -(1 << 63), (1 << 200) - 1, -(1 << 200),
          (0,), (1, -2), (3, (4, -300), 0), ((1, 2), ((70000,), -1), 5), tuple(range(-5, 6))]


def n_export(I, ins, n, a, st):
    """the bytes of a known number"""
    p, cnt, order, size, end, nails, z = a
    x = I.zcont(st, z)
    if not isinstance(x, int) or (order, size, nails) not in ((1, 1, 0), (0xffffffff, 1, 0), (-1, 1, 0)):
        raise Undecided("bytes of %s" % (x,))
    k = (abs(x).bit_length() + 7) // 8
    bs = abs(x).to_bytes(k, "big" if order == 1 else "little")
    for i, b in enumerate(bs):
        I.store(st, Ptr(p.obj, add(p.off, i)), b, ins)
    if isinstance(cnt, Ptr):
        I.store(st, cnt, k, ins)
    return p


def n_import(I, ins, n, a, st):
    z, cnt, order, size, end, nails, p = a
    if not isinstance(cnt, int) or (order, size, nails) not in ((1, 1, 0), (0xffffffff, 1, 0), (-1, 1, 0)):
        raise Undecided("number from %s bytes" % (cnt,))
    if cnt > 4000:
        I.beyond.append("%s reads a number of %d bytes" % (ir.loc(ins), cnt))
        return
    I.zset(st, z, int.from_bytes(bytes(I.ch(st, p, i, ins) for i in range(cnt)), "big" if order == 1 else "little"), ins)


def nested(prog, v, old):
    from checks.c20 import M
    w = M(prog)
    w.I.models["__gmpz_export"], w.I.models["__gmpz_import"] = n_export, n_import
    shape = lambda x: tuple(shape(y) for y in x) if isinstance(x, tuple) else "z"
    flat = lambda x: sum((flat(y) for y in x), []) if isinstance(x, tuple) else [x]

    def build(x):
        vs = iter(flat(x))
        return w.build(shape(x), lambda k: next(vs))[0]
    a, b = build(v), build(old)
    n = w.do("element_length_in_bytes", a)
    if not isinstance(n, int):
        return "the length of %r depends on something else than the element" % (v,)
    buf = Ptr(w.I.named("heap", "buffer"), 0)
    w.I.limit[buf.obj] = n
    for i in range(n):
        w.S.st.m[("m", buf.obj, i)] = 0xAA
    r = w.do("element_to_bytes", buf, a)
    if r != n:
        return "%r: %s bytes written, length %d" % (v, r, n)
    r = w.do("element_from_bytes", b, buf)
    if r != n:
        return "%r: %s bytes read, %d written" % (v, r, n)
    for e in (a, b):
        got = w.read(w.data(e))
        if got != v:
            return "%r becomes %r" % (v, got)


def item(prog, c, it):
    if it[0] == "nested":
        from checks.c20 import Fault

        def f():
            try:
                return nested(prog, *it[1:])
            except Fault as e:
                return str(e)
        c.ob("nested integers %r over %r" % it[1:], f)
        return
    if it[0] == "kind":
        _, k, v = it
        name = "%s, %s" % (k.name, v)
        f = (lambda: fp(prog, k, v)) if k.name.endswith("_fp") else (lambda: case(prog, k, v))
        r = c.ob(name, f)
        return
    if it[0] == "compressed":
        c.ob("%s form, %s" % (it[1], "O" if it[2] == "O" else "sign of y %d, root %+d y" % it[2]), lambda: compressed(prog, it[1], it[2]))
    elif it[0] == "raw":
        c.ob("integer %s" % ("zero" if it[1] else "nonzero"), lambda: out_raw(prog, it[1]))
    elif it[0] == "lengths":
        c.ob("lengths of a pairing", lambda: lengths(prog))


def items():
    for k in all_kinds() + [gt_kind()]:
        if k.name in ("field_init", "field_init_z"):
            continue
        for v in k.variants():
            yield ("kind", k, v)
    for s in ((1, 1), (1, -1), (-1, 1), (-1, -1), (0, 1)):
        yield ("compressed", "compressed", s)
        yield ("compressed", "x_only", s)
    yield ("compressed", "compressed", "O")
    yield ("raw", True)
    yield ("raw", False)
    yield ("lengths",)
    for v in NESTED:
        for old in (7, (1, (2, 3))):
            yield ("nested", v, old)


def main():
    prog = program()
    c = Check("C13", "Abstract interpretation of encode-then-decode for every kind of element: the decoded components are the encoded ones, "
              "the three lengths agree, and no byte beyond the length is written; prime-field numbers are big-endian and padded.",
              floor=12, assumptions=["operations of the abstract base field obey the same contract (proved for the prime fields here)"])
    c.parallel(list(items()), lambda s, it: item(prog, s, it))
    return c.finish()
