"""Declared effects of the primitives: GMP, libc, the configurable allocator, and
the operations of an abstract field / group / pairing (function-pointer slots)."""
import math
from . import ir
from .poly import (T, A, Term, Poly, add, sub, mul, neg, inv, power, as_atom, terms, is_val, atom,
                   subst_fn, show)
from .absint import Undecided, Ptr, PtrSet, Fn, SlotFn, Obj, EXTERN, OVERRIDE, SLOTS, DEAD, m_memcpy, m_memset


def ext(*names):
    def d(f):
        for n in names:
            EXTERN[n] = f
        return f
    return d


def over(*names):
    def d(f):
        for n in names:
            OVERRIDE[n] = f
            EXTERN.setdefault(n, f)
        return f
    return d


def slot(*names):
    def d(f):
        for n in names:
            SLOTS[n] = f
        return f
    return d


def V(x):
    """scalar value (pointers become opaque)"""
    if is_val(x):
        return x
    return A("p", x)


# ---------------------------------------------------------------- typestate
def ts(I, kind, act, p, st, ins):
    """resource event on the object at p"""
    if not I.track_ts:
        return
    if isinstance(p, Poly):
        if act == "clear":
            I.vague_at(ins, p)
        return
    if isinstance(p, PtrSet):
        if act == "clear":
            I.vague_at(ins, p)
        for a in p.alts:
            if isinstance(a, Ptr):
                k = ("ts", a.obj, a.off, kind)
                old = st.m.get(k, "none")
                if act != "use":
                    st.m[k] = tuple(sorted(set(old if isinstance(old, tuple) else (old,)) | {"init" if act == "init" else "cleared"}))
        return
    if not isinstance(p, Ptr):
        return
    k = ("ts", p.obj, p.off, kind)
    old = st.m.get(k, "none")
    I.ts_event(kind, act, p, st, ins, old)
    if act == "init":
        st.m[k] = "init"
    elif act == "clear":
        st.m[k] = "cleared"


# ---------------------------------------------------------------- GMP mpz
def zmod(p, m):
    """p mod m, nested reductions by the same modulus stripped"""
    def f(t):
        if t.op == "mod" and t.args[1] == m:
            return t.args[0]
        return None
    p = subst_fn(p, f)
    if isinstance(p, int) and isinstance(m, int) and m != 0:
        return p % abs(m)
    if p == 0 or p == 1:
        return p
    return A("mod", p, m)


def zout(I, p, v, st, ins):
    ts(I, "Z", "use", p, st, ins)
    I.zset(st, p, v, ins)


def zin(I, p, st, ins=None):
    ts(I, "Z", "read", p, st, ins)
    return I.zcont(st, p)


@ext("__gmpz_init")
def _(I, ins, n, a, st):
    ts(I, "Z", "init", a[0], st, ins)
    I.zset(st, a[0], 0, ins)


@ext("__gmpz_init_set")
def _(I, ins, n, a, st):
    v = zin(I, a[1], st, ins)
    ts(I, "Z", "init", a[0], st, ins)
    I.zset(st, a[0], v, ins)


@ext("__gmpz_init_set_ui", "__gmpz_init_set_si")
def _(I, ins, n, a, st):
    ts(I, "Z", "init", a[0], st, ins)
    v = V(a[1])
    I.zset(st, a[0], v % (1 << 64) if isinstance(v, int) and n.endswith("_ui") else v, ins)


@ext("__gmpz_clear")
def _(I, ins, n, a, st):
    ts(I, "Z", "clear", a[0], st, ins)
    p = a[0]
    if isinstance(p, Ptr):
        I.effect(p.obj, p.off, "Zclear", ins)
        st.m[("Z", p.obj, p.off)] = A("cleared", "Z")


def zop(names, f, nin):
    """out = f(in1..), then plain integer arguments"""
    def g(I, ins, n, a, st):
        vals = [zin(I, x, st, ins) for x in a[1:1 + nin]]
        rest = [V(x) for x in a[1 + nin:]]
        zout(I, a[0], f(*(vals + rest)), st, ins)
        return None
    for n in names:
        EXTERN[n] = g


def smallpow(a, n):
    if isinstance(n, int) and 0 <= n <= 12 and (isinstance(a, int) or len(a.d) ** n <= 400):
        return power(a, n)
    return A("pow", a, n)


@ext("__gmpz_set")
def _(I, ins, n, a, st):
    v = zin(I, a[1], st, ins)
    ts(I, "Z", "use", a[0], st, ins)
    sz = None
    if isinstance(a[1], Ptr) and I.explimbs(st, a[1]) is not None:
        sz = st.m.get(("m", a[1].obj, add(a[1].off, 4)))
    I.zset(st, a[0], v, ins, sz if is_val(sz) else None)


zop(["__gmpz_set_ui"], lambda n: n % (1 << 64) if isinstance(n, int) else n, 0)
zop(["__gmpz_set_si"], lambda n: n, 0)
zop(["__gmpz_add"], add, 2)
zop(["__gmpz_sub"], sub, 2)
zop(["__gmpz_mul"], mul, 2)
zop(["__gmpz_add_ui"], add, 1)
zop(["__gmpz_sub_ui"], sub, 1)
zop(["__gmpz_mul_ui"], lambda a, n: mul(a, n % (1 << 64) if isinstance(n, int) else n), 1)
zop(["__gmpz_mul_si"], mul, 1)
zop(["__gmpz_neg"], neg, 1)
zop(["__gmpz_mul_2exp"], lambda a, n: mul(a, 1 << n) if isinstance(n, int) and n < 4096 else mul(a, A("pow", 2, n)), 1)
zop(["__gmpz_pow_ui"], smallpow, 1)
zop(["__gmpz_mod"], zmod, 2)
zop(["__gmpz_powm"], lambda b, e, m: zmod(smallpow(b, e), m), 3)


def _powm_ui(I, ins, n, a, st):
    b, m = zin(I, a[1], st, ins), zin(I, a[3], st, ins)
    zout(I, a[0], zmod(smallpow(b, V(a[2])), m), st, ins)


EXTERN["__gmpz_powm_ui"] = _powm_ui


def opaque_z(op):
    def f(*a):
        if op in ("tdiv_q_2exp", "fdiv_q_2exp") and isinstance(a[1], int) and 0 <= a[1] < 4096 and isinstance(a[0], Poly) and \
                all(c % (1 << a[1]) == 0 for c in a[0].d.values()):
            return Poly({m: c >> a[1] for m, c in a[0].d.items()})
        if all(isinstance(x, int) for x in a) and len(a) == 2:
            if op in ("tdiv_q_2exp", "fdiv_q_2exp") and 0 <= a[1] < 4096:
                return a[0] >> a[1] if a[0] >= 0 or op[0] == "f" else -((-a[0]) >> a[1])
            if op in ("tdiv_r_2exp", "fdiv_r_2exp") and 0 <= a[1] < 4096:
                return a[0] & ((1 << a[1]) - 1) if a[0] >= 0 or op[0] == "f" else -((-a[0]) & ((1 << a[1]) - 1))
            if op == "gcd":
                return math.gcd(*a)
            if a[1] and op in ("tdiv_q", "tdiv_q_ui", "tdiv_r"):
                q = abs(a[0]) // abs(a[1]) * (1 if (a[0] < 0) == (a[1] < 0) else -1)
                return q if op != "tdiv_r" else a[0] - q * a[1]
            if a[1] and op in ("fdiv_q", "fdiv_q_ui"):
                return a[0] // a[1]
            if a[1] and op == "fdiv_r":
                return a[0] % a[1]
        if len(a) == 1 and isinstance(a[0], int):
            if op == "abs":
                return abs(a[0])
            if op == "sqrt" and a[0] >= 0:
                return math.isqrt(a[0])
        if op in ("divexact", "divexact_ui"):
            if all(isinstance(x, int) for x in a) and a[1] and a[0] % a[1] == 0:
                return a[0] // a[1]
            return mul(a[0], inv(a[1]))
        return A("z_" + op, *a)
    return f


for nm, k in [("tdiv_q", 2), ("divexact", 2), ("gcd", 2), ("fdiv_q", 2), ("tdiv_r", 2), ("fdiv_r", 2)]:
    zop(["__gmpz_" + nm], opaque_z(nm), k)
for nm in ["tdiv_q_2exp", "fdiv_q_2exp", "divexact_ui", "tdiv_q_ui", "fdiv_q_ui", "fdiv_r_2exp", "tdiv_r_2exp"]:
    zop(["__gmpz_" + nm], opaque_z(nm), 1)
for nm in ["sqrt", "nextprime", "abs"]:
    zop(["__gmpz_" + nm], opaque_z(nm), 1)
zop(["__gmpz_fac_ui"], lambda n: A("z_fac", n), 0)
zop(["__gmpz_ui_pow_ui"], lambda a, b: smallpow(a, b), 0)


@ext("__gmpz_fdiv_qr", "__gmpz_tdiv_qr")
def _(I, ins, n, a, st):
    x, y = zin(I, a[2], st, ins), zin(I, a[3], st, ins)
    zout(I, a[0], A("z_" + n[7:] + "_q", x, y), st, ins)
    zout(I, a[1], A("z_" + n[7:] + "_r", x, y), st, ins)


@ext("__gmpz_fdiv_r_ui", "__gmpz_tdiv_r_ui", "__gmpz_fdiv_ui")
def _(I, ins, n, a, st):
    x = zin(I, a[-2], st, ins)
    d = V(a[-1])
    v = x % d if isinstance(x, int) and isinstance(d, int) and d > 0 and (x >= 0 or "fdiv" in n) else A("z_fdiv_r", x, d)
    if len(a) == 3:
        zout(I, a[0], v, st, ins)
    return v


@ext("__gmpz_addmul", "__gmpz_submul", "__gmpz_addmul_ui", "__gmpz_submul_ui")
def _(I, ins, n, a, st):
    x, y = zin(I, a[0], st, ins), zin(I, a[1], st, ins)
    z = V(a[2]) if n.endswith("ui") else zin(I, a[2], st, ins)
    zout(I, a[0], (add if "add" in n else sub)(x, mul(y, z)), st, ins)


@ext("__gmpz_swap")
def _(I, ins, n, a, st):
    x, y = zin(I, a[0], st, ins), zin(I, a[1], st, ins)
    zout(I, a[0], y, st, ins)
    zout(I, a[1], x, st, ins)


@ext("__gmpz_divisible_ui_p")
def _(I, ins, n, a, st):
    x, y = zin(I, a[0], st, ins), V(a[1])
    return int(x % y == 0) if isinstance(x, int) and isinstance(y, int) and y else A("bool", "divisible", x, y)


@ext("__gmpz_ui_sub")
def _(I, ins, n, a, st):
    zout(I, a[0], sub(V(a[1]), zin(I, a[2], st, ins)), st, ins)


@ext("__gmpz_remove")
def _(I, ins, n, a, st):
    x, f = zin(I, a[1], st, ins), zin(I, a[2], st, ins)
    k = 0
    if not isinstance(x, int) or not isinstance(f, int) or not x or abs(f) < 2:
        zout(I, a[0], A("z_remove", x, f), st, ins)
        return A("z_multiplicity", x, f)
    while x % f == 0:
        x, k = x // f, k + 1
    zout(I, a[0], x, st, ins)
    return k


@ext("__gmpz_invert")
def _(I, ins, n, a, st):
    x, m = zin(I, a[1], st, ins), zin(I, a[2], st, ins)
    x = zmod(x, m)
    t = as_atom(x)
    y = t.args[0] if t is not None and t.op == "mod" else x
    zout(I, a[0], A("modinv", y, m), st, ins)
    return A("bool", "invertible", y, m)


@ext("__gmpz_setbit", "__gmpz_clrbit", "__gmpz_combit")
def _(I, ins, n, a, st):
    x = zin(I, a[0], st, ins)
    b = V(a[1])
    if isinstance(x, int) and isinstance(b, int) and 0 <= b < 4096 and x >= 0:
        v = {"setbit": x | (1 << b), "clrbit": x & ~(1 << b), "combit": x ^ (1 << b)}[n[7:]]
    elif n == "__gmpz_setbit" and x == 0 and is_val(b):
        v = A("pow", 2, b)
    else:
        v = A("z_" + n[7:], x, b)
    zout(I, a[0], v, st, ins)


def zfun(names, op, nz):
    def g(I, ins, n, a, st):
        vals = [zin(I, x, st, ins) for x in a[:nz]] + [V(x) for x in a[nz:]]
        return op(*vals) if callable(op) else A(op, *vals)
    for n in names:
        EXTERN[n] = g


def zcmp(a, b):
    d = sub(a, b)
    if isinstance(d, int):
        return (d > 0) - (d < 0)
    return A("zcmp", d)


def tstbit(a, i):
    if isinstance(a, int) and isinstance(i, int) and i >= 0:
        return (a >> i) & 1
    return A("bool", "bit", a, i)


def perfpow(a):
    if a in (0, 1, -1):
        return 1
    for e in range(2, abs(a).bit_length() + 1):
        if a < 0 and e % 2 == 0:
            continue
        lo, hi = 0, 1 << (abs(a).bit_length() // e + 1)
        while lo < hi:
            m = (lo + hi) // 2
            if m ** e < abs(a):
                lo = m + 1
            else:
                hi = m
        if lo ** e == abs(a):
            return 1
    return 0


zfun(["__gmpz_cmp"], zcmp, 2)
zfun(["__gmpz_cmp_ui", "__gmpz_cmp_si"], zcmp, 1)
def zcmpabs(a, b):
    return zcmp(abs(a), abs(b)) if isinstance(a, int) and isinstance(b, int) else A("zcmpabs", a, b)


zfun(["__gmpz_cmpabs"], zcmpabs, 2)
zfun(["__gmpz_cmpabs_ui"], zcmpabs, 1)
zfun(["__gmpz_tstbit"], tstbit, 1)
zfun(["__gmpz_sizeinbase"], lambda a, b: max(1, abs(a).bit_length()) if isinstance(a, int) and b == 2 else A("zbits", a, b), 1)
zfun(["__gmpz_divisible_p"], lambda a, b: int(a % b == 0) if isinstance(a, int) and isinstance(b, int) and b else A("bool", "divisible", a, b), 2)
zfun(["__gmpz_probab_prime_p"], lambda a, n: A("prime", a, n), 1)
zfun(["__gmpz_perfect_square_p"], lambda a: int(a >= 0 and math.isqrt(a) ** 2 == a) if isinstance(a, int) else A("bool", "perfsq", a), 1)
zfun(["__gmpz_perfect_power_p"], lambda a: perfpow(a) if isinstance(a, int) else A("bool", "perfpow", a), 1)
zfun(["__gmpz_jacobi", "__gmpz_legendre"], "jacobi", 2)
@ext("__gmpz_size")
def _(I, ins, n, a, st):
    return I.zlimbs(zin(I, a[0], st, ins))


zfun(["__gmpz_popcount"], lambda a: bin(a).count("1") if isinstance(a, int) and a >= 0 else A("popcount", a), 1)
zfun(["__gmpz_scan1"], lambda a, i: ((a >> i) & -(a >> i)).bit_length() - 1 + i if isinstance(a, int) and isinstance(i, int) and i >= 0 and a >> i else A("zscan1", a, i), 1)
zfun(["__gmpz_scan0"], lambda a, i: (~(a >> i) & -~(a >> i)).bit_length() - 1 + i if isinstance(a, int) and isinstance(i, int) and i >= 0 and ~(a >> i) else A("zscan0", a, i), 1)
zfun(["__gmpz_fits_ulong_p"], lambda a: A("bool", "fits", a), 1)
zfun(["__gmpz_get_ui"], lambda a: abs(a) % (1 << 64) if isinstance(a, int) else A("zget", a), 1)
zfun(["__gmpz_get_si"], lambda a: a if isinstance(a, int) else A("zget", a), 1)
zfun(["__gmpz_get_d"], "zgetd", 1)
zfun(["__gmpz_odd_p"], "zodd", 1)


@ext("__gmpz_realloc", "__gmpz_realloc2", "__gmpz_init2")
def _(I, ins, n, a, st):
    if n == "__gmpz_init2":
        ts(I, "Z", "init", a[0], st, ins)
        I.zset(st, a[0], 0, ins)
        return None
    p = a[0]
    if not isinstance(p, Ptr):
        return None
    lo = I.obj("lazy", T("obj", "limbs", p.obj.term, p.off))
    lo.info = Ptr(p.obj, p.off)
    return Ptr(lo, 0)


@ext("__gmpz_import")
def _(I, ins, n, a, st):
    # (rop, count, order, size, endian, nails, op)
    c = mul(V(a[1]), V(a[3]))
    r = I.rawread(st, a[6], c)
    order, size, endian = a[2], a[3], a[4]
    t = as_atom(r)
    if order == -1 and (endian in (0, -1) or size == 1):
        v = r
    elif order == 1 and size == 1:
        v = t.args[0] if t is not None and t.op == "be" and t.args[1] == c else A("frombe", r, c)
    else:
        v = A("import", r, V(a[1]), V(a[2]), V(a[3]), V(a[4]), V(a[5]))
    zout(I, a[0], v, st, ins)


@ext("__gmpz_export")
def _(I, ins, n, a, st):
    # (rop, countp, order, size, endian, nails, op)
    z = zin(I, a[6], st, ins)
    order, size, endian = a[2], a[3], a[4]
    cnt = I.zlimbs(z) if size == 8 else A("exportcount", z, V(size))
    if order == -1 and (endian in (0, -1) or size == 1):
        v = z
    elif order == 1 and size == 1:
        v = A("be", z, cnt)
    else:
        v = A("export", z, V(a[2]), V(a[3]), V(a[4]))
    if isinstance(a[0], (Ptr, PtrSet)):
        I.rawwrite(st, a[0], mul(cnt, V(a[3])), v, ins)
    if isinstance(a[1], (Ptr, PtrSet)):
        I.store(st, a[1], cnt, ins)
    return a[0] if isinstance(a[0], Ptr) else None


@ext("__gmpz_set_str", "__gmpz_init_set_str")
def _(I, ins, n, a, st):
    if n.endswith("init_set_str"):
        ts(I, "Z", "init", a[0], st, ins)
    s = I.rawread(st, a[1], "str") if isinstance(a[1], (Ptr, PtrSet)) else V(a[1])
    zout(I, a[0], A("z_str", s, V(a[2])), st, ins)
    return A("strerr", s, V(a[2]))


@ext("__gmpz_out_str", "__gmpz_inp_str")
def _(I, ins, n, a, st):
    z = zin(I, a[2], st, ins)
    return A("outlen", z, V(a[1]))


@ext("__gmpz_urandomm", "__gmpz_urandomb", "__gmp_randinit_default", "__gmp_randseed_ui", "__gmp_randclear")
def _(I, ins, n, a, st):
    if n == "__gmpz_urandomm":
        zout(I, a[0], A("rnd", I.cur.ctx, I.cur.iter, ins.bb, ins.idx), st, ins)


@ext("__gmp_fprintf", "fprintf", "printf", "vfprintf", "fputc", "putc", "putchar", "puts", "fputs", "vprintf",
     "fwrite", "fflush", "perror")
def _(I, ins, n, a, st):
    return A("outret", I.cur.ctx, I.cur.iter, ins.bb, ins.idx)


@ext("__gmp_snprintf", "snprintf", "__gmp_sprintf", "sprintf", "vsnprintf")
def _(I, ins, n, a, st):
    sized = "snprintf" in n
    k = 2 if sized else 1
    vals = []
    for x in a[k:]:
        if isinstance(x, (Ptr, PtrSet)):
            vals.append(("z", I.zcont(st, x)) if ("Z", getattr(x, "obj", None), getattr(x, "off", None)) in st.m
                        else ("s", I.rawread(st, x, "str")))
        else:
            vals.append(("i", V(x)))
    v = A("sprintf", n, tuple(vals))
    if isinstance(a[0], (Ptr, PtrSet)):
        I.rawwrite(st, a[0], "str", v, ins)
    return A("strlen", v)


# mpf / mpq: contents only (precision analysis is out of scope)
def fq_op(I, ins, n, a, st):
    kind = "F"
    ins_ = []
    for x in a[1:]:
        if isinstance(x, Ptr):
            v = st.m.get((kind, x.obj, x.off))
            if v is None:
                v = st.m.get(("Z", x.obj, x.off))
            ins_.append(v if v is not None else A("F", x.obj.term, x.off))
        else:
            ins_.append(V(x))
    base = n.split("_", 3)[-1]
    if n.endswith("_init") or n.endswith("_init2"):
        ts(I, "F", "init", a[0], st, ins)
        I.store(st, a[0], 0, ins, kind)
        return None
    if n.endswith("_clear"):
        ts(I, "F", "clear", a[0], st, ins)
        return None
    if n.endswith("_cmp"):
        return A("fcmp", V(a[0]) if is_val(a[0]) else A("F", a[0].obj.term, a[0].off), *ins_)
    if n.endswith("_get_ui") or n.endswith("_out_str") or n.endswith("_default_prec"):
        return A("fget", n, *[x for x in ins_])
    if n.endswith("_canonicalize"):
        return None
    ts(I, "F", "use", a[0], st, ins)
    I.store(st, a[0], A("f_op", n, tuple(ins_)), ins, kind)
    return None


for pre in ("__gmpf_", "__gmpq_"):
    for op in ("add add_ui clear cmp div div_2exp div_ui get_ui init init2 mul mul_2exp mul_ui neg out_str pow_ui set set_d "
               "set_default_prec set_q set_ui sqrt_ui sub trunc ui_div canonicalize inv set_si sqrt abs").split():
        EXTERN[pre + op] = fq_op


@ext("__gmpz_set_f", "__gmpz_set_q")
def _(I, ins, n, a, st):
    p = a[1]
    v = st.m.get(("F", p.obj, p.off)) if isinstance(p, Ptr) else None
    zout(I, a[0], A("z_set_f", v if v is not None else A("F", p.obj.term, p.off)), st, ins)


# ---------------------------------------------------------------- GMP mpn
def limbs(n):
    return mul(8, V(n))


def overlap(I, op, a, ps, ins):
    for p in ps:
        if isinstance(p, Ptr) and p == a:
            I.report("overlap", "%s: the result overlaps an operand" % op, ins)


def mpn(*names):
    def d(f):
        for n in names:
            EXTERN["__gmpn_" + n] = f
            EXTERN["mpn_" + n] = f
            OVERRIDE["__gmpn_" + n] = f
        return f
    return d


def opname(n):
    return n.replace("__gmpn_", "").replace("mpn_", "")


@mpn("add_n", "sub_n", "add_1", "sub_1")
def _(I, ins, n, a, st):
    op = opname(n)
    if op.endswith("_n"):
        sz = limbs(a[3])
        x, y = I.rawread(st, a[1], sz), I.rawread(st, a[2], sz)
    else:
        sz = limbs(a[2])
        x, y = I.rawread(st, a[1], sz), V(a[3])
    b = I.B(sz)
    if op.startswith("add"):
        c = sub(1, I.isneg(sub(add(x, y), b)))
        w, d = add(x, y), neg(b)
    else:
        c = I.isneg(sub(x, y))
        w, d = sub(x, y), b
    return carry_out(I, st, c, w, d, a[0], sz, ins)


def carry_out(I, st, c, w, d, p, sz, ins):
    """write w + c*d, where the condition c tells whether w leaves the range"""
    if I.split is True:
        out = []
        for s, tr in I.cases_of(st, c):
            I.rawwrite(s, p, sz, add(w, d) if tr else w, ins)
            out.append((s, tr))
        return out
    dd = I.decide(c, st)
    c = c if dd is None else dd
    I.rawwrite(st, p, sz, add(w, mul(c, d)), ins)
    return c


@mpn("mul_n")
def _(I, ins, n, a, st):
    sz = limbs(a[3])
    x, y = I.rawread(st, a[1], sz), I.rawread(st, a[2], sz)
    overlap(I, "mpn_mul_n", a[0], a[1:3], ins)
    I.rawwrite(st, a[0], mul(2, sz), mul(x, y), ins)


@mpn("sqr")
def _(I, ins, n, a, st):
    sz = limbs(a[2])
    x = I.rawread(st, a[1], sz)
    overlap(I, "mpn_sqr", a[0], a[1:2], ins)
    I.rawwrite(st, a[0], mul(2, sz), mul(x, x), ins)


def hi(I, w, sz):
    """floor(w / 2^(8 sz))"""
    if w == 0:
        return 0
    return A("hi", w, sz)


@mpn("mul_1", "addmul_1", "submul_1")
def _(I, ins, n, a, st):
    op = opname(n)
    sz = limbs(a[2])
    w = mul(I.rawread(st, a[1], sz), V(a[3]))
    if op[0] != "m":
        o = I.rawread(st, a[0], sz)
        w = add(o, w) if op[0] == "a" else sub(o, w)
    h = hi(I, w, sz)
    I.rawwrite(st, a[0], sz, sub(w, mul(h, I.B(sz))), ins)
    return h if op[0] != "s" else neg(h)


@mpn("lshift")
def _(I, ins, n, a, st):
    sz = limbs(a[2])
    w = I.rawread(st, a[1], sz)
    k = a[3]
    w = mul(w, 1 << k) if isinstance(k, int) and 0 <= k < 64 else mul(w, A("pow", 2, V(k)))
    if k == 1:
        return carry_out(I, st, sub(1, I.isneg(sub(w, I.B(sz)))), w, neg(I.B(sz)), a[0], sz, ins)
    c = hi(I, w, sz)
    I.rawwrite(st, a[0], sz, sub(w, mul(c, I.B(sz))), ins)
    return c


@mpn("rshift")
def _(I, ins, n, a, st):
    sz = limbs(a[2])
    w = I.rawread(st, a[1], sz)
    k = a[3]
    if k == 1:
        b = I.odd(w, st)
        I.rawwrite(st, a[0], sz, mul(inv(2), sub(w, b)), ins)
        return A("rshiftout", w, 1)
    I.rawwrite(st, a[0], sz, A("rshift", w, V(k)), ins)
    return A("rshiftout", w, V(k))


@mpn("copyi", "copyd")
def _(I, ins, n, a, st):
    sz = limbs(a[2])
    I.rawwrite(st, a[0], sz, I.rawread(st, a[1], sz), ins)


@mpn("zero")
def _(I, ins, n, a, st):
    I.rawwrite(st, a[0], limbs(a[1]), 0, ins)


@mpn("zero_p")
def _(I, ins, n, a, st):
    return I.is0(I.rawread(st, a[0], limbs(a[1])))


@mpn("cmp")
def _(I, ins, n, a, st):
    return zcmp(I.rawread(st, a[0], limbs(a[2])), I.rawread(st, a[1], limbs(a[2])))


@mpn("tdiv_qr")
def _(I, ins, n, a, st):
    # qp, rp, qxn, np, nn, dp, dn
    x = I.rawread(st, a[3], limbs(a[4]))
    y = I.rawread(st, a[5], limbs(a[6]))
    overlap(I, "mpn_tdiv_qr", a[0], (a[3], a[5]), ins)
    overlap(I, "mpn_tdiv_qr", a[1], (a[5],), ins)
    I.rawwrite(st, a[1], limbs(a[6]), zmod(x, y), ins)
    I.rawwrite(st, a[0], add(limbs(sub(V(a[4]), V(a[6]))), 8), A("z_tdiv_q", x, y), ins)


# ---------------------------------------------------------------- libc / allocator
@ext("pbc_malloc", "malloc", "calloc")
def _(I, ins, n, a, st):
    o = I.obj("heap", T("obj", "heap", I.cur.ctx, I.cur.iter, ins.bb, ins.idx))
    o.site = ins
    o.size = a[0]
    o.info = n
    k = ("alive", o)
    if st.m.get(k) is not None:
        o.multi = True
        if I.track_ts:
            I.ts_event("M", "remalloc", Ptr(o, 0), st, ins, "init")
    for c in [c for c in st.m if len(c) > 1 and c[1] is o]:
        del st.m[c]
    st.m[k] = 1
    if n == "calloc":
        st.m[("zero", o)] = True
    ts(I, "M", "init", Ptr(o, 0), st, ins)
    return Ptr(o, 0)


@ext("pbc_realloc", "realloc")
def _(I, ins, n, a, st):
    p = a[0]
    if p == 0:
        return EXTERN["pbc_malloc"](I, ins, n, a[1:], st)
    if isinstance(p, (Ptr, PtrSet)):
        return p
    return A("realloc", V(p))


@ext("pbc_free", "free")
def _(I, ins, n, a, st):
    p = a[0]
    if isinstance(p, Ptr):
        ts(I, "M", "clear", p, st, ins)
        I.effect(p.obj, p.off, "free", ins)
        I.on_free(p, st, ins)
        for c in [c for c in st.m if len(c) > 1 and c[1] is p.obj and c[0] != "ts"]:
            del st.m[c]
    elif isinstance(p, PtrSet):
        ts(I, "M", "clear", p, st, ins)
    return None


EXTERN["memcpy"] = EXTERN["memmove"] = m_memcpy
EXTERN["memset"] = m_memset


@ext("strlen")
def _(I, ins, n, a, st):
    return A("strlen", I.rawread(st, a[0], "str"))


@ext("strcmp", "strncmp", "memcmp", "strcasecmp")
def _(I, ins, n, a, st):
    k = "str" if n != "memcmp" else V(a[2])
    x, y = I.rawread(st, a[0], k), I.rawread(st, a[1], k)
    if x == y:
        return 0
    if repr(x) > repr(y):
        return neg(A(n, y, x))
    return A(n, x, y)


@ext("strcpy", "strncpy", "strcat")
def _(I, ins, n, a, st):
    I.rawwrite(st, a[0], "str", I.rawread(st, a[1], "str"), ins)
    return a[0]


@ext("strchr", "strrchr", "strstr")
def _(I, ins, n, a, st):
    p = a[0]
    if isinstance(p, Ptr):
        return Ptr(p.obj, add(p.off, A("strchr", I.rawread(st, p, "str"), V(a[1]))))
    return A("strchr", V(p), V(a[1]))


@ext("__ctype_b_loc")
def _(I, ins, n, a, st):
    return Ptr(I.named("lazy", "ctype"), 0)


@ext("fopen", "fclose", "fread", "gettimeofday", "log", "sqrt", "floor", "exp", "getenv", "time", "fgets", "feof",
     "fgetc", "getc", "atoi", "strtol", "strtoul")
def _(I, ins, n, a, st):
    if n == "fopen":
        return Ptr(I.obj("lazy", T("obj", "deref", T("fopen", I.cur.ctx, ins.bb, ins.idx), 0)), 0)
    if n == "fread":
        I.rawwrite(st, a[0], mul(V(a[1]), V(a[2])), A("rnd", I.cur.ctx, I.cur.iter, ins.bb, ins.idx), ins)
    return A("libc", n, tuple(V(x) for x in a), I.cur.ctx, I.cur.iter, ins.bb, ins.idx)


@ext("rand", "random", "drand48", "lrand48")
def _(I, ins, n, a, st):
    return A("rnd", I.cur.ctx, I.cur.iter, ins.bb, ins.idx)


@over("exit", "abort", "pbc_die", "_exit", "__assert_fail")
def _(I, ins, n, a, st):
    return DEAD


@over("pbc_error", "pbc_info", "pbc_warn", "element_printf", "element_fprintf", "element_vfprintf", "pbc_set_msg_to_stderr")
def _(I, ins, n, a, st):
    return 0


@over("element_snprintf", "element_vsnprintf")
def _(I, ins, n, a, st):
    I.rawwrite(st, a[0], "str", A("esnprintf", I.cur.ctx, ins.bb, ins.idx), ins)
    return A("ret", I.cur.ctx, ins.bb, ins.idx)


@over("pbc_mpz_random")
def _(I, ins, n, a, st):
    zout(I, a[0], A("rnd", I.cur.ctx, I.cur.iter, ins.bb, ins.idx), st, ins)


@over("pbc_mpz_randomb")
def _(I, ins, n, a, st):
    zout(I, a[0], A("rnd", I.cur.ctx, I.cur.iter, ins.bb, ins.idx), st, ins)


@over("field_get_nqr")
def _(I, ins, n, a, st):
    f = a[0]
    if isinstance(f, Ptr):
        o = I.obj("lazy", T("obj", "nqr", f.obj.term, f.off))
        k = ("m", o, 0)
        if k not in st.m:
            st.m[k] = f
        if ("E", o, 0) not in st.m:
            st.m[("E", o, 0)] = A("nqr", f.obj.term)
        return Ptr(o, 0)
    return None


# ---------------------------------------------------------------- field slots
def ein(I, p, st, ins=None):
    ts(I, "E", "read", p, st, ins)
    return I.econt(st, p, ins)


def eout(I, p, v, st, ins):
    ts(I, "E", "use", p, st, ins)
    I.eset(st, p, v, ins)


def eop(names, f, nin):
    def g(I, ins, sf, a, st):
        vals = [ein(I, x, st, ins) for x in a[1:1 + nin]]
        rest = [V(x) for x in a[1 + nin:]]
        eout(I, a[0], f(*(vals + rest)), st, ins)
        return None
    for n in names:
        SLOTS[n] = g


def halve(a):
    if isinstance(a, int) and a % 2 == 0:
        return a // 2
    if isinstance(a, Poly) and all(c % 2 == 0 for c in a.d.values()):
        return Poly({m: c // 2 for m, c in a.d.items()})
    return mul(a, inv(2))


eop(["set"], lambda a: a, 1)
eop(["set0"], lambda: 0, 0)
eop(["set1"], lambda: 1, 0)
eop(["set_si"], lambda n: n, 0)
eop(["add"], add, 2)
eop(["sub"], sub, 2)
eop(["mul"], mul, 2)
eop(["div"], lambda a, b: mul(a, inv(b)) if b != 0 else A("div0", a), 2)
eop(["doub"], lambda a: mul(2, a), 1)
eop(["halve"], halve, 1)
eop(["square"], lambda a: mul(a, a), 1)
eop(["cubic"], lambda a: power(a, 3), 1)
eop(["neg"], neg, 1)
eop(["invert"], lambda a: inv(a) if a != 0 else A("div0", 1), 1)
eop(["add_ui"], add, 1)
eop(["mul_si"], mul, 1)
eop(["sqrt"], lambda a: A("sqrt", a), 1)


@slot("mul_mpz")
def _(I, ins, sf, a, st):
    x = ein(I, a[1], st, ins)
    eout(I, a[0], mul(x, I.zcont(st, a[2])), st, ins)


@slot("set_mpz")
def _(I, ins, sf, a, st):
    eout(I, a[0], I.zcont(st, a[1]), st, ins)


@slot("to_mpz")
def _(I, ins, sf, a, st):
    x = ein(I, a[1], st, ins)
    zout(I, a[0], x if isinstance(x, int) and x >= 0 else A("tompz", x), st, ins)


@slot("pow_mpz")
def _(I, ins, sf, a, st):
    x = ein(I, a[1], st, ins)
    n = I.zcont(st, a[2])
    eout(I, a[0], smallpow(x, n), st, ins)


@slot("init")
def _(I, ins, sf, a, st):
    ts(I, "E", "init", a[0], st, ins)
    I.eset(st, a[0], 0, ins)


@slot("clear")
def _(I, ins, sf, a, st):
    ts(I, "E", "clear", a[0], st, ins)
    p = a[0]
    if isinstance(p, Ptr):
        I.effect(p.obj, p.off, "Eclear", ins)
        st.m[("E", p.obj, p.off)] = A("cleared", "E")


@slot("is0")
def _(I, ins, sf, a, st):
    return I.is0(ein(I, a[0], st, ins))


@slot("is1")
def _(I, ins, sf, a, st):
    return I.is0(sub(ein(I, a[0], st, ins), 1))


@slot("cmp")
def _(I, ins, sf, a, st):
    return sub(1, I.is0(sub(ein(I, a[0], st, ins), ein(I, a[1], st, ins))))


@slot("sign")
def _(I, ins, sf, a, st):
    x = ein(I, a[0], st, ins)
    return 0 if x == 0 else A("sign", x)


@slot("is_sqr")
def _(I, ins, sf, a, st):
    return A("is_sqr", ein(I, a[0], st, ins))


@slot("random")
def _(I, ins, sf, a, st):
    eout(I, a[0], A("rnd", I.cur.ctx, I.cur.iter, ins.bb, ins.idx), st, ins)


@slot("from_hash")
def _(I, ins, sf, a, st):
    eout(I, a[0], A("hash", sf.obj.term, I.rawread(st, a[1], V(a[2])), V(a[2])), st, ins)


def flen(I, sf, st, e=None):
    v = I.load(st, Ptr(sf.obj, I.slotoff("fixed_length_in_bytes")), ir.int_type(32))
    return v


@slot("to_bytes")
def _(I, ins, sf, a, st):
    x = ein(I, a[1], st, ins)
    n = flen(I, sf, st)
    I.rawwrite(st, a[0], n, A("bytes", x), ins)
    return n


@slot("from_bytes")
def _(I, ins, sf, a, st):
    n = flen(I, sf, st)
    r = I.rawread(st, a[1], n)
    t = as_atom(r)
    eout(I, a[0], t.args[0] if t is not None and t.op == "bytes" else A("frombytes", sf.obj.term, r), st, ins)
    return n


@slot("length_in_bytes")
def _(I, ins, sf, a, st):
    return flen(I, sf, st)


@slot("set_str")
def _(I, ins, sf, a, st):
    s = I.rawread(st, a[1], "str")
    eout(I, a[0], A("fromstr", sf.obj.term, s, V(a[2])), st, ins)
    return A("strused", sf.obj.term, s, V(a[2]))


@slot("set_multiz")
def _(I, ins, sf, a, st):
    eout(I, a[0], A("frommultiz", sf.obj.term, V(a[1])), st, ins)


@slot("out_str", "snprint", "out_info")
def _(I, ins, sf, a, st):
    if sf.slot == "snprint" and isinstance(a[0], (Ptr, PtrSet)):
        I.rawwrite(st, a[0], "str", A("snprint", ein(I, a[2], st, ins)), ins)
    return A("outret", I.cur.ctx, I.cur.iter, ins.bb, ins.idx)


@slot("item_count")
def _(I, ins, sf, a, st):
    return A("itemcount", sf.obj.term)


@slot("item", "get_x", "get_y")
def _(I, ins, sf, a, st):
    p = a[0]
    i = V(a[1]) if sf.slot == "item" else (0 if sf.slot == "get_x" else 1)
    if not isinstance(p, Ptr):
        raise Undecided("item of " + repr(p))
    d = I.load(st, Ptr(p.obj, add(p.off, 8)), ir.PTR)
    if not isinstance(d, Ptr):
        d = Ptr(I.obj("lazy", T("obj", "deref", p.obj.term, add(p.off, 8))), 0)
        st.m[("m", p.obj, add(p.off, 8))] = d
    q = Ptr(d.obj, mul(16, i) if isinstance(i, (int, Poly)) else 0)
    k = ("m", q.obj, q.off)
    if k not in st.m:
        st.m[k] = Ptr(I.obj("field", T("obj", "sub", sf.obj.term, "item")), 0)
    return q


@slot("multi_doub")
def _(I, ins, sf, a, st):
    raise Undecided("multi_doub")


@slot("field_clear", "pp_clear", "clear_func")
def _(I, ins, sf, a, st):
    return None


@slot("pp_init")
def _(I, ins, sf, a, st):
    return None


@slot("pp_pow")
def _(I, ins, sf, a, st):
    eout(I, a[0], A("pppow", V(a[2]), I.zcont(st, a[1])), st, ins)
