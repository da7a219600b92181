"""Abstract pairings: the library's own initialisers analysed over abstract prime fields.

lookup_mpz/lookup_int deliver toy parameters of the documented shape; every prime field is abstract, so the
numbers only steer loop lengths and exponents."""
from . import ir
from .poly import *
from .poly import T, A
from .absint import Interp, Ptr, PtrSet, Fn, SlotFn, State, Undecided, Obj, EXTERN
from .models import ts
from .ops import SLOTNAMES
from .scen import Scenario, Missing

PARAMS = {
    "a": ("pbc_param_init_a", dict(q=443, r=37, h=12, exp2=5, exp1=2, sign1=1, sign0=1)),
    "a-": ("pbc_param_init_a", dict(q=347, r=29, h=12, exp2=5, exp1=2, sign1=-1, sign0=1)),
    "a1": ("pbc_param_init_a1", dict(p=307, n=77, l=4)),
    "d": ("pbc_param_init_d", dict(q=41, n=39, h=3, r=13, a=5, b=7, k=6, nk=4563, hk=27, nqr=6, coeff0=3, coeff1=8, coeff2=5)),
    "d17": ("pbc_param_init_d", dict(q=41, n=51, h=3, r=17, a=5, b=7, k=6, nk=17 * 17 * 3, hk=3, nqr=6, coeff0=3, coeff1=8, coeff2=5)),
    "d10": ("pbc_param_init_d", dict(q=41, n=33, h=3, r=11, a=5, b=7, k=10, nk=11 * 11 * 3, hk=3, nqr=6, coeff0=3, coeff1=8, coeff2=5,
                                     coeff3=2, coeff4=4)),
    "e": ("pbc_param_init_e", dict(q=12 * 37 * 37 + 1, r=37, h=12, a=3, b=5, exp2=5, exp1=2, sign1=1, sign0=1)),
    "f": ("pbc_param_init_f", dict(q=103, r=97, b=3, beta=5, alpha0=7, alpha1=11)),
    "g": ("pbc_param_init_g", dict(q=43, n=33, h=3, r=11, a=5, b=7, nk=121 * 9, hk=9, nqr=6, coeff0=3, coeff1=8, coeff2=5,
                                   coeff3=2, coeff4=4)),
    "i": ("pbc_param_init_i", dict(m=97, t=12, n=19, n2=19 * 5)),
}


class Start:
    """every global still has its initial value unless the analysed calls changed it"""

    def __contains__(self, n):
        return True


def cstring(I, p):
    """text of a constant string"""
    if isinstance(p, Ptr) and p.obj.kind == "glob" and isinstance(p.off, int) and p.obj.info is not None:
        init = p.obj.info.init
        if isinstance(init, tuple) and init and init[0] == "str":
            return init[1][p.off:].split("\\00")[0]
    return None


def abstract_fp(S, struct_off=0):
    """field_init_fp and its relatives build an abstract field"""
    I = S.I

    def init(I_, ins, n, a, st):
        F = a[0]
        prime = I.zcont(st, a[1])
        for s, rv in I.call_fn(S.fn("field_init"), [F], st, I.cur, ins)[:1]:
            st2 = s
        o = I.obj("field", T("obj", "fp", F.obj.term, F.off))
        for nm in SLOTNAMES:
            st2.m[("m", F.obj, add(F.off, I.slotoff(nm)))] = SlotFn(o, nm)
        st2.m[("Z", F.obj, add(F.off, I.slotoff("order")))] = prime
        st2.m[("m", F.obj, add(F.off, I.slotoff("field_clear")))] = SlotFn(o, "field_clear")
        ts(I, "P", "init", F, st2, ins)
        I.fields.setdefault(o, F)
        if st2 is not st:
            return [(st2, None)]
        return None
    def init3(I_, ins, n, a, st):
        F = a[0]
        out = []
        o = I.obj("field", T("obj", "fp", F.obj.term, F.off))
        for st2, rv in I.call_fn(S.fn(n), a, st, I.cur, ins):
            for nm in SLOTNAMES:
                st2.m[("m", F.obj, add(F.off, I.slotoff(nm)))] = SlotFn(o, nm)
            out.append((st2, rv))
        I.fields.setdefault(o, F)
        return out
    I.models["field_init_gf3m"] = init3
    I.fields = {}
    I.initglobs = Start()
    for nm in ("field_init_fp", "field_init_naive_fp", "field_init_mont_fp", "field_init_fast_fp", "field_init_faster_fp"):
        I.models[nm] = init


def parameters(S, kind):
    """pbc_param_t of the given type"""
    I = S.I
    fn, vals = PARAMS[kind]

    def key(p):
        s = cstring(I, p)
        return s

    def lmpz(I_, ins, n, a, st):
        k = key(a[2])
        if k is None:
            k = next_coeff(S)
        if k not in vals:
            raise Undecided("parameter %s" % k)
        ts(I, "Z", "use", a[0], st, ins)
        I.zset(st, a[0], vals[k], ins)
        return 0

    def lint(I_, ins, n, a, st):
        k = key(a[2])
        I.store(st, a[0], vals[k], ins)
        return 0
    S.ncoeff = 0
    I.models["lookup_mpz"] = lmpz
    I.models["lookup_int"] = lint
    par = S.raw("param")
    tab = S.raw("tab")
    S.run1(fn, par, tab)
    return par


def next_coeff(S):
    S.ncoeff += 1
    return "coeff%d" % (S.ncoeff - 1)


def pairing(S, kind, par=None):
    if par is None:
        par = parameters(S, kind)
    pr = S.raw("pairing")
    S.run1("pairing_init_pbc_param", pr, par)
    return par, pr


def blind(I):
    """values of abstract elements are irrelevant: every result is a fresh name"""
    from .absint import SLOTS
    OUT = set(("set set0 set1 set_si set_mpz add sub mul div doub halve square cubic neg invert add_ui mul_si mul_mpz sqrt pow_mpz "
               "random from_hash from_bytes").split())

    def hook(I_, ins, sf, a, st, fr):
        if sf.slot == "field_clear":
            ts(I, "P", "clear", a[0], st, ins)
            return NotImplemented
        if sf.slot in OUT:
            for x in a[1:]:
                if isinstance(x, (Ptr, PtrSet)):
                    ts(I, "E", "read", x, st, ins) if sf.slot not in ("set_mpz", "from_hash", "from_bytes") else None
            ts(I, "E", "use", a[0], st, ins)
            I.eset(st, a[0], A("t", I.cur.ctx, I.cur.iter, ins.bb, ins.idx), ins)
            return 0 if sf.slot == "from_bytes" else None
        return NotImplemented
    I.slot_hook = hook


def is_field(S, p, st):
    if p.obj.kind == "field":
        return True
    v = st.m.get(("m", p.obj, add(p.off, S.I.slotoff("init"))))
    return isinstance(v, (Fn, SlotFn))


def fixed_shape(S, e, st):
    """cells of an element whose representation has no discriminating integers, else None"""
    cells, seen = [], set()
    todo = [st.m.get(("m", e.obj, add(e.off, 8)))]
    while todo:
        p = todo.pop()
        if not isinstance(p, Ptr) or p.obj in seen or p.obj.kind in ("glob", "fn") or is_field(S, p, st):
            continue
        seen.add(p.obj)
        for k, v in S.I.cells_of(st, p.obj):
            if k[0] == "m" and isinstance(v, int) or k[0] in ("Z", "L", "F"):
                return None
            if k[0] == "E":
                cells.append(k)
            elif k[0] == "m":
                todo.append(v)
    return cells or None


def coarse(S):
    """operations on fixed-shape extension-field elements only rename the contents of the output"""
    I = S.I
    OUT = ("element_mul element_square element_invert element_div element_pow_mpz element_sqrt element_halve element_pow_zn "
           "element_pow2_mpz element_pow3_mpz element_mul_mpz element_mul_si element_add element_sub element_double element_neg "
           "element_random element_set_mpz element_set_si element_set0 element_set1").split()

    def op(I_, ins, n, a, st):
        if not isinstance(a[0], Ptr):
            return NotImplemented
        cells = fixed_shape(S, a[0], st)
        if cells is None:
            return NotImplemented
        for k in cells:
            st.m[k] = A("t", I.cur.ctx, I.cur.iter, ins.bb, ins.idx, k[1].term, k[2])
        return None
    for n in OUT:
        if I.prog.fn(n) is not None:
            I.models[n] = op
