"""Every field / group implementation with elements of named contents, and a view of an
element's observable contents; used by the properties that quantify over operations."""
from . import ir
from .poly import *
from .poly import T, A, Term, Poly, deps_of, atom, terms
from .scen import Scenario, Missing
from .absint import Ptr, PtrSet, Fn, SlotFn, Undecided, State, Obj
from . import kinds as K_
from . import groupkinds as G_


def owned(S, e, st, stop=()):
    """objects reachable from the element's data pointer: [(path, Obj)]; fields are not entered"""
    out, seen = [], set()
    d = st.m.get(("m", e.obj, add(e.off, 8)))
    todo = [("d", d)]
    while todo:
        path, p = todo.pop(0)
        if not isinstance(p, Ptr) or p.obj in seen or p.obj in stop or p.obj.kind in ("field", "glob", "fn"):
            continue
        seen.add(p.obj)
        out.append((path, p.obj))
        ecells = {k[2] for k in st.m if k[0] == "E" and k[1] is p.obj}
        for k in sorted([k for k in st.m if k[0] == "m" and k[1] is p.obj], key=lambda k: show(k[2])):
            v = st.m[k]
            if isinstance(v, Ptr):
                if k[2] in ecells:
                    continue        # field pointer of a component element
                todo.append((path + "+" + show(k[2]), v))
    return out


class Kind:
    """generic implementation set up by `setup(S) -> field`"""
    name = "?"
    flagged = False
    char = 0

    def __init__(self, name, setup, flagged=False, stop=None):
        self.name, self._setup, self.flagged = name, setup, flagged

    def setup(self, S):
        F = self._setup(self, S)
        self.F = F
        self.stop = set()
        # the field's own data are not part of an element
        fd = S.st.m.get(("m", F.obj, S.I.slotoff("data")))
        if isinstance(fd, Ptr):
            self.stop.add(fd.obj)
        self.stop.add(F.obj)
        return F

    def variants(self):
        return ["nonzero", "zero"] if self.flagged else ["value"]

    def put(self, S, e, name, variant):
        """fill element e with named contents"""
        if self.flagged:
            S.run1("element_set1" if variant != "zero" else "element_set0", e)
        self.fill(S, e, name)

    def fill(self, S, e, name):
        st = S.st
        for path, o in owned(S, e, st, self.stop):
            cells = [k for k in st.m if len(k) > 1 and k[1] is o]
            n = 0
            ecells = {k[2] for k in st.m if k[0] == "E" and k[1] is o}
            for k in cells:
                if k[0] in ("E", "Z"):
                    st.m[k] = self.number(name, path, k[2]) if k[0] == "Z" else A("v", name, path, k[2])
                    self.value(S, st.m[k])
                    n += 1
                elif k[0] == "m" and isinstance(st.m[k], (Ptr,)):
                    n += 1
                elif k[0] == "m" and isinstance(st.m[k], int) and self.flagged and path == "d":
                    n += 1
            if n == 0:
                for k in cells:
                    if k[0] in ("m", "L", "zero"):
                        del st.m[k]
                v = self.number(name, path)
                self.value(S, v)
                st.m[("L", o)] = A("upd", A("undef", o.term, "raw"), 0, o.size, v) if is_val(o.size) else v

    limbs = None

    def number(self, *name):
        if self.limbs is None:
            return A("v", *name)
        r = 0
        for i in range(self.limbs):
            r = add(r, mul(1 << (64 * i), A("v", *(name + (i, "limb")))))
        return r

    def value(self, S, v):
        """declare the range of a named content"""
        if S.I.lin is not None and self.limbs is not None:
            S.I.lin.numbers.append((v, [sub(v, 1 if self.flagged else 0), sub(sub(self.p, 1), v)]))
        if S.I.lin is not None and getattr(self, "p", None) is not None:
            S.I.lin.base.append(sub(v, 1 if self.flagged else 0))
            S.I.lin.base.append(sub(sub(self.p, 1), v))

    def flagcells(self, S, e):
        """integer cells of the element that select its representation"""
        st = S.st
        if not self.flagged:
            return []
        r = []
        for path, o in owned(S, e, st, self.stop):
            if path != "d":
                continue
            for k in st.m:
                if k[0] == "m" and k[1] is o and isinstance(st.m[k], int):
                    r.append(k)
        return sorted(r, key=lambda k: show(k[2]))

    def view(self, S, e, st):
        """observable contents: {path: value}"""
        d = {}
        if self.flagged:
            fl = [st.m.get(k) for k in self.flagcells_at(S, e, st)]
            if any(v == 0 for v in fl):
                return {"zero": True}
        for path, o in owned(S, e, st, self.stop):
            ecells = {k[2] for k in st.m if k[0] == "E" and k[1] is o}
            has_m = False
            for k in st.m:
                if k[0] in ("E", "Z") and k[1] is o:
                    d[(path, k[0], show(k[2]))] = S.I.econt(st, Ptr(o, k[2])) if k[0] == "E" else st.m[k]
                elif k[0] == "m" and k[1] is o and is_val(st.m[k]):
                    has_m = True
                    d[(path, "m", show(k[2]))] = st.m[k]
            if ("zero", o) in st.m and path != "d" or (("zero", o) in st.m and ("L", o) not in st.m):
                d[(path, "L")] = S.I.rawread(st, Ptr(o, 0), o.size) if is_val(o.size) else 0
            if ("L", o) in st.m and is_val(o.size) and not [k for k in st.m if k[0] in ("E", "Z") and k[1] is o]:
                for k in list(d):
                    if k[0] == path and k[1] == "m":
                        del d[k]
                d[(path, "L")] = S.I.rawread(st, Ptr(o, 0), o.size)
            elif ("L", o) in st.m:
                if has_m and path != "d":
                    for k in list(d):
                        if k[0] == path and k[1] == "m":
                            del d[k]
                    d[(path, "L")] = S.I.rawcont(st, o)
                else:
                    d[(path, "L")] = st.m[("L", o)]
        return d

    def flagcells_at(self, S, e, st):
        s0, S.st = S.st, st
        try:
            return self.flagcells(S, e)
        finally:
            S.st = s0

    def part(self, S, outs):
        if not self.flagged:
            return
        cells = [k for o in outs for k in self.flagcells(S, o)]
        S.I.part_key = lambda st: tuple(st.m.get(k) if isinstance(st.m.get(k), int) else "?" for k in cells)


class CurveKind(Kind):
    def __init__(self, g):
        self.g = g
        self.name = g().name
        self.flagged = True
        self.char = g.char

    def setup(self, S):
        self.c = self.g()
        F = self.c.setup(S)
        self.F = F
        self.stop = set()
        return F

    def variants(self):
        return ["point", "O"]

    def put(self, S, e, name, variant):
        self.c.put(S, e, G_.INF if variant == "O" else (A("v", name, "x"), A("v", name, "y")))

    def flagcells(self, S, e):
        d = S.data(e)
        return [("m", d.obj, add(d.off, self.c.flagoff))]

    def view(self, S, e, st):
        g = self.c.get(S, e, st)
        if g == G_.INF:
            return {"zero": True}
        if g[0] == "?":
            return {"flag": g[1]}
        return {"x": g[0], "y": g[1]}


class PolyKind(Kind):
    """K[x]; elements of degree 2 (or the zero polynomial)"""

    def __init__(self):
        Kind.__init__(self, "field_init_poly", None)

    def setup(self, S):
        self.K = S.field("K")
        self.F = S.new_field("F", "field_init_poly", self.K)
        self.stop = {self.F.obj}
        fd = S.st.m.get(("m", self.F.obj, S.I.slotoff("data")))
        if isinstance(fd, Ptr):
            self.stop.add(fd.obj)
        return self.F

    def variants(self):
        return ["degree 2", "degree 1", "zero"]

    def part(self, S, outs):
        ds = [S.data(o).obj for o in outs]
        S.I.part_key = lambda st: tuple(sorted((show(k[2]), v) for k, v in st.m.items()
                                               if k[0] == "m" and k[1] in ds and isinstance(v, int)))

    def view(self, S, e, st):
        r = S.run("element_item_count", e, st=st.copy())
        if len(r) != 1 or not isinstance(r[0][1], int):
            raise Undecided("number of coefficients not resolved")
        n = r[0][1]
        d = {"count": n}
        st = r[0][0]
        for i in range(n):
            q = S.run("element_item", e, i, st=st)
            if len(q) != 1 or not isinstance(q[0][1], Ptr):
                raise Undecided("element_item gives no address")
            st = q[0][0]
            d["coefficient %d" % i] = S.I.econt(st, q[0][1])
        return d

    def put(self, S, e, name, variant):
        if variant == "zero":
            return
        n = int(variant[-1])
        S.run1("poly_set_coeff1", e, n)
        for i, p in enumerate(K_.items(S, e, n + 1)):
            S.setE(p, A("v", name, i))
        G_.nonzero(S, A("v", name, n))


def _fp(init, limbs=None, split=False):
    def f(self, S):
        from .lin import Lin
        I = S.I
        I.split = False
        self.split = split
        I.lin = Lin(I)
        self.limbs = limbs
        pv = self.number("p")
        p = S.mpz("p", pv)
        self.p = pv
        I.nonzero_ints.add(pv)
        I.lin.base.append(sub(pv, 3))
        if limbs is not None:
            I.words = True
            I.known_limbs[pv] = limbs
            B = 1 << (64 * limbs)
            I.lin.base.append(sub(B - 1, pv))
            I.lin.base.append(sub(pv, B >> 64))
            I.lin.numbers.append((pv, [sub(pv, 3), sub(B - 1, pv)]))
            I.lin.products = True
        S.st.facts[T("odd", pv)] = 1
        for t in terms(pv)[:1] if limbs is None else [T("v", "p", 0, "limb")]:
            S.st.facts[T("odd", atom(t))] = 1
        return S.new_field("F", init, p)
    return f


SLOTNAMES = ("init clear set_mpz set_multiz set set0 set1 set_str out_str add sub mul is_sqr sqrt item_count item get_x get_y "
             "set_si add_ui mul_mpz mul_si div doub multi_doub multi_add halve square cubic pow_mpz invert neg random from_hash "
             "is1 is0 sign cmp to_bytes from_bytes length_in_bytes snprint to_mpz out_info pp_init pp_clear pp_pow").split()
PRIMITIVE = "init clear set set0 set1 add mul neg invert random set_mpz to_mpz is0 is1 cmp to_bytes from_bytes length_in_bytes".split()


class GenericKind(Kind):
    """the default operations every implementation inherits, over an abstract implementation of the primitive ones"""

    def __init__(self, order=None, prims=PRIMITIVE):
        Kind.__init__(self, "field_init", None)
        self.order, self.prims = order, prims

    def setup(self, S):
        self.F = F = S.new_field("F", "field_init")
        for n in self.prims:
            S.st.m[("m", F.obj, S.I.slotoff(n))] = SlotFn(F.obj, n)
        if self.order is not None:
            S.st.m[("Z", F.obj, S.I.slotoff("order"))] = self.order
        self.stop = {F.obj}
        return F

    def put(self, S, e, name, variant):
        S.setE(e, A("v", name))

    def view(self, S, e, st):
        return {"value": S.I.econt(st, e)}


def _wrap(k):
    def f(self, S):
        kk = k()
        self.char = kk.char
        return kk.setup(S)
    return f


def _gf3m(self, S):
    self.char = 3
    return S.new_field("F", "field_init_gf3m", 97, 12)


def _gt(self, S):
    K = S.field("K")
    pr = S.raw("pairing")
    S.st.m[("Z", pr.obj, S.I.slotoff("r", "pairing_s"))] = A("v", "r")
    S.run1("pairing_GT_init", pr, K)
    return Ptr(pr.obj, S.I.slotoff("GT", "pairing_s"))


def gt_kind():
    return Kind("pairing_GT_init", _gt)


def all_kinds():
    L = [GenericKind()]
    for n, fl in (("field_init_naive_fp", False), ("field_init_fast_fp", False), ("field_init_faster_fp", True),
                  ("field_init_mont_fp", True)):
        L.append(Kind(n, _fp(n), fl))
    L.append(Kind("field_init_z", lambda self, S: S.new_field("F", "field_init_z")))
    for n in ("field_init_quadratic", "field_init_fi"):
        L.append(Kind(n, _wrap(lambda n=n: K_.Quadratic(n))))
    for n in (3, 6):
        L.append(Kind("field_init_polymod/%d" % n, _wrap(lambda n=n: K_.Polymod(n))))
    L.append(PolyKind())
    L.append(Kind("field_init_gf3m", _gf3m))
    L.append(Kind("field_init_gf32m", _wrap(K_.GF32m)))
    L.append(Kind("field_init_gf33m", _wrap(K_.GF33m)))
    L.append(CurveKind(G_.Curve))
    L.append(CurveKind(G_.Eta3))
    return L


# public operations: (api, slot, signature) with o = output element, e = input element,
# z = integer, n = machine integer, u = unsigned, b = byte buffer (in), B = byte buffer (out), Z = integer out
OPS = [
    ("element_set", "set", "oe"), ("element_add", "add", "oee"), ("element_sub", "sub", "oee"),
    ("element_mul", "mul", "oee"), ("element_div", "div", "oee"), ("element_double", "doub", "oe"),
    ("element_halve", "halve", "oe"), ("element_square", "square", "oe"), ("element_neg", "neg", "oe"),
    ("element_invert", "invert", "oe"), ("element_sqrt", "sqrt", "oe"),
    ("element_mul_mpz", "mul_mpz", "oez"), ("element_mul_si", "mul_si", "oen"),
    ("element_pow_mpz", "pow_mpz", "oez"),
    ("element_set_mpz", "set_mpz", "oz"), ("element_set_si", "set_si", "on"),
    ("element_set0", "set0", "o"), ("element_set1", "set1", "o"),
    ("element_from_hash", "from_hash", "obn"), ("element_from_bytes", "from_bytes", "ob"),
    ("element_random", "random", "o"),
    ("element_to_bytes", "to_bytes", "Be"), ("element_to_mpz", "to_mpz", "Ze"),
    ("element_is0", "is0", "e"), ("element_is1", "is1", "e"), ("element_is_sqr", "is_sqr", "e"),
    ("element_sgn", "sign", "e"), ("element_cmp", "cmp", "ee"), ("element_length_in_bytes", "length_in_bytes", "e"),
]
STUBS = None


def provided(S, F, slot):
    f = S.slot(F, slot)
    if isinstance(f, SlotFn):
        return False
    if not isinstance(f, Fn):
        return False
    # a stub that only reports "not implemented" is not an operation
    fn = f.f
    if fn is None:
        return True
    return not is_stub(fn)


def is_stub(fn):
    """default handlers that only print a message and stop"""
    calls = [i for b in fn.order for i in fn.blocks[b] if i.op == "call"]
    names = []
    for i in calls:
        c = i.extra
        names.append(getattr(c, "name", None) or (c[1] if isinstance(c, tuple) and len(c) > 1 else str(c)))
    return any("pbc_die" in str(n) for n in names) and len(fn.order) <= 2
