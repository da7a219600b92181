"""Forward abstract interpretation of the library's IR: a dataflow analysis that
computes, for every memory cell and every element / integer content, a value
number in the ring-term domain of poly.py.  States are merged at control-flow
joins (gated phi terms), loops with undetermined trip count are solved by a
fixpoint (loop phi terms), loops whose exit test is decided by constants are
partitioned per iteration.  Library functions are analysed in their calling
context; operations of an abstract field / group, GMP and libc are primitives
with declared effects."""
import re
from . import ir
from .poly import (T, A, Term, Poly, add, sub, mul, neg, inv, power, as_atom, terms, all_terms,
                   deps_of, is_val, atom, show, TooBig, subst_fn)


class Undecided(Exception):
    pass


class Confused(Undecided):
    """memory written as one structure is read as another"""


class Obj:
    __slots__ = ("kind", "term", "size", "site", "info", "sym", "multi")

    def __init__(self, kind, term, size=None, site=None, info=None):
        self.kind, self.term, self.size, self.site, self.info = kind, term, size, site, info
        self.sym = False
        self.multi = False

    @property
    def lph(self):
        return self.term.lph

    def __repr__(self):
        return "<%s %r>" % (self.kind, self.term)


class Ptr:
    __slots__ = ("obj", "off", "via")

    def __init__(self, obj, off=0, via=None):
        self.obj, self.off, self.via = obj, off, via

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and self.off == o.off

    def __hash__(self):
        return hash((id(self.obj), self.off))

    def lph(self):
        return self.obj.term.lph | deps_of(self.off)

    def parts(self):
        return (self.obj.term, self.off)

    def __repr__(self):
        return "&%r+%s" % (self.obj.term, show(self.off))


class PtrSet:
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __eq__(self, o):
        return isinstance(o, PtrSet) and self.alts == o.alts

    def __hash__(self):
        return hash(self.alts)

    def lph(self):
        return deps_of(self.alts)

    def parts(self):
        return self.alts

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.alts))


class Fn:
    __slots__ = ("name", "f")
    _t = {}

    def __new__(cls, name, f):
        k = (name, f)
        r = cls._t.get(k)
        if r is None:
            r = object.__new__(cls)
            r.name, r.f = name, f
            cls._t[k] = r
        return r

    def __repr__(self):
        return "Fn(%s)" % self.name

    def parts(self):
        return (self.name,)


class SlotFn:
    """a function-pointer slot of an abstract field / group / pairing"""
    __slots__ = ("obj", "slot")

    def __init__(self, obj, slot):
        self.obj, self.slot = obj, slot

    def __eq__(self, o):
        return isinstance(o, SlotFn) and self.obj is o.obj and self.slot == o.slot

    def __hash__(self):
        return hash((id(self.obj), self.slot))

    def lph(self):
        return self.obj.term.lph

    def parts(self):
        return (self.obj.term, self.slot)

    def __repr__(self):
        return "%r->%s" % (self.obj.term, self.slot)


class State:
    __slots__ = ("env", "m", "facts", "part")

    def __init__(self):
        self.env, self.m, self.facts, self.part = {}, {}, {}, None

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.m = dict(self.m)
        s.facts = dict(self.facts)
        s.part = self.part
        return s


class Frame:
    __slots__ = ("f", "ctx", "iter", "args", "depth", "rets", "decided", "allocas", "parent", "site")


_wto = {}


def wto(f):
    r = _wto.get(id(f))
    if r is None:
        c = ir.cfg(f)
        r = _wto[id(f)] = (_wto_of(c, list(c.rpo)), f)
    return r[0]


def _wto_of(c, blocks):
    """list of block names and ('loop', head, sublist, set) in dependency order"""
    bs = set(blocks)
    idx, low, onst, stack, sccs = {}, {}, set(), [], []
    counter = [0]
    for root in blocks:
        if root in idx:
            continue
        work = [(root, iter([s for s in c.succ[root] if s in bs]))]
        idx[root] = low[root] = counter[0]; counter[0] += 1
        stack.append(root); onst.add(root)
        while work:
            b, it = work[-1]
            adv = False
            for s in it:
                if s not in idx:
                    idx[s] = low[s] = counter[0]; counter[0] += 1
                    stack.append(s); onst.add(s)
                    work.append((s, iter([x for x in c.succ[s] if x in bs])))
                    adv = True
                    break
                elif s in onst:
                    low[b] = min(low[b], idx[s])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[b])
            if low[b] == idx[b]:
                comp = []
                while True:
                    x = stack.pop(); onst.discard(x)
                    comp.append(x)
                    if x == b:
                        break
                sccs.append(comp)
    sccs.reverse()
    out = []
    for comp in sccs:
        if len(comp) == 1 and comp[0] not in c.succ[comp[0]]:
            out.append(comp[0])
            continue
        head = min(comp, key=lambda b: c.rpoidx[b])
        rest = sorted((b for b in comp if b != head), key=lambda b: c.rpoidx[b])
        out.append(("loop", head, _wto_of(c, rest) if rest else [], set(comp)))
    return out


BOOL_OPS = {"odd", "is0", "neg", "nz", "isnull", "bool", "is_sqr", "slotbool", "ult"}
MAXUNROLL = 64


def ptrkey(v):
    if isinstance(v, Ptr):
        return (0, repr(v))
    return (1, repr(v))


class Interp:
    def __init__(self, prog, hooks=None):
        self.prog = prog
        self.objs = {}
        self.reports = {}
        self.effects = []          # (obj, off, kind, fn name, loc)
        self.loops = {}
        self.branches = {}
        self.calls = 0
        self.blocks = 0
        self.hooks = hooks
        self.models = {}
        self.slot_hook = None
        self.unroll_any = False     # loops whose exits are not decided in every round are unrolled, too
        self.part_key = None
        self.max_blocks = 400000
        self.counter = 0
        self.analysed = set()
        self.primcalls = []
        self.retlist = True
        self.track_ts = False
        self.vague = 0             # releases of an unknown object
        self.events = []
        self.cur = None
        self.globmem = True
        self.msz = {}
        self.nonzero_ints = set()
        self.split = False         # keep every path apart (trace partitioning on all conditions)
        self.lin = None            # linear facts
        self.known_limbs = {}
        self.words = False         # exact machine-word arithmetic on limbs

    # ------------------------------------------------------------ objects
    def obj(self, kind, term, **kw):
        o = self.objs.get(term)
        if o is None:
            o = self.objs[term] = Obj(kind, term, **kw)
        return o

    def named(self, kind, *name, **kw):
        return self.obj(kind, T("obj", kind, *name), **kw)

    def report(self, kind, msg, ins=None):
        fr = self.cur
        key = (kind, msg)
        if key not in self.reports:
            self.reports[key] = [ir.loc(ins) if ins is not None else None, self.stack(fr)]

    def stack(self, fr):
        out = []
        while fr is not None:
            out.append(fr.f.name)
            fr = fr.parent
        return out[::-1]

    def effect(self, obj, off, kind, ins):
        self.effects.append((obj, off, kind, self.cur.f.name if self.cur else "?", ir.loc(ins) if ins is not None else "?"))

    # ------------------------------------------------------------ operands
    def val(self, st, fr, op, ty=None):
        k = op[0]
        if k == "v":
            v = st.env.get(op[1])
            if v is None:
                return A("undef", fr.ctx, op[1])
            return v
        if k == "c":
            return op[1]
        if k == "g":
            return self.glob(fr.f.module, op[1])
        if k == "null":
            return 0
        if k == "undef":
            return A("undef", "const")
        if k == "zero":
            return 0
        if k == "f":
            return A("flt", op[1])
        if k == "ce":
            return self.constexpr(fr.f.module, op)
        raise Undecided("operand %r" % (op,))

    def constexpr(self, mod, op):
        if op[1] == "gep":
            base = self.cval(mod, op[3][0][1])
            return self.gep(mod, base, op[2], [(t, self.cval(mod, v)) for t, v in op[3][1:]])
        if op[1] == "cast":
            return self.cval(mod, op[3])
        if op[1] in ("add", "sub", "mul"):
            a, b = self.cval(mod, op[2][1]), self.cval(mod, op[3][1])
            return {"add": add, "sub": sub, "mul": mul}[op[1]](a, b)
        raise Undecided("constexpr")

    def cval(self, mod, op):
        class _F:
            pass
        k = op[0]
        if k == "c":
            return op[1]
        if k == "g":
            return self.glob(mod, op[1])
        if k in ("null", "zero"):
            return 0
        if k == "ce":
            return self.constexpr(mod, op)
        if k == "undef":
            return A("undef", "const")
        if k == "f":
            return A("flt", op[1])
        raise Undecided("const operand %r" % (op,))

    def glob(self, mod, name):
        f = mod.functions.get(name)
        if f is not None:
            if f.defined:
                return Fn(name, f)
            g = self.prog.ext.get(name)
            return Fn(name, g if g is not None else f)
        g = mod.globals.get(name)
        if g is not None and g.init is None and not g.internal:
            for m in self.prog.mods:
                h = m.globals.get(name)
                if h is not None and not h.internal and h.init is not None:
                    g, mod = h, m
                    break
        if g is None:
            raise Undecided("global " + name)
        key = T("obj", "glob", (mod.name if g.internal else ""), name)
        o = self.obj("glob", key)
        o.info = g
        return Ptr(o, 0)

    def gep(self, mod, base, sty, idxs):
        if isinstance(base, PtrSet):
            alts = []
            for a in base.alts:
                alts.append(self.gep(mod, a, sty, idxs) if isinstance(a, Ptr) else a)
            return PtrSet(alts)
        if base == 0 or (isinstance(base, int)):
            # offset from null (offsetof idiom)
            base = Ptr(self.named("null", "null"), 0)
        if not isinstance(base, Ptr):
            if isinstance(base, Poly):
                o = self.obj("lazy", T("obj", "opaque", base))
                base = Ptr(o, 0)
            else:
                if isinstance(base, (Fn, SlotFn)):
                    raise Confused("in %s a function pointer is used as the address of data" % (self.cur.f.name if self.cur else "?"))
                raise Undecided("gep on %r" % (base,))
        off = base.off
        via = None
        t = sty
        first = True
        for ity, iv in idxs:
            if first:
                first = False
                if iv != 0:
                    off = add(off, mul(iv, mod.sizeof(t)))
                continue
            if t.kind in ("struct", "lit"):
                if not isinstance(iv, int):
                    raise Undecided("symbolic struct index")
                offs = mod.struct_offsets(t)
                via = (t.a if t.kind == "struct" else None, iv, off)
                off = add(off, offs[iv])
                t = mod.struct_fields(t)[iv]
            elif t.kind in ("array", "vector"):
                if iv != 0:
                    off = add(off, mul(iv, mod.sizeof(t.b)))
                    via = None
                t = t.b
            else:
                raise Undecided("gep type %r" % t)
        return Ptr(base.obj, off, via)

    # ------------------------------------------------------------ memory
    def slotname(self, struct, off):
        for m in self.prog.mods:
            fn = ir.field_names(m, struct)
            if fn:
                for n, o in fn:
                    if o == off:
                        return n
                return None
        return None

    def default(self, st, o, off, ty, via=None):
        """value of a cell never written in this state"""
        k = o.kind
        if ("zero", o) in st.m:
            return 0
        if via is not None and via[0] == "struct.__mpz_struct":
            z = self.zcont(st, Ptr(o, via[2]))
            if via[1] == 1:
                return self.zsize(z)
            if via[1] == 2:
                lo = self.obj("lazy", T("obj", "limbs", o.term, via[2]))
                lo.info = Ptr(o, via[2])
                return Ptr(lo, 0)
            return A("zalloc", z)
        if k == "glob":
            g = o.info
            if g is not None and g.init is not None and isinstance(off, int):
                if g.const or (g.name in self.initglobs):
                    v = self.initval(g.module, g.type, g.init, off, ty)
                    if v is not None:
                        return v
            if ty is not None and ty.kind == "ptr":
                nm = o.info.name if o.info is not None else "?"
                if nm in ("pbc_malloc", "pbc_realloc", "pbc_free"):
                    return Fn(nm, None)
                return Ptr(self.obj("lazy", T("obj", "deref", o.term, off)), 0)
            return A("ld", o.term, off)
        if k == "field" or (k == "lazy" and via is not None and via[0] in ("struct.field_s", "struct.pairing_s")):
            r = self.field_default(st, o, off, ty, via)
            if r is not None:
                return r
        if k in ("stack", "heap"):
            if ("L", o) in st.m:
                return self.rawread(st, Ptr(o, off), ty.a // 8 if ty is not None and ty.kind == "int" else 8)
            return A("undef", o.term, off)
        if k == "null":
            raise Undecided("null dereference")
        if (("L", o) in st.m or (o.term.op == "obj" and o.term.args[0] == "limbs" and o.info is not None)) and \
                (ty is None or ty.kind == "int"):
            return self.rawread(st, Ptr(o, off), ty.a // 8 if ty is not None else 8)
        if ty is not None and ty.kind == "ptr":
            return Ptr(self.obj("lazy", T("obj", "deref", o.term, off)), 0)
        return A("ld", o.term, off)

    initglobs = ()
    maxrec = 3

    def initval(self, mod, t, init, off, ty):
        """constant at byte offset off of an initializer"""
        if init[0] == "zero":
            return 0
        if init[0] == "undef":
            return None
        if t.kind in ("struct", "lit"):
            offs = mod.struct_offsets(t)
            fl = mod.struct_fields(t)
            for i in range(len(fl)):
                sz = mod.sizeof(fl[i])
                if offs[i] <= off < offs[i] + sz:
                    if init[0] != "agg":
                        return None
                    return self.initval(mod, fl[i], init[1][i][1], off - offs[i], ty)
            return None
        if t.kind == "array":
            sz = mod.sizeof(t.b)
            i = off // sz
            if init[0] == "str":
                return A("strbyte", init[1], off)
            if init[0] == "agg" and i < len(init[1]):
                return self.initval(mod, t.b, init[1][i][1], off - i * sz, ty)
            return None
        if off != 0:
            return None
        return self.cval(mod, init)

    # field_s / pairing_s struct with symbolic contents
    def field_default(self, st, o, off, ty, via):
        struct = "field_s"
        base = 0
        if via is not None and via[0] in ("struct.field_s", "struct.pairing_s"):
            struct = via[0][7:]
            base = via[2]
        if not isinstance(off, int) and not (isinstance(sub(off, base), int)):
            return None
        rel = sub(off, base)
        n = self.slotname(struct, rel)
        if n is None or ty is None:
            return None
        if ty.kind == "ptr" and n not in ("nqr", "name", "data", "pairing", "G1", "G2", "Zr", "GT"):
            oo = o if base == 0 else self.obj("field", T("obj", "sub", o.term, base))
            return SlotFn(oo, n)
        return None

    def load(self, st, p, ty, ins=None):
        if isinstance(p, PtrSet):
            vs = []
            for a in p.alts:
                if isinstance(a, Ptr):
                    vs.append(self.load(st, a, ty, ins))
            if not vs:
                raise Undecided("load through non-pointer")
            r = vs[0]
            for v in vs[1:]:
                r = self.phi(r, v, T("ptrsel", p), T("ptrsel", p))
            return r
        if isinstance(p, Poly):
            p = Ptr(self.obj("lazy", T("obj", "opaque", p)), 0)
        if not isinstance(p, Ptr):
            raise Undecided("load from %r" % (p,))
        o = p.obj
        if o.kind == "freed" :
            pass
        v = st.m.get(("m", o, p.off))
        if v is not None:
            return v
        v = self.default(st, o, p.off, ty, p.via)
        if o.sym and not (isinstance(p.off, int)):
            pass
        if isinstance(v, (Ptr, SlotFn)) or (o.sym and ty.kind == "int"):
            if isinstance(v, Ptr):
                st.m[("m", o, p.off)] = v
        return v

    def cells(self, st, o):
        return [k for k in st.m if len(k) == 3 and k[1] is o]

    def store(self, st, p, v, ins=None, kind="m"):
        if isinstance(p, PtrSet):
            for a in p.alts:
                if isinstance(a, Ptr):
                    old = st.m.get((kind, a.obj, a.off))
                    if old is None:
                        old = self.default_cell(st, (kind, a.obj, a.off), v)
                    self.store(st, a, self.phi(old, v, T("ptrsel", p), T("ptrsel", p, 1)), ins, kind)
            return
        if isinstance(p, Poly):
            p = Ptr(self.obj("lazy", T("obj", "opaque", p)), 0)
        if not isinstance(p, Ptr):
            raise Undecided("store to %r" % (p,))
        o, off = p.obj, p.off
        self.effect(o, off, kind, ins)
        if kind == "m" and ins is not None and ins.op == "store" and ins.ops[0][0].kind == "int":
            self.msz[(o, off)] = max(1, ins.ops[0][0].a // 8)
        if not isinstance(off, int):
            o.sym = True
        if o.sym:
            for k in self.cells(st, o):
                if k[0] != kind or k[2] == off:
                    continue
                d = sub(k[2], off)
                if not isinstance(d, int):
                    ov = st.m[k]
                    if isinstance(ov, (int, Poly)) and isinstance(v, (int, Poly)):
                        st.m[k] = A("mayover", ov, v, d)
                    elif ov != v:
                        del st.m[k]
        st.m[(kind, o, off)] = v

    # ------------------------------------------------------------ contents
    def deref_struct(self, p):
        if isinstance(p, Poly):
            return Ptr(self.obj("lazy", T("obj", "opaque", p)), 0)
        return p

    def econt(self, st, p, ins=None):
        """value of the element at address p"""
        p = self.deref_struct(p)
        if isinstance(p, PtrSet):
            vs = [self.econt(st, a, ins) for a in p.alts if isinstance(a, Ptr)]
            r = vs[0]
            for v in vs[1:]:
                r = self.phi(r, v, T("ptrsel", p), T("ptrsel", p))
            return r
        if not isinstance(p, Ptr):
            raise Undecided("element read at %r" % (p,))
        v = st.m.get(("E", p.obj, p.off))
        # nested contents override
        d = st.m.get(("m", p.obj, add(p.off, 8)))
        if isinstance(d, Ptr) and d.obj.kind in ("lazy", "heap"):
            ks = [k for k in st.m if k[0] in ("E", "Z", "L") and k[1] is d.obj]
            if ks:
                parts = tuple(sorted(((k[0], show(k[2]) if len(k) > 2 else "", st.m[k]) for k in ks),
                                     key=lambda x: (x[0], x[1])))
                return A("comp", parts, v if v is not None else self.edefault(st, p.obj, p.off))
        if v is not None:
            return v
        return self.edefault(st, p.obj, p.off)

    def edefault(self, st, o, off):
        if o.kind in ("stack", "heap"):
            return A("undef", o.term, off)
        return A("E", o.term, off)

    def eset(self, st, p, v, ins=None):
        p = self.deref_struct(p)
        ps = p.alts if isinstance(p, PtrSet) else (p,)
        for a in ps:
            if not isinstance(a, Ptr):
                continue
            dk = ("m", a.obj, add(a.off, 8))
            d = st.m.get(dk)
            if isinstance(d, Ptr) and d.obj.kind == "lazy":
                for k in [k for k in st.m if k[0] in ("E", "Z", "L", "m") and k[1] is d.obj]:
                    del st.m[k]
                if d.obj.term.op == "obj":
                    st.m[dk] = Ptr(self.obj("lazy", T("obj", "deref", a.obj.term, add(a.off, 8), v)), 0)
        self.store(st, p, v, ins, "E")

    def zcont(self, st, p):
        p = self.deref_struct(p)
        if isinstance(p, PtrSet):
            vs = [self.zcont(st, a) for a in p.alts if isinstance(a, Ptr)]
            r = vs[0]
            for v in vs[1:]:
                r = self.phi(r, v, T("ptrsel", p), T("ptrsel", p))
            return r
        if not isinstance(p, Ptr):
            raise Undecided("mpz read at %r" % (p,))
        d = self.explimbs(st, p)
        if d is not None:
            sz = st.m.get(("m", p.obj, add(p.off, 4)))
            return self.rawread(st, d, mul(8, sz if is_val(sz) else A("zlimbs", A("undef", p.obj.term, p.off))))
        v = st.m.get(("Z", p.obj, p.off))
        if v is not None:
            return v
        if p.obj.kind in ("stack", "heap"):
            return A("undef", p.obj.term, p.off)
        return A("Z", p.obj.term, p.off)

    def explimbs(self, st, p):
        """limb array the code itself installed in an mpz structure"""
        d = st.m.get(("m", p.obj, add(p.off, 8)))
        if isinstance(d, Ptr) and not (d.obj.term.op == "obj" and d.obj.term.args[0] == "limbs") and \
                ("Z", p.obj, p.off) not in st.m and p.obj.kind == "stack":
            return d
        return None

    def zset(self, st, p, v, ins=None, size=None):
        p = self.deref_struct(p)
        if isinstance(p, Ptr):
            d = self.explimbs(st, p)
            if d is not None:
                sz = size if size is not None else self.zlimbs(v)
                self.rawwrite(st, d, mul(8, sz), v, ins)
                st.m[("m", p.obj, add(p.off, 4))] = sz
                return
            st.m.pop(("m", p.obj, add(p.off, 4)), None)
        self.store(st, p, v, ins, "Z")

    def zlimbs(self, z):
        if isinstance(z, int):
            return (abs(z).bit_length() + 63) // 64
        if z in self.known_limbs:
            return self.known_limbs[z]
        return A("zlimbs", z)

    def zsize(self, z):
        if isinstance(z, int):
            return (z > 0) - (z < 0)
        return A("zsize", z)

    def rawcont(self, st, o):
        if o.kind == "lazy" and o.term.op == "obj" and o.term.args[0] == "limbs" and o.info is not None:
            return self.zcont(st, o.info)
        c = st.m.get(("L", o))
        if c is None:
            if ("zero", o) in st.m:
                c = 0
            elif o.kind in ("stack", "heap"):
                c = A("undef", o.term, "raw")
            elif o.kind == "glob" and o.info is not None and o.info.const and o.info.init is not None and o.info.init[0] == "str":
                c = A("str", o.info.init[1])
            else:
                c = A("L", o.term)
        ks = [k for k in st.m if k[0] == "m" and k[1] is o and is_val(st.m[k])]
        for k in sorted(ks, key=lambda k: show(k[2])):
            c = A("upd", c, k[2], self.msz.get((o, k[2]), 8), st.m[k])
        return c

    # a block of bytes is identified with the number it denotes (little endian)
    def blk_eq(self, x, y, facts):
        if x == y:
            return True
        if not (is_val(x) and is_val(y)):
            return False
        d = sub(x, y)
        if isinstance(d, int):
            return d == 0
        for t in facts:
            if t[0].op == "is0" and t[1] == 1 and (t[0].args[0] == d or t[0].args[0] == neg(d)):
                return True
            if t[0].op == "is0" and t[1] == 1 and isinstance(t[0].args[0], Poly):
                q = t[0].args[0]
                for k in (8, -8):
                    if mul(k, q) == d:
                        return True
        return False

    def blk_ge0(self, x):
        """x >= 0 for sizes and offsets"""
        if isinstance(x, int):
            return x >= 0
        if not isinstance(x, Poly):
            return False
        c0, pos, lim = 0, 0, 0
        for m, c in x.d.items():
            if not m:
                c0 = c
            elif c > 0:
                if len(m) == 1 and m[0][1] == 1 and Term.byid[m[0][0]].op == "zlimbs":
                    lim += c * self.minlimbs(Term.byid[m[0][0]].args[0])
            else:
                # - c*zlimbs(mod(_, p)) + c*zlimbs(p)
                t = Term.byid[m[0][0]]
                if len(m) == 1 and t.op == "zlimbs":
                    a = as_atom(t.args[0])
                    if a is not None and a.op in ("mod", "modinv"):
                        k = ((T("zlimbs", a.args[1]).id, 1),)
                        if x.d.get(k, 0) >= -c:
                            lim += c * self.minlimbs(a.args[1])
                            continue
                return False
        return c0 + lim >= 0

    def minlimbs(self, z):
        return 1 if z in self.nonzero_ints else 0

    def rawread(self, st, p, n):
        p = self.deref_struct(p)
        if isinstance(p, PtrSet):
            vs = [self.rawread(st, a, n) for a in p.alts if isinstance(a, Ptr)]
            r = vs[0]
            for v in vs[1:]:
                r = self.phi(r, v, T("ptrsel", p), T("ptrsel", p))
            return r
        if not isinstance(p, Ptr):
            raise Undecided("raw read at %r" % (p,))
        c = self.rawcont(st, p.obj)
        if p.obj.term.op == "obj" and p.obj.term.args[0] == "limbs" and p.obj.info is not None:
            if p.off == 0 and n != 8:
                return c
            return self.blk_sel(c, p.off, n)
        return self.blk_read(c, p.off, n, tuple(st.facts.items()))

    def blk_sel(self, v, off, n, total=None):
        if v == 0:
            return 0
        if self.words and isinstance(off, int) and isinstance(n, int) and off % 8 == 0 and n % 8 == 0 and \
                (total is None or isinstance(total, int)):
            return words.block(v, off // 8, n // 8, None if total is None else total // 8)
        if isinstance(v, int) and isinstance(off, int) and isinstance(n, int) and v >= 0:
            return (v >> (8 * off)) & ((1 << (8 * n)) - 1)
        return A("sel", v, off, n)

    def blk_read(self, c, off, n, facts, depth=0):
        if c == 0:
            return 0
        t = as_atom(c)
        if t is None or t.op not in ("upd", "phi"):
            if t is not None and t.op in ("L", "undef", "v", "str", "loopw", "lphi") or n == "str":
                return A("sel", c, off, n)
            return A("sel", c, off, n)
        if t.op == "phi" and depth < 4:
            alts = []
            for g, v in t.args[0]:
                gf = g.args[0] if g.op == "gate" else ()
                alts.append((g, self.blk_read(v, off, n, facts + tuple(gf), depth + 1)))
            if all(v == alts[0][1] for g, v in alts):
                return alts[0][1]
            return A("phi", tuple(alts))
        if t.op == "phi":
            return A("sel", c, off, n)
        # segments, newest first
        segs, base = [], c
        while True:
            u = as_atom(base)
            if u is None or u.op != "upd":
                break
            segs.append((u.args[1], u.args[2], u.args[3]))
            base = u.args[0]
        if n == "str":
            if segs[0][0] == off and segs[0][1] == "str":
                return segs[0][2]
            return A("sel", c, off, n)
        eq, ge0 = self.blk_eq, self.blk_ge0

        def disjoint(s, a, m):
            if s[1] == "str" or not is_val(s[1]) or not is_val(m):
                return False
            return ge0(sub(s[0], add(a, m))) or ge0(sub(a, add(s[0], s[1])))
        parts, pos, left = [], off, n
        for _ in range(6):
            hit = None
            for i, s in enumerate(segs):
                if s[1] == "str":
                    break
                if eq(s[0], pos, facts):
                    if eq(s[1], left, facts):
                        hit = (s[2], None)
                    elif ge0(sub(left, s[1])):
                        hit = (s[2], s[1])
                    elif ge0(sub(s[1], left)):
                        hit = (self.blk_sel(s[2], 0, left, s[1]), None)
                    break
                rel = sub(pos, s[0])
                if is_val(rel) and ge0(rel) and ge0(sub(s[1], add(rel, left))):
                    hit = (self.blk_sel(s[2], rel, left, s[1]), None)
                    break
                if disjoint(s, pos, left):
                    continue
                # s covers a later part of the range: the nearer part is older
                if is_val(s[0]) and ge0(sub(s[0], pos)) and ge0(sub(left, sub(s[0], pos))) and \
                        not eq(s[0], pos, facts):
                    near = self.blk_read_from(segs[i + 1:], base, pos, sub(s[0], pos), facts, depth)
                    if near is not None:
                        hit = (near, sub(s[0], pos))
                    break
                break
            else:
                if base == 0:
                    hit = (0, None)
                elif not parts:
                    hit = (A("sel", base, pos, left), None)
                else:
                    hit = (A("sel", base, pos, left), None)
            if hit is None:
                return A("sel", c, off, n)
            parts.append((sub(pos, off), hit[0]))
            if hit[1] is None:
                v = 0
                for o2, x in parts:
                    v = add(v, mul(self.B(o2), x))
                return v
            pos, left = add(pos, hit[1]), sub(left, hit[1])
        return A("sel", c, off, n)

    def blk_read_from(self, segs, base, off, n, facts, depth):
        c = base
        for s in reversed(segs):
            c = A("upd", c, *s)
        r = self.blk_read(c, off, n, facts, depth)
        return r

    def B(self, e):
        """2^(8e)"""
        if isinstance(e, int) and 0 <= e <= 512:
            return 1 << (8 * e)
        return A("B", e)

    def rawwrite(self, st, p, n, v, ins=None):
        p = self.deref_struct(p)
        ps = p.alts if isinstance(p, PtrSet) else (p,)
        for a in ps:
            if not isinstance(a, Ptr):
                continue
            o = a.obj
            if o.kind == "lazy" and o.term.op == "obj" and o.term.args[0] == "limbs" and o.info is not None:
                z = v if a.off == 0 else A("upd", self.zcont(st, o.info), a.off, n, v)
                self.store(st, o.info, z, ins, "Z")
                continue
            c = self.rawcont(st, o)
            for k in [k for k in st.m if k[0] == "m" and k[1] is o and is_val(st.m[k])]:
                del st.m[k]
            t = as_atom(c)
            while t is not None and t.op == "upd" and t.args[1] == a.off and t.args[2] != "str" and n != "str" and \
                    (t.args[2] == n or (is_val(t.args[2]) and is_val(n) and self.blk_ge0(sub(n, t.args[2])))):
                c = t.args[0]
                t = as_atom(c)
            # zero extension of a number
            if v == 0 and t is not None and t.op == "upd" and is_val(t.args[2]) and is_val(n) and \
                    add(t.args[1], t.args[2]) == a.off:
                nv = A("upd", t.args[0], t.args[1], add(t.args[2], n), t.args[3])
            else:
                nv = A("upd", c, a.off, n, v)
            if len(ps) > 1:
                nv = self.phi(self.rawcont(st, o), nv, T("ptrsel", p), T("ptrsel", p, 1))
            self.effect(o, a.off, "L", ins)
            st.m[("L", o)] = nv

    # ------------------------------------------------------------ joins
    def phi(self, a, b, ga, gb):
        if a == b:
            return a
        pa, pb = isinstance(a, (Ptr, PtrSet, Fn, SlotFn)), isinstance(b, (Ptr, PtrSet, Fn, SlotFn))
        if pa or pb:
            alts = []
            for v in (a, b):
                for x in (v.alts if isinstance(v, PtrSet) else (v,)):
                    if x not in alts:
                        alts.append(x)
            alts.sort(key=ptrkey)
            if len(alts) > 12:
                raise Undecided("too many pointer alternatives")
            return PtrSet(alts)
        x = [(ga, a), (gb, b)]
        x.sort(key=lambda y: (y[0].id, repr(y[1])))
        return A("phi", tuple(x))

    def default_cell(self, st, key, like):
        k = key[0]
        if k == "m":
            if isinstance(like, (Ptr, PtrSet, Fn, SlotFn)):
                return self.default(st, key[1], key[2], ir.PTR)
            return self.default(st, key[1], key[2], ir.int_type(64))
        if k == "E":
            return self.edefault(st, key[1], key[2])
        if k == "Z":
            if key[1].kind in ("stack", "heap"):
                return A("undef", key[1].term, key[2])
            return A("Z", key[1].term, key[2])
        if k == "L":
            if key[1].kind in ("stack", "heap"):
                return A("undef", key[1].term, "raw")
            return A("L", key[1].term)
        return None

    def join(self, s1, s2, where):
        if s1 is s2:
            return s1
        r = State()
        f1, f2 = s1.facts, s2.facts
        com = {k: v for k, v in f1.items() if f2.get(k) == v}
        d1 = tuple(sorted(((k, v) for k, v in f1.items() if k not in com), key=lambda x: x[0].id))
        d2 = tuple(sorted(((k, v) for k, v in f2.items() if k not in com), key=lambda x: x[0].id))
        g1, g2 = T("gate", d1), T("gate", d2)
        if g1 is g2:
            g2 = T("gate", d2, where)
        r.facts = com
        r.part = s1.part if s1.part == s2.part else None
        for k, v in s1.env.items():
            w = s2.env.get(k)
            if w is None:
                continue
            r.env[k] = v if v == w else self.phi(v, w, g1, g2)
        self.joinmem(r, s1, s2, lambda k, a, b: self.phi(a, b, g1, g2))
        return r

    def joinmem(self, r, s1, s2, f):
        m1, m2, rm = s1.m, s2.m, r.m
        for k, v in m1.items():
            if k in m2:
                w = m2[k]
                if v is w or v == w:
                    rm[k] = v
                else:
                    rm[k] = self.joincell(k, v, w, f)
            else:
                d = self.missing(s2, k, v)
                if d is not None:
                    rm[k] = v if d == v else self.joincell(k, v, d, f)
        for k, w in m2.items():
            if k not in m1:
                d = self.missing(s1, k, w)
                if d is not None:
                    rm[k] = w if d == w else self.joincell(k, d, w, f)

    def missing(self, st, k, like):
        if k[0] in ("m", "E", "Z", "L"):
            return self.default_cell(st, k, like)
        if k[0] == "ts":
            return "none"
        if k[0] == "zero":
            return None
        return None

    def joincell(self, k, a, b, f):
        if k[0] == "ts":
            xs = set()
            for v in (a, b):
                xs |= set(v) if isinstance(v, tuple) else {v}
            return tuple(sorted(xs))
        return f(k, a, b)

    # ------------------------------------------------------------ overridable events
    def ts_event(self, kind, act, p, st, ins, old):
        pass

    def cells_of(self, st, o):
        return [(k, v) for k, v in st.m.items() if len(k) > 1 and k[1] is o and k[0] != "ts"]

    def vague_at(self, ins, p):
        self.vague += 1
        f, w = self.cur, []
        while f is not None and len(w) < 9:
            w.append("%s:%s" % (f.f.name, f.iter))
            f = f.parent
        self.vague_where = "%s (%s): %s" % (ir.loc(ins), " < ".join(w), p)

    def on_free(self, p, st, ins):
        pass

    def slotoff(self, name, struct="field_s"):
        for m in self.prog.mods:
            fn = ir.field_names(m, struct)
            if fn:
                for n, o in fn:
                    if n == name:
                        return o
        raise Undecided("no slot " + name)

    # ------------------------------------------------------------ execution
    def call_fn(self, f, args, st, parent=None, ins=None, label=0):
        """analyse defined function f; returns list of (state, ret)"""
        depth = parent.depth + 1 if parent is not None else 0
        if depth > 40:
            raise Undecided("call depth")
        q, n = parent, 0
        while q is not None:
            if q.f is f:
                n += 1
            q = q.parent
        if n > self.maxrec:
            raise Undecided("recursion in " + f.name)
        self.calls += 1
        self.analysed.add(f)
        fr = Frame()
        fr.f, fr.depth, fr.parent, fr.site = f, depth, parent, ins
        fr.iter = ()
        if parent is None:
            fr.ctx = T("ctx", f.name, label)
        else:
            fr.ctx = T("ctx", parent.ctx, parent.iter, ins.bb, ins.idx, f.name)
        fr.rets, fr.allocas = [], []
        fr.decided = set()
        fr.args = args
        env0 = st.env
        st.env = {}
        for pn, v in zip(f.pnames, args):
            st.env[pn] = v
        prev, self.cur = self.cur, fr
        if self.hooks is not None:
            self.hooks.enter(self, fr, st, args)
        inm = {f.order[0]: {None: st}}
        self.run_list(wto(f), inm, fr)
        out = []
        for s, rv in fr.rets:
            if self.hooks is not None:
                self.hooks.exit(self, fr, s, rv)
            s.env = dict(env0)
            dead = set(id(o) for o in fr.allocas)
            if dead:
                for k in [k for k in s.m if len(k) > 1 and id(k[1]) in dead]:
                    del s.m[k]
            out.append((s, rv))
        self.cur = prev
        # merge results that need not be distinguished
        return self.merge_rets(out, fr)

    def merge_rets(self, out, fr):
        if len(out) <= 1:
            return out
        groups = []
        for s, rv in out:
            for g in groups:
                if g[1] == rv and self.pkey(g[0]) == self.pkey(s):
                    g[0] = self.join(g[0], s, T("ret", fr.ctx))
                    break
            else:
                groups.append([s, rv])
        if len(groups) > 1 and not all(isinstance(g[1], int) or g[1] is None for g in groups):
            # merge everything with non-constant values
            res = []
            for s, rv in groups:
                for g in res:
                    if self.pkey(g[0]) == self.pkey(s) and not isinstance(rv, int) and not isinstance(g[1], int):
                        s1 = g[0]
                        s1.env = dict(s1.env); s.env = dict(s.env)
                        s1.env["$ret"], s.env["$ret"] = g[1], rv
                        j = self.join(s1, s, T("ret", fr.ctx))
                        rv2 = j.env.pop("$ret")
                        g[0], g[1] = j, rv2
                        break
                else:
                    res.append([s, rv])
            groups = res
        # distinct constants: merge into one state unless partitioned
        if self.retlist:
            return [(g[0], g[1]) for g in groups]
        s, rv = groups[0]
        for g in groups[1:]:
            s.env = dict(s.env); g[0].env = dict(g[0].env)
            s.env["$ret"], g[0].env["$ret"] = rv, g[1]
            s = self.join(s, g[0], T("ret", fr.ctx))
            rv = s.env.pop("$ret")
        return [(s, rv)]

    def pkey(self, st):
        if self.split:
            return frozenset(st.facts.items())
        return self.part_key(st) if self.part_key is not None else None

    def cases_of(self, st, c):
        """[(state, truth of c)] - both outcomes of an undecided condition"""
        d = self.decide(c, st)
        if d is not None:
            return [(st, d)]
        s2 = st.copy()
        out = []
        if self.assume(st, c, True):
            out.append((st, 1))
        if self.assume(s2, c, False):
            out.append((s2, 0))
        return out

    def resolve(self, v, st):
        """replace conditions the state decides by their truth value"""
        if not isinstance(v, Poly) or not any(t.op in BOOL_OPS for t in terms(v)):
            return v
        return subst_fn(v, lambda t: self.fact(t, st) if t.op in BOOL_OPS else None)

    def insert(self, inm, b, st, fr):
        d = inm.setdefault(b, {})
        k = self.pkey(st)
        if k in d:
            d[k] = self.join(d[k], st, T("blk", fr.ctx, fr.iter, b))
        else:
            if len(d) > 64:
                raise Undecided("too many state partitions")
            d[k] = st

    def run_list(self, lst, inm, fr):
        for it in lst:
            if isinstance(it, str):
                sts = inm.pop(it, None)
                if sts:
                    for st in sts.values():
                        self.run_block(it, st, inm, fr)
            else:
                self.run_loop(it, inm, fr)

    def run_loop(self, it, inm, fr):
        _, head, body, blocks = it
        ent = inm.pop(head, None)
        if not ent:
            return
        saved_iter = fr.iter
        for E in ent.values():
            # facts about this loop's own phi values are stale on entry
            me = (fr.ctx, T("it", saved_iter, head))
            self.drop_facts(E, me)
            if self.try_unroll(it, E.copy(), inm, fr, saved_iter):
                continue
            self.fixpoint(it, E, inm, fr, saved_iter, me)
        fr.iter = saved_iter

    def try_unroll(self, it, E, inm, fr, saved_iter):
        _, head, body, blocks = it
        cur = {None: E}
        cur = {self.pkey(E): E}
        outs = []
        n_eff, n_rep = len(self.effects), dict(self.reports)
        n_ret = len(fr.rets)
        n = 0
        ok = True
        while cur:
            fr.iter = saved_iter + ((head, n),)
            fr.decided.discard(head)
            m2 = {head: cur}
            fr.decided = {x for x in fr.decided if x not in blocks}
            self.run_list([head] + body, m2, fr)
            back = m2.pop(head, None)
            dec = any(x in blocks and any(s not in blocks for s in ir.cfg(fr.f).succ[x]) for x in fr.decided)
            outs.append(m2)
            if back and not dec and not (self.unroll_any and len(back) == 1):
                ok = False
                break
            n += 1
            if n > MAXUNROLL:
                ok = False
                break
            cur = back
        fr.iter = saved_iter
        if not ok:
            del self.effects[n_eff:]
            self.reports = n_rep
            del fr.rets[n_ret:]
            return False
        for m2 in outs:
            for b, sts in m2.items():
                for s in sts.values():
                    self.insert(inm, b, s, fr)
        return True

    def drop_facts(self, st, me):
        bad = [k for k in st.facts if me in k.lph]
        for k in bad:
            del st.facts[k]

    def fixpoint(self, it, E, inm, fr, saved_iter, me):
        _, head, body, blocks = it
        H = E
        hphis = set()
        for ins in fr.f.blocks[head]:
            if ins.op == "phi":
                hphis.add(ins.res)
        for rnd in range(40):
            fr.iter = saved_iter + ((head, "*"),)
            m2 = {head: {self.pkey(H): H.copy()}}
            n_ret = len(fr.rets)
            self.run_list([head] + body, m2, fr)
            back = m2.pop(head, None)
            if not back:
                B = None
            else:
                B = None
                for s in back.values():
                    B = s if B is None else self.join(B, s, T("blk", fr.ctx, fr.iter, head))
            fr.iter = saved_iter
            if B is None:
                N = H
                stable = True
            else:
                self.drop_facts(B, me)
                self.summarise_cells(B, me)
                N = self.loopjoin(H, B, me, hphis, fr)
                stable = N.env == H.env and N.m == H.m and N.facts == H.facts
            if stable:
                if B is not None:
                    tab = {}
                    for k, v in N.m.items():
                        if is_val(v) and me in deps_of(v):
                            tab[("m",) + self.cellname(k)] = (E.m.get(k), B.m.get(k))
                    for k in hphis:
                        tab[("r", k)] = (E.env.get(k), B.env.get(k))
                    self.loops[me] = tab
                for b, sts in m2.items():
                    for s in sts.values():
                        self.insert(inm, b, s, fr)
                return
            del fr.rets[n_ret:]
            H = N
        raise Undecided("loop in %s does not stabilise" % fr.f.name)

    def cellname(self, k):
        return (k[0], k[1].term) + tuple(k[2:])

    def summarise_cells(self, B, me):
        """cells addressed through this iteration's phi values are folded into their object"""
        for k in list(B.m):
            if k[0] in ("m", "E", "Z") and (me in deps_of(k[2]) or me in k[1].term.lph):
                v = B.m.pop(k)
                o = k[1]
                if me in k[1].term.lph:
                    continue
                if is_val(v) and k[0] == "m":
                    c = B.m.get(("L", o))
                    B.m[("L", o)] = A("loopw", o.term) if c is None else A("loopw", o.term)
            elif k[0] in ("L", "zero") and me in k[1].term.lph:
                del B.m[k]

    def loopjoin(self, H, B, me, hphis, fr):
        r = State()
        r.part = H.part
        r.facts = {k: v for k, v in H.facts.items() if B.facts.get(k) == v}
        for k, v in H.env.items():
            w = B.env.get(k)
            if w is None or v == w:
                r.env[k] = v
            else:
                r.env[k] = self.lphi(v, w, me, ("r", k))
        self.joinmem(r, H, B, lambda k, a, b: self.lphi(a, b, me, self.cellname(k)))
        return r

    def lphi(self, a, b, me, name):
        if a == b:
            return a
        if is_val(a) and is_val(b):
            return A("lphi", me[0], me[1], name)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
            return Ptr(a.obj, self.lphi(a.off, b.off, me, name + ("off",)))
        lazy = self.obj("lazy", T("obj", "deref", T("lphi", me[0], me[1], name + ("ptr",)), 0))
        alts = []
        for v in (a, b):
            for x in (v.alts if isinstance(v, PtrSet) else (v,)):
                if isinstance(x, Ptr) and x.obj is lazy:
                    return Ptr(lazy, 0)
                if x not in alts:
                    alts.append(x)
        n_lazy = sum(1 for x in alts if isinstance(x, Ptr) and x.obj.kind == "lazy")
        if len(alts) > 4 or (n_lazy >= 2 and len(alts) == n_lazy):
            return Ptr(lazy, 0)
        alts.sort(key=ptrkey)
        return PtrSet(alts)

    # ------------------------------------------------------------ blocks
    def run_block(self, b, st, inm, fr):
        self.blocks += 1
        if self.blocks > self.max_blocks:
            raise Undecided("analysis budget exhausted")
        prev, self.cur = self.cur, fr
        states = [st]
        for ins in fr.f.blocks[b]:
            if ins.op == "phi":
                continue
            if ins.op in ("br", "switch", "ret", "unreachable", "invoke", "resume"):
                for s in states:
                    self.terminator(ins, s, inm, fr, b)
                break
            nxt = []
            for s in states:
                r = self.step(ins, s, fr)
                if r is None:
                    nxt.append(s)
                else:
                    nxt.extend(r)
            states = nxt
            if not states:
                break
        self.cur = prev

    def edge(self, st, b, succ, inm, fr):
        vals = []
        for ins in fr.f.blocks[succ]:
            if ins.op != "phi":
                break
            for v, pb in ins.extra:
                if pb == b:
                    vals.append((ins.res, self.val(st, fr, v)))
                    break
        for r, v in vals:
            st.env[r] = v
        self.insert(inm, succ, st, fr)

    def terminator(self, ins, st, inm, fr, b):
        if ins.op == "ret":
            rv = None
            if ins.ops:
                rv = self.val(st, fr, ins.ops[0][1])
            fr.rets.append((st, rv))
            return
        if ins.op in ("unreachable", "resume"):
            return
        if ins.op == "br":
            if len(ins.extra) == 1:
                self.edge(st, b, ins.extra[0], inm, fr)
                return
            c = self.val(st, fr, ins.ops[0][1])
            self.branch(c, st, inm, fr, b, ins.extra[0], ins.extra[1], ins)
            return
        if ins.op == "switch":
            v = self.val(st, fr, ins.ops[0][1])
            d, cases = ins.extra
            if isinstance(v, int):
                fr.decided.add(b)
                for c, t in cases:
                    if c == v:
                        self.edge(st, b, t, inm, fr)
                        return
                self.edge(st, b, d, inm, fr)
                return
            for c, t in cases:
                s = st.copy()
                k = self.is0(sub(v, c))
                r = self.decide(k, s)
                if r == 0:
                    continue
                if self.assume(s, k, True):
                    self.edge(s, b, t, inm, fr)
                if r == 1:
                    return
                self.assume(st, k, False)
            self.edge(st, b, d, inm, fr)
            return
        if ins.op == "invoke":
            callee, n1, n2 = ins.extra
            r = self.do_call(ins, callee, st, fr)
            for s in ([st] if r is None else r):
                self.edge(s, b, n1, inm, fr)
            return
        raise Undecided(ins.op)

    def branch(self, c, st, inm, fr, b, tb, fb, ins):
        r = self.decide(c, st)
        if r is not None:
            fr.decided.add(b)
            self.edge(st, b, tb if r else fb, inm, fr)
            return
        if tb == fb:
            self.edge(st, b, tb, inm, fr)
            return
        if self.hooks is not None:
            self.hooks.branch(self, fr, st, c, ins)
        key = (fr.ctx, fr.iter, b)
        self.branches[key] = c
        s2 = st.copy()
        ok1 = self.assume(st, c, True)
        ok2 = self.assume(s2, c, False)
        if ok1:
            self.edge(st, b, tb, inm, fr)
        if ok2:
            self.edge(s2, b, fb, inm, fr)

    # conditions -----------------------------------------------------------
    def odd(self, w, st):
        """parity of an integer value, as 0/1 value"""
        if isinstance(w, int):
            return w & 1
        r = 0
        for m, c in w.d.items():
            if c % 2 == 0:
                continue
            ts_ = [Term.byid[t] for t, e in m]
            if any(t.op == "inv" for t in ts_):
                return A("odd", w)
            if any(t.op == "B" for t in ts_):
                continue
            p = 1
            for t in ts_:
                if t.op in BOOL_OPS:
                    v = st.facts.get(t)
                    p = p * v if v is not None and p is not None else None
                else:
                    k = T("odd", atom(t))
                    v = st.facts.get(k)
                    if v is None and self.fact_hook is not None:
                        v = self.fact_hook(k, st)
                    p = p * v if v is not None and p is not None else (0 if v == 0 else None)
            if p is None:
                return A("odd", w)
            r ^= p
        return r

    def is0(self, p):
        """boolean value of p == 0"""
        if isinstance(p, int):
            return 1 if p == 0 else 0
        # boolean-valued: c0 + c1*B
        ts = terms(p)
        if len(ts) == 1 and ts[0].op in BOOL_OPS and all(len(m) == 0 or (len(m) == 1 and m[0][1] == 1) for m in p.d):
            c0 = p.d.get((), 0)
            c1 = sum(c for m, c in p.d.items() if m)
            t = atom(ts[0])
            if c0 == 0:
                return sub(1, t)
            if c0 == -c1:
                return t
            return 0
        if len(ts) == 1 and ts[0].op == "zsize" and all(len(m) <= 1 for m in p.d) and () not in p.d:
            return self.is0(ts[0].args[0])
        if len(ts) == 1 and ts[0].op == "zcmp" and () not in p.d and len(p.d) == 1:
            return self.is0(ts[0].args[0])
        if len(ts) == 1 and ts[0].op == "zcmp" and len(p.d) == 2:
            c0, c1 = p.d.get((), 0), [c for m, c in p.d.items() if m][0]
            if abs(c0) == abs(c1):
                # sign test
                if -c0 * c1 > 0:
                    return self.isneg(neg(ts[0].args[0]))
                return self.isneg(ts[0].args[0])
            return 0
        # pointer identity
        lead = p.d[min(p.d)]
        if lead < 0:
            p = neg(p)
        # is0 of a phi of constants/terms: keep
        return A("is0", p)

    def isneg(self, p):
        if isinstance(p, int):
            return 1 if p < 0 else 0
        ts = terms(p)
        if len(ts) == 1 and ts[0].op in ("zsize", "zcmp") and () not in p.d and len(p.d) == 1:
            (m, c), = p.d.items()
            if m[0][1] == 1:
                z = ts[0].args[0]
                return self.isneg(z if c > 0 else neg(z))
        if len(ts) == 1 and ts[0].op in BOOL_OPS and all(len(m) == 0 or (len(m) == 1 and m[0][1] == 1) for m in p.d):
            c0 = p.d.get((), 0)
            c1 = sum(c for m, c in p.d.items() if m)
            v0, v1 = c0 < 0, c0 + c1 < 0
            if v0 == v1:
                return 1 if v0 else 0
            return atom(ts[0]) if v1 else sub(1, atom(ts[0]))
        if len(ts) == 1 and ts[0].op in ("zsize", "zcmp") and len(p.d) == 2 and () in p.d:
            c0, c1 = p.d[()], [c for m, c in p.d.items() if m][0]
            z = ts[0].args[0]
            # zcmp in {-1,0,1}:  c0 + c1*s < 0
            r = [c0 + c1 * s < 0 for s in (-1, 0, 1)]
            if all(r):
                return 1
            if not any(r):
                return 0
            if r == [True, False, False]:
                return self.isneg(z)
            if r == [False, False, True]:
                return self.isneg(neg(z))
            if r == [True, True, False]:
                return sub(1, self.isneg(neg(z)))
            if r == [False, True, True]:
                return sub(1, self.isneg(z))
        return A("neg", p)

    def condkey(self, c):
        """boolean value -> (term, polarity)"""
        t = as_atom(c)
        if t is not None:
            if t.op in BOOL_OPS:
                return t, True
            return T("nz", c), True
        if isinstance(c, Poly):
            ts = terms(c)
            if len(ts) == 1 and c.d == {(): 1, ((ts[0].id, 1),): -1} and ts[0].op in BOOL_OPS:
                return ts[0], False
        return T("nz", c), True

    def decide(self, c, st):
        if isinstance(c, int):
            return 1 if c else 0
        if isinstance(c, (Ptr, Fn, SlotFn)):
            return 1
        t, pol = self.condkey(c)
        v = self.fact(t, st)
        if v is None:
            return None
        return int(bool(v) == pol)

    def fact(self, t, st):
        v = st.facts.get(t)
        if v is not None:
            return v
        if t.op == "is0":
            p = t.args[0]
            if isinstance(p, Poly) and len(p.d) == 1:
                (m, c), = p.d.items()
                allnz = True
                for tid, e in m:
                    tt = Term.byid[tid]
                    if tt.op == "inv":
                        continue
                    k = T("is0", atom(tt))
                    w = st.facts.get(k)
                    if w == 1:
                        return 1
                    if w is None:
                        allnz = False
                if allnz and (len(m) > 1 or m[0][1] > 1):
                    return 0
            n = st.facts.get(T("neg", p))
            if n == 1:
                return 0
            n = st.facts.get(T("neg", neg(p))) if isinstance(p, Poly) else None
            if n == 1:
                return 0
            # strict integer facts  p in [0,..]
        if t.op == "neg":
            p = t.args[0]
            z = st.facts.get(T("is0", p)) if isinstance(p, Poly) else None
            if z is None and isinstance(p, Poly):
                z = st.facts.get(T("is0", neg(p)))
            if z == 1:
                return 0
            if isinstance(p, Poly) and st.facts.get(T("neg", neg(p))) == 1:
                return 0
        if t.op == "nz":
            a = as_atom(t.args[0])
            if a is not None and a.op == "phi":
                pass
        if self.fact_hook is not None:
            r = self.fact_hook(t, st)
            if r is not None:
                return r
        if self.lin is not None:
            return self.lin.fact(t, st)
        return None

    fact_hook = None

    def assume(self, st, c, truth):
        """restrict state to condition; False if contradictory"""
        if isinstance(c, int):
            return bool(c) == truth
        t, pol = self.condkey(c)
        want = truth == pol
        v = self.fact(t, st)
        if v is not None:
            return bool(v) == want
        st.facts[t] = int(want)
        # phi refinement: nz/is0 of a gated phi of constants
        a = None
        if t.op in ("is0", "nz"):
            a = as_atom(t.args[0])
            off = 0
            if a is None and isinstance(t.args[0], Poly):
                ts = terms(t.args[0])
                if len(ts) == 1 and ts[0].op == "phi" and len(t.args[0].d) == 2 and () in t.args[0].d:
                    cc = t.args[0].d[()]
                    k1 = [x for m, x in t.args[0].d.items() if m][0]
                    if k1 in (1, -1):
                        a, off = ts[0], cc * k1
            if a is not None and a.op == "phi":
                keep = []
                for g, v in a.args[0]:
                    if isinstance(v, int):
                        z = (v + off == 0)
                        w = want if t.op == "is0" else not want
                        if z == w:
                            keep.append(g)
                    else:
                        keep.append(g)
                if not keep:
                    return False
                if len(keep) == 1 and keep[0].op == "gate":
                    for kk, vv in keep[0].args[0]:
                        if kk.lph:
                            continue
                        o = self.fact(kk, st)
                        if o is not None and o != vv:
                            return False
                        st.facts[kk] = vv
        return True

    # ------------------------------------------------------------ instructions
    def step(self, ins, st, fr):
        op = ins.op
        env = st.env
        if op == "getelementptr":
            base = self.val(st, fr, ins.ops[0][1])
            idx = [(t, self.val(st, fr, v)) for t, v in ins.ops[1:]]
            env[ins.res] = self.gep(fr.f.module, base, ins.type, idx)
            return None
        if op == "load":
            p = self.val(st, fr, ins.ops[0][1])
            env[ins.res] = self.load(st, p, ins.type, ins)
            return None
        if op == "store":
            v = self.val(st, fr, ins.ops[0][1])
            p = self.val(st, fr, ins.ops[1][1])
            if self.hooks is not None:
                self.hooks.store(self, fr, st, p, v, ins)
            self.store(st, p, v, ins)
            return None
        if op == "alloca":
            key = T("obj", "stack", fr.ctx, fr.iter, ins.bb, ins.idx)
            o = self.obj("stack", key)
            o.site = ins
            o.info = ins.type
            fr.allocas.append(o)
            for k in [k for k in st.m if len(k) > 1 and k[1] is o]:
                del st.m[k]
            env[ins.res] = Ptr(o, 0)
            return None
        if op == "call":
            return self.do_call(ins, ins.extra, st, fr)
        if op == "icmp":
            a = self.val(st, fr, ins.ops[0][1])
            b = self.val(st, fr, ins.ops[1][1])
            env[ins.res] = self.icmp(ins.extra, a, b, ins.ops[0][0], st)
            return None
        if op in ir.BINOPS:
            a = self.val(st, fr, ins.ops[0][1])
            b = self.val(st, fr, ins.ops[1][1])
            if self.words and op in ("add", "sub", "mul") and ins.type.kind == "int" and ins.type.a == 64 and \
                    (words.wordy(a) or words.wordy(b)):
                return self.word_op(op, a, b, ins, st)
            env[ins.res] = self.binop(op, a, b, ins.type)
            return None
        if op in ir.CASTS or op == "freeze":
            v = self.val(st, fr, ins.ops[0][1])
            if isinstance(v, int):
                st_, dt = ins.ops[0][0], ins.type
                if op == "zext" and v < 0:
                    v += 1 << st_.a
                elif op == "trunc":
                    v &= (1 << dt.a) - 1
                    if dt.a > 1 and v >> (dt.a - 1):
                        v -= 1 << dt.a
                elif op == "sext" and st_.a == 1 and v == 1:
                    v = -1
            elif op == "sext" and ins.ops[0][0].a == 1:
                v = neg(v)
            elif op in ("sitofp", "uitofp", "fptosi", "fptoui"):
                v = A(op, v) if is_val(v) else v
            env[ins.res] = v
            return None
        if op == "select":
            c = self.val(st, fr, ins.ops[0][1])
            a = self.val(st, fr, ins.ops[1][1])
            b = self.val(st, fr, ins.ops[2][1])
            r = self.decide(c, st)
            if r is not None:
                env[ins.res] = a if r else b
            elif self.split is True:
                out = []
                for s2, tr in self.cases_of(st, c):
                    s2.env[ins.res] = a if tr else b
                    out.append(s2)
                return out
            else:
                t, pol = self.condkey(c)
                env[ins.res] = self.phi(a, b, T("gate", ((t, int(pol)),)), T("gate", ((t, int(not pol)),)))
            return None
        if op == "fcmp":
            env[ins.res] = A("bool", "fcmp", ins.extra, self.val(st, fr, ins.ops[0][1]), self.val(st, fr, ins.ops[1][1]))
            return None
        if op == "fneg":
            env[ins.res] = A("fneg", self.val(st, fr, ins.ops[0][1]))
            return None
        if op == "extractvalue":
            env[ins.res] = A("xv", self.val(st, fr, ins.ops[0][1]), tuple(ins.extra))
            return None
        raise Undecided("instruction %s at %s" % (op, ir.loc(ins)))

    def word_op(self, op, a, b, ins, st):
        if op == "mul":
            st.env[ins.res] = words.W(mul(a, b))
            return None
        x = add(a, b) if op == "add" else sub(a, b)
        if self.split is not True:
            st.env[ins.res] = words.W(x)
            return None
        over = sub(1, self.isneg(sub(x, words.M))) if op == "add" else self.isneg(x)
        out = []
        for s, tr in self.cases_of(st, over):
            s.env[ins.res] = (sub(x, words.M) if op == "add" else add(x, words.M)) if tr else x
            out.append(s)
        return out

    def lowlimb(self, x):
        """number whose lowest limb x is"""
        t = as_atom(x) if is_val(x) else None
        if t is not None and (t.op == "W" or (t.op == "v" and t.args[-1] == "limb")):
            return x
        if t is not None and t.op == "sel" and t.args[1] == 0 and t.args[2] in (8, 4, 1):
            return t.args[0]
        return None

    def is01(self, y):
        if isinstance(y, int):
            return y in (0, 1)
        ts_ = terms(y)
        return len(ts_) == 1 and ts_[0].op in BOOL_OPS and y.d in ({((ts_[0].id, 1),): 1}, {(): 1, ((ts_[0].id, 1),): -1})

    def icmp(self, pred, a, b, ty, st):
        pk = (Ptr, PtrSet, Fn, SlotFn)
        if isinstance(a, pk) or isinstance(b, pk):
            if pred in ("eq", "ne"):
                r = self.ptreq(a, b)
                return r if pred == "eq" else sub(1, r)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                return self.icmp(pred, a.off, b.off, ty, st)
            return A("bool", "pcmp", pred, a, b)
        w = ty.a if ty.kind == "int" else 64
        if pred[0] == "u" and isinstance(a, int) and isinstance(b, int):
            a &= (1 << w) - 1
            b &= (1 << w) - 1
        d = sub(a, b)
        if pred == "eq":
            return self.is0(d)
        if pred == "ne":
            return sub(1, self.is0(d))
        p = pred[1:]
        if p == "lt":
            return self.isneg(d)
        if p == "gt":
            return self.isneg(neg(d))
        if p == "le":
            return sub(1, self.isneg(neg(d)))
        if p == "ge":
            return sub(1, self.isneg(d))
        raise Undecided("icmp " + pred)

    def ptreq(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return 1 if a == b else 0
        if isinstance(a, PtrSet) or isinstance(b, PtrSet):
            return A("bool", "peq", *sorted((a, b), key=repr))
        if isinstance(b, (Ptr, Fn, SlotFn)) and not isinstance(a, (Ptr, Fn, SlotFn)):
            a, b = b, a
        if b == 0:
            if isinstance(a, SlotFn):
                return A("isnull", "slot", a.obj.term, a.slot)
            if isinstance(a, Fn):
                return 0
            if a.obj.kind == "lazy" and a.off == 0 and a.obj.term.op == "obj" and a.obj.term.args[0] == "deref":
                return A("isnull", a.obj.term)
            if a.obj.kind == "null":
                return 1 if a.off == 0 else 0
            return 0
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj:
                return self.is0(sub(a.off, b.off))
            if "lazy" in (a.obj.kind, b.obj.kind) and not ({"stack", "heap"} & {a.obj.kind, b.obj.kind}):
                x, y = sorted((a, b), key=repr)
                return A("bool", "peq", x, y)
            return 0
        return 1 if a == b else 0

    def binop(self, op, a, b, ty):
        if isinstance(a, (Ptr, PtrSet)) or isinstance(b, (Ptr, PtrSet)):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                return sub(a.off, b.off)
            if op == "add" and isinstance(a, Ptr) and is_val(b):
                return Ptr(a.obj, add(a.off, b))
            return A(op, a, b)
        if isinstance(a, int) and isinstance(b, int):
            w = ty.a if ty.kind == "int" else 64
            mask = (1 << w) - 1
            ua, ub = a & mask, b & mask
            try:
                r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b,
                     "udiv": lambda: ua // ub, "urem": lambda: ua % ub,
                     "sdiv": lambda: int(abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1),
                     "srem": lambda: (abs(a) % abs(b)) * (-1 if a < 0 else 1),
                     "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b,
                     "shl": lambda: a << b, "lshr": lambda: ua >> ub, "ashr": lambda: a >> b}[op]()
            except (KeyError, ZeroDivisionError):
                return A(op, a, b)
            if w == 1:
                return r & 1
            r &= mask
            if w > 1 and r >> (w - 1):
                r -= 1 << w
            return r
        if op == "add":
            return add(a, b)
        if op == "sub":
            return sub(a, b)
        if op == "mul":
            return mul(a, b)
        if op == "shl" and isinstance(b, int):
            return mul(a, 1 << b)
        if op == "sdiv" and isinstance(b, int) and isinstance(a, Poly) and all(c % b == 0 for c in a.d.values()):
            return Poly({m: c // b for m, c in a.d.items()})
        if op in ("ashr", "lshr") and isinstance(b, int) and isinstance(a, Poly) and all(c % (1 << b) == 0 for c in a.d.values()):
            return Poly({m: c >> b for m, c in a.d.items()})
        if ty.kind == "int" and ty.a == 1:
            if op == "xor":
                if b == 1:
                    return sub(1, a)
                if a == 1:
                    return sub(1, b)
            if op == "and":
                if a == 0 or b == 0:
                    return 0
                if a == 1:
                    return b
                if b == 1:
                    return a
                return mul(a, b)
            if op == "or":
                if a == 1 or b == 1:
                    return 1
                if a == 0:
                    return b
                if b == 0:
                    return a
        if op == "or" and b == 0:
            return a
        if op == "and":
            x, y = (a, b) if not isinstance(a, int) else (b, a)
            lx = self.lowlimb(x)
            if lx is not None and y == 1:
                return A("odd", lx)
            for x, y in ((a, b), (b, a)):
                lx = self.lowlimb(x)
                if lx is not None and self.is01(y):
                    o = A("odd", lx)
                    return o if y == sub(1, self.is0(lx)) else mul(y, o)
        if op in ("and", "or", "xor"):
            x = sorted((a, b), key=repr)
            return A(op, *x)
        return A(op, a, b)

    # ------------------------------------------------------------ calls
    def do_call(self, ins, callee, st, fr):
        args = [self.val(st, fr, v) if ty.kind != "metadata" else 0 for ty, v in ins.ops]
        if callee[0] == "g" and callee[1].startswith("llvm."):
            return self.finish(ins, self.intrinsic(ins, callee[1], args, st, fr), st)
        cv = self.val(st, fr, callee)
        return self.apply(ins, cv, args, st, fr)

    def finish(self, ins, r, st):
        if r is DEAD:
            return []
        if isinstance(r, list):
            out = []
            for s, rv in r:
                if ins.res is not None and rv is not None:
                    s.env = dict(s.env)
                    s.env[ins.res] = rv
                out.append(s)
            return out
        if ins.res is not None:
            st.env[ins.res] = r if r is not None else A("ret", self.cur.ctx, self.cur.iter, ins.bb, ins.idx)
        return None

    def apply(self, ins, cv, args, st, fr):
        if isinstance(cv, PtrSet):
            outs = []
            cands = [a for a in cv.alts if isinstance(a, (Fn, SlotFn))]
            if not cands:
                raise Undecided("indirect call through %r" % (cv,))
            for a in cands:
                s = st.copy()
                r = self.apply(ins, a, args, s, fr)
                outs.extend([s] if r is None else r)
            if len(outs) > 1:
                j = outs[0]
                rest = []
                for s in outs[1:]:
                    if self.pkey(s) == self.pkey(j):
                        j = self.join(j, s, T("icall", fr.ctx, fr.iter, ins.bb, ins.idx))
                    else:
                        rest.append(s)
                outs = [j] + rest
            return outs
        if isinstance(cv, SlotFn):
            return self.finish(ins, self.slot_call(ins, cv, args, st, fr), st)
        if isinstance(cv, Fn):
            m = self.models.get(cv.name)
            if m is None and not (cv.f is not None and cv.f.defined):
                m = EXTERN.get(cv.name)
            if m is None and cv.name in OVERRIDE:
                m = OVERRIDE[cv.name]
            if m is not None:
                self.primcalls.append((cv.name, fr.f.name, ir.loc(ins)))
                if self.hooks is not None:
                    self.hooks.prim(self, fr, st, cv.name, args, ins)
                r = m(self, ins, cv.name, args, st)
                if r is not NotImplemented:
                    return self.finish(ins, r, st)
            if cv.f is not None and cv.f.defined:
                if self.hooks is not None:
                    h = self.hooks.call(self, fr, st, cv.f, args, ins)
                    if h is not None:
                        return self.finish(ins, h[0], st)
                res = self.call_fn(cv.f, args, st, fr, ins)
                return self.finish(ins, res, st)
            raise Undecided("external function " + cv.name)
        if isinstance(cv, Ptr) and cv.obj.kind == "lazy" and cv.off == 0:
            r = self.unknown_call(ins, cv, args, st, fr)
            return self.finish(ins, r, st)
        raise Undecided("call through %r at %s" % (cv, ir.loc(ins)))

    def unknown_call(self, ins, cv, args, st, fr):
        raise Undecided("call through unknown pointer %r at %s" % (cv, ir.loc(ins)))

    def intrinsic(self, ins, name, args, st, fr):
        for n in ("memcpy", "memmove", "memset"):
            if n in self.models and name.startswith("llvm." + n):
                return self.models[n](self, ins, n, args, st)
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            return m_memcpy(self, ins, name, args, st)
        if name.startswith("llvm.memset"):
            return m_memset(self, ins, name, args, st)
        if name.startswith("llvm.va_") or name.startswith("llvm.stack") or name.startswith("llvm.lifetime") \
           or name.startswith("llvm.dbg"):
            if name.startswith("llvm.stacksave"):
                return Ptr(self.named("sp", "sp"), 0)
            return None
        if all(isinstance(a, int) for a in args) and name[5:9] in ("abs.", "smax", "smin", "umax", "umin"):
            w = int(name.rsplit(".i", 1)[1])
            sg = [(a & ((1 << w) - 1)) - ((1 << w) if a >> (w - 1) & 1 else 0) for a in args]
            un = [a & ((1 << w) - 1) for a in args]
            return {"abs.": lambda: abs(sg[0]), "smax": lambda: max(sg[:2]), "smin": lambda: min(sg[:2]),
                    "umax": lambda: max(un[:2]), "umin": lambda: min(un[:2])}[name[5:9]]()
        if name.startswith("llvm.fabs") or name.startswith("llvm.fmuladd") or name.startswith("llvm."):
            return A("intr", name, tuple(a for a in args if is_val(a)))
        raise Undecided("intrinsic " + name)

    # ---- operations of abstract fields, groups, pairings
    def slot_call(self, ins, sf, args, st, fr):
        name = sf.slot
        self.primcalls.append(("->" + name, fr.f.name, ir.loc(ins)))
        if self.hooks is not None:
            self.hooks.prim(self, fr, st, "->" + name, args, ins)
        if self.slot_hook is not None:
            r = self.slot_hook(self, ins, sf, args, st, fr)
            if r is not NotImplemented:
                return r
        f = SLOTS.get(name)
        if f is None:
            raise Undecided("slot %s at %s" % (name, ir.loc(ins)))
        return f(self, ins, sf, args, st)


DEAD = object()
EXTERN = {}
OVERRIDE = {}
SLOTS = {}


def m_memcpy(I, ins, name, args, st):
    d, s, n = args[0], args[1], args[2]
    if isinstance(d, Ptr) and isinstance(s, Ptr) and isinstance(n, int):
        ks = [k for k in st.m if len(k) == 3 and k[0] in ("m", "E", "Z") and k[1] is s.obj
              and isinstance(sub(k[2], s.off), int) and 0 <= sub(k[2], s.off) < n]
        if ks and n != 16 and ("L", s.obj) in st.m and all(k[0] == "m" and is_val(st.m[k]) for k in ks):
            ks = []     # limbs written one by one on top of block contents
        if ks or n == 16:
            if n == 16 and isinstance(d.off, (int, Poly)):
                # struct element_s assignment
                for o in (0, 8):
                    v = I.load(st, Ptr(s.obj, add(s.off, o)), ir.PTR)
                    I.store(st, Ptr(d.obj, add(d.off, o)), v, ins)
                if ("E", s.obj, s.off) in st.m or s.obj.kind in ("arg", "lazy"):
                    I.store(st, d, I.econt(st, s), ins, "E")
                return d
            for k in ks:
                I.store(st, Ptr(d.obj, add(d.off, sub(k[2], s.off))), st.m[k], ins, k[0])
            return d
    v = I.rawread(st, s, n)
    I.rawwrite(st, d, n, v, ins)
    return d


def m_memset(I, ins, name, args, st):
    d, c, n = args[0], args[1], args[2]
    if isinstance(d, Ptr):
        for k in list(st.m):
            if len(k) == 3 and k[0] in ("m", "E", "Z") and k[1] is d.obj:
                dd = sub(k[2], d.off)
                if isinstance(dd, int) and isinstance(n, int):
                    if 0 <= dd < n:
                        if c == 0 and k[0] == "m":
                            st.m[k] = 0
                        else:
                            del st.m[k]
                elif not isinstance(dd, int) or not isinstance(n, int):
                    if c == 0 and d.off == 0 and k[0] == "m":
                        st.m[k] = 0
                    else:
                        del st.m[k]
        osz = d.obj.size
        if c == 0 and d.off == 0 and d.obj.kind in ("stack", "heap") and (osz is None or osz == n):
            st.m[("zero", d.obj)] = True
            st.m.pop(("L", d.obj), None)
            I.effect(d.obj, d.off, "L", ins)
            return d
    I.rawwrite(st, d, n, 0 if c == 0 else A("fill", c), ins)
    return d


from . import words  # noqa: E402
from . import models  # noqa: E402,F401  (fills the tables)
