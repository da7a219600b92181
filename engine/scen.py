"""Set-up of analysis entry states: abstract fields, concrete field tables obtained by
analysing the library's own initialisers, elements and integers with named contents."""
from . import ir
from .poly import *
from .poly import T, A
from .absint import Interp, Ptr, PtrSet, Fn, SlotFn, State, Undecided, Obj


class Scenario:
    def __init__(self, prog, interp=None):
        self.prog = prog
        self.I = interp or Interp(prog)
        self.st = State()
        self.seq = 0

    def fn(self, name):
        f = self.prog.fn(name)
        if f is None:
            raise Missing(name)
        return f

    def field(self, name):
        """abstract field"""
        return Ptr(self.I.named("field", name), 0)

    def raw(self, name, kind="heap"):
        return Ptr(self.I.named(kind, name), 0)

    def mpz(self, name, val=None, kind="heap"):
        p = Ptr(self.I.named(kind, "mpz", name), 0)
        self.st.m[("Z", p.obj, 0)] = val if val is not None else A("v", name)
        return p

    def run(self, f, *args, st=None, label=None):
        """analyse f; returns list of (state, ret)"""
        if isinstance(f, str):
            f = self.fn(f)
        if isinstance(f, Fn):
            f = f.f
        self.I.cur = None
        self.seq += 1
        return self.I.call_fn(f, list(args), st if st is not None else self.st, label=label or self.seq)

    def run1(self, f, *args):
        r = self.run(f, *args)
        if len(r) != 1:
            s, rv = r[0]
            for s2, rv2 in r[1:]:
                s = self.I.join(s, s2, T("drv", 0))
            self.st = s
            return rv if all(x[1] == rv for x in r) else None
        self.st = r[0][0]
        return r[0][1]

    def new_field(self, name, init, *args):
        F = Ptr(self.I.named("heap", "field", name), 0)
        self.run1(init, F, *args)
        return F

    def slot(self, F, name):
        """resolved function (or SlotFn / 0) in a field's slot"""
        return self.I.load(self.st, Ptr(F.obj, add(F.off, self.I.slotoff(name))), ir.PTR)

    def slot_in(self, F, name, st):
        return self.I.load(st, Ptr(F.obj, add(F.off, self.I.slotoff(name))), ir.PTR)

    def elem(self, F, name):
        e = Ptr(self.I.named("heap", "elem", name), 0)
        self.run1("element_init", e, F)
        return e

    def data(self, e, st=None):
        st = st or self.st
        d = st.m.get(("m", e.obj, add(e.off, 8)))
        return d

    def econt(self, p, st=None):
        return (st or self.st).m.get(("E", p.obj, p.off))

    def setE(self, p, v):
        self.st.m[("E", p.obj, p.off)] = v

    def at(self, p, off):
        return Ptr(p.obj, add(p.off, off))


class Missing(Exception):
    pass
