"""Resource lifecycles: what the initialisers acquire is gone after the matching clear calls."""
from . import ir
from .poly import *
from .absint import Ptr, Undecided
from .scen import Scenario


class Life:
    """a scenario that records resource events"""

    def __init__(self, prog):
        self.S = Scenario(prog)
        I = self.I = self.S.I
        I.track_ts = True
        I.slot_hook = None
        self.origin = {}
        I.ts_event = self.event
        self.own = set()
        inner = self.S.new_field

        def new_field(name, init, *args):
            self.scaffold()
            return inner(name, init, *args)
        self.S.new_field = new_field
        mk, mz = self.S.elem, self.S.mpz
        self.elems = []

        def elem(F, name):
            e = mk(F, name)
            self.elems.append(e)
            return e
        self.S.elem = elem
        self.S.mpz = lambda name, val=None, kind="heap": mz(name, 5 if name == "cofac" else val, kind)

    def clear_elems(self):
        for e in self.elems:
            self.S.run1("element_clear", e)
        self.elems = []

    def scaffold(self):
        """what is held now belongs to the set-up, not to the analysed life"""
        self.own = {k for k in self.S.st.m if k[0] == "ts"}

    def event(self, kind, act, p, st, ins, old):
        key = (kind, p.obj, p.off)
        if act == "init":
            self.origin[key] = where(self.I, ins)
            if old == "init":
                self.I.reports[len(self.I.reports)] = (("reinitialised", kind, p, where(self.I, ins), self.origin.get(key)))
        elif act == "clear":
            if old == "cleared":
                self.I.reports[len(self.I.reports)] = (("released twice", kind, p, where(self.I, ins), self.origin.get(key)))
            elif old == "none" and kind == "M" and p.obj.kind == "heap" and isinstance(p.off, int) and p.off:
                self.I.reports[len(self.I.reports)] = (("released at an inner address", kind, p, where(self.I, ins), None))

    def left(self, st):
        """resources still held: [(certain, text)]"""
        r = []
        for k, v in st.m.items():
            if k[0] != "ts" or k in self.own:
                continue
            if v == "init" or isinstance(v, tuple) and "init" in v:
                o = self.origin.get((k[3], k[1], k[2]))
                r.append((v == "init" and not getattr(k[1], "multi", False), "%s initialised at %s" % (NOUN[k[3]], o)))
        return r


NOUN = {"Z": "integer", "E": "element", "F": "float", "M": "block", "P": "prime field"}


def where(I, ins):
    w = []
    f = I.cur
    if f is not None and ins is not None:
        w.append("%s (%s)" % (ir.loc(ins), f.f.name))
        f = f.parent
        while f is not None and len(w) < 4:
            w.append(f.f.name)
            f = f.parent
    return " from ".join(w)


def verdict(L, st):
    """None if everything is released, a message if something certainly is not"""
    evs = [e for e in L.I.reports.values() if isinstance(e, tuple) and len(e) == 5]
    bad = ["%s: %s" % (what, "%s initialised at %s, at %s" % (NOUN[kind], o, w)) for what, kind, p, w, o in evs]
    bad += ["never released: " + t for sure, t in L.left(st) if sure and not L.I.vague]
    if bad:
        return "; ".join(sorted(set(bad)))[:700]
    un = [t for sure, t in L.left(st) if not sure or L.I.vague]
    if un:
        raise Undecided("may be held: " + un[0] + (" (release of an unknown object at %s)" % L.I.vague_where if L.I.vague else ""))
    return None
