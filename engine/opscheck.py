"""Operations of every field and group implementation compared between operand layouts."""
import itertools
from .check import program
from .opsrun import *
from .randint import Model, IntModel, loopy, same_value
from .poly import equal, show, TooBig

OPALIAS = {1: [(1,)], 2: [(1,), (2,)]}
EXPS = (0, 1, 2, 5)


def cases(api, slot, sig):
    """entry data that must be fixed for loops to be resolved"""
    if "z" in sig and api != "element_set_mpz":
        return [dict(z=None)] + [dict(z=k) for k in EXPS]
    return [dict()]


def jobs(kinds=None, ops=None):
    for k in kinds or all_kinds():
        for api, slot, sig in ops or OPS:
            for vs in itertools.product(k.variants(), repeat=sig.count("e")):
                for kw in cases(api, slot, sig):
                    yield k, api, slot, sig, vs, kw


def jobname(k, api, vs, kw, extra=""):
    s = "%s:%s(%s)" % (k.name, api, ",".join(vs))
    if kw.get("z") is not None:
        s += " exponent %d" % kw["z"]
    return s + extra


def norm_exit(facts0, st, view, rv):
    f = tuple(sorted(((repr(k), v) for k, v in st.facts.items() if facts0.get(k) != v)))
    return f, tuple(sorted(((repr(p), v if is_val(v) else repr(v)) for p, v in view.items()), key=lambda x: x[0])), \
        rv if is_val(rv) else repr(rv)


def exits(run):
    r = []
    for st, view, rv in run.views():
        r.append((st, view, rv))
    return r


def vmap(view):
    return {k: v for k, v in view.items()}


def compare(ra, rb, rules=()):
    """compare the exits of two runs: None equal; message if certainly different; Undecided otherwise"""
    A_, B_ = exits(ra), exits(rb)
    na = sorted(map(lambda e: repr(norm_exit(ra.before.facts, *e)), A_))
    nb = sorted(map(lambda e: repr(norm_exit(rb.before.facts, *e)), B_))
    if na == nb:
        return None
    if getattr(ra.k, "p", None) is not None:
        d = int_compare(A_, B_, ra, rb)
        if d:
            return d
    if len(A_) == 1 and len(B_) == 1:
        return cmp_views(A_[0], B_[0], ra.k.char)
    for seed in range(4):
        m = Model(seed)
        xa = [e for e in A_ if match(m, ra, e)]
        xb = [e for e in B_ if match(m, rb, e)]
        if len(xa) != 1 or len(xb) != 1:
            raise Undecided("exits are not distinguished by their conditions")
        d = cmp_views(xa[0], xb[0], ra.k.char, seed)
        if d:
            return d
    raise Undecided("exits differ in form only")


def int_compare(A_, B_, ra, rb):
    """exits of operations on residues under integer models: a message when some model separates them"""
    done = 0
    for seed in range(24):
        m = IntModel(seed)
        try:
            xa = [e for e in A_ if match(m, ra, e)]
            xb = [e for e in B_ if match(m, rb, e)]
            if len(xa) != 1 or len(xb) != 1:
                return None
            va, vb = xa[0][1], xb[0][1]
            if ("zero" in va) != ("zero" in vb):
                return "one layout gives %s, the other %s" % (showv(va), showv(vb))
            if set(va) != set(vb):
                return None
            for q in va:
                x, y = m.ev(va[q]), m.ev(vb[q])
                if x != y:
                    return "%s is %s in one layout and %s in the other" % (pshow(q), show(va[q])[:200], show(vb[q])[:200])
            rva, rvb = xa[0][2], xb[0][2]
            if is_val(rva) and is_val(rvb) and m.ev(rva) != m.ev(rvb):
                return "the returned value differs"
        except Undecided:
            continue
    return None


def match(m, run, e):
    for k, v in e[0].facts.items():
        if run.before.facts.get(k) == v:
            continue
        if m.truth(k) != v:
            return False
    return True


def cmp_views(ea, eb, char, seed=None):
    va, vb = ea[1], eb[1]
    if isinstance(va.get("count"), int) and isinstance(vb.get("count"), int) and va["count"] != vb["count"]:
        return "the result has %d components in one layout and %d in the other" % (va["count"], vb["count"])
    if set(va) != set(vb):
        if "zero" in va or "zero" in vb:
            if "flag" in va or "flag" in vb:
                raise Undecided("representation flag not resolved")
            return "one layout gives %s, the other %s" % (showv(va), showv(vb))
        raise Undecided("different cells")
    unk = False
    for p in va:
        r = cmp_val(va[p], vb[p], char)
        if r is False:
            return "%s is %s in one layout and %s in the other" % (pshow(p), show(va[p])[:200], show(vb[p])[:200])
        if r is None:
            unk = True
    if is_val(ea[2]) or is_val(eb[2]):
        r = cmp_val(ea[2], eb[2], char)
        if r is False:
            return "the returned value differs"
        if r is None:
            unk = True
    if unk:
        raise Undecided("values could not be compared")
    return None


def cmp_val(a, b, char):
    if a == b:
        return True
    if is_val(a) and is_val(b):
        if equal(a, b, char):
            return True
        if char:
            ops = {t.op for t in all_terms(a)} | {t.op for t in all_terms(b)}
            if ops <= {"v", "inv", "obj", "undef", "sqrt"}:
                return False
            return None
        return same_value(a, b)
    return None


class Memo:
    """runs of one job, shared between its obligations"""

    def __init__(self, prog, c, it):
        self.prog, self.c, self.it, self.memo = prog, c, it, {}

    def __call__(self, **x):
        k, api, slot, sig, vs, kw = self.it
        key = tuple(sorted(x.items()))
        if key not in self.memo:
            try:
                self.memo[key] = Run(self.prog, k, api, slot, sig, vs, **kw, **x)
                self.c.funcs.update(f.name for f in self.memo[key].S.I.analysed)
            except (NotProvided, Undecided, TooBig) as e:
                self.memo[key] = e
        if isinstance(self.memo[key], Exception):
            raise self.memo[key]
        return self.memo[key]

    def provided(self):
        try:
            self()
        except NotProvided:
            return False
        except Exception:
            pass
        return True


def pshow(p):
    return p if isinstance(p, str) else "component " + "/".join(str(x) for x in p[:1] + p[2:])


def showv(v):
    if "zero" in v:
        return "the neutral element"
    return "{" + ", ".join("%s: %s" % (pshow(p), show(x)[:80] if is_val(x) else x) for p, x in v.items()) + "}"
