"""Elements as texts: printing is bounded and complete like snprintf, and what is printed is read back."""
import os
import re
from engine.check import Check, program
from engine import absint, ir
from engine.scen import Missing
from engine.absint import Ptr, Fn, SlotFn, Undecided
from engine.text import Texts, value, emit, fmt, numeral
from engine.groupkinds import Curve, INF
from engine import kinds
from engine.poly import *
from engine.poly import A, T


class Fault(Exception):
    pass


def guard(f):
    try:
        return f()
    except Fault as e:
        return str(e)


class World:
    """a field or group over an abstract field whose elements are numerals"""

    def __init__(self, prog, kind):
        self.S = Texts(prog)
        self.I = self.S.I
        self.kind = kind
        S = self.S
        self.cuts = None
        self.K = None
        self.I.slot_hook = self.hook
        self.F = getattr(self, "mk_" + kind.split("/")[0])(*[int(x) for x in kind.split("/")[1:]])

    # ---- fields and groups
    def mk_quadratic(self):
        return self.S.new_field("F", "field_init_quadratic", self.S.field("K"))

    def mk_fi(self):
        return self.S.new_field("F", "field_init_fi", self.S.field("K"))

    def mk_tower(self):
        return self.S.new_field("F2", "field_init_quadratic", self.mk_quadratic())

    def mk_polymod(self, n):
        return kinds.Polymod(n).setup(self.S)

    def mk_ring(self, n):
        self.deg = n - 1
        return self.S.new_field("F", "field_init_poly", self.S.field("K"))

    def mk_overpoly(self, n):
        return self.S.new_field("F2", "field_init_quadratic", self.mk_polymod(n))

    def mk_curve(self):
        self.curve = Curve()
        return self.curve.setup(self.S)

    def mk_gt(self):
        S = self.S
        F = self.mk_quadratic()
        pr = S.raw("pairing")
        o = self.I.slotoff
        S.st.m[("Z", pr.obj, o("r", "pairing_s"))] = A("v", "r")
        S.run1("pairing_GT_init", pr, F)
        return Ptr(pr.obj, o("GT", "pairing_s"))

    def mk_prime(self, i):
        S = self.S
        init = PRIME[i]
        S.st.facts[T("odd", A("v", "p"))] = 1
        F = S.new_field("F", init, S.mpz("p") if init != "field_init_naive_fp" else S.mpz("p", 1000003))
        self.cuts = {}
        if init != "field_init_naive_fp":
            tm, sm = S.slot(F, "to_mpz"), S.slot(F, "set_mpz")
            if not isinstance(tm, Fn) or not isinstance(sm, Fn):
                raise Undecided("conversions")

            def to_mpz(I, ins, n, a, st):
                I.zset(st, a[0], self.cuts.get(a[1].obj, A("v", "@?")), ins)

            def set_mpz(I, ins, n, a, st):
                v = I.zcont(st, a[1])
                t = as_atom(v) if not isinstance(v, int) else None
                if t is not None and t.op == "mod" and show(t.args[1]) == "p":
                    v = t.args[0]
                st.m[("set", a[0].obj, 0)] = v
            self.I.models[tm.f.name] = to_mpz
            self.I.models[sm.f.name] = set_mpz
        return F

    # ---- elements
    def leaves(self, e, st):
        S = self.S
        f = st.m.get(("m", e.obj, e.off))
        if not isinstance(f, Ptr):
            raise Undecided("field of an element")
        sl = self.I.load(st, Ptr(f.obj, add(f.off, self.I.slotoff("add"))), ir.PTR)
        if isinstance(sl, SlotFn):
            return [e]
        d = st.m.get(("m", e.obj, add(e.off, 8)))
        if self.kind == "gt" and f == self.F:
            return self.leaves(d, st)
        if self.kind == "curve" and f == self.F:
            S0, S.st = S.st, st
            try:
                return self.curve.xy(S, e)
            finally:
                S.st = S0
        (s, n), = S.run("element_item_count", e, st=st.copy())
        r = []
        for i in range(n):
            (s, c), = S.run("element_item", e, i, st=st.copy())
            r += self.leaves(c, st)
        return r

    def elem(self, name, vals):
        S = self.S
        e = S.elem(self.F, name)
        if self.cuts is not None:
            if PRIME[int(self.kind.split("/")[1])] == "field_init_naive_fp":
                self.I.zset(S.st, S.data(e), vals[0], None)
            else:
                self.cuts[e.obj] = vals[0]
            return e
        if self.kind == "curve":
            self.curve.put(S, e, INF if vals is None else tuple(vals))
            return e
        if self.kind.startswith("ring") and self.deg >= 0:
            S.run1("poly_set_coeff1", e, self.deg)
        ls = self.leaves(e, S.st)
        if self.kind.startswith("ring") and len(ls) != self.deg + 1:
            raise Undecided("%d coefficients" % len(ls))
        for i, l in enumerate(ls):
            S.setE(l, vals[i % len(vals)] if not isinstance(vals[i % len(vals)], str) else A("v", vals[i % len(vals)] + "x" * i))
        return e

    def content(self, e, st):
        if self.cuts is not None:
            if PRIME[int(self.kind.split("/")[1])] == "field_init_naive_fp":
                return self.I.zcont(st, self.S.data(e, st))
            return st.m.get(("set", e.obj, 0), self.cuts.get(e.obj))
        if self.kind == "curve":
            return self.curve.get(self.S, e, st)
        return [self.I.econt(st, l) for l in self.leaves(e, st)]

    # ---- the abstract field prints and reads numerals
    def num(self, st, e):
        v = self.I.econt(st, e)
        if isinstance(v, int):
            return str(v)
        t = as_atom(v)
        if t is not None and t.op == "v" and str(t.args[0]).startswith("@"):
            return t.args[0]
        raise Undecided("element %s" % show(v))

    def hook(self, I, ins, sf, a, st, fr):
        if sf.slot == "snprint":
            s = self.num(st, a[2])
            if not isinstance(a[1], int):
                raise Undecided("size %s" % (a[1],))
            if a[1] > 0:
                I.put(st, a[0], s[:a[1] - 1], ins)
            return len(s)
        if sf.slot == "out_str":
            self.bases.add(a[1])
            return emit(I, st, a[0], self.num(st, a[2]))
        if sf.slot == "set_str":
            if not isinstance(a[1], Ptr):
                raise Undecided("text")
            t = I.text(st, a[1], ins)
            m = re.match(r"\s*(@\w+|\d+)\s*", t)
            I.eset(st, a[0], value(m[1]) if m else 0, ins)
            self.bases.add(a[2])
            return m.end() if m else len(t) - len(t.lstrip())
        if self.kind == "curve" and sf.slot in ("cmp", "is0"):
            return int(sf.slot == "is0")        # the points lie on the curve
        return NotImplemented

    def call(self, f, *args, st=None):
        self.bases = set()
        self.I.beyond = []
        try:
            outs = self.S.run(f, *args, st=(st or self.S.st).copy())
        except Undecided:
            if self.I.beyond:
                raise Fault(self.I.beyond[0])
            raise
        if self.I.beyond:
            raise Fault(self.I.beyond[0])
        return outs

    def one(self, outs):
        if len(outs) != 1:
            raise Undecided("%d outcomes" % len(outs))
        return outs[0]

    def buf(self, n):
        p = Ptr(self.I.named("heap", "buffer", n, self.S.nlit), 0)
        self.S.nlit += 1
        self.I.limit[p.obj] = n
        return p

    def printed(self, e, n, fn=None):
        """(text in the buffer, result) for a buffer of n bytes"""
        b = self.buf(n)
        st, rv = self.one(self.call("element_snprint", b, n, e) if fn is None else fn(b, n))
        if not isinstance(rv, int):
            raise Undecided("result %s" % (rv,))
        rv = (rv + (1 << 31)) % (1 << 32) - (1 << 31)
        if n == 0:
            return None, rv
        if not any(st.m.get(("m", b.obj, i)) == 0 for i in range(n)):
            bad = [st.m.get(("m", b.obj, i)) for i in range(n)]
            if all(isinstance(x, int) or x is None for x in bad):
                raise Fault("a buffer of %d bytes is left without an end of the text" % n)
            raise Undecided("buffer")
        return self.I.text(st, b), rv


PRIME = ("field_init_naive_fp", "field_init_fast_fp", "field_init_faster_fp", "field_init_mont_fp")


def bounded(prog, kind, vals):
    W = World(prog, kind)
    e = W.elem("e", vals)
    return sizes(W, e, None)


def sizes(W, e, fn, want=None):
    full, n = W.printed(e, 400, fn)
    if want is not None and full != want:
        return "%r is printed instead of %r" % (full, want)
    if n != len(full):
        return "the result is %d for a text of %d characters" % (n, len(full))
    for k in list(range(0, len(full) + 3)):
        t, m = W.printed(e, k, fn)
        if m != len(full):
            return "with %d bytes the result is %d instead of %d" % (k, m, len(full))
        if k and t != full[:k - 1]:
            return "with %d bytes the buffer holds %r instead of %r" % (k, t, full[:k - 1])
    return None


def stream(prog, kind, vals, same):
    W = World(prog, kind)
    e = W.elem("e", vals)
    f = W.S.raw("stream")
    base = 10 if W.cuts is not None else 16
    st, rv = W.one(W.call("element_out_str", f, base, e))
    for b in W.bases:
        if isinstance(b, int) and b != base:
            return "with base %d given, coordinates are written in base %d" % (base, b)
    out = W.S.output(st, f)
    if not isinstance(rv, int):
        raise Undecided("result")
    if rv != len(out):
        return "the result is %d after %d characters" % (rv, len(out))
    if same:
        t, _ = W.printed(e, 400)
        if t != out:
            return "the stream holds %r but the buffer %r" % (out, t)
    return None


def reads(prog, kind, vals, form):
    """what is printed, with the given white space and rest, is read back"""
    W = World(prog, kind)
    S = W.S
    e = W.elem("e", vals)
    text, _ = W.printed(e, 400)
    sp = {"plain": "", "spaces": " \n\t", "compact": ""}[form]
    if form == "spaces":
        text = re.sub(r"([\[\],])", sp + r"\1" + sp, text)
    if form == "compact":
        text = text.replace(" ", "")
    x = W.elem("x", [77 + i for i in range(8)])
    if W.cuts is not None:
        W.cuts.pop(x.obj, None)
    for rest in ("", "]", ", 5]", "junk"):
        full = text + (" " if rest == "junk" and W.cuts is not None and False else "") + rest
        if W.cuts is not None and rest == "junk":
            full = text + "!" + rest
        p = S.lit(full)
        res = []
        base = 10 if W.cuts is not None else 16
        for st, rv in W.call("element_set_str", x, p, base):
            if not isinstance(rv, int):
                raise Undecided("result %s" % (rv,))
            res.append((rv, W.content(x, st)))
        for b in W.bases:
            if isinstance(b, int) and b != base:
                return "with base %d given, coordinates are read in base %d" % (base, b)
        want = W.content(e, S.st)
        for rv, got in res:
            if rv == 0:
                return "%r is not accepted" % full
            if got != want:
                return "%r is read as %s" % (full, [show(v) if is_val(v) else v for v in got] if isinstance(got, (list, tuple)) else got)
            n = len(text.rstrip()) if form == "spaces" and W.cuts is None else len(text)
            if not len(text.rstrip()) <= rv <= len(text):
                return "the result is %d for %d characters of %r" % (rv, n, full)
    return None


def malformed(prog, kind, n):
    """a text without a bracket or comma is refused, and nothing is read behind its end"""
    W = World(prog, kind)
    S = W.S
    x = W.elem("x", [77 + i for i in range(8)])
    good = "[" + ", ".join("@a%d" % i for i in range(n)) + "]"
    for cut in range(len(good)):
        t = good[:cut]
        for st, rv in W.call("element_set_str", x, S.lit(t), 10):
            if not isinstance(rv, int):
                raise Undecided("result")
            if rv and not (kind == "curve" and t.startswith("O")):
                return "%r is accepted" % t
    for t in ("(" + good[1:], good[:-1] + ")", good.replace(",", ";", 1), "x" + good):
        for st, rv in W.call("element_set_str", x, S.lit(t), 10):
            if rv:
                return "%r is accepted" % t
    return None


def mpz_reader(prog):
    """numerals in bases 2 to 36"""
    W = Texts(prog)
    digits = "0123456789abcdefghijklmnopqrstuvwxyz"
    for base in (0, 2, 3, 8, 10, 11, 16, 35, 36):
        b = base or 10
        for body in ("", "0", "1", digits[:b], digits[b - 1] * 3, (digits[1] + digits[b - 1]).upper(), " 1 0\t1", "00" + digits[b - 1]):
            for tail in ("", "]", ",1", "!", "-1", digits[b] if b < 36 else "."):
                s = body + tail
                z = W.mpz("z", 99)
                p = W.lit(s)
                outs = W.run("pbc_mpz_set_str", z, p, base, st=W.st.copy())
                if W.I.beyond:
                    return W.I.beyond[0]
                want = int(body.replace(" ", "").replace("\t", "").lower() or "0", b)
                for st, rv in outs:
                    v = W.I.zcont(st, z)
                    if not isinstance(v, int) or not isinstance(rv, int):
                        raise Undecided("result")
                    if v != want:
                        return "%r in base %d is read as %d" % (s, base, v)
                    if rv != len(body):
                        return "%d characters of %r are reported read in base %d" % (rv, s, base)
    return None


# ------------------------------------------------------------ formatted output
def va_list(W, args):
    """arguments of a call, all of them on the stack"""
    S = W.S
    S.nlit += 1
    area, ap = S.raw("args%d" % S.nlit), S.raw("ap%d" % S.nlit)
    for i, x in enumerate(args):
        S.st.m[("m", area.obj, 8 * i)] = x
    S.st.m[("m", ap.obj, 0)] = 48
    S.st.m[("m", ap.obj, 4)] = 304
    S.st.m[("m", ap.obj, 8)] = area
    S.st.m[("m", ap.obj, 16)] = 0
    return ap


FORMATS = (("", "", ""), ("plain", "", "plain"), ("%B", "e", "<e>"), ("a%Bb", "e", "a<e>b"), ("%B%B", "ef", "<e><f>"), ("%Zd", "z", "<z>"), ("[%Zd, %B] %d\n", "zed", "[<z>, <e>] <d>\n"),
           ("%d", "d", "<d>"), ("%s=%B", "se", "<s>=<e>"), ("100%%", "", "100%"), ("%%", "", "%"), ("%%%B%%", "e", "%<e>%"), ("a%%b%Bc%%d", "e", "a%b<e>c%d"), ("%%B %d", "d", "%B <d>"),
           ("%5d|%-5d|", "dd", "%5d|%-5d|"), ("%s%s%B", "sse", "<s><s><e>"), ("%c%B", "ce", "q<e>"))


def formatted(prog, i, how):
    f, kindsof, want = FORMATS[i]
    W = World(prog, "quadratic")
    S = W.S
    e, g = W.elem("e", ["@ea", "@eb"]), W.elem("g", ["@g"])
    z = S.mpz("z", A("v", "@z"))
    s = S.lit("word")
    texts = {"e": W.printed(e, 99)[0], "f": W.printed(g, 99)[0], "z": "@z", "d": "-42", "s": "word"}
    want = re.sub(r"<(\w)>", lambda m: texts[m[1]], want)
    want = want.replace("%5d|%-5d|", "  -42|-42  |")
    args = [{"e": e, "f": g, "z": z, "d": -42, "s": s, "c": ord("q")}[k] for k in kindsof]
    fm = S.lit(f)
    if how == "buffer":
        return sizes(W, None, lambda b, n: W.call("element_vsnprintf", b, n, fm, va_list(W, args)), want)
    st_ = S.raw("stream")
    st, rv = W.one(W.call("element_vfprintf", st_, fm, va_list(W, args)))
    out = W.S.output(st, st_)
    if out != want:
        return "%r is printed instead of %r" % (out, want)
    if not isinstance(rv, int):
        raise Undecided("result %s" % (rv,))
    if rv != len(out):
        return "the result is %d after %d characters" % (rv, len(out))
    return None


EXT = (("quadratic", 2), ("fi", 2), ("tower", 0), ("polymod/2", 2), ("polymod/3", 3), ("polymod/5", 5), ("overpoly/3", 0), ("gt", 2), ("curve", 2))
VALS = (["@a"], ["@abcdefgh", "@i"], [0], [5, "@t"])


def items(tier):
    for k, n in EXT:
        for j, v in enumerate(VALS if k != "curve" else ((A("v", "@abc"), A("v", "@d")), (0, A("v", "@zz")), None)):
            yield "bounded", k, j, v
            yield "stream", k, j, v
            for form in ("plain", "spaces", "compact"):
                yield "reads", k, j, v, form
        if n:
            yield "malformed", k, n
    for n in (0, 1, 2, 3, 5):
        for j, v in enumerate(VALS[:2] + VALS[3:]):
            yield "bounded", "ring/%d" % n, j, v
            yield "stream", "ring/%d" % n, j, v
    for i, init in enumerate(PRIME):
        for j, v in enumerate(([0], [7], [123456])):
            yield "bounded", "prime/%d" % i, j, v
            yield "stream", "prime/%d" % i, j, v
            if i in (0, 3):
                for form in ("plain", "spaces"):
                    yield "reads", "prime/%d" % i, j, v, form
    yield "numbers",
    for i in range(len(FORMATS)):
        yield "format", i, "buffer"
        yield "format", i, "stream"


def item(prog, s, it):
    w = it[0]
    if w == "numbers":
        return s.ob("numerals in every base", lambda: guard(lambda: mpz_reader(prog)))
    if w == "format":
        return s.ob("format %r to a %s" % (FORMATS[it[1]][0], it[2]), lambda: guard(lambda: formatted(prog, it[1], it[2])))
    k = it[1] if not it[1].startswith("prime") else PRIME[int(it[1][6:])]
    if w == "bounded":
        s.ob("%s: buffers of every size (%d)" % (k, it[2]), lambda: guard(lambda: bounded(prog, it[1], it[3])))
    elif w == "stream":
        s.ob("%s: output to a stream (%d)" % (k, it[2]), lambda: guard(lambda: stream(prog, it[1], it[3], it[1] not in ("prime/1", "prime/2"))))
    elif w == "reads":
        s.ob("%s: printed and read, %s (%d)" % (k, it[4], it[2]), lambda: guard(lambda: reads(prog, it[1], it[3], it[4])))
    else:
        s.ob("%s: malformed texts" % k, lambda: guard(lambda: malformed(prog, it[1], it[2])))


def main():
    absint.MAXUNROLL = 400
    tier = os.environ.get("VERIF_TIER", "quick")
    prog = program()
    c = Check("C14", "Elements with symbolic coordinates are printed into buffers of every size and to streams, and read back; formatted output.",
              floor=10, assumptions=["coordinates print as numerals of a few characters"])
    c.parallel(list(items(tier)), lambda s, it: item(prog, s, it))
    return c.finish()
