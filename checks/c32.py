"""Growable arrays are sequences and symbol tables are maps, within their memory."""
import itertools
import os
from engine.check import Check, program
from engine import absint, ir
from engine.absint import Ptr, Undecided, Fn
from engine.poly import *
from engine.poly import T, A
from engine.scen import Scenario
from checks.c27 import M, Mem


class Cells(Mem):
    """what nothing was written to has an unknown value"""

    def load(self, st, p, ty, ins=None):
        if self.block(p) and all(("b", p.obj, p.off + i) not in st.m for i in range(self.width(ty))):
            self.byte(st, p, 0, ins)
            return A("undef", p.obj.term, p.off, self.width(ty))
        return Mem.load(self, st, p, ty, ins)


class W(M):
    """arrays and tables; what they hold is opaque"""

    def __init__(self, prog):
        self.S = Scenario(prog, Cells(prog))
        self.I = self.S.I
        self.prog = prog
        self.calls = []
        self.hits = set()
        I = self.I

        def visit(I, ins, n, a, st):
            self.calls.append(tuple(a))

        def test(I, ins, n, a, st):
            self.calls.append(tuple(a))
            return int(a[0] in self.hits)
        I.models["user_visit"], I.models["user_test"] = visit, test
        self.visit, self.test = Fn("user_visit", None), Fn("user_test", None)
        self.n = 0

    def item(self, k):
        return Ptr(self.I.named("heap", "item", str(k)), 0)

    def fresh(self, z, what):
        self.n += 1
        o = self.I.named("heap", what, str(self.n))
        self.I.limit[o] = z
        return Ptr(o, 0)

    def text(self, s):
        t = self.fresh(len(s) + 1, "text")
        for i, ch in enumerate(s + "\0"):
            self.S.st.m[("b", t.obj, i)] = ord(ch)
        return t

    def do(self, f, *a):
        r, bad = self.call(f, *a)
        if bad:
            raise Bad("%s: %s" % (f, bad))
        if r == "stopped":
            raise Bad("%s does not come back" % f)
        return r

    def arr(self, items):
        a = self.fresh(16, "array")
        self.do("darray_init", a)
        for p in items:
            self.do("darray_append", a, p)
        return a

    def field(self, a, off, ty):
        return self.I.load(self.S.st, Ptr(a.obj, a.off + off), ty)

    def read(self, a):
        n = self.field(a, 8, ir.int_type(32))
        mx = self.field(a, 12, ir.int_type(32))
        if not isinstance(n, int) or not isinstance(mx, int):
            raise Undecided("count %s of %s" % (n, mx))
        if not 0 <= n <= mx:
            raise Bad("the count is %d of at most %d" % (n, mx))
        p = self.field(a, 0, ir.PTR)
        out = []
        if mx:
            if not self.I.block(p):
                raise Bad("the items are at %s" % (p,))
            if ("gone", 0, p.obj) in self.S.st.m:
                raise Bad("the items are in released memory")
            if self.I.limit[p.obj] - p.off < 8 * mx:
                raise Bad("room for %d items is claimed but the block has %d bytes" % (mx, self.I.limit[p.obj]))
        for i in range(n):
            out.append(self.I.load(self.S.st, Ptr(p.obj, p.off + 8 * i), ir.PTR))
        if self.I.beyond:
            raise Bad(self.I.beyond[0])
        return out

    def want(self, a, items, what):
        got = self.read(a)
        if got != list(items):
            raise Bad("%s the array is %s, not %s" % (what, self.show(got), self.show(items)))

    def show(self, l):
        return "[" + " ".join(str(p.obj.term.args[-1]) if isinstance(p, Ptr) and p.obj.term.args else "?" for p in l)[:60] + "]"

    def left(self):
        """blocks still held"""
        return [o for o in self.I.limit if o.term.args[:1] == ("block",) and ("gone", 0, o) not in self.S.st.m]

    def drained(self, what):
        if self.left():
            raise Bad("%s %d blocks are still held" % (what, len(self.left())))


class Bad(Exception):
    pass


def items(w, n, alike=False):
    return [w.item(i if not alike else i % 2) for i in range(n)]


# ---- arrays
def grow(w, n):
    a = w.arr([])
    w.want(a, [], "after init")
    xs = items(w, n)
    for i, p in enumerate(xs):
        w.do("darray_append", a, p)
        w.want(a, xs[:i + 1], "after %d appends" % (i + 1))
    w.do("darray_clear", a)
    w.drained("after clear")


def heap(w, n):
    a = w.do("darray_new")
    xs = items(w, n)
    for p in xs:
        w.do("darray_append", a, p)
    w.want(a, xs, "after new")
    w.do("darray_free", a)
    w.drained("after free")


def index(w, n, alike):
    xs = items(w, n, alike)
    a = w.arr(xs)
    for p in xs + [w.item("other")]:
        r = w.do("darray_index_of", a, p)
        want = xs.index(p) if p in xs else -1
        if not isinstance(r, int) or (r - want) & 0xffffffff:
            raise Bad("index of item %s among %d is %s, not %d" % (w.show([p]), n, r, want))
    w.want(a, xs, "after a search")


def again(w, a, xs):
    """the array goes on working"""
    ys = [w.item("new%d" % i) for i in range(9)]
    for p in ys:
        w.do("darray_append", a, p)
    w.want(a, list(xs) + ys, "after further appends")
    w.do("darray_clear", a)
    w.drained("after clear")


def remove(w, n, k, alike):
    xs = items(w, n, alike)
    a = w.arr(xs)
    w.do("darray_remove", a, xs[k])
    xs.remove(xs[k])
    w.want(a, xs, "after removal")
    again(w, a, xs)


def remove_index(w, n, k):
    xs = items(w, n)
    a = w.arr(xs)
    w.do("darray_remove_index", a, k)
    del xs[k]
    w.want(a, xs, "after removal at %d of %d" % (k, n))
    again(w, a, xs)


def remove_last(w, n):
    xs = items(w, n)
    a = w.arr(xs)
    w.do("darray_remove_last", a)
    w.want(a, xs[:-1], "after removal of the last of %d" % n)
    again(w, a, xs[:-1])


def remove_all(w, n):
    a = w.arr(items(w, n))
    w.do("darray_remove_all", a)
    w.want(a, [], "after removal of all %d" % n)
    again(w, a, [])


def remove_test(w, n, bits):
    xs = items(w, n)
    a = w.arr(xs)
    w.hits = {p for i, p in enumerate(xs) if bits >> i & 1}
    w.do("darray_remove_with_test", a, w.test)
    ys = [p for p in xs if p not in w.hits]
    w.want(a, ys, "after removal of %d of %d items that pass a test" % (len(w.hits), n))
    again(w, a, ys)


def copy(w, n, m):
    xs, ys = items(w, n), [w.item("old%d" % i) for i in range(m)]
    a, b = w.arr(xs), w.arr(ys)
    w.do("darray_copy", b, a)
    w.want(a, xs, "after a copy the source:")
    w.want(b, xs, "after a copy")
    w.do("darray_append", a, w.item("more"))
    w.want(b, xs, "after a change to the source of a copy")
    w.do("darray_clear", a)
    again(w, b, xs)


def each(w, n, k):
    xs = items(w, n)
    a = w.arr(xs)
    sc = [w.item("scope%d" % i) for i in range(k - 1)]
    w.do("darray_forall" + (str(k) if k > 1 else ""), a, w.visit, *sc)
    if w.calls != [(p,) + tuple(sc) for p in xs]:
        raise Bad("a visit of %d items made %d calls, or with other arguments" % (n, len(w.calls)))
    w.want(a, xs, "after a visit")


def find(w, n, bits):
    xs = items(w, n)
    a = w.arr(xs)
    w.hits = {p for i, p in enumerate(xs) if bits >> i & 1}
    s = w.item("scope")
    r = w.do("darray_at_test", a, w.test, s)
    want = next((p for p in xs if p in w.hits), 0)
    if r != want:
        raise Bad("the item found among %d is not the first that passes the test" % n)
    if any(c[1:] != (s,) for c in w.calls):
        raise Bad("the test gets another argument")


# ---- tables
KEYS = ("p", "q", "r", "", "exp1", "exp2", "exp", "sign0", "sign1", "P", "pq", "type", "g", "g1", "g2", "b", "bb", "h", "n", "nk")


def table(w, puts):
    """put in order; every key then holds the last value put"""
    t = w.fresh(16, "table")
    w.do("symtab_init", t)
    d, order = {}, []
    for j, k in enumerate(puts):
        v = w.item("v%d" % j)
        key = w.text(k)
        w.do("symtab_put", t, v, key)
        # the table has its own copy of the key
        for i in range(len(k) + 1):
            w.S.st.m[("b", key.obj, i)] = ord("#")
        d[k] = v
    for k in set(KEYS[:10]) | set(puts) | {"#"}:
        key = w.text(k)
        r = w.do("symtab_has", t, key)
        if not isinstance(r, int):
            raise Undecided("has: %s" % (r,))
        if bool(r) != (k in d):
            raise Bad("the table says it %s key %r" % ("has" if r else "lacks", k))
        r = w.do("symtab_at", t, key)
        if r != d.get(k, 0):
            raise Bad("the value of key %r is not the one put last" % k if k in d else "absent key %r has a value" % k)
    w.do("symtab_forall_data", t, w.visit)
    if sorted(str(c) for c in w.calls) != sorted(str((v,)) for v in d.values()):
        raise Bad("a visit of %d values made %d calls, or with other arguments" % (len(d), len(w.calls)))
    w.do("symtab_clear", t)
    w.drained("after clear")


def main():
    absint.MAXUNROLL = 3000
    deep = os.environ.get("VERIF_TIER", "quick") != "quick"
    prog = program()
    c = Check("C32", "Analysis of the array and table functions on opaque items, memory kept byte by byte, for every size, position and selection up to a bound, against sequences and maps.",
              floor=150, assumptions=["sizes up to a bound", "visitors do not change the container they visit"])
    N = 20 if not deep else 40
    B = 4 if not deep else 7
    its = [("grow", n) for n in (0, 1, 8, 9, 16, 17, 33)] + [("heap", n) for n in (0, 3, 9)]
    its += [("index", n, s) for n in range(0, N) for s in (False, True) if n or not s]
    its += [("remove", n, k, s) for n in range(1, B + 4) for k in range(n) for s in (False, True)]
    its += [("remove_index", n, k) for n in tuple(range(1, B + 5)) + (16,) for k in range(n)]
    its += [("remove_last", n) for n in range(1, N)] + [("remove_all", n) for n in range(N)]
    its += [("remove_test", n, b) for n in range(B + 1) for b in range(2 ** n)] + [("remove_test", 8, b) for b in (0, 255, 1, 128, 129, 0x55, 0xaa, 0xc3)]
    its += [("copy", n, m) for n in (0, 1, 3, 8, 9, 16, 17) for m in (0, 1, 8, 9, 17)]
    its += [("each", n, k) for n in (0, 1, 3, 8, 9) for k in (1, 2, 3, 4)]
    its += [("find", n, b) for n in range(B) for b in range(2 ** n)]
    its += [("table", p) for p in ((), ("p",), ("p", "p"), ("p", "q"), ("p", "P"), ("exp", "exp1"), ("exp1", "exp"), ("", "p", ""), ("a", "b", "a", "c", "b", "a"), KEYS[:8], KEYS[:9], KEYS, KEYS + KEYS[::-1])]
    its += [("table", ("x" * k + "1", "x" * k + "2", "x" * k, "x" * k + "1")) for k in (1, 3, 7, 8, 15, 16, 31, 32, 63, 64, 100) + (tuple(range(9, 70)) if deep else ())]
    if deep:
        its += [("table", p) for n in (1, 2, 3, 4) for p in itertools.product(("a", "ab", "b"), repeat=n)]

    def work(s, it):
        def fn():
            try:
                globals()[it[0]](W(prog), *it[1:])
            except Bad as e:
                return str(e)
        s.ob(" ".join(map(str, it)), fn)
    c.funcs |= {f.name for m in prog.mods if m.name in ("misc/darray.c", "misc/symtab.c") for f in m.functions.values() if f.defined}
    c.parallel(its, work)
    return c.finish()
