"""CM parameters found by the searches satisfy their equations."""
import math
import os
from engine.check import Check, program
from engine import absint, ir
from engine.absint import Ptr, Undecided, Fn, EXTERN
from engine.models import zin
from engine.text import Texts
from engine.poly import show, is_val, add


def isprime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def nextprime(n):
    n += 1
    while not isprime(n):
        n += 1
    return n


class World:
    """answers: a function (question number, value) -> answer of the primality test"""

    def __init__(self, prog, answer, stop):
        self.S = S = Texts(prog)
        self.I = I = S.I
        I.unroll_any = True
        I.watch_free()
        self.answer, self.stop = answer, stop
        self.asked, self.found, self.live = {}, [], {}
        self.bad = None
        I.models["__gmpz_probab_prime_p"] = self.prime
        I.models["__gmpz_nextprime"] = self.next
        I.models["found parameters"] = self.callback
        for nm in ("init", "init2", "init_set", "init_set_ui", "init_set_si", "init_set_str"):
            self.wrap("__gmpz_" + nm, self.born)
        self.wrap("__gmpz_clear", self.dead)
        for nm in ("pbc_malloc", "malloc"):
            self.wrap(nm, None, self.alloc)
        for nm in ("pbc_free", "free"):
            self.wrap(nm, self.free)

    def wrap(self, nm, before, after=None):
        f = self.I.models.get(nm) or EXTERN.get(nm)
        if f is None:
            return

        def g(I, ins, n, a, st):
            if before:
                before(a, ins)
            r = f(I, ins, n, a, st)
            if after:
                after(r, ins)
            return r
        self.I.models[nm] = g

    def key(self, p):
        return ("Z", p.obj, p.off)

    def born(self, a, ins):
        if isinstance(a[0], Ptr):
            if self.key(a[0]) in self.live:
                self.bad = self.bad or "%s initialises an integer that was not cleared" % ir.loc(ins)
            self.live[self.key(a[0])] = ir.loc(ins)

    def dead(self, a, ins):
        if isinstance(a[0], Ptr):
            if self.live.pop(self.key(a[0]), None) is None:
                self.bad = self.bad or "%s clears an integer that is not initialised" % ir.loc(ins)

    def alloc(self, r, ins):
        if isinstance(r, Ptr):
            self.live[("B", r.obj)] = ir.loc(ins)

    def free(self, a, ins):
        if isinstance(a[0], Ptr):
            self.live.pop(("B", a[0].obj), None)

    def prime(self, I, ins, n, a, st):
        v = zin(I, a[0], st, ins)
        if not isinstance(v, int):
            raise Undecided("primality of %s" % show(v)[:60])
        if v not in self.asked:
            self.asked[v] = self.answer(len(self.asked), v)
        return int(self.asked[v])

    def next(self, I, ins, n, a, st):
        v = zin(I, a[1], st, ins)
        if not isinstance(v, int):
            raise Undecided("prime after %s" % show(v)[:60])
        EXTERN["__gmpz_set"](I, ins, "__gmpz_set", [a[0], self.S.mpz("next prime %d" % v, nextprime(v))], st)
        st.m[("Z", a[0].obj, a[0].off)] = nextprime(v)

    def callback(self, I, ins, n, a, st):
        cm = a[0]
        so = lambda f: I.slotoff(f, "pbc_cm_s")
        v = {f: I.zcont(st, Ptr(cm.obj, add(cm.off, so(f)))) for f in "qnhr"}
        for f in "Dk":
            v[f] = I.load(st, Ptr(cm.obj, add(cm.off, so(f))), ir.int_type(32), ins)
        v["data"] = a[1]
        self.found.append(v)
        return 7 if len(self.found) == self.stop else 0


def search(prog, f, D, bits, mode, stop):
    k = 6 if f.endswith("_d") else 10
    ans = {"true": lambda i, v: isprime(v), "yes": lambda i, v: v > 1, "unless divisible by a square": lambda i, v: v > 1 and all(v % (p * p) for p in (2, 3, 5, 7, 11, 13, 17, 19)),
           "unless divisible by a small prime": lambda i, v: v > 1 and all(v % p for p in (2, 3, 7, 11, 19, 23, 31, 43)), "third": lambda i, v: v > 1 and i % 3 != 1 or isprime(v) and v > 1 and v < 50}[mode]
    w = World(prog, ans, stop)
    data = w.S.raw("data")
    outs = w.S.run(f, Fn("found parameters", None), data, D, bits)
    if w.I.beyond:
        return w.I.beyond[0]
    if len(outs) != 1:
        raise Undecided("%d outcomes" % len(outs))
    rv = outs[0][1]
    for v in w.found:
        for x in "qnhrDk":
            if not isinstance(v[x], int):
                raise Undecided("%s = %s" % (x, show(v[x])[:60]))
        q, n, h, r = v["q"], v["n"], v["h"], v["r"]
        t = q + 1 - n
        if v["D"] != D or v["k"] != k or v["data"] != data:
            return "parameters are passed with discriminant %s, degree %s and data %s" % (v["D"], v["k"], v["data"])
        if h * r != n:
            return "hr = %d for n = %d" % (h * r, n)
        if not w.asked.get(q) or not w.asked.get(r):
            return "q = %d or r = %d was not found to be prime" % (q, r)
        if r.bit_length() > bits:
            return "an order of %d bits is passed although the limit is %d" % (r.bit_length(), bits)
        x = 4 * q - t * t
        if x <= 0 or x % D or math.isqrt(x // D) ** 2 != x // D:
            return "4q - t^2 = %d is not %d times a square (q = %d)" % (x, D, q)
        phi = q * q - q + 1 if k == 6 else q ** 4 - q ** 3 + q ** 2 - q + 1
        if phi % r:
            return "the order %d does not divide the cyclotomic polynomial of degree %d at q = %d" % (r, k, q)
    if stop and len(w.found) == stop:
        if rv != 7:
            return "the search returns %s instead of the callback's 7" % rv
    elif rv != 0:
        return "the search returns %s although no callback asked to stop" % rv
    if stop and len(w.found) > stop:
        return "the search goes on after the callback asked to stop"
    if w.bad:
        return w.bad
    if w.live:
        return "not released: what %s made" % sorted(set(w.live.values()))[0]


def items(tier):
    deep = tier == "thorough"
    for f, ds in (("pbc_cm_search_d", (1, 2, 3, 11, 19, 43, 59, 67, 83, 107, 219, 379, 1003, 1123, 9563)), ("pbc_cm_search_g", (3, 12, 15, 35, 43, 123, 163, 555, 1227, 1435))):
        for D in ds + (tuple(range(1, 400)) if deep else tuple(range(4, 60))):
            yield f, D, 160 if not deep else 300, "true", 0
            if D < 120:
                yield f, D, 100, "yes", 0
                yield f, D, 100, "yes", 1
                yield f, D, 100, "third", 0
                yield f, D, 100, "unless divisible by a square", 0
                yield f, D, 100, "unless divisible by a small prime", 0
                yield f, D, 60, "yes", 2


def main():
    absint.MAXUNROLL = 8000
    tier = os.environ.get("VERIF_TIER", "quick")
    prog = program()
    c = Check("C26", "The searches for curves by complex multiplication, with discriminants enumerated and answers of the primality test either true or arbitrary: "
              "whatever is passed to the callback satisfies the equations of its type, and everything made is released.", floor=10,
              assumptions=["discriminants enumerated"])
    c.parallel(list(dict.fromkeys(items(tier))), lambda s, it: s.ob("%s, D = %d, %d bits, primality %s, stop %d" % it, lambda: search(prog, *it)), limit=30)
    return c.finish()
