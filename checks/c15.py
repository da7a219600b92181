"""The text format of pairing parameters: what is written is read back, and texts that lack something are rejected."""
import glob
import os
import re
import random
from engine.check import Check, program
from engine import absint, build
from engine.scen import Missing
from engine.absint import Ptr, Undecided
from engine.text import Texts, value
from engine.poly import *


def shipped():
    """the keys of the parameter files that come with the library, by type"""
    r = {}
    for f in sorted(glob.glob(os.path.join(build.REPO, "param", "*.param"))):
        t = open(f).read().split()
        d = dict(zip(t[::2], t[1::2]))
        if "type" in d:
            r.setdefault(d.pop("type"), {}).update(d)
    if "d" in r and "coeff0" in r["d"]:
        for k in (10, 26, 210):
            d = {x: v for x, v in r["d"].items() if not x.startswith("coeff")}
            d["k"] = str(k)
            for i in range(k // 2):
                d["coeff%d" % i] = "1" * 40
            r["d, k = %d" % k] = d
    r.get("g", {}).pop("k", None)       # always 10: the reader need not ask
    return r


def numerals(d):
    """small numbers become other small numbers, large ones symbols"""
    r = {}
    for i, (k, v) in enumerate(d.items()):
        if len(v) > 5:
            r[k] = "@" + k
        elif k == "k":
            r[k] = v
        else:
            r[k] = str(11 + 3 * i) if i % 2 else str(-7 - 5 * i)
    return r


def compose(typ, d, sep="\n", first=True, gap=" "):
    ls = [k + gap + v for k, v in d.items()]
    ls.insert(0 if first else len(ls), "type" + gap + typ)
    return sep.join(ls) + sep


def parse(s):
    t = s.split()
    return dict(zip(t[::2], t[1::2])), len(t) // 2


class Run:
    def __init__(self, prog):
        self.S = Texts(prog)
        self.par = self.S.raw("par")

    def read(self, text, n=None, nul=True):
        """analyses the initialiser; 1 if it accepts, 0 if it rejects"""
        S = self.S
        p = S.lit(text if nul else text, nul)
        outs = self.call("pbc_param_init_set_str" if n is None else "pbc_param_init_set_buf", self.par, p, *([] if n is None else [n]))
        if not outs:
            return 0
        r = set()
        for st, rv in outs:
            if not isinstance(rv, int):
                raise Undecided("result %s" % (rv,))
            r.add(int(rv == 0))
            self.st = st
        if len(r) > 1 or len(outs) > 1:
            raise Undecided("%d outcomes" % len(outs))
        return r.pop()

    def call(self, f, *args):
        try:
            outs = self.S.run(f, *args, st=self.S.st.copy())
        except Undecided:
            self.faults()
            raise
        self.faults()
        return outs

    def write(self):
        f = self.S.raw("stream")
        outs = self.S.run("pbc_param_out_str" if self.S.prog.fn("pbc_param_out_str") else self.outfn(), *([f, self.par]), st=self.st.copy())
        self.faults()
        if len(outs) != 1:
            raise Undecided("%d outcomes" % len(outs))
        return self.S.output(outs[0][0], f)

    def outfn(self):
        raise Missing("pbc_param_out_str")

    def faults(self):
        if self.S.I.beyond:
            raise Fault(self.S.I.beyond[0])


class Fault(Exception):
    pass


def guard(f):
    try:
        return f()
    except Fault as e:
        return str(e)


def roundtrip(prog, typ, d, text, n=None, nul=True, tail=0):
    R = Run(prog)
    if not R.read(text, n, nul):
        return "complete parameters are rejected"
    out = R.write()
    got, count = parse(out)
    if got.pop("type", None) != typ:
        return "parameters of type %s are written as type %s" % (typ, parse(out)[0].get("type"))
    for k in d:
        if k not in got:
            return "%s is not written" % k
        x, y = value(got[k]), value(d[k])
        if x != y:
            return "%s is read as %s and written as %s" % (k, d[k], got[k])
    R2 = Run(prog)
    if not R2.read(out):
        return "what was written is rejected"
    if parse(R2.write()) != parse(out):
        return "what was written is read back as something else"
    return None


def through_pairing(prog, typ, d, text, n, nul, ok):
    """the initialisers of pairings read the same texts"""
    R = Run(prog)
    S, I = R.S, R.S.I
    got = []

    def m(I_, ins, nm, a, st):
        got.append((a[0], a[1], st.copy()))
    I.models["pairing_init_pbc_param"] = m
    I.models["pbc_param_clear"] = lambda I_, ins, nm, a, st: None
    p, pr = S.lit(text, nul), S.raw("pairing")
    outs = R.call("pairing_init_set_str" if n is None else "pairing_init_set_buf", pr, p, *([] if n is None else [n]))
    for st, rv in outs:
        if not isinstance(rv, int):
            raise Undecided("result")
        if ok and rv:
            return "complete parameters are rejected"
        if not ok and rv == 0:
            return "incomplete parameters are accepted"
    if not ok:
        return "a pairing is built from incomplete parameters" if got else None
    if len(got) != 1:
        raise Undecided("construction not recognised")
    if got[0][0] != pr:
        return "another pairing is initialised"
    R.par, R.st = got[0][1], got[0][2]
    out = parse(R.write())[0]
    out.pop("type")
    for k in d:
        if k not in out or value(out[k]) != value(d[k]):
            return "%s is %s for the pairing instead of %s" % (k, out.get(k), d[k])
    return None


def rejected(prog, text, why, n=None):
    R = Run(prog)
    if R.read(text, n):
        return "%s: accepted" % why
    return None


def layouts(typ, d, deep):
    keys = list(d)
    yield "as shipped", compose(typ, d), None, True
    yield "type last", compose(typ, d, first=False), None, True
    yield "reverse order", compose(typ, {k: d[k] for k in reversed(keys)}), None, True
    for seed in range(6 if deep else 1):
        rng = random.Random(seed)
        ks = keys[:]
        rng.shuffle(ks)
        yield "order %d" % seed, compose(typ, {k: d[k] for k in ks}), None, True
    yield "comments, blank lines and tabs", "# a comment type x\n\n" + compose(typ, d, sep=" \t\r\n#q 5 # r 7\n", gap="\t "), None, True
    yield "one line", compose(typ, d, sep=" "), None, True
    yield "further keys", compose(typ, dict([("unused", "1")] + list(d.items()) + [("zz", "@zz")])), None, True
    t = compose(typ, d)
    yield "a buffer of given length", t, len(t), False
    yield "a buffer that ends with the last digit", t.rstrip(), len(t.rstrip()), False
    yield "a longer buffer", t + "x", len(t), True
    yield "a text that ends before the length", t, len(t) + 50, True
    for m in (30, 31, 32, 33, 62, 63, 64, 65, 100, 170) if typ == "a" or deep else (32, 100):
        long = dict(d)
        for k in long:
            if long[k].startswith("@"):
                long[k] = "@" + k + "x" * (m - len(k) - 1)
                break
        yield "long numerals of %d characters" % m, compose(typ, long), None, True


def items(tier):
    deep = tier == "thorough"
    for typ, d0 in sorted(shipped().items()):
        d = numerals(d0)
        if "," in typ:
            typ = typ.split(",")[0]
            yield "read", typ, "k = " + d["k"], compose(typ, d), None, True, d
            for k in d if len(d) < 50 else ["coeff104"]:
                yield "reject", typ, "k = %s, %s missing" % (d["k"], k), compose(typ, {x: d[x] for x in d if x != k}), None
            continue
        for name, text, n, nul in layouts(typ, d, deep):
            yield "read", typ, name, text, n, nul, dict(zip(text.split()[::2], text.split()[1::2])) if name.startswith("long num") else d
        for k in d:
            for seed in range(2):
                ks = [x for x in d if x != k]
                random.Random(seed).shuffle(ks) if seed else None
                yield "reject", typ, "%s missing (%d)" % (k, seed), compose(typ, {x: d[x] for x in ks}, first=not seed), None
            for bad in ("x", "12y", "-", "0x"):
                yield "reject", typ, "%s is %s" % (k, bad), compose(typ, {x: bad if x == k else d[x] for x in d}), None
        t = compose(typ, d)
        yield "pairing", typ, "from a text", t, None, True, d, True
        yield "pairing", typ, "from a buffer", t, len(t), False, d, True
        yield "pairing", typ, "from a text cut off", t[:-len(t.split()[-1]) - 2], None, True, d, False
        yield "pairing", typ, "from a buffer cut off", t, len(t) - len(t.split()[-1]) - 2, False, d, False
        t = compose(typ, d, first=False)
        full = compose(typ, d)
        yield "reject", typ, "no type", compose(typ, d).split("\n", 1)[1], None
        yield "reject", typ, "type without name", t[:t.index("type") + 5], None
        yield "reject", typ, "cut off by the length", full, len(full) - len(full.split()[-1]) - 2
        for b in ("z", typ + typ, typ.upper(), typ + "0"):
            yield "reject", typ, "type %s" % b, compose(b, d), None
    yield "reject", "", "empty text", "", None
    yield "reject", "", "only a comment", "# type a", None
    for b in ("b", "c", "aa", "D", "A", "h", "a11", ""):
        yield "reject", "", "type '%s' only" % b, "type %s\n" % b, None


def item(prog, s, it):
    if it[0] == "read":
        _, typ, name, text, n, nul, d = it
        s.ob("type %s, %s" % (typ, name), lambda: guard(lambda: roundtrip(prog, typ, {k: v for k, v in d.items() if k != "type"}, text, n, nul)))
    elif it[0] == "pairing":
        _, typ, name, text, n, nul, d, ok = it
        s.ob("type %s, pairing %s" % (typ, name), lambda: guard(lambda: through_pairing(prog, typ, d, text, n, nul, ok)))
    else:
        _, typ, name, text, n = it
        s.ob("type %s, %s" % (typ, name), lambda: guard(lambda: rejected(prog, text, name, n)))


def main():
    absint.MAXUNROLL = 400
    tier = os.environ.get("VERIF_TIER", "quick")
    prog = program()
    c = Check("C15", "Parameter texts with symbolic numerals are read, written and read again; texts that lack a key or a number are rejected.",
              floor=10, assumptions=["numerals with at most a few dozen characters", "key sets of the shipped parameter files"])
    c.parallel(list(items(tier)), lambda s, it: item(prog, s, it))
    return c.finish()
