"""The calculator evaluates texts as written and answers misuse with a message."""
import itertools, os, re
from engine import absint, build, ir
from engine.check import Check
from engine.absint import Interp
from engine.calc import front
from engine.ops import *
from engine.ops import SLOTNAMES
from engine.models import eout, ein, zout
from engine.text import Texts
from engine.poly import *
from engine.poly import T, A
import engine.calc as calc

FRONT = []


class Fault(Exception):
    pass


def sym(s):
    return A("v", "n" + s)


class Calc:
    """one session: texts through the lexer's rules and the parser's automaton; trees are made and evaluated by the calculator's own code"""

    def __init__(self, cmps=(), zero=()):
        self.lex, self.par, prog = FRONT[0]
        self.S = S = Texts(prog)
        self.I = I = S.I
        I.numtab = []
        I.unroll_any = True
        I.watch_free()
        I.maxrec = 12
        I.slot_hook = self.hook
        self.cmps, self.zeros = list(cmps), list(zero)
        self.asked = []
        self.names = {}
        self.sign = 0
        for n, f in (("getopt", lambda *a: -1), ("field_init_z", self.mkfield), ("field_init_multiz", self.mkfield), ("pairing_init_set_str", self.mkpairing),
                     ("pbc_getline", self.started), ("putchar", lambda *a: 10), ("vsnprintf", self.vsn), ("llvm.va_start", self.nop), ("llvm.va_end", self.nop),
                     ("llvm.va_start.p0", self.nop), ("llvm.va_end.p0", self.nop),
                     ("multiz_new_list", self.list1), ("multiz_append", self.list2), ("element_pairing", self.epairing), ("pairing_apply", self.epairing4), ("field_init_fp", self.newfield), ("field_init_poly", self.newfield),
                     ("field_init_polymod", self.newfield), ("field_out_info", self.fieldout), ("puts", self.puts), ("exit", self.exit), ("yy_delete_buffer", self.nop),
                     ("__gmpz_nextprime", self.nextprime), ("pbc_die", self.die), ("free", lambda *a: None)):
            I.models[n] = f
        self.st = None
        o = I.glob(prog.mods[0], "optind")
        S.st.m[("m", o.obj, 0)] = 1
        try:
            S.run("main", 1, Ptr(I.named("heap", "argv"), 0), st=S.st)
        except Started as e:
            self.st = e.args[0]
            self.st.env = {}
            I.cur = None
        self.faults()
        if self.st is None:
            raise Undecided("the calculator does not ask for input")

    # ---- fields and start-up
    def nop(self, *a):
        return None

    def name(self, p, st=None):
        return self.names.get((p.obj, p.off if isinstance(p.off, int) else None))

    def setup(self, st, p, name):
        for n in SLOTNAMES:
            st.m[("m", p.obj, add(p.off, self.I.slotoff(n)))] = SlotFn(p.obj, n)
        st.m[("Z", p.obj, add(p.off, self.I.slotoff("order")))] = A("v", "order " + name)
        self.names[(p.obj, p.off)] = name

    def mkfield(self, I, ins, n, a, st):
        self.setup(st, a[0], {"field_init_z": "Z", "field_init_multiz": "M"}[n])

    def mkpairing(self, I, ins, n, a, st):
        p = a[0]
        t = re.match(r"\s*type\s+(\w+)", I.text(st, a[1], ins))
        k = t[1] if t else "?"
        for f in ("G1", "G2"):
            q = Ptr(I.named("heap", "group", f, k), 0)
            I.store(st, Ptr(p.obj, add(p.off, I.slotoff(f, "pairing_s"))), q, ins)
            self.setup(st, q, f + k)
            I.store(st, Ptr(q.obj, I.slotoff("pairing")), p, ins)
        for f in ("GT", "Zr"):
            q = Ptr(p.obj, add(p.off, I.slotoff(f, "pairing_s")))
            self.setup(st, q, f + k)
        return 0

    def started(self, I, ins, n, a, st):
        raise Started(st.copy())

    # ---- values
    def fieldof(self, st, e):
        f = self.I.load(st, e, ir.PTR)
        n = self.name(f) if isinstance(f, Ptr) else None
        if n is None:
            raise Fault("something that is no element is used as one")
        return f, n

    def newelem(self, st, f, v, ins, tag):
        e = Ptr(self.I.named("heap", "made", tag, len(self.asked), v if is_val(v) else 0), 0)
        self.I.store(st, e, f, ins)
        st.m[("E", e.obj, 0)] = v
        return e

    def vsn(self, I, ins, n, a, st):
        t = I.text(st, a[2], ins)
        t = "error: " + t
        if isinstance(a[1], int):
            t = t[:a[1] - 1]
        I.put(st, a[0], t, ins)
        return len(t)

    def show(self, st, what):
        k = ("shown", 0, 0)
        st.m[k] = st.m.get(k, ()) + (what,)

    def puts(self, I, ins, n, a, st):
        self.show(st, ("text", I.text(st, a[0], ins)))
        return 1

    def fieldout(self, I, ins, n, a, st):
        self.show(st, ("field", self.name(a[1])))

    def exit(self, I, ins, n, a, st):
        self.show(st, ("exit", a[0]))
        return []

    def die(self, I, ins, n, a, st):
        self.show(st, ("die",))
        self.dead = st.m.get(("shown", 0, 0))
        return []

    def list1(self, I, ins, n, a, st):
        v = ein(I, a[0], st, ins)
        return self.newelem(st, self.fieldof(st, a[0])[0], A("list", v), ins, "list")

    def list2(self, I, ins, n, a, st):
        l = as_atom(ein(I, a[0], st, ins))
        if l is None or l.op != "list":
            raise Undecided("list")
        I.eset(st, a[0], A("list", *(l.args + (ein(I, a[1], st, ins),))), ins)

    def epairing(self, I, ins, n, a, st):
        fs = [self.fieldof(st, x)[1] for x in a[:3]]
        I.eset(st, a[0], A("e", *(fs + [ein(I, a[1], st, ins), ein(I, a[2], st, ins)])), ins)

    def epairing4(self, I, ins, n, a, st):
        return self.epairing(I, ins, n, a[:3], st)

    def newfield(self, I, ins, n, a, st):
        if n == "field_init_fp":
            w = "fp(%s)" % show(I.zcont(st, a[1]))
        elif n == "field_init_poly":
            w = "poly(%s)" % self.name(a[1])
        else:
            w = "mod(%s:%s)" % (self.fieldof(st, a[1])[1], show(ein(I, a[1], st, ins), 9))
        self.setup(st, a[0], w)

    def nextprime(self, I, ins, n, a, st):
        zout(I, a[0], A("nextprime", I.zcont(st, a[1])), st, ins)

    BIN = {"add": add, "sub": sub, "mul": mul, "div": lambda x, y: mul(x, inv(y))}
    UN = {"neg": neg, "invert": inv, "doub": lambda x: mul(2, x), "square": lambda x: mul(x, x), "set": lambda x: x, "sqrt": lambda x: A("sqrt", x)}

    def hook(self, I, ins, sf, a, st, fr):
        s = sf.slot
        E = lambda i: ein(I, a[i], st, ins)
        if s in ("init", "clear"):
            return NotImplemented
        if s in self.BIN:
            fs = {self.fieldof(st, x)[1] for x in a[:3]}
            v = self.BIN[s](E(1), E(2))
            eout(I, a[0], v if len(fs) == 1 else A("mixed", s, v), st, ins)
        elif s in self.UN:
            eout(I, a[0], self.UN[s](E(1)), st, ins)
        elif s in ("pow_mpz", "mul_mpz"):
            eout(I, a[0], A(s, E(1), I.zcont(st, a[2])), st, ins)
        elif s in ("set0", "set1", "set_si"):
            eout(I, a[0], int(s[-1]) if s != "set_si" else a[1], st, ins)
        elif s == "set_mpz":
            eout(I, a[0], I.zcont(st, a[1]), st, ins)
        elif s == "to_mpz":
            zout(I, a[0], E(1), st, ins)
        elif s == "set_str":
            eout(I, a[0], sym(I.text(st, a[1], ins)), st, ins)
            return 1
        elif s == "set_multiz":
            v = None
            for k in list(st.m):
                if k[0] == "E":
                    try:
                        if I.load(st, Ptr(k[1], add(k[2], 8)), ir.PTR) == a[1]:
                            v = st.m[k]
                    except Undecided:
                        pass
            if v is None:
                raise Fault("something that is no element is used as one (%s)" % ir.loc(ins))
            eout(I, a[0], A("from", v), st, ins)
        elif s == "random":
            eout(I, a[0], A("v", "random"), st, ins)
        elif s == "cmp":
            u, v = E(0), E(1)
            self.asked.append((u, v))
            return self.cmps.pop(0) if self.cmps else 0 if u == v else 1
        elif s in ("is0", "is1"):
            v = E(0)
            if isinstance(v, int):
                return int(v == int(s == "is1"))
            self.asked.append((s, v))
            return self.zeros.pop(0) if self.zeros else 0
        elif s == "out_str":
            self.show(st, (self.fieldof(st, a[2])[1], E(2)))
            return 1
        elif s == "item":
            v, x = E(0), a[1]
            t = as_atom(x) if is_val(x) and not isinstance(x, int) else None
            if t is not None and t.op == "zget":
                x = t.args[0]
            return self.newelem(st, self.fieldof(st, a[0])[0], A("item", v, x), ins, "item")
        elif s == "item_count":
            return 5
        else:
            raise Undecided("operation " + s)
        return None

    # ---- running
    def guard(self, f):
        try:
            r = f()
        except Undecided as e:
            self.faults()
            if "null deref" in str(e):
                raise Fault("a null pointer is used")
            m = re.match(r"(?:indirect call|call) through (?:null|0|None|Ptr\(null\S*)", str(e))
            if m or re.search(r"call through .*null", str(e)):
                raise Fault("a null pointer is called")
            raise
        self.faults()
        return r

    def faults(self):
        if self.I.beyond:
            raise Fault(self.I.beyond[0])

    def call(self, fn, args):
        args = [0 if x is None else x for x in args]
        outs = self.guard(lambda: self.S.run(fn, *args, st=self.st))
        if len(outs) == 0:
            raise Stop()
        if len(outs) != 1:
            raise Undecided("%d ways through %s" % (len(outs), fn))
        self.st = outs[0][0]
        return outs[0][1]

    def value(self, t):
        fn, text = t[1] or (None, None)
        if fn is None:
            return None
        sv, self.S.st = self.S.st, self.st
        p = self.S.lit(text)
        self.st, self.S.st = self.S.st, sv
        return self.call(fn, [p])

    def say(self, text, easy=False):
        """what is shown for a text: list of (field, value), ('error',), ('syntax error',) ..."""
        n0 = len(self.st.m.get(("shown", 0, 0), ()))
        toks = [(t, (fn, s)) for t, fn, s in self.lex.tokens(text, easy)]
        self.dead = None
        try:
            ok = self.par.run(toks, self.value, self.call)
        except Stop:
            return [self.dead[-1] if self.dead else ("exit",)]
        r = list(self.st.m.get(("shown", 0, 0), ()))[n0:]
        if not ok:
            r.append(("syntax error",))
        return r


class Started(Exception):
    pass


class Stop(Exception):
    pass


def m_fprintf(w):
    def f(I, ins, n, a, st):
        t = I.text(st, a[1], ins)
        if t == "%s":
            t = I.text(st, a[2], ins)
        w.show(st, ("error",) if t.startswith("error: ") else ("about",))
        return 1
    return f


# ---------------------------------------------------------------- the oracle: conventional expressions
PREC = {"==": 1, "!=": 1, "<": 1, ">": 1, "<=": 1, ">=": 1, "+": 2, "-": 2, "*": 3, "/": 3, "^": 5}


class Oracle:
    """value of an expression of numerals by the usual rules; comparisons are answered from a list"""

    def __init__(self, text, cmps=(), zeros=()):
        self.t = re.findall(r"\d+|[a-z]\w*|[=!<>]=|\S", text)
        self.i, self.cmps, self.zeros = 0, list(cmps), list(zeros)
        self.asked = []
        tree = self.cond()
        if self.i != len(self.t):
            raise ValueError(text)
        self.v = self.ev(tree)

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def cond(self):
        c = self.binary(1)
        if self.peek() == "?":
            self.i += 1
            a = self.cond()
            self.i += 1
            return ("?", c, a, self.cond())
        return c

    def binary(self, p):
        if self.peek() == "-":
            self.i += 1
            l = ("neg", self.binary(4))
        else:
            l = self.atom()
        while True:
            o = self.peek()
            if o not in PREC or PREC[o] < p:
                return l
            self.i += 1
            l = (o, l, self.binary(PREC[o] if o == "^" else PREC[o] + 1))

    def atom(self):
        c = self.t[self.i]
        self.i += 1
        if c == "(":
            v = self.cond()
            self.i += 1
            return v
        return ("num", c)

    def ev(self, n):
        k = n[0]
        if k == "num":
            return sym(n[1])
        if k == "neg":
            return neg(self.ev(n[1]))
        if k == "?":
            c = self.ev(n[1])
            if isinstance(c, int):
                z = c == 0
            else:
                self.asked.append(("is0", c))
                z = self.zeros.pop(0)
            return self.ev(n[3] if z else n[2])
        a, b = self.ev(n[1]), self.ev(n[2])
        if k == "^":
            return A("pow_mpz", a, b)
        if k in "+-*/":
            return {"+": add, "-": sub, "*": mul, "/": lambda x, y: mul(x, inv(y))}[k](a, b)
        self.asked.append((a, b))
        c = self.cmps.pop(0)
        return int({"==": c == 0, "!=": c != 0, "<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0}[k])


OPS = ["+", "-", "*", "/", "^", "==", "!=", "<", ">", "<=", ">="]


def expressions(deep):
    L = ["1%s2" % o for o in OPS]
    for o, p in itertools.product(OPS, OPS):
        L.append("1%s2%s3" % (o, p))
    for o in OPS:
        L += ["-1%s2" % o, "1%s-2" % o, "(1%s2)" % o, "-(1%s2)" % o, "1%s(2%s3)" % (o, o), "(1%s2)%s3" % (o, o)]
    L += ["1?2:3", "1?2:3?4:5", "1?2?3:4:5", "1==2?3:4", "1+2?3-4:5/6", "1<2?3:4<5?6:7", "1?2:3+4", "(1?2:3)+4", "--1", "1--2", "1-2-3-4", "1/2/3*4", "2^3^4^5", "1+2*3^4-5/6==7*8", " 1 +\t2", "1 /*c*/+2", "12345678901234567890*2"]
    if deep:
        A5 = OPS[:5]
        L += ["1%s2%s3%s4" % (o, p, q) for o, p, q in itertools.product(A5, A5, A5)]
        L += ["1%s-2%s3" % (o, p) for o, p in itertools.product(A5, A5)]
    return L


def expression(text):
    ans = []
    nc = len(re.findall(r"[=!<>]=|[<>]", text))
    nz = text.count("?")
    for cm in itertools.product((-1, 0, 1), repeat=min(nc, 2)):
        for z in itertools.product((0, 1), repeat=min(nz, 2)):
            cmps = list(cm) + [1] * 3
            w = new(cmps, z)
            got = w.say(text + ";")
            o = Oracle(re.sub(r"/\*.*?\*/", " ", text), cmps, list(z) + [0] * 3)
            if got != [("M", o.v)]:
                return "%s gives %s, not %s" % (text, show_out(got), show(o.v))
            if w.asked != o.asked:
                return "%s compares other values" % text


def show_out(r):
    return ", ".join("%s" % " ".join(show(x) if is_val(x) else str(x) for x in e) for e in r) or "nothing"


def new(cmps=(), z=()):
    w = Calc(cmps, z)
    f = m_fprintf(w)
    w.I.models["fprintf"] = f
    return w


n = sym
ERR = ("error",)
ABOUT = ("about",)
PAIR = lambda k: A("e", "GT" + k, "G1" + k, "G2" + k, A("v", "random"), A("v", "random"))
SESSIONS = [
    # variables keep their values
    ("a:=1; a+2; a*a; -a; a^3; a==4; inv(a); sqrt(a); nextprime(a); a;",
     [("M", add(n("1"), n("2"))), ("M", mul(n("1"), n("1"))), ("M", neg(n("1"))), ("M", A("pow_mpz", n("1"), n("3"))), ("M", 0), ("M", inv(n("1"))), ("M", A("sqrt", n("1"))),
      ("M", A("nextprime", n("1"))), ("M", n("1"))]),
    ("a:=1; b:=a; b:=b+2; a; b;", [("M", n("1")), ("M", add(n("1"), n("2")))]),
    ("a:=1; b:=a; a:=3; b; a;", [("M", n("1")), ("M", n("3"))]),
    ("a:=b:=1; b:=2; a; b;", [("M", n("1")), ("M", n("2"))]),
    ("a:=2; 1-a; a-1; a/a; a-a;", [("M", sub(n("1"), n("2"))), ("M", sub(n("2"), n("1"))), ("M", 1), ("M", 0)]),
    ("a:=1+2*3; a;", [("M", add(n("1"), mul(n("2"), n("3"))))]),
    ("a:=1; a?2:3; a;", [("M", n("2")), ("M", n("1"))]),
    ("a:=[7,8]; a[1]; a[0]+5; a;", [("M", A("item", A("list", n("7"), n("8")), n("1"))), ("M", add(A("item", A("list", n("7"), n("8")), n("0")), n("5"))), ("M", A("list", n("7"), n("8")))]),
    ("1;# 2;\n3; /* 4; \n 5; */ 6;", [("M", n("1")), ("M", n("3")), ("M", n("6"))]),
    ("a:=1;\nb:=a+\n2;\nb;", [("M", add(n("1"), n("2")))]),
    ("EASY a=1\nb=a+2\nb\na:=4;a\n", [("M", add(n("1"), n("2"))), ("M", n("4"))]),
    ("0?(a:=1):(b:=2); b; a; 1?(c:=3):(d:=4); c; d;", [("M", n("2")), ("M", n("2")), ERR, ("M", n("3")), ("M", n("3")), ERR]),
    # functions of the user
    ("define order(x){c:=x;} order(Zr); c;", [ABOUT, ("M", A("v", "order Zra")), ERR]),
    ("define f(a){b:=a;} define g(x){f(x); c:=b*x;} g(2); c;", [ABOUT, ABOUT, ("M", mul(n("2"), n("2")))]),
    ("define f(x,y){c:=x-y; d:=c*x;} f(1,2); c; d;", [ABOUT, ("M", sub(n("1"), n("2"))), ("M", mul(sub(n("1"), n("2")), n("1")))]),
    ("define f(){c:=7;} f(); c;", [ABOUT, ("M", n("7"))]),
    ("define f(x){c:=x;} f(1,2); f(); c;", [ABOUT, ERR, ERR, ERR]),
    # lists and items
    ("[1,2,3]; [1]; [1,[2,3]]; [1+2,3*4];", [("M", A("list", n("1"), n("2"), n("3"))), ("M", A("list", n("1"))), ("M", A("list", n("1"), A("list", n("2"), n("3")))),
                                             ("M", A("list", add(n("1"), n("2")), mul(n("3"), n("4"))))]),
    ("[1,x]; [G1];", [ERR, ERR]),
    # built-in functions
    ("order(Zr); ord(G1); order(Z);", [("M", A("v", "order Zra")), ("M", A("v", "order G1a")), ("M", A("v", "order Z"))]),
    ("random(G1); rnd(Zr);", [("G1a", A("v", "random")), ("Zra", A("v", "random"))]),
    ("g:=rnd(G1); h:=rnd(G2); pairing(g,h); g;", [("GTa", PAIR("a")), ("G1a", A("v", "random"))]),
    ("zmod(7); poly(Zr); extend(Zr,[1,2,1]);", [("field", "fp(n7)"), ("field", "poly(Zra)"), ("field", "mod(poly(Zra):%s)" % show(A("from", A("list", n("1"), n("2"), n("1"))), 9))]),
    ("inv(5); sqrt(4); nextprime(8);", [("M", inv(n("5"))), ("M", A("sqrt", n("4"))), ("M", A("nextprime", n("8")))]),
    ("Zr(5); GT(6); M(7); Zr(rnd(Zr)); M(rnd(Zr));", [("Zra", A("from", n("5"))), ("GTa", A("from", n("6"))), ("M", n("7")), ("Zra", A("v", "random")), ("M", A("v", "random"))]),
    ("type(1); type(G1); type(order);", [("text", "element"), ("M", n("1")), ("text", "field"), ("field", "G1a"), ("text", "builtin"), ABOUT]),
    ("init_pairing_d(); rnd(G1); pairing(rnd(G1),rnd(G2)); order(Zr);", [("G1d", A("v", "random")), ("GTd", PAIR("d")), ("M", A("v", "order Zrd"))]),
    # misuse
    ("x; x+1; 1+x; -x; x?1:2; x(1);", [ERR] * 6),
    ("G1+1; 1*G1; 1^G1; -G1; G1==G1; order==1; G1?1:2;", [ERR] * 7),
    ("order(1); order(order); rnd(2); inv(G1); sqrt(Zr); pairing(G1,G2); pairing(1,G1); zmod(Zr); poly(3); polymod(Zr); nextprime(G1); exit(G1); CHECK(G1);", [ERR] * 13),
    ("order(); order(Zr,Zr); rnd(); inv(); inv(1,2); pairing(1); pairing(); pairing(1,2,3); zmod(); poly(); polymod(); extend(); extend(Zr); extend(Zr,[1],2); extend([1],Zr); "
     "type(); init_pairing_a(1); nextprime(); exit(); CHECK(); CHECK(1,2); sqrt(1,2);", [ERR] * 22),
    ("order:=1; M:=2; order(Zr);", [ERR, ERR, ("M", A("v", "order Zra"))]),
    ("1(2); ", [("syntax error",)]),
    ("a:=1; a(2); (1+2)(3);", [ERR, ERR]),
    ("Zr(); Zr(Zr); Zr(1,2); Zr(order); Zr(x);", [ERR] * 5),
    ("init_pairing_a()+1; [init_pairing_a()]; init_pairing_a()?1:2; define f(){} inv(f()); Zr(f()); f()();", [ERR] * 3 + [ABOUT] + [ERR] * 3),
    ("1+; ", [("syntax error",)]), ("(1+2; ", [("syntax error",)]), ("a=1; ", [("syntax error",)]),
]
for k in "adefgi":
    SESSIONS.append(("init_pairing_%s(); rnd(G1); rnd(G2); rnd(GT); rnd(Zr);" % k, [(f + k, A("v", "random")) for f in ("G1", "G2", "GT", "Zr")]))


def session(i):
    text, want = SESSIONS[i]
    w = new([1] * 9, [1, 0] if text.startswith("0?") else [])
    try:
        got = w.say(text[5:], True) if text.startswith("EASY ") else w.say(text)
    except Fault as e:
        return "%s: %s" % (text, e)
    if got != want:
        k = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
        return "%s: answer %d is %s, not %s" % (text, k + 1, show_out(got[k:k + 1]), show_out(want[k:k + 1]))


def main():
    absint.MAXUNROLL = 400
    deep = os.environ.get("VERIF_TIER", "quick") != "quick"
    c = Check("C31", "Texts taken through the lexer's rules and the parser's automaton as bison makes it from the grammar; the trees are made and evaluated by the calculator's own code in a symbolic domain "
              "(numerals and field elements as symbols) and what is shown is compared with the usual meaning of the text.", floor=60,
              assumptions=["the library's operations are right (other properties)", "flex and bison follow their rules"])
    try:
        FRONT.append(front(build.REPO))
    except (build.BuildError, ir.IRError, Undecided) as e:
        c.undecided("front end", str(e)[:300])
        c.floor = 0
        return c.finish()
    its = [("expression", t) for t in expressions(deep)] + [("session", i) for i in range(len(SESSIONS))]

    def work(s, it):
        s.ob("%s %s" % it if it[0] == "expression" else "session %s" % SESSIONS[it[1]][0][:60], lambda: globals()[it[0]](it[1]))
    c.parallel(its, work)
    return c.finish()
