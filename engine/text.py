"""Texts: strings as sequences of characters in bounded buffers, numerals as symbols, output as symbolic text.

A numeral "@name" stands for an arbitrary number: reading it gives the symbol, writing the symbol gives the numeral back."""
import re
from . import ir, absint
from .poly import *
from .poly import T, A
from .absint import Interp, Ptr, PtrSet, Undecided, EXTERN
from .scen import Scenario
from .pair import Start

I8 = ir.Type("int", 8)


def unescape(s):
    """characters of an IR string constant"""
    return [int(m[1:], 16) if m[0] == "\\" and len(m) == 3 else ord(m[-1]) for m in re.findall(r"\\[0-9A-Fa-f]{2}|\\\\|.", s, re.S)]


class TextInterp(Interp):
    def __init__(self, prog):
        Interp.__init__(self, prog)
        self.beyond = []
        self.initglobs = Start()
        self.strs = {}
        self.numtab = None      # list of written values, if values other than symbols may be written
        self.limit = {}
        self.table = self.named("lazy", "ctype table")
        self.models["__ctype_b_loc"] = m_ctype
        for f, n in ((m_strlen, "strlen"), (m_strcmp, "strcmp strncmp strcasecmp memcmp"), (m_strchr, "strchr strrchr"), (m_span, "strspn strcspn"), (m_copy, "strcpy strncpy memcpy memmove strcat"),
                     (m_out, "fprintf __gmp_fprintf fputs fputc putc fwrite"), (m_sprintf, "sprintf snprintf __gmp_snprintf __gmp_sprintf"), (m_setstr, "__gmpz_set_str"),
                     (m_outstr, "__gmpz_out_str __gmpz_out_raw"), (m_realloc, "pbc_realloc realloc")):
            for x in n.split():
                self.models[x] = f

    # ---- characters and bounds
    def bound(self, p):
        if not isinstance(p, Ptr) or not isinstance(p.off, int):
            return None
        if p.obj in self.limit:
            return self.limit[p.obj]
        if p.obj.kind == "stack" and getattr(p.obj.info, "kind", None) == "array" and p.obj.info.b.kind == "int" and p.obj.info.b.a == 8:
            return p.obj.info.a
        z = getattr(p.obj, "size", None)
        if p.obj.kind == "heap" and isinstance(z, int) and not isinstance(z, bool):
            return z
        return None

    def inside(self, p, what, ins):
        z = self.bound(p)
        if z is not None and not 0 <= p.off < z:
            self.beyond.append("%s %s byte %d of a buffer of %d bytes" % (ir.loc(ins) if ins is not None else "a library function", what, p.off, z))

    def watch_free(self):
        """accesses to released memory are recorded as well"""
        def free(I, ins, n, a, st):
            r = EXTERN["pbc_free"](I, ins, n, a, st)
            if isinstance(a[0], Ptr) and a[0].obj.kind == "heap":
                if ("gone", 0, a[0].obj) in st.m:
                    self.beyond.append("%s releases memory that was released before" % ir.loc(ins))
                st.m[("gone", 0, a[0].obj)] = True
            return r

        def malloc(I, ins, n, a, st):
            r = EXTERN["pbc_malloc"](I, ins, n, a, st)
            st.m.pop(("gone", 0, r.obj), None)
            return r
        for x in ("pbc_free", "free"):
            self.models[x] = free
        for x in ("pbc_malloc", "malloc"):
            self.models[x] = malloc

    def load(self, st, p, ty, ins=None):
        if isinstance(p, Ptr):
            if ("gone", 0, p.obj) in st.m:
                self.beyond.append("%s reads memory after its release" % (ir.loc(ins) if ins is not None else "a library function"))
            if p.obj is self.table and isinstance(p.off, int):
                return self.ctype(p.off // 2)
            self.inside(p, "reads", ins)
        v = Interp.load(self, st, p, ty, ins)
        t = as_atom(v) if is_val(v) and not isinstance(v, int) else None
        if t is not None and t.op == "strbyte":
            s, off = t.args
            if s not in self.strs:
                self.strs[s] = unescape(s)
            if isinstance(off, int) and 0 <= off < len(self.strs[s]):
                return self.strs[s][off]
        return v

    # ---- character classes (the table of the C library)
    def ctype(self, c):
        ch = chr(c) if 0 <= c < 128 else ""
        return sum(b for b, t in ((0x100, ch.isupper()), (0x200, ch.islower()), (0x400, ch.isalpha()), (0x800, ch.isdigit()),
                                  (0x1000, ch in "0123456789abcdefABCDEF" and ch != ""), (0x2000, ch in " \t\n\v\f\r" and ch != ""),
                                  (0x8, ch.isalnum())) if t)

    def store(self, st, p, v, ins=None, kind="m"):
        if isinstance(p, Ptr) and kind == "m":
            self.inside(p, "writes", ins)
            if ("gone", 0, p.obj) in st.m:
                self.beyond.append("%s writes memory after its release" % (ir.loc(ins) if ins is not None else "a library function"))
        return Interp.store(self, st, p, v, ins, kind)

    def ch(self, st, p, i, ins=None):
        v = self.load(st, Ptr(p.obj, add(p.off, i)), I8, ins)
        if not isinstance(v, int):
            raise Undecided("character %s" % (show(v) if is_val(v) else v,))
        return v & 255

    def text(self, st, p, ins=None, n=None):
        if not isinstance(p, Ptr) or not isinstance(p.off, int):
            raise Undecided("text at %s" % (p,))
        r = []
        i = 0
        while n is None or i < n:
            c = self.ch(st, p, i, ins)
            if c == 0 and n is None:
                return "".join(r)
            r.append(chr(c))
            i += 1
            if i > 4000:
                raise Undecided("long text")
        return "".join(r)

    def put(self, st, p, s, ins=None, nul=True):
        for i, c in enumerate(s):
            self.store(st, Ptr(p.obj, add(p.off, i)), ord(c), ins)
        if nul:
            self.store(st, Ptr(p.obj, add(p.off, len(s))), 0, ins)


def m_ctype(I, ins, n, a, st):
    p = Ptr(I.named("lazy", "ctype loc"), 0)
    st.m[("m", p.obj, 0)] = Ptr(I.table, 0)
    return p


def m_strlen(I, ins, n, a, st):
    return len(I.text(st, a[0], ins))


def m_strcmp(I, ins, n, a, st):
    if n == "memcmp":
        if not isinstance(a[2], int):
            raise Undecided("length")
        x, y = I.text(st, a[0], ins, a[2]), I.text(st, a[1], ins, a[2])
    else:
        x, y = I.text(st, a[0], ins), I.text(st, a[1], ins)
        if n == "strncmp":
            x, y = x[:a[2]], y[:a[2]]
        if n == "strcasecmp":
            x, y = x.lower(), y.lower()
    return (x > y) - (x < y)


def m_strchr(I, ins, n, a, st):
    s = I.text(st, a[0], ins) + "\0"
    if not isinstance(a[1], int):
        raise Undecided("character")
    i = s.find(chr(a[1] & 255)) if n == "strchr" else s.rfind(chr(a[1] & 255))
    return 0 if i < 0 else Ptr(a[0].obj, add(a[0].off, i))


def m_span(I, ins, n, a, st):
    s, t = I.text(st, a[0], ins), I.text(st, a[1], ins)
    return next((i for i, c in enumerate(s) if (c in t) == (n == "strcspn")), len(s))


def m_copy(I, ins, n, a, st):
    if n in ("strcpy", "strcat"):
        s = I.text(st, a[1], ins)
        d = a[0] if n == "strcpy" else Ptr(a[0].obj, add(a[0].off, len(I.text(st, a[0], ins))))
        I.put(st, d, s, ins)
    elif n == "strncpy":
        s = I.text(st, a[1], ins)[:a[2]]
        I.put(st, a[0], s + "\0" * (a[2] - len(s)), ins, nul=False)
    else:
        d, s, k = a[0], a[1], a[2]
        if not isinstance(k, int) or not isinstance(d, Ptr) or not isinstance(s, Ptr):
            return absint.m_memcpy(I, ins, n, a, st)
        if k and I.bound(d) is not None:
            I.inside(Ptr(d.obj, add(d.off, k - 1)), "writes", ins)
        if k and I.bound(s) is not None:
            I.inside(Ptr(s.obj, add(s.off, k - 1)), "reads", ins)
        try:
            t = I.text(st, s, ins, k)
        except Undecided:
            return absint.m_memcpy(I, ins, n, a, st)
        I.put(st, d, t, ins, nul=False)
    return a[0]


def m_realloc(I, ins, n, a, st):
    p = a[0]
    if p == 0:
        return EXTERN["pbc_malloc"](I, ins, n, a[1:], st)
    if isinstance(p, Ptr):
        p.obj.size = a[1]
        return p
    raise Undecided("realloc of %s" % (p,))


def numeral(I, st, z):
    v = I.zcont(st, z)
    if isinstance(v, int):
        return str(v)
    t = as_atom(v)
    if t is not None and t.op == "v" and len(t.args) == 1 and str(t.args[0]).startswith("@"):
        return t.args[0]
    if I.numtab is not None and is_val(v):
        I.numtab.append(v)
        return "@%d" % (len(I.numtab) - 1)
    raise Undecided("number %s" % show(v))


def value(s, base=0):
    """number a text stands for, or None"""
    s = "".join(s.split())
    if re.fullmatch(r"@\w+", s):
        return A("v", s)
    m = re.fullmatch(r"(-?)(0[xX][0-9a-fA-F]+|0[bB][01]+|[0-9]+)", s)
    if not m:
        return None
    try:
        t = m[2]
        if base in (0, None):
            v = int(t, 16) if t[:2] in ("0x", "0X") else int(t, 2) if t[:2] in ("0b", "0B") else int(t, 8) if len(t) > 1 and t[0] == "0" else int(t)
        else:
            v = int(t, base)
    except ValueError:
        return None
    return -v if m[1] else v


def m_setstr(I, ins, n, a, st):
    s = I.text(st, a[1], ins)
    if not isinstance(a[2], int):
        raise Undecided("base")
    v = value(s, a[2])
    if v is None:
        return -1
    I.zset(st, a[0], v, ins)
    return 0


def emit(I, st, f, s):
    if not isinstance(f, Ptr):
        raise Undecided("stream %s" % (f,))
    k = ("out", f.obj, 0)
    st.m[k] = st.m.get(k, "") + s
    return len(s)


def fmt(I, st, f, args, ins):
    args = list(args)
    r = []
    for m in re.finditer(r"%([-+ #0]*)(\d*|\*)(\.\d+)?(hh|h|ll|l|z|Z)?([a-zA-Z%])|[^%]+", f):
        if m[5] is None:
            r.append(m[0])
            continue
        if m[5] == "%":
            r.append("%")
            continue
        if m[3] or m[2] == "*" or any(c not in "-0" for c in m[1]):
            raise Undecided("format %s" % f)
        if not args:
            raise Undecided("arguments of format %s" % f)
        x = args.pop(0)
        k = len(r)
        if m[4] == "Z":
            r.append(numeral(I, st, x))
        elif m[5] == "s":
            r.append(I.text(st, x, ins))
        elif m[5] in "diu":
            if not isinstance(x, int):
                raise Undecided("printed number %s" % (x,))
            if m[5] in "di" and m[4] is None:
                x = (x + (1 << 31)) % (1 << 32) - (1 << 31)
            r.append(str(x))
        elif m[5] == "c":
            r.append(chr(x))
        else:
            raise Undecided("format %s" % f)
        w = int(m[2] or 0)
        if "-" in m[1]:
            r[k] = r[k].ljust(w)
        elif "0" in m[1]:
            r[k] = ("-" if r[k][0] == "-" else "") + r[k].lstrip("-").rjust(w - (r[k][0] == "-"), "0")
        else:
            r[k] = r[k].rjust(w)
    return "".join(r)


def m_out(I, ins, n, a, st):
    if n in ("fprintf", "__gmp_fprintf"):
        return emit(I, st, a[0], fmt(I, st, I.text(st, a[1], ins), a[2:], ins))
    if n == "fputs":
        return emit(I, st, a[1], I.text(st, a[0], ins))
    if n == "fwrite":
        if not isinstance(a[1], int) or not isinstance(a[2], int):
            raise Undecided("length")
        emit(I, st, a[3], I.text(st, a[0], ins, a[1] * a[2]))
        return a[2]
    if not isinstance(a[0], int):
        raise Undecided("character")
    return emit(I, st, a[1], chr(a[0] & 255))


def m_sprintf(I, ins, n, a, st):
    sized = "snprintf" in n
    k = 2 if sized else 1
    s = fmt(I, st, I.text(st, a[k], ins), a[k + 1:], ins)
    w = s
    if sized:
        if not isinstance(a[1], int):
            raise Undecided("size")
        if a[1] == 0:
            return len(s)
        w = s[:a[1] - 1]
    I.put(st, a[0], w, ins)
    return len(s)


def m_outstr(I, ins, n, a, st):
    if n != "__gmpz_out_str" or a[1] not in (0, 10):
        raise Undecided("base of an output")
    s = numeral(I, st, a[2])
    emit(I, st, a[0], s)
    return len(s)


class Texts(Scenario):
    def __init__(self, prog):
        Scenario.__init__(self, prog, TextInterp(prog))
        self.nlit = 0

    def lit(self, s, nul=True):
        """a buffer that holds the given text, and nothing after it"""
        self.nlit += 1
        p = Ptr(self.I.named("heap", "text", self.nlit), 0)
        for i, c in enumerate(s):
            self.st.m[("m", p.obj, i)] = ord(c)
        if nul:
            self.st.m[("m", p.obj, len(s))] = 0
        self.I.limit[p.obj] = len(s) + bool(nul)
        return p

    def output(self, st, f):
        return st.m.get(("out", f.obj, 0), "")
