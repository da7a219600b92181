"""Parser for the textual LLVM IR (clang 18, opaque pointers) of the code under
analysis.  Only the constructs that `clang -O0` + `mem2reg` produce for C and
simple C++ are supported; anything else raises IRError, which makes a check
exit as "analysis broken" instead of guessing."""
import re


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Type:
    __slots__ = ("kind", "a", "b")

    def __init__(self, kind, a=None, b=None):
        self.kind, self.a, self.b = kind, a, b

    def __repr__(self):
        if self.kind == "int":
            return "i%d" % self.a
        if self.kind == "struct":
            return "%" + self.a
        if self.kind == "array":
            return "[%d x %r]" % (self.a, self.b)
        return self.kind


PTR = Type("ptr")
VOID = Type("void")
_prim = {"ptr": PTR, "void": VOID, "float": Type("float"), "double": Type("double"),
         "x86_fp80": Type("x86_fp80"), "label": Type("label"), "metadata": Type("metadata"),
         "token": Type("token"), "half": Type("half")}
_ints = {}


def int_type(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Type("int", n)
    return t


TOK = re.compile(r'''
    \s*(
      c?"(?:[^"\\]|\\.)*"           # strings
    | [%@][-a-zA-Z$._0-9]+          # identifiers
    | [%@]"(?:[^"\\]|\\.)*"
    | ![a-zA-Z0-9_.]+ | !\d+ | !
    | \#\d+
    | \.\.\.
    | -?\d+\.\d+(?:e[+-]?\d+)? | 0x[0-9A-Fa-fKLMH]+
    | -?\d+
    | [a-zA-Z_][-a-zA-Z0-9_.]*
    | [()\[\]{}<>,=*:|]
    )''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    m = TOK.match
    while i < n:
        mm = m(s, i)
        if not mm:
            if s[i:].strip() == "":
                break
            raise IRError("cannot tokenize: " + s[i:i + 60])
        out.append(mm.group(1))
        i = mm.end()
    return out


class Module:
    def __init__(self, name):
        self.name = name
        self.types = {}        # struct name -> list of Type (or None opaque)
        self.functions = {}    # name -> Function (with or without body)
        self.globals = {}      # name -> Global
        self.meta = {}         # id -> raw text
        self._layout = {}
        self._di = {}

    # ---- layout (x86-64 SysV)
    def sizeof(self, t):
        return self._lay(t)[0]

    def alignof(self, t):
        return self._lay(t)[1]

    def _lay(self, t):
        k = t.kind
        if k == "int":
            n = max(1, (t.a + 7) // 8)
            p = 1
            while p < n:
                p *= 2
            return p, min(p, 16)
        if k == "ptr":
            return 8, 8
        if k == "float":
            return 4, 4
        if k == "double":
            return 8, 8
        if k == "x86_fp80":
            return 16, 16
        if k == "half":
            return 2, 2
        if k == "array":
            s, a = self._lay(t.b)
            return s * t.a, a
        if k == "struct":
            r = self._layout.get(t.a)
            if r is None:
                flds = self.types.get(t.a)
                if flds is None:
                    return 0, 1
                r = self._layout[t.a] = self._struct(flds)
            return r[0], r[1]
        if k == "lit":
            r = self._struct(t.a)
            return r[0], r[1]
        if k == "vector":
            s, a = self._lay(t.b)
            return s * t.a, s * t.a
        if k == "void":
            return 1, 1
        raise IRError("sizeof " + repr(t))

    def _struct(self, flds):
        off, al, offs = 0, 1, []
        for f in flds:
            s, a = self._lay(f)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        return ((off + al - 1) // al * al, al, offs)

    def struct_offsets(self, t):
        if t.kind == "struct":
            self._lay(t)
            return self._layout[t.a][2]
        return self._struct(t.a)[2]

    def struct_fields(self, t):
        return self.types[t.a] if t.kind == "struct" else t.a


class Function:
    __slots__ = ("name", "module", "ret", "params", "blocks", "order", "internal",
                 "vararg", "dbg", "attrs", "file", "line", "_cfg", "inline", "pnames")

    def __init__(self, name):
        self.name = name
        self.blocks = None
        self.order = []
        self.dbg = None
        self.internal = False
        self.vararg = False
        self.file = None
        self.line = 0
        self._cfg = None

    def __repr__(self):
        return "<fn %s>" % self.name

    @property
    def defined(self):
        return self.blocks is not None


class Global:
    __slots__ = ("name", "type", "const", "init", "internal", "raw", "module", "tls")


class Instr:
    __slots__ = ("op", "res", "type", "ops", "extra", "dbg", "fn", "bb", "idx")

    def __repr__(self):
        return "%s=%s %r %r" % (self.res, self.op, self.ops, self.extra)


# operands: ('c', int) ('v', name) ('g', name) ('null',) ('undef',) ('ce', op, ...) ('f', text)
class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise IRError("expected %r got %r in %s" % (x, y, " ".join(self.t)))

    def type(self):
        t = self.next()
        if t in _prim:
            r = _prim[t]
            if t == "ptr" and self.peek() == "addrspace":
                self.next(); self.next(); self.next(); self.next()
        elif re.fullmatch(r"i\d+", t):
            r = int_type(int(t[1:]))
        elif t == "[":
            n = int(self.next()); self.expect("x")
            e = self.type(); self.expect("]")
            r = Type("array", n, e)
        elif t == "<":
            if self.peek() == "{":
                self.next()
                fl = self._tlist("}")
                self.expect(">")
                r = Type("lit", fl)
            else:
                n = int(self.next()); self.expect("x")
                e = self.type(); self.expect(">")
                r = Type("vector", n, e)
        elif t == "{":
            r = Type("lit", self._tlist("}"))
        elif t[0] == "%":
            r = Type("struct", unq(t))
        else:
            raise IRError("type? %r in %s" % (t, " ".join(self.t)[:200]))
        # function type: T (args)
        return r

    def _tlist(self, end):
        out = []
        while not self.accept(end):
            if self.accept("..."):
                continue
            if self.accept(","):
                continue
            out.append(self.type())
        return out

    def value(self, ty):
        t = self.next()
        if t[0] == "%":
            return ("v", unq(t))
        if t[0] == "@":
            return ("g", unq(t))
        if re.fullmatch(r"-?\d+", t):
            return ("c", int(t))
        if t in ("true",):
            return ("c", 1)
        if t in ("false",):
            return ("c", 0)
        if t in ("null", "none"):
            return ("null",)
        if t in ("undef", "poison"):
            return ("undef",)
        if t == "zeroinitializer":
            return ("zero",)
        if t[0] == "c" and t[1:2] == '"':
            return ("str", t[2:-1])
        if t in ("getelementptr", "bitcast", "inttoptr", "ptrtoint", "trunc", "sub", "add", "mul"):
            return self.constexpr(t)
        if t in ("[", "{", "<"):
            if t == "<" and self.peek() == "{":
                self.next()
                vs = self._vlist("}")
                self.expect(">")
                return ("agg", vs)
            end = {"[": "]", "{": "}", "<": ">"}[t]
            return ("agg", self._vlist(end))
        if re.match(r"-?\d|0x", t):
            return ("f", t)
        raise IRError("value? %r in %s" % (t, " ".join(self.t)[:300]))

    def _vlist(self, end):
        vs = []
        while not self.accept(end):
            if self.accept(","):
                continue
            ty = self.type()
            vs.append((ty, self.value(ty)))
        return vs

    def constexpr(self, op):
        while self.peek() in ("inbounds", "nuw", "nsw", "nusw"):
            self.next()
        self.expect("(")
        if op == "getelementptr":
            sty = self.type(); self.expect(",")
            ops = []
            while True:
                self.accept("inrange")
                ty = self.type()
                ops.append((ty, self.value(ty)))
                if not self.accept(","):
                    break
            self.expect(")")
            return ("ce", "gep", sty, ops)
        ty = self.type()
        v = self.value(ty)
        if op in ("sub", "add", "mul"):
            self.expect(",")
            ty2 = self.type()
            v2 = self.value(ty2)
            self.expect(")")
            return ("ce", op, (ty, v), (ty2, v2))
        self.expect("to")
        self.type()
        self.expect(")")
        return ("ce", "cast", ty, v)


def unq(t):
    t = t[1:]
    if t[:1] == '"':
        t = t[1:-1]
    return t


PARAM_ATTRS = {"noundef", "dead_on_unwind", "writable", "nonnull", "signext", "zeroext", "readonly", "writeonly", "nocapture",
               "noalias", "returned", "immarg", "readnone", "inreg", "nest", "swiftself",
               "noreturn", "nounwind", "allocalign", "allocptr", "nofree", "byval", "sret"}
BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr",
          "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi",
         "fptoui", "fpext", "fptrunc", "addrspacecast"}
FMF = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}
DBG = re.compile(r",?\s*!dbg !(\d+)")
TRAIL = re.compile(r"(,\s*![a-zA-Z.]+(\.[a-z]+)* !\d+)+\s*$")


def skip_attrs(p):
    """skip parameter / return attributes"""
    while True:
        t = p.peek()
        if t is None:
            return
        if t in ("align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "elementtype",
                 "allocsize", "captures", "range", "initializes", "memory"):
            p.next()
            if p.peek() == "(":
                d = 0
                while True:
                    x = p.next()
                    if x == "(":
                        d += 1
                    elif x == ")":
                        d -= 1
                        if d == 0:
                            break
            elif t == "align":
                p.next()
            continue
        if t in PARAM_ATTRS:
            p.next()
            continue
        return


LINKAGE = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending",
           "extern_weak", "linkonce_odr", "weak_odr", "external", "dso_local", "dso_preemptable",
           "default", "hidden", "protected", "unnamed_addr", "local_unnamed_addr", "thread_local",
           "externally_initialized", "fastcc", "ccc", "coldcc"}


def parse_module(text, name):
    mod = Module(name)
    lines = text.split("\n")
    i, n = 0, len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] == ";":
            continue
        c = ln[0]
        if c == "%":
            m = re.match(r'(%[-\w.$]+|%"[^"]*") = type (.*)$', ln)
            if m:
                nm = unq(m.group(1))
                if m.group(2) == "opaque":
                    mod.types[nm] = None
                else:
                    p = P(tokenize(m.group(2)), mod)
                    t = p.type()
                    mod.types[nm] = t.a if t.kind == "lit" else [t]
            continue
        if c == "@":
            parse_global(mod, ln)
            continue
        if c == "!":
            m = re.match(r"!([\w.]+) = (.*)$", ln)
            if m:
                mod.meta[m.group(1)] = m.group(2)
            continue
        if ln.startswith("declare"):
            parse_header(mod, ln, False)
            continue
        if ln.startswith("define"):
            f = parse_header(mod, ln, True)
            body = []
            while lines[i] != "}":
                body.append(lines[i])
                i += 1
            i += 1
            parse_body(mod, f, body)
            continue
    for f in mod.functions.values():
        if f.defined and f.dbg is not None:
            t = mod.meta.get(f.dbg, "")
            m = re.search(r"line: (\d+)", t)
            f.line = int(m.group(1)) if m else 0
            m = re.search(r"file: !(\d+)", t)
            if m:
                ft = mod.meta.get(m.group(1), "")
                m2 = re.search(r'filename: "([^"]*)"', ft)
                f.file = m2.group(1) if m2 else None
    return mod


def parse_global(mod, ln):
    m = re.match(r'(@[-\w.$]+|@"[^"]*") = (.*)$', ln)
    if not m:
        return
    g = Global()
    g.name = unq(m.group(1))
    g.module = mod
    rest = m.group(2)
    g.raw = rest
    rest = re.sub(r"!dbg !\d+", "", rest)
    toks = tokenize(rest)
    p = P(toks, mod)
    g.internal = False
    g.tls = False
    g.const = False
    g.init = None
    g.type = None
    while p.peek() in LINKAGE:
        t = p.next()
        if t in ("private", "internal"):
            g.internal = True
        if t == "thread_local":
            g.tls = True
            if p.peek() == "(":
                while p.next() != ")":
                    pass
    if p.peek() == "comdat":
        p.next()
    k = p.next()
    if k == "alias":
        return
    if k not in ("global", "constant"):
        return
    g.const = (k == "constant")
    g.type = p.type()
    if p.peek() is not None and p.peek() != ",":
        try:
            g.init = p.value(g.type)
        except IRError:
            g.init = None
    mod.globals[g.name] = g


def parse_header(mod, ln, define):
    dbg = re.search(r"!dbg !(\d+)", ln)
    if define:
        ln = re.sub(r"!dbg !\d+", "", ln)
        ln = ln.rsplit("{", 1)[0]
    m = re.search(r'(@[-\w.$]+|@"[^"]*")\(', ln)
    nm = unq(m.group(1))
    f = Function(nm)
    f.module = mod
    f.dbg = dbg.group(1) if dbg else None
    pre = ln[:m.start()]
    f.internal = " internal " in pre or " private " in pre
    f.inline = "linkonce" in pre or "available_externally" in pre
    p = P(tokenize(pre), mod)
    p.next()
    while p.peek() in LINKAGE:
        p.next()
    skip_attrs(p)
    f.ret = p.type()
    p = P(tokenize(ln[m.end() - 1:]), mod)
    p.expect("(")
    f.params = []
    f.pnames = []
    while not p.accept(")"):
        if p.accept(","):
            continue
        if p.accept("..."):
            f.vararg = True
            continue
        ty = p.type()
        skip_attrs(p)
        pn = None
        if p.peek() and p.peek()[0] == "%":
            pn = unq(p.next())
        elif define:
            pn = str(len(f.params))
        f.params.append(ty)
        f.pnames.append(pn)
    mod.functions[nm] = f
    return f


LABEL = re.compile(r'^(?:([-\w.$]+)|"([^"]*)"):')


def parse_body(mod, f, body):
    f.blocks = {}
    cur = None
    # entry block implicit label: number of params (unnamed) – find lazily
    nump = 0
    for pn in f.pnames:
        if pn is not None and pn.isdigit():
            nump = max(nump, int(pn) + 1)
    cur = str(nump)
    f.blocks[cur] = []
    f.order.append(cur)
    j, n = 0, len(body)
    while j < n:
        ln = body[j]
        j += 1
        if not ln.strip():
            continue
        m = LABEL.match(ln)
        if m:
            lab = m.group(1) or m.group(2)
            if len(f.order) == 1 and not f.blocks[cur]:
                f.blocks = {}
                f.order = []
            cur = lab
            f.blocks[cur] = []
            f.order.append(cur)
            continue
        s = ln.strip()
        if s[0] == ";":
            continue
        if s.startswith("switch") and "]" not in s:
            while True:
                s += " " + body[j].strip()
                j += 1
                if body[j - 1].strip().startswith("]"):
                    break
        if s.startswith("call void @llvm.dbg") or s.startswith("tail call void @llvm.dbg") or \
           s.startswith("#dbg"):
            continue
        ins = parse_instr(mod, s)
        if ins is None:
            continue
        while j < n and ins.op in ("invoke", "landingpad") and False:
            pass
        ins.fn = f
        ins.bb = cur
        ins.idx = len(f.blocks[cur])
        f.blocks[cur].append(ins)


def parse_instr(mod, s):
    ins = Instr()
    ins.res = None
    ins.extra = None
    ins.type = None
    md = DBG.search(s)
    ins.dbg = md.group(1) if md else None
    if md:
        s = s[:md.start()] + s[md.end():]
    s = TRAIL.sub("", s)
    s = re.sub(r",\s*![a-zA-Z.]+ !\d+", "", s)
    s = re.sub(r"\s*;.*$", "", s) if ";" in s and '"' not in s else s
    p = P(tokenize(s), mod)
    if p.peek()[0] == "%" and p.peek(1) == "=":
        ins.res = unq(p.next())
        p.next()
    op = p.next()
    while op in ("tail", "musttail", "notail"):
        op = p.next()
    ins.op = op
    if op == "alloca":
        p.accept("inalloca")
        ins.type = p.type()
        ins.ops = []
        if p.accept(",") and p.peek() != "align":
            ty = p.type()
            ins.ops = [(ty, p.value(ty))]
        return ins
    if op == "load":
        p.accept("volatile")
        p.accept("atomic")
        ins.type = p.type()
        p.expect(",")
        ty = p.type()
        ins.ops = [(ty, p.value(ty))]
        return ins
    if op == "store":
        p.accept("volatile")
        p.accept("atomic")
        ty = p.type()
        v = p.value(ty)
        p.expect(",")
        t2 = p.type()
        ins.ops = [(ty, v), (t2, p.value(t2))]
        return ins
    if op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"):
            p.next()
        ins.type = p.type()
        p.expect(",")
        ins.ops = []
        while True:
            ty = p.type()
            ins.ops.append((ty, p.value(ty)))
            if not p.accept(","):
                break
        return ins
    if op in ("call", "invoke"):
        while p.peek() in FMF or p.peek() in ("fastcc", "ccc"):
            p.next()
        skip_attrs(p)
        ins.type = p.type()
        if p.peek() == "(":      # explicit function type
            d = 0
            while True:
                x = p.next()
                if x == "(":
                    d += 1
                elif x == ")":
                    d -= 1
                    if d == 0:
                        break
        if p.peek() == "asm":
            ins.op = "asm"
            ins.ops = []
            return ins
        callee = p.value(PTR)
        p.expect("(")
        args = []
        while not p.accept(")"):
            if p.accept(","):
                continue
            ty = p.type()
            if ty.kind == "metadata":
                # skip until , or )
                d = 0
                while not (d == 0 and p.peek() in (",", ")")):
                    x = p.next()
                    if x == "(":
                        d += 1
                    elif x == ")":
                        d -= 1
                args.append((ty, ("undef",)))
                continue
            skip_attrs(p)
            args.append((ty, p.value(ty)))
        ins.ops = args
        ins.extra = callee
        if op == "invoke":
            while p.peek() != "to":
                p.next()
            p.next(); p.next()
            n1 = unq(p.next())
            p.expect("unwind"); p.next()
            n2 = unq(p.next())
            ins.extra = (callee, n1, n2)
        return ins
    if op in ("icmp", "fcmp"):
        while p.peek() in FMF:
            p.next()
        ins.extra = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        ins.ops = [(ty, a), (ty, b)]
        ins.type = int_type(1)
        return ins
    if op in BINOPS:
        while p.peek() in ("nsw", "nuw", "exact", "disjoint") or p.peek() in FMF:
            p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        ins.ops = [(ty, a), (ty, b)]
        ins.type = ty
        return ins
    if op in CASTS:
        while p.peek() in ("nneg", "nuw", "nsw"):
            p.next()
        ty = p.type()
        v = p.value(ty)
        p.expect("to")
        ins.type = p.type()
        ins.ops = [(ty, v)]
        return ins
    if op == "fneg":
        while p.peek() in FMF:
            p.next()
        ty = p.type()
        ins.ops = [(ty, p.value(ty))]
        ins.type = ty
        return ins
    if op == "br":
        if p.peek() == "label":
            p.next()
            ins.ops = []
            ins.extra = [unq(p.next())]
        else:
            ty = p.type()
            v = p.value(ty)
            p.expect(","); p.next()
            a = unq(p.next())
            p.expect(","); p.next()
            b = unq(p.next())
            ins.ops = [(ty, v)]
            ins.extra = [a, b]
        return ins
    if op == "switch":
        ty = p.type()
        v = p.value(ty)
        p.expect(","); p.next()
        d = unq(p.next())
        p.expect("[")
        cases = []
        while not p.accept("]"):
            t2 = p.type()
            c = p.value(t2)
            p.expect(","); p.next()
            cases.append((c[1], unq(p.next())))
        ins.ops = [(ty, v)]
        ins.extra = (d, cases)
        return ins
    if op == "phi":
        while p.peek() in FMF:
            p.next()
        ty = p.type()
        ins.type = ty
        inc = []
        while True:
            p.expect("[")
            v = p.value(ty)
            p.expect(",")
            b = unq(p.next())
            p.expect("]")
            inc.append((v, b))
            if not p.accept(","):
                break
        ins.ops = []
        ins.extra = inc
        return ins
    if op == "ret":
        ty = p.type()
        ins.type = ty
        ins.ops = [] if ty.kind == "void" else [(ty, p.value(ty))]
        return ins
    if op == "select":
        while p.peek() in FMF:
            p.next()
        ops = []
        while True:
            ty = p.type()
            ops.append((ty, p.value(ty)))
            if not p.accept(","):
                break
        ins.ops = ops
        ins.type = ops[1][0]
        return ins
    if op == "unreachable":
        ins.ops = []
        return ins
    if op in ("extractvalue",):
        ty = p.type()
        ins.ops = [(ty, p.value(ty))]
        ins.extra = []
        while p.accept(","):
            ins.extra.append(int(p.next()))
        ins.type = ty
        return ins
    if op == "insertvalue":
        ty = p.type()
        v = p.value(ty)
        p.expect(",")
        t2 = p.type()
        v2 = p.value(t2)
        ins.ops = [(ty, v), (t2, v2)]
        ins.type = ty
        return ins
    if op == "freeze":
        ty = p.type()
        ins.ops = [(ty, p.value(ty))]
        ins.type = ty
        return ins
    if op in ("landingpad", "resume", "cleanup", "catch", "filter", "va_arg", "fence", "extractelement",
              "insertelement", "shufflevector", "atomicrmw", "cmpxchg"):
        ins.ops = []
        ins.type = int_type(8)
        return ins
    raise IRError("instr? " + s[:160])


# ------------------------------------------------------------- CFG helpers
def successors(term):
    if term.op == "br":
        return list(term.extra)
    if term.op == "switch":
        return [term.extra[0]] + [b for _, b in term.extra[1]]
    if term.op == "invoke":
        return [term.extra[1], term.extra[2]]
    return []


class CFG:
    def __init__(self, f):
        self.f = f
        self.succ = {}
        self.pred = {b: [] for b in f.order}
        for b in f.order:
            s = successors(f.blocks[b][-1]) if f.blocks[b] else []
            self.succ[b] = s
        entry = f.order[0]
        # reachable RPO + back edges
        seen, post, onstack = set(), [], set()
        self.back = set()
        stack = [(entry, iter(self.succ[entry]))]
        seen.add(entry); onstack.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); onstack.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
                elif s in onstack:
                    self.back.add((b, s))
            else:
                stack.pop()
                onstack.discard(b)
                post.append(b)
        self.rpo = post[::-1]
        self.rpoidx = {b: i for i, b in enumerate(self.rpo)}
        for b in self.rpo:
            for s in self.succ[b]:
                if b not in self.pred[s]:
                    self.pred[s].append(b)
        self.headers = {h for _, h in self.back}
        # natural loop bodies
        self.loop = {}
        for (t, h) in self.back:
            body = self.loop.setdefault(h, {h})
            wl = [t]
            while wl:
                x = wl.pop()
                if x in body:
                    continue
                body.add(x)
                wl.extend(self.pred[x])
        self.idom = self._doms()

    def _doms(self):
        entry = self.rpo[0]
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        return idom

    def _inter(self, idom, a, b):
        ix = self.rpoidx
        while a != b:
            while ix[a] > ix[b]:
                a = idom[a]
            while ix[b] > ix[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b not in self.idom or self.idom[b] == b:
                return False
            b = self.idom[b]


def cfg(f):
    if f._cfg is None:
        f._cfg = CFG(f)
    return f._cfg


def loc(ins):
    """file:line of an instruction"""
    f = ins.fn
    mod = f.module
    if ins.dbg is None:
        return "%s:%d" % (f.file, f.line)
    t = mod.meta.get(ins.dbg, "")
    m = re.search(r"line: (\d+)", t)
    return "%s:%s" % (f.file, m.group(1) if m else "?")


def field_names(mod, sname):
    """struct name -> [(member name, byte offset)] from the DWARF metadata"""
    key = ("fn", sname)
    if key in mod._di:
        return mod._di[key]
    res = None
    pat = 'DICompositeType(tag: DW_TAG_structure_type, name: "%s"' % sname
    for k, t in mod.meta.items():
        if pat in t and "elements: !" in t:
            m = re.search(r"elements: !(\d+)", t)
            els = re.findall(r"!(\d+)", mod.meta.get(m.group(1), ""))
            out = []
            for e in els:
                et = mod.meta.get(e, "")
                nm = re.search(r'name: "([^"]*)"', et)
                of = re.search(r"offset: (\d+)", et)
                if "DW_TAG_member" in et:
                    out.append((nm.group(1) if nm else "?", int(of.group(1)) // 8 if of else 0))
            res = out
            break
    mod._di[key] = res
    return res
