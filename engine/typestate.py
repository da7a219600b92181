"""Path-sensitive typestate analysis (property simulation) of temporaries and heap blocks.

Tracked: every local object that is passed to an initialising or clearing function, every heap block, and
(for the summaries) every object reached through a parameter.  Control-flow states are kept apart when
their typestates differ, conditions that were taken are remembered and prune contradictory continuations.
A state set that is not definite is dropped (never reported)."""
import re
from . import ir

U, I, C, P, E, A, F = "uninitialised", "initialised", "cleared", "caller", "untracked", "allocated", "freed"
CAP = 400

# functions that acquire / release the object their first argument points to
RES = re.compile(r"^__gmp[zqf]_(init\w*|clears?)$")
ACQ = {"element_init": 0, "field_init": 0, "darray_init": 0, "symtab_init": 0, "pairing_pp_init": 0, "element_pp_init": 0,
       "__gmp_randinit_default": 0}
REL = {"element_clear": 0, "field_clear": 0, "darray_clear": 0, "symtab_clear": 0, "pairing_pp_clear": 0, "element_pp_clear": 0,
       "pairing_clear": 0, "__gmp_randclear": 0}
ALLOC = {"pbc_malloc", "malloc", "calloc", "pbc_calloc", "strdup", "pbc_strdup", "fopen"}
REALLOC = {"pbc_realloc", "realloc"}
FREE = {"pbc_free", "free", "fclose"}
NOESCAPE = re.compile(r"^(__gmp|mpn_|mem|str|printf|fprintf|sprintf|snprintf|vsn|fread|fwrite|fgets|fputs|puts|fopen|fclose|"
                      r"getc|ungetc|toupper|llvm\.|pow|exp|log|sqrt|sin|cos|floor|ceil|fabs|isspace|atoi|qsort|gettimeofday)")


def primitive(name):
    """('acq'|'rel', argument index) for the resource primitives"""
    m = RES.match(name)
    if m:
        return ("rel" if m.group(1).startswith("clear") else "acq"), 0
    if name in ACQ or name.startswith("field_init_"):
        return "acq", 0
    if name in REL:
        return "rel", REL[name]
    return None


class Summary:
    __slots__ = ("objs", "esc", "fresh", "ok", "blk")

    def __init__(self):
        self.objs = {}      # (param, off) -> (final state or 'mixed', must-use-first)
        self.esc = set()    # parameters whose pointer may be kept
        self.blk = {}       # param -> F if the block is freed on every path, 'mixed' if on some
        self.fresh = False
        self.ok = False


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.sums = {}
        self.active = set()
        self.reports = []       # (function, kind, object, location, text)
        self.gaveup = []
        self.tracked = {}
        self.stats = {"functions": 0, "objects": 0, "blocks": 0, "paths": 0}

    def summary(self, f):
        if f in self.sums:
            return self.sums[f]
        if f in self.active:
            return Summary()
        self.active.add(f)
        s = Summary()
        try:
            fa = Func(self, f)
            fa.run(s)
        except GiveUp as e:
            self.gaveup.append((f, str(e)))
            s = Summary()
        self.active.discard(f)
        self.sums[f] = s
        return s

    def all(self):
        seen = set()
        for m in self.prog.mods:
            for f in m.functions.values():
                if not f.defined:
                    continue
                k = (f.file, f.line, f.name)
                if k in seen:
                    continue
                seen.add(k)
                self.summary(f)
        return self.reports


class GiveUp(Exception):
    pass


class St:
    __slots__ = ("ts", "facts", "bind")

    def __init__(self, ts, facts, bind):
        self.ts, self.facts, self.bind = ts, facts, bind

    def copy(self):
        return St(dict(self.ts), dict(self.facts), dict(self.bind))


class Func:
    def __init__(self, an, f):
        self.an, self.f = an, f
        self.mod = f.module
        self.cfg = ir.cfg(f)
        self.defs = {}
        for b in self.cfg.rpo:
            for ins in f.blocks[b]:
                if ins.res is not None:
                    self.defs[ins.res] = ins
        self.param = {n: i for i, n in enumerate(f.pnames or [])}
        self.collapsed = set()
        self.names = {}
        self.reps = {}
        self._acq = None
        self.calls = [i for b in self.cfg.rpo for i in f.blocks[b] if i.op == "call"]
        self.loopvals = {}
        for ins in self.defs.values():
            if ins.op == "getelementptr":
                a = self.addr(("v", ins.res), None)
                if a and a[1] == "*":
                    self.collapsed.add(a[0])

    # ---- addresses: (base, offset) with base ('a', name) | ('p', i) | ('b', call name)
    def addr(self, v, st):
        if v[0] != "v":
            return None
        n = v[1]
        if n in self.param:
            return (("p", self.param[n]), 0)
        ins = self.defs.get(n)
        if ins is None:
            return None
        if ins.op == "alloca":
            return (("a", n), 0)
        if ins.op in ("bitcast", "freeze"):
            return self.addr(ins.ops[0][1], st)
        if ins.op == "getelementptr":
            b = self.addr(ins.ops[0][1], st)
            if b is None:
                return None
            o = self.gepoff(ins)
            if o is None or b[1] == "*":
                return (b[0], "*")
            return (b[0], b[1] + o)
        if ins.op == "phi" and st is not None:
            return st.bind.get(n)
        if ins.op == "call" and st is not None:
            b = ("b", n)
            return (b, 0) if ("B", b) in st.ts else None
        if ins.op == "call":
            return (("b", n), 0)
        return None

    def gepoff(self, ins):
        t = ins.type
        off = 0
        for k, (ty, v) in enumerate(ins.ops[1:]):
            if k == 0:
                if v[0] != "c":
                    return None
                off += v[1] * self.mod.sizeof(t)
                continue
            r = t
            while r.kind == "named":
                r = self.mod.types[r.a]
            if r.kind == "array":
                if v[0] != "c":
                    return None
                t = r.b if not isinstance(r.b, int) else r.a
                off += v[1] * self.mod.sizeof(t)
            elif r.kind == "struct":
                off += self.mod.struct_offsets(t)[v[1]]
                t = self.mod.struct_fields(t)[v[1]]
            else:
                return None
        return off

    def key(self, a):
        if a is None:
            return None
        b, o = a
        return (b, "*") if b in self.collapsed else (b, o)

    # ---- conditions
    def expr(self, v, st, depth=0):
        """structural name of a value (same text = assumed same value)"""
        if v[0] != "v":
            return v
        n = v[1]
        if n in self.param:
            return ("param", n)
        if st is not None and n in st.facts:
            return ("c", st.facts[n])
        ins = self.defs.get(n)
        if ins is None or depth > 12:
            return ("ssa", n)
        if ins.op == "phi":
            return ("ssa", n)
        if ins.op in ("call",):
            if ins.extra and ins.extra[0] == "g" and primitive(ins.extra[1]) is None and ins.extra[1] not in ALLOC | REALLOC:
                return ("call", ins.extra[1]) + tuple(self.expr(o[1], st, depth + 1) for o in ins.ops)
            return ("ssa", n)
        if ins.op in ("alloca",):
            return ("ssa", n)
        return (ins.op, str(ins.extra)) + tuple(self.expr(o[1], st, depth + 1) for o in ins.ops if isinstance(o, tuple) and len(o) == 2)

    def cond(self, v, st):
        """(key, polarity, decided) of a branch condition"""
        ins = self.defs.get(v[1]) if v[0] == "v" else None
        if v[0] == "c":
            return None, True, bool(v[1] & 1)
        if ins is not None and ins.op == "xor" and ins.ops[1][1][0] == "c":
            k, p, d = self.cond(ins.ops[0][1], st)
            return k, not p, (None if d is None else not d)
        if ins is not None and ins.op in ("zext", "trunc", "freeze"):
            return self.cond(ins.ops[0][1], st)
        if ins is not None and ins.op == "icmp":
            a, b = (self.expr(o[1], st) for o in ins.ops[:2])
            p = ins.extra
            if a[0] == "c" and b[0] == "c":
                x, y = a[1], b[1]
                r = {"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}.get(p)
                return None, True, r
            if p in ("eq", "ne") and b[0] in ("c", "null") and (b[0] == "null" or b[1] == 0):
                # the truth of a
                i2 = self.defs.get(ins.ops[0][1][1]) if ins.ops[0][1][0] == "v" else None
                if i2 is not None and i2.op in ("icmp", "zext", "xor") and ins.ops[0][1][1] not in st.facts:
                    k, pol, d = self.cond(ins.ops[0][1], st)
                    if p == "eq":
                        return k, not pol, (None if d is None else not d)
                    return k, pol, d
                return ("nz", a), p == "ne", None
            neg = {"ne": "eq", "sge": "slt", "sgt": "sle", "uge": "ult", "ugt": "ule"}
            if p in neg:
                return (neg[p], a, b), False, None
            return (p, a, b), True, None
        return ("nz", self.expr(v, st)), True, None

    # ---- run
    def run(self, out):
        f = self.f
        an = self.an
        an.stats["functions"] += 1
        entry = f.order[0]
        inst = {entry: {}}
        s0 = St({}, {}, {})
        self.insert(inst, entry, s0)
        work = [entry]
        exits = []
        steps = 0
        self.exits = {}
        while work:
            work.sort(key=lambda b: self.cfg.rpoidx.get(b, 1 << 30))
            b = work.pop(0)
            todo = [k for k, (s, done) in inst[b].items() if not done]
            for k in todo:
                s, _ = inst[b][k]
                inst[b][k] = (s, True)
                steps += 1
                if steps > 20000:
                    raise GiveUp("too many steps")
                for succ, s2 in self.block(b, s.copy()):
                    if self.insert(inst, succ, s2):
                        if succ not in work:
                            work.append(succ)
        an.stats["paths"] += len(self.exits)
        self.conclude(out)

    def mkey(self, st):
        return (frozenset((k, v) for k, v in st.ts.items()), frozenset(x for x in st.bind.items()))

    def insert(self, inst, b, st):
        d = inst.setdefault(b, {})
        k = self.mkey(st)
        kf = k + (frozenset(st.facts.items()),)
        if kf in d:
            return False
        if len(d) < 48 and k not in d:
            d[kf] = (st, False)
            return True
        if k in d:
            o, done = d[k]
            common = {c: v for c, v in o.facts.items() if st.facts.get(c, None) == v and c in st.facts}
            if len(common) == len(o.facts):
                return False
            d[k] = (St(o.ts, common, o.bind), False)
            return True
        if len(d) > CAP:
            raise GiveUp("too many typestates")
        d[k] = (st, False)
        return True

    def edge(self, b, succ, st):
        """phi bindings on the edge"""
        st = st.copy()
        back = (b, succ) in self.cfg.back
        if back:
            body = self.cfg.loop.get(succ, ())
            # conditions computed in the loop may change in the next iteration
            st.facts = {k: v for k, v in st.facts.items() if isinstance(k, tuple) and not self.mentions(k, body) or
                        isinstance(k, str) and self.defs[k].bb not in body}
        new = {}
        nb = {}
        for ins in self.f.blocks[succ]:
            if ins.op != "phi":
                break
            for v, blk in ins.extra:
                if blk == b:
                    e = self.expr(v, st)
                    if e[0] == "c" and not back:
                        new[ins.res] = e[1]
                    elif e[0] == "null":
                        new[ins.res] = 0
                    elif e[0] == "c" and back and v[0] == "c":
                        new[ins.res] = e[1]
                    else:
                        new[ins.res] = None
                    a = self.addr(v, st)
                    if a is not None and (a[0][0] == "p" or back and st.bind.get(ins.res) != a):
                        a = (a[0], "*")
                    nb[ins.res] = a
                    break
        for n, v in new.items():
            if v is None:
                st.facts.pop(n, None)
            else:
                st.facts[n] = v
            # conditions about the previous value of the phi are void
            for k in [k for k in st.facts if isinstance(k, tuple) and self.has(k, n)]:
                del st.facts[k]
        for n, a in nb.items():
            if a is None:
                st.bind.pop(n, None)
            else:
                st.bind[n] = a
        return st

    def has(self, k, n):
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == "ssa" and k[1] == n:
                return True
            return any(self.has(x, n) for x in k)
        return False

    def mentions(self, k, body):
        """the condition reads memory, calls a function or depends on a value of the loop"""
        if isinstance(k, tuple):
            if k and k[0] in ("load", "call"):
                return True
            if len(k) == 2 and k[0] == "ssa":
                d = self.defs.get(k[1])
                return d is None or d.bb in body
            return any(self.mentions(x, body) for x in k)
        return False

    def block(self, b, st):
        outs = []
        for ins in self.f.blocks[b]:
            if ins.op == "phi":
                continue
            if ins.op == "call":
                if not self.call(ins, st):
                    return []
                continue
            if ins.op == "store":
                self.store(ins, st)
                continue
            if ins.op == "br":
                if len(ins.extra) == 1:
                    return [(ins.extra[0], self.edge(b, ins.extra[0], st))]
                k, pol, dec = self.cond(ins.ops[0][1], st)
                for i, tgt in enumerate(ins.extra):
                    truth = (i == 0)
                    if dec is not None and dec != truth:
                        continue
                    s = st.copy()
                    if k is not None:
                        val = truth if pol else not truth
                        if s.facts.get(k, val) != val:
                            continue
                        s.facts[k] = val
                        if self.infeasible_null(ins, s, k, val):
                            continue
                    outs.append((tgt, self.edge(b, tgt, s)))
                return outs
            if ins.op == "switch":
                e = self.expr(ins.ops[0][1], st)
                d, cases = ins.extra
                known = e[1] if e[0] == "c" else st.facts.get(("sw", e))
                for cv, tgt in cases:
                    cv = cv[1] if isinstance(cv, tuple) else cv
                    if known is not None and known != cv:
                        continue
                    s = st.copy()
                    s.facts[("sw", e)] = cv
                    outs.append((tgt, self.edge(b, tgt, s)))
                if known is None or not any((c[1] if isinstance(c, tuple) else c) == known for c, _ in cases):
                    outs.append((d, self.edge(b, d, st)))
                return outs
            if ins.op == "ret":
                self.leave(ins, st)
                return []
            if ins.op == "unreachable":
                return []
        return outs

    def infeasible_null(self, ins, s, k, val):
        """on the edge where a block pointer is null there is no block"""
        if k[0] == "nz" and val is False:
            e = k[1]
            if e[0] == "ssa":
                a = self.addr(("v", e[1]), s)
                if a and a[0][0] == "b":
                    s.ts.pop(("B", a[0]), None)
                    self.drop(s, a[0])
        return False

    # ---- events
    def report(self, kind, key, ins, text):
        self.reps.setdefault((kind, key, ir.loc(ins)), text)

    def oname(self, key):
        b, o = key
        if b[0] == "a":
            n = b[1]
        elif b[0] == "p":
            n = (self.f.pnames or ["?"] * 9)[b[1]]
        else:
            n = "block from " + ir.loc(self.defs[b[1]])
        return n + ("" if o in (0, "*") else "+%s" % o)

    def drop(self, st, b):
        for q in [q for q in st.ts if q[0] == "o" and q[1] == b]:
            del st.ts[q]

    def get(self, st, key):
        b = key[0]
        if ("E", b) in st.ts or st.ts.get(("B", b)) == E:
            return E
        v = st.ts.get(("o",) + key)
        if v is not None:
            return v
        return {"a": U, "p": P, "b": U}[b[0]]

    def acquire(self, st, a, ins):
        k = self.key(a)
        if k is None:
            return
        s = self.get(st, k)
        self.an.stats["objects"] += 1
        if s == I and k[1] != "*":
            self.report("reinit", k, ins, "%s is initialised again without being cleared" % self.oname(k))
        if s != E:
            st.ts[("o",) + k] = I

    def release(self, st, a, ins):
        k = self.key(a)
        if k is None:
            return
        s = self.get(st, k)
        if s == C and k[1] != "*":
            self.report("double", k, ins, "%s is cleared twice" % self.oname(k))
        elif s == U and k[0][0] == "a" and k[1] != "*" and self.resource(k):
            self.report("clearuninit", k, ins, "%s is cleared but was never initialised" % self.oname(k))
        if s != E:
            st.ts[("o",) + k] = C

    def use(self, st, a, ins, what):
        k = self.key(a)
        if k is None or k[1] == "*":
            return
        s = self.get(st, k)
        if s == C:
            self.report("useafter", k, ins, "%s is used by %s after it was cleared" % (self.oname(k), what))
        elif s == U and k[0][0] == "a" and self.resource(k):
            self.report("useuninit", k, ins, "%s is used by %s before it is initialised" % (self.oname(k), what))
        elif s == P:
            st.ts[("u",) + k] = True

    def resource(self, k):
        """the local object is of a kind that has to be initialised"""
        if k in self.acquired():
            return True
        t = self.defs[k[0][1]].type
        return k[1] == 0 and re.match(r"^\[1 x %struct\.(element_s|field_s|__mpz_struct|__mpf_struct|__mpq_struct|darray_s|symtab_s)\]$", str(t)) is not None

    def acquired(self):
        """objects that this function initialises somewhere through an initialising function"""
        if self._acq is None:
            self._acq = set()
            for ins in self.calls:
                n = self.callee(ins)
                pr = primitive(n) if n else None
                g = self.an.prog.resolve(self.mod, n) if n and pr is None else None
                sm = self.an.sums.get(g)
                for j, o in enumerate(ins.ops):
                    a = self.addr(o[1], None)
                    if a is None:
                        continue
                    if pr == ("acq", j):
                        self._acq.add(self.key(a))
                    elif sm is not None:
                        for (pj, off), (fin, used) in sm.objs.items():
                            if pj == j and fin == I and off != "*" and a[1] != "*":
                                self._acq.add(self.key((a[0], a[1] + off)))
        return self._acq

    def escape(self, st, a):
        if a is None:
            return
        b = a[0]
        self.drop(st, b)
        if b[0] == "b":
            st.ts[("B", b)] = E
        else:
            st.ts[("E", b)] = True

    def store(self, ins, st):
        v = ins.ops[0][1]
        d = self.addr(ins.ops[1][1], st)
        if d is not None and d[0][0] == "a" and self.key(d) not in self.acquired():
            st.ts[("E", d[0])] = True       # built by hand
        if ins.ops[0][0].kind != "ptr":
            return
        a = self.addr(v, st)
        if a is not None:
            if a[0][0] == "p":
                st.ts[("esc", a[0][1])] = True
            self.escape(st, a) if a[0][0] != "p" else None

    def callee(self, ins):
        cal = ins.extra
        if cal and cal[0] == "g":
            return cal[1]
        if cal and cal[0] == "v":
            d = self.defs.get(cal[1])
            if d is not None and d.op == "load" and d.ops[0][1][0] == "g" and d.ops[0][1][1] in ("pbc_malloc", "pbc_realloc", "pbc_free"):
                return d.ops[0][1][1]
        return None

    def call(self, ins, st):
        """False when the call does not return"""
        cal = ins.extra
        name = self.callee(ins)
        args = [self.addr(o[1], st) for o in ins.ops]
        if name is not None and name.startswith("llvm."):
            if name.startswith(("llvm.memcpy", "llvm.memmove")):
                self.copyout(st, args)
            return True
        if name in ("exit", "abort", "pbc_die"):
            return False
        if name in ("memcpy", "memmove"):
            self.copyout(st, args)
            return True
        if name in ALLOC or name in REALLOC:
            if name in REALLOC and args and args[0] is not None and args[0][0][0] == "b":
                self.escape(st, args[0])
            b = ("b", ins.res)
            if ins.res is not None:
                k = ("B", b)
                st.ts[k] = E if st.ts.get(k) == A or name in REALLOC else A
                self.drop(st, b)
                self.an.stats["blocks"] += 1
            return True
        if name in FREE:
            a = args[0]
            if a is not None:
                b = a[0]
                if b[0] == "b":
                    k = ("B", b)
                    if st.ts.get(k) == F:
                        self.report("doublefree", (b, 0), ins, "the block allocated at %s is freed twice" % ir.loc(self.defs[b[1]]))
                    if st.ts.get(k) == A:
                        for q, v in list(st.ts.items()):
                            if q[0] == "o" and q[1] == b and v == I:
                                self.report("nestedleak", q[1:], ins, "%s is freed while the object in it is initialised" % self.oname(q[1:]))
                        self.drop(st, b)
                    if st.ts.get(k) != E:
                        st.ts[k] = F
                elif b[0] == "p":
                    st.ts[("blk", b[1])] = F
            return True
        pr = primitive(name) if name else None
        if pr is not None:
            kind, i = pr
            for j, a in enumerate(args):
                if a is None:
                    continue
                if j == i or name.endswith(("_inits", "_clears")):
                    (self.acquire if kind == "acq" else self.release)(st, a, ins)
                else:
                    self.use(st, a, ins, name)
            return True
        if name is None:
            for a in args:
                if a is not None and a[0][0] == "b":
                    self.escape(st, a)
                elif a is not None and a[0][0] == "p":
                    st.ts[("esc", a[0][1])] = True
                elif a is not None:
                    pass
            return True
        g = self.an.prog.resolve(self.mod, name)
        if g is None or not g.defined:
            for j, a in enumerate(args):
                if a is None:
                    continue
                if name.startswith("__gmpz_") or name.startswith("__gmpf_") or name.startswith("__gmpq_"):
                    if ins.ops[j][0].kind == "ptr" and not name.endswith(("get_str", "import", "export", "set_str", "random")) and j < 3:
                        self.use(st, a, ins, name.replace("__gmp", "mp"))
                elif not NOESCAPE.match(name):
                    self.escape(st, a)
            return True
        s = self.an.summary(g)
        for j, a in enumerate(args):
            if a is None:
                continue
            if not s.ok:
                if a[0][0] != "p":
                    self.escape(st, a)
                else:
                    st.ts[("esc", a[0][1])] = True
                continue
            if j in s.esc:
                if a[0][0] == "b":
                    self.escape(st, a)
                elif a[0][0] == "p":
                    st.ts[("esc", a[0][1])] = True
            bf = s.blk.get(j)
            if bf is not None:
                b = a[0]
                if b[0] == "b":
                    k = ("B", b)
                    if bf == F:
                        if st.ts.get(k) == F:
                            self.report("doublefree", (b, 0), ins, "the block allocated at %s is freed twice" % ir.loc(self.defs[b[1]]))
                        if st.ts.get(k) != E:
                            st.ts[k] = F
                            self.drop(st, b)
                    else:
                        self.escape(st, a)
                elif b[0] == "p":
                    st.ts[("blk", b[1])] = F if bf == F else "mixed"
            for (pj, off), (fin, used) in s.objs.items():
                if pj != j:
                    continue
                if off == "*" and a[0] not in self.collapsed:
                    self.escape(st, a) if a[0][0] != "p" else None
                    continue
                t = (a[0], "*" if off == "*" or a[1] == "*" else a[1] + off)
                if used and fin != I:
                    self.use(st, t, ins, name)
                if fin == I:
                    self.acquire(st, t, ins)
                elif fin == C:
                    self.release(st, t, ins)
                elif fin == "mixed":
                    k = self.key(t)
                    if k is not None:
                        st.ts[("o",) + k] = E
        if s.ok and s.fresh and ins.res is not None:
            k = ("B", ("b", ins.res))
            st.ts[k] = E if st.ts.get(k) == A else A
        return True

    def copyout(self, st, args):
        """a structure copied as a whole: the copy owns what the original owned"""
        for a in args[:2]:
            if a is not None and any(q[0] == "o" and q[1] == a[0] and v == I for q, v in st.ts.items()):
                self.escape(st, a)

    def leave(self, ins, st):
        r = None
        if ins.ops:
            a = self.addr(ins.ops[0][1], st)
            if a is not None:
                r = a[0]
                if a[0][0] == "p":
                    st.ts[("esc", a[0][1])] = True
        isnull = bool(ins.ops) and (ins.ops[0][1][0] == "null" or ins.ops[0][1][0] == "v" and st.facts.get(ins.ops[0][1][1]) == 0)
        self.exits[self.mkey(st)] = (dict(st.ts), r, isnull, ins)
        for k, v in st.ts.items():
            if k[0] == "o" and k[1][0] == "a" and v == I and self.get(st, k[1:]) == I:
                self.reps.setdefault(("leak", k[1:], "exit"), "%s is still initialised when %s returns" % (self.oname(k[1:]), self.f.name))
            if k[0] == "B" and v == A and r != k[1]:
                self.reps.setdefault(("blockleak", (k[1], 0), "exit"), "the block allocated at %s is not released when %s returns" % (
                    ir.loc(self.defs[k[1][1]]), self.f.name))

    def conclude(self, out):
        for (kind, key, where), text in self.reps.items():
            self.an.reports.append((self.f, kind, self.oname(key), where, text))
        ex = list(self.exits.values())
        n = len({k[1:] for ts, _, _, _ in ex for k in ts if k[0] in ("o", "B") and k[1][0] != "p"})
        if n:
            self.an.tracked[self.f] = n
        keys = set()
        for ts, r, isnull, ins in ex:
            for k in ts:
                if k[0] in ("o", "u") and k[1][0] == "p":
                    keys.add(k[1:])
                if k[0] == "esc":
                    out.esc.add(k[1])
                if k[0] == "blk":
                    out.blk.setdefault(k[1], F)
        for k in keys:
            vals = {ts.get(("o",) + k, P) for ts, _, _, _ in ex}
            fin = vals.pop() if len(vals) == 1 else "mixed"
            out.objs[(k[0][1], k[1])] = (fin, all(("u",) + k in ts for ts, _, _, _ in ex))
        for p in out.blk:
            if not all(ts.get(("blk", p)) == F for ts, _, _, _ in ex):
                out.blk[p] = "mixed"
        if ex and all((r is not None and r[0] == "b" and ts.get(("B", r)) == A) or isnull for ts, r, isnull, ins in ex) and \
                any(r is not None for _, r, _, _ in ex):
            out.fresh = True
        out.ok = True
