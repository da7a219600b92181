"""Who calls, references and writes what: whole-library facts from the IR."""
from . import ir


def walk_const(x):
    """globals mentioned in an operand or initialiser"""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "g":
            yield x[1]
            return
        for y in x:
            yield from walk_const(y)
    elif isinstance(x, list):
        for y in x:
            yield from walk_const(y)


class Facts:
    def __init__(self, prog):
        self.prog = prog
        self.fns = []            # (module, function)
        self.calls = {}          # callee name -> [(module, function, instr)]
        self.taken = {}          # function name -> [(module, function or None, instr or global name)]
        self.stores = {}         # global key -> [(module, function, instr)]
        self.loads = {}
        seen = set()
        self.names = set()
        for m in prog.mods:
            for f in m.functions.values():
                if f.defined:
                    self.names.add(f.name)
        for m in prog.mods:
            for g in m.globals.values():
                if g.init is not None:
                    for n in walk_const(g.init):
                        self.taken.setdefault(n, []).append((m, None, g.name))
            for f in m.functions.values():
                if not f.defined or (f.file, f.line, f.name) in seen:
                    continue
                seen.add((f.file, f.line, f.name))
                self.fns.append((m, f))
                self.scan(m, f)

    def key(self, m, n):
        g = m.globals.get(n)
        return (m.name, n) if g is not None and g.internal else n

    def scan(self, m, f):
        defs = {}
        for b in f.order:
            for ins in f.blocks[b]:
                if ins.res is not None:
                    defs[ins.res] = ins
        for b in f.order:
            for ins in f.blocks[b]:
                direct = None
                if ins.op == "call" and ins.extra and ins.extra[0] == "g":
                    direct = ins.extra[1]
                    self.calls.setdefault(direct, []).append((m, f, ins))
                for o in ins.ops:
                    for n in walk_const(o):
                        self.taken.setdefault(n, []).append((m, f, ins))
                if ins.op in ("store", "load"):
                    p = ins.ops[1][1] if ins.op == "store" else ins.ops[0][1]
                    for g in self.base(p, defs):
                        (self.stores if ins.op == "store" else self.loads).setdefault(self.key(m, g), []).append((m, f, ins))

    def base(self, p, defs, depth=0):
        """globals an address is based on"""
        if depth > 20:
            return
        if p[0] == "g":
            yield p[1]
        elif p[0] == "ce":
            yield from walk_const(p)
        elif p[0] == "v":
            i = defs.get(p[1])
            if i is None:
                return
            if i.op in ("getelementptr", "bitcast", "addrspacecast"):
                yield from self.base(i.ops[0][1], defs, depth + 1)
            elif i.op == "phi" or i.op == "select":
                for o in i.ops:
                    v = o[1] if isinstance(o, tuple) and len(o) == 2 and isinstance(o[1], tuple) else None
                    if v is not None:
                        yield from self.base(v, defs, depth + 1)

    def refs(self, name):
        """every use of a function: calls and address takings"""
        return self.calls.get(name, []) + self.taken.get(name, [])

    def only_from(self, roots):
        """functions whose every reference comes from the given functions (or functions added that way)"""
        ok = set(roots)
        changed = True
        while changed:
            changed = False
            for m, f in self.fns:
                if f.name in ok or not f.internal:
                    continue
                r = self.refs(f.name)
                if r and all(x[1] is not None and x[1].name in ok for x in r):
                    ok.add(f.name)
                    changed = True
        return ok
