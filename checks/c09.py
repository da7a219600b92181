"""All memory is obtained and released through the configured functions."""
from engine.check import Check, program
from engine.effects import Facts
from engine.scen import Scenario
from engine.absint import Fn, Ptr, Undecided
from engine.poly import *
from engine.poly import T, A
from engine import ir

RAW = set("malloc calloc realloc free strdup __strdup strndup __strndup asprintf vasprintf __asprintf_chk getline getdelim "
          "reallocarray aligned_alloc posix_memalign memalign valloc pvalloc cfree open_memstream mmap munmap sbrk brk "
          "__gmp_asprintf __gmp_vasprintf".split())
CONF = ("pbc_malloc", "pbc_realloc", "pbc_free")


def main():
    prog = program()
    c = Check("C09", "Effect analysis of the whole library: the C library's allocator is referenced only by the functions that are the "
              "initial values of the three configurable memory functions (or private helpers of those); only the configuration "
              "call writes the three variables, and it stores exactly its arguments; derived allocators request the bytes they fill.",
              floor=20)
    F = Facts(prog)
    defaults = set()
    for m in prog.mods:
        for g in m.globals.values():
            if g.name in CONF and g.init is not None:
                defaults |= {n for n in _fns(g.init)}
    allowed = F.only_from(defaults)
    # constructors may install wiping allocators for the big-integer library
    bad = {}
    for n in sorted(RAW):
        for m, f, ins in F.refs(n):
            if f is None:
                bad.setdefault("static data of " + m.name, []).append((n, m.name))
            elif f.name not in allowed:
                bad.setdefault("%s:%s" % (f.file, f.name), []).append((n, ir.loc(ins)))
    for k, v in sorted(bad.items()):
        c.violation(k, "; ".join("%s uses %s, bypassing the configured memory functions" % (w, n) for n, w in v))
    for m, f in F.fns:
        if "%s:%s" % (f.file, f.name) not in bad:
            c.funcs.add(f.name)
    per = {}
    for m, f in F.fns:
        per.setdefault(m.name, []).append("%s:%s" % (f.file, f.name))
    for mod, fs in per.items():
        if not any(x in bad for x in fs):
            c.good("%s: %d functions" % (mod, len(fs)))
    for n in CONF:
        ws = F.stores.get(n, [])
        o = [(f.name, ir.loc(i)) for _, f, i in ws if f.name != "pbc_set_memory_functions"]
        if o:
            c.violation("writes of " + n, "%s changes the configured function at %s" % o[0])
        else:
            c.good("%s is only written by the configuration call" % n)
    c.ob("configuration", lambda: configure(prog))
    c.ob("pbc_calloc", lambda: derived(prog, "pbc_calloc"))
    c.ob("pbc_strdup", lambda: derived(prog, "pbc_strdup"))
    c.ob("integer strings", lambda: gmp_strings(F))
    return c.finish()


def _fns(x):
    from engine.effects import walk_const
    return list(walk_const(x))


def configure(prog):
    S = Scenario(prog)
    args = [S.raw("fn%d" % i) for i in range(3)]
    outs = S.run("pbc_set_memory_functions", *args)
    for st, rv in outs:
        for g, want in zip(CONF, args):
            got = S.I.load(st, S.I.glob(next(m for m in prog.mods if g in m.globals), g), ir.PTR)
            if got != want:
                if isinstance(got, Ptr) or isinstance(got, Fn):
                    return "after configuring the memory functions %s is %s" % (g, got)
                raise Undecided("%s is %s" % (g, got))
    return None


def derived(prog, api):
    """pbc_calloc(n, size) and pbc_strdup(s) fill exactly what they request"""
    S = Scenario(prog)
    I = S.I
    log = []
    I.models["pbc_malloc"] = lambda I_, ins, n, a, st: (log.append(("malloc", a[0])), S.raw("blk"))[1]

    def cut(name):
        def f(I_, ins, n, a, st):
            log.append((name,) + tuple(a))
            return a[0]
        return f
    for n in ("memset", "memcpy", "strcpy", "memmove"):
        I.models[n] = cut(n)
    ln = A("v", "len")
    I.models["strlen"] = lambda I_, ins, n, a, st: ln
    if api == "pbc_calloc":
        n, s = A("v", "n"), A("v", "s")
        S.run(api, n, s)
        want = mul(n, s)
    else:
        S.run(api, S.raw("text"))
        want = add(ln, 1)
    sizes = [x[1] for x in log if x[0] == "malloc"]
    if len(sizes) != 1:
        raise Undecided("allocations: %s" % (log,))
    if not equal(sizes[0], want):
        return "%s requests %s bytes instead of %s" % (api, show(sizes[0]), show(want))
    fills = [x for x in log if x[0] != "malloc"]
    if api == "pbc_calloc":
        if not any(x[0] == "memset" and x[2] == 0 and equal(x[3], want) for x in fills):
            if not fills:
                return "pbc_calloc does not clear the block"
            if len(fills) == 1 and fills[0][0] == "memset" and is_val(fills[0][3]):
                return "pbc_calloc sets %s bytes to %s instead of %s bytes to 0" % (show(fills[0][3]), fills[0][2], show(want))
            raise Undecided("fills %s" % (fills,))
    elif not any(x[0] in ("strcpy",) or x[0] in ("memcpy", "memmove") and is_val(x[3]) and equal(x[3], want) for x in fills):
        raise Undecided("copy not recognised: %s" % (fills,))
    return None


def gmp_strings(F):
    """strings the big-integer library allocates are not handed to pbc_free"""
    for m, f, ins in F.calls.get("__gmpz_get_str", []):
        if ins.ops and ins.ops[0][1][0] == "null":
            for b in f.order:
                for i in f.blocks[b]:
                    if i.op == "call" and any(o[1] == ("v", ins.res) for o in i.ops if len(o) == 2) and freeing(f, i):
                        return "%s: a string allocated by the integer library is released by the library's free function" % ir.loc(i)
    return None


def freeing(f, call):
    if call.extra and call.extra[0] == "g":
        return call.extra[1] in ("pbc_free", "free")
    if call.extra and call.extra[0] == "v":
        for b in f.order:
            for i in f.blocks[b]:
                if i.res == call.extra[1] and i.op == "load":
                    return i.ops[0][1] == ("g", "pbc_free")
    return False
