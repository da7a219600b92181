"""No hidden state: results depend on arguments and explicit configuration only."""
from engine.check import Check, program
from engine.effects import Facts
from engine.scen import Scenario, Missing
from engine.absint import Fn, Ptr, Undecided
from engine.pairlife import strings
from engine.poly import *
from engine import ir
from checks.c10 import sources

CONFIG = ("pbc_tweak_use_fp pbc_set_memory_functions pbc_set_msg_to_stderr pbc_random_set_function pbc_random_set_deterministic "
          "pbc_random_set_file pbc_init_random pbc_mpz_random pbc_get_time").split()
MESSAGES = ("pbc_assert pbc_assert_match2 pbc_assert_match3 pbc_die pbc_info pbc_warn pbc_error").split()
PROCESS = set("setlocale setenv putenv unsetenv clearenv signal sigaction srand srandom srand48 chdir umask atexit on_exit strtok "
              "__gmp_set_memory_functions setvbuf setbuf dup2 freopen localtime gmtime asctime ctime tmpnam".split())


def main():
    prog = program()
    c = Check("C11", "Whole-library effect analysis: every variable with static storage that is not constant is written, or handed to a "
              "function that may write it, only inside the explicit configuration calls, the built-in random sources and the message "
              "layer (and private helpers of those); tables of functions shared by objects are never written; no process-wide state is set.",
              floor=15)
    F = Facts(prog)
    allowed = F.only_from(set(CONFIG) | set(MESSAGES) | sources(F))
    for m in prog.mods:
        for g in m.globals.values():
            if g.const or g.init is None or g.name.startswith((".str", "__const")):
                continue
            ws = list(writers(F, m, g))
            bad = [(f, i) for f, i, how in ws if f.name not in allowed]
            name = "%s:%s" % (m.name, g.name)
            if bad and not work_area(F, m, g) and not table(F, m, g):
                f, i = bad[0]
                c.violation(name, "%s (%s) changes the static variable %s: later calls depend on this one" % (ir.loc(i), f.name, g.name))
            else:
                c.good("%s: %d writing functions" % (name, len({f.name for f, _, _ in ws})))
    per = {}
    for m, f in F.fns:
        c.funcs.add(f.name)
        per.setdefault(m.name, []).append(f)
    for n in sorted(PROCESS):
        for m, f, ins in F.refs(n):
            if f is not None and f.name not in allowed:
                c.violation("%s:%s" % (f.file, f.name), "%s calls %s, which changes the state of the whole process" % (ir.loc(ins), n))
    for m, f in F.fns:
        for ins in shared_stores(m, f):
            c.violation("%s:%s" % (f.file, f.name), "%s writes a table of functions that all parameters of a kind share" % ir.loc(ins))
    for m, fs in per.items():
        c.good("%s: %d functions change no process-wide state" % (m, len(fs)))
    for nm in ("naive", "fast", "faster", "mont"):
        c.ob("choosing the %s implementation" % nm, lambda: tweak(prog, nm))
    c.ob("choosing an unknown implementation", lambda: tweak(prog, "?"))
    return c.finish()


def writers(F, m, g):
    k = F.key(m, g.name)
    for _, f, i in F.stores.get(k, []):
        yield f, i, "store"
    for mm, f, i in F.taken.get(g.name, []):
        if f is None or g.internal and mm is not m:
            continue
        if escapes(f, i, g.name):
            yield f, i, "address"


def escapes(f, i, name):
    """the address leaves through this instruction (or one computed from it)"""
    seen, todo = set(), [i]
    first = True
    while todo:
        x = todo.pop()
        if x.op == "load":
            continue
        if x.op == "store":
            v = x.ops[0][1]
            if first and v == ("g", name) or not first and v[0] == "v" and v[1] in seen:
                return True
            continue                     # a store to it is reported as such
        if x.op in ("icmp",):
            continue
        if x.op == "call":
            if x.extra and x.extra[0] == "g" and x.extra[1].startswith("llvm.memcpy"):
                d = x.ops[0][1]
                if d == ("g", name) or d[0] == "v" and d[1] in seen:
                    return True
                continue
            if x.extra == ("g", name):
                continue
            return True
        if x.op == "ret":
            return True
        first = False
        if x.res is not None and x.res not in seen:
            seen.add(x.res)
            for b in f.order:
                for y in f.blocks[b]:
                    if any(isinstance(o, tuple) and len(o) == 2 and o[1] == ("v", x.res) for o in y.ops):
                        todo.append(y)
    return False


def work_area(F, m, g):
    """a float initialised and cleared by each computation"""
    names = {}
    for mm, f, i in F.taken.get(g.name, []):
        if f is not None and i.op == "call" and i.extra and i.extra[0] == "g":
            names.setdefault(i.extra[1], 0)
    return g.internal and any(n.startswith("__gmpf_init") for n in names) and "__gmpf_clear" in names


def table(F, m, g):
    """a table of functions: its address is handed out, nothing is stored in it"""
    from engine.effects import walk_const
    fns = [n for n in walk_const(g.init)]
    return bool(fns) and not F.stores.get(F.key(m, g.name)) and any(n in F.names for n in fns)


def shared_stores(m, f):
    defs = {}
    for b in f.order:
        for i in f.blocks[b]:
            if i.res is not None:
                defs[i.res] = i
    for b in f.order:
        for i in f.blocks[b]:
            if i.op == "store" and i.ops[1][1][0] == "v":
                d = defs.get(i.ops[1][1][1])
                if d is not None and d.op == "getelementptr" and "pbc_param_interface" in str(d.type):
                    yield i


def tweak(prog, name):
    S = Scenario(prog)
    strings(S)
    I = S.I
    init = {"naive": "field_init_naive_fp", "fast": "field_init_fast_fp", "faster": "field_init_faster_fp", "mont": "field_init_mont_fp"}
    called = []
    for n in init.values():
        I.models[n] = lambda I_, ins, n_, a, st: called.append((n_, a))
    for n in ("__gmpz_fits_ulong_p",):
        I.models[n] = lambda I_, ins, n_, a, st: 0
    F, p = S.raw("F"), S.mpz("p", (1 << 160) + 7)

    def one():
        del called[:]
        S.run1("field_init_fp", F, p)
        if len(called) != 1 or list(called[0][1]) != [F, p]:
            raise Undecided("implementations initialised: %s" % (called,))
        return called[0][0]
    if name != "?":
        S.run1("pbc_tweak_use_fp", S.lit(name))
        got = one()
        return None if got == init[name] else "after choosing %s the field is made by %s" % (name, got)
    for k in init:
        S.run1("pbc_tweak_use_fp", S.lit(k))
        S.run1("pbc_tweak_use_fp", S.lit("no such name"))
        got = one()
        if got != init[k]:
            return "an unknown name replaces %s by %s" % (k, got)
    return None
