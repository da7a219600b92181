"""All randomness comes from the configured source."""
from engine.check import Check, program
from engine.effects import Facts
from engine.scen import Scenario, Missing
from engine.absint import Fn, Ptr, Undecided, OVERRIDE, EXTERN
from engine.poly import *
from engine.poly import T, A, as_atom, Poly, Term, terms, deps_of, subst_fn
from engine.ops import all_kinds, Kind, PolyKind, CurveKind, GenericKind, provided
from engine import ir, kinds as K_

ENTROPY = set("rand random rand_r srand srandom drand48 erand48 lrand48 nrand48 mrand48 jrand48 srand48 seed48 lcong48 random_r "
              "drand48_r lrand48_r arc4random arc4random_uniform arc4random_buf getrandom getentropy time gettimeofday clock "
              "clock_gettime times getpid getppid gethostid rdtsc __rdtsc llvm.readcyclecounter secure_getenv getenv "
              "__gmpz_urandomb __gmpz_urandomm __gmpz_rrandomb __gmpf_urandomb __gmp_urandomb_ui __gmp_urandomm_ui __gmpz_random "
              "__gmpz_random2 __gmpf_random2 __gmpn_random __gmpn_random2 __gmp_randinit_default __gmp_randinit_mt "
              "__gmp_randinit_lc_2exp __gmp_randinit __gmp_randseed __gmp_randseed_ui __gmp_randinit_set "
              "fopen open fopen64 open64 openat".split())
ROOTS = ["pbc_random_set_deterministic", "pbc_random_set_file", "pbc_random_set_function", "pbc_init_random", "pbc_mpz_random",
         "pbc_mpz_randomb", "pbc_get_time"]


def sources(F):
    """functions installed as a random source"""
    r = set()
    for m, f, ins in F.calls.get("pbc_random_set_function", []):
        for n in walk(ins.ops[0]):
            r.add(n)
    return r


def walk(x):
    from engine.effects import walk_const
    return list(walk_const(x))


def main():
    prog = program()
    c = Check("C10", "Effect analysis: entropy and clock functions are referenced only by the random sources that the library installs through "
              "its own configuration call, and only that call changes the source; abstract interpretation shows that a request reaches "
              "the configured source once with the caller's bound, and that each component of a random element is a fresh request.",
              floor=20)
    F = Facts(prog)
    srcs = sources(F)
    allowed = F.only_from(set(ROOTS) | srcs)
    bad = {}
    for n in sorted(ENTROPY):
        for m, f, ins in F.refs(n):
            if f is None:
                bad.setdefault("static data of " + m.name, []).append((n, m.name))
            elif f.name not in allowed:
                bad.setdefault("%s:%s" % (f.file, f.name), []).append((n, ir.loc(ins)))
    for k, v in sorted(bad.items()):
        c.violation(k, "; ".join("%s uses %s instead of the configured random source" % (w, n) for n, w in v))
    per = {}
    for m, f in F.fns:
        c.funcs.add(f.name)
        per.setdefault(m.name, []).append("%s:%s" % (f.file, f.name))
    for mod, fs in per.items():
        if not any(x in bad for x in fs):
            c.good("%s: %d functions use no other entropy" % (mod, len(fs)))
    # sources are only called through the request function
    for s in sorted(srcs):
        for m, f, ins in F.calls.get(s, []):
            if f.name not in allowed:
                c.violation("%s:%s" % (f.file, f.name), "%s calls the built-in source %s, not the configured one" % (ir.loc(ins), s))
        c.good("%s is only reached through the configuration" % s)
    for second in (False, True):
        c.ob("request" + (" after a second configuration" if second else ""), lambda: request(prog, second))
    c.ob("random bits", lambda: bits(prog))
    for k in all_kinds():
        if isinstance(k, (PolyKind, CurveKind, GenericKind)) or k.name == "field_init_z":
            continue
        c.ob("random element of " + k.name, lambda k=k: element(prog, k))
    for s in sorted(srcs):
        c.ob("source " + s, lambda s=s: source(prog, s))
        for bound in (2, 5, 129, 256, 1000, 40000, 65536, 1 << 20, (1 << 24) - 3):
            c.ob("range of source %s, bound %d" % (s, bound), lambda s=s: reach(prog, s, bound))
    for sd in (A("v", "seed"), 0, 1):
        c.ob("deterministic source, seed %s" % show(sd), lambda: seeded(prog, sd))
    c.ob("file source", lambda: filed(prog))
    for seq in [(a,) for a in "dfu"] + [(a, b) for a in "dfu" for b in "dfu"] + [("d", "u", "d"), ("u", "d", "f"), ("f", "d", "u")]:
        for between in (False, True):
            if len(seq) > 1 or not between:
                c.ob("configured as %s%s" % (" then ".join(SOURCES[x] for x in seq), ", used in between" if between else ""), lambda: configured(prog, seq, between))
    return c.finish()


def request(prog, second):
    S = Scenario(prog)
    I = S.I
    calls = []
    fun, data = Fn("!user source", None), S.raw("data")
    I.models["!user source"] = lambda I_, ins, n, a, st: calls.append(tuple(a))
    S.run1("pbc_random_set_function", fun, data)
    if second:
        data = 0
        S.run1("pbc_random_set_function", fun, data)
    z, lim = S.mpz("z"), S.mpz("limit")
    outs = S.run("pbc_mpz_random", z, lim)
    if not calls:
        return "a request for a random integer does not call the configured function"
    for x in calls:
        if x != (z, lim, data):
            return "a request calls the configured function with %r instead of the integer, the bound and the data" % (x,)
    if len(calls) != 1:
        return "a request for a random integer calls the configured function %d times" % len(calls)
    for st, _ in outs:
        if not equal(I.zcont(st, z), A("v", "z")) or not equal(I.zcont(st, lim), A("v", "limit")):
            return "a request changes the integer or the bound besides calling the configured function"
    return None


def bits(prog):
    S = Scenario(prog)
    I = S.I
    calls = []

    def rnd(I_, ins, n, a, st):
        calls.append((a[0], I.zcont(st, a[1])))
    I.models["pbc_mpz_random"] = rnd
    z = S.mpz("z")
    for n in (160, 64, 1):
        del calls[:]
        S.run("pbc_mpz_randomb", z, n, st=S.st.copy())
        if len(calls) != 1 or calls[0][0] != z:
            return "random bits: the requests are %s" % (calls,)
        if isinstance(calls[0][1], int) and calls[0][1] != 1 << n:
            return "%d random bits are requested with the bound %d" % (n, calls[0][1])
        if not isinstance(calls[0][1], int):
            raise Undecided("bound %s" % (calls[0][1],))
    return None


def rnds(v):
    r = set()

    def go(x):
        if isinstance(x, (tuple, list)):
            for y in x:
                go(y)
        elif isinstance(x, Poly):
            for t in terms(x):
                go(t)
        elif isinstance(x, Term):
            if x.op == "rnd":
                r.add(x)
            else:
                for y in x.args:
                    go(y)
    go(v)
    return r


def loose(v):
    """the value depends on something the analysis did not resolve"""
    return any(t in repr(v) for t in ("lphi(", "ret(", "libc(", "undef("))


def element(prog, k):
    S = Scenario(prog)
    F = k.setup(S)
    if not provided(S, F, "random"):
        return None
    e = S.elem(F, "e")
    k.put(S, e, "old", k.variants()[0])
    I = S.I
    lims = []
    base = OVERRIDE["pbc_mpz_random"]

    def rnd(I_, ins, n, a, st):
        lims.append(I.zcont(st, a[1]))
        return base(I_, ins, n, a, st)
    I.models["pbc_mpz_random"] = rnd
    if k.flagged:
        k.part(S, [e])
    outs = S.run("element_random", e)
    prime = getattr(k, "p", None)
    if prime is not None:
        for lim in lims:
            if not equal(lim, prime):
                if isinstance(lim, int) or deps_of(lim) <= deps_of(prime) and isinstance(lim, Poly):
                    return "a random element is requested with the bound %s instead of the order" % show(lim)
                raise Undecided("bound %s" % show(lim))
        if len(lims) != 1:
            return None if lims else "a random element is made without a request to the source"
    seen = 0
    for st, _ in outs:
        v = k.view(S, e, st)
        if v.get("zero"):
            continue
        comps = [(q, x) for q, x in sorted(v.items(), key=lambda t: str(t[0])) if q[1] != "m"]
        if len(comps) > 1 or prime is None:
            ds = []
            for q, x in comps:
                d = rnds(x)
                if not d:
                    if loose(x):
                        raise Undecided("component %s" % show(x)[:100])
                    return "the component of a random element at %s is %s, which no request to the source determines" % (q, show(x)[:100])
                if any(equal(x, y) for y in ds):
                    return "two components of a random element come from the same request"
                ds.append(x)
            seen += 1
        else:
            q, x = comps[0]
            d = rnds(x)
            if not d:
                if loose(x):
                    raise Undecided("value %s" % show(x)[:100])
                return "a random element is %s, which no request to the source determines" % show(x)[:100]
            a = as_atom(x)
            if k.name != "field_init_mont_fp" and not (a is not None and a.op == "rnd"):
                if len(d) == 1 and isinstance(x, Poly):
                    return "a random element is %s instead of the number the source returned" % show(x)[:100]
                raise Undecided("value %s" % show(x)[:200])
            seen += 1
    if not seen:
        raise Undecided("no value")
    return None


def source(prog, name):
    """a built-in source returns only numbers below the bound that come from bytes actually read"""
    S = Scenario(prog)
    I = S.I
    I.split = "branches"
    limit = A("v", "limit")
    z, lim, data = S.mpz("z"), S.mpz("limit"), S.raw("data")
    log, opened = [], []

    def m_urandomm(I_, ins, n, a, st):
        log.append(I.zcont(st, a[2]))
        return EXTERN["__gmpz_urandomm"](I_, ins, n, a, st)

    def m_fopen(I_, ins, n, a, st):
        opened.append(a[0])
        return EXTERN["fopen"](I_, ins, n, a, st)
    I.models["__gmpz_urandomm"] = m_urandomm
    I.models["fopen"] = m_fopen
    I.models["__gmpz_cmpabs"] = EXTERN["__gmpz_cmp"]        # bounds and drawn numbers are not negative
    outs = S.run(name, z, lim, data)
    for x in log:
        if not equal(x, limit):
            return "the source draws a number below %s instead of the requested bound" % show(x)
    for p in opened:
        if isinstance(p, Ptr) and p != data:
            return "the source reads another file than the configured one"
    drawn = 0
    for st, _ in outs:
        v = I.zcont(st, z)
        if equal(v, A("v", "z")):
            continue
        if not rnds(v):
            if loose(v):
                raise Undecided("value %s" % show(v)[:100])
            return "the source returns %s, which nothing random determines" % show(v)[:100]
        drawn += 1
        a = as_atom(v)
        if log and a is not None and a.op == "rnd":
            continue
        if not (a is not None and a.op == "mod" and equal(a.args[-1], limit)) and not below(st, v, limit):
            if loose(v):
                raise Undecided("value %s" % show(v)[:100])
            return "the source can return a number that is not below the bound: %s" % show(v)[:120]
        if "frombe(" in repr(v) or "fread" in repr(v):
            fr = [(t, b) for t, b in st.facts.items() if "libc(fread" in repr(t) or "fread" in repr(t)]
            if not fr:
                return "the source does not notice that fewer bytes were read than requested"
            if not any(t.op == "is0" and b for t, b in fr):
                short(fr)
                return "the source uses bytes that were not read: a short read is not noticed"
    if not drawn:
        raise Undecided("the source returns nothing")
    return None


def short(facts):
    """do the conditions on the number of bytes read admit fewer than requested? undecided unless surely"""
    for k in (1, 4):
        def f(t):
            if t.op == "libc" and t.args[0] == "fread":
                return k
            if t.op == "udiv":
                return 5
            return None
        good = True
        for t, b in facts:
            v = subst_fn(t.args[0], f)
            if not isinstance(v, int):
                raise Undecided("condition on the number of bytes read: %s" % (t,))
            if t.op not in ("is0", "neg"):
                raise Undecided("condition on the number of bytes read: %s" % (t,))
            if ((v == 0) if t.op == "is0" else (v < 0)) != bool(b):
                good = False
        if good:
            return
    raise Undecided("condition on the number of bytes read: %s" % (facts[0],))


def reach(prog, name, bound):
    """every number below the bound can be returned: no bits of it are always clear"""
    S = Scenario(prog)
    I = S.I
    I.split = "branches"
    I.models["__gmpz_cmpabs"] = EXTERN["__gmpz_cmp"]
    z = S.mpz("z")
    best = None
    for st, _ in S.run(name, z, S.mpz("limit", bound), S.raw("data")):
        v = as_atom(I.zcont(st, z))
        if v is None or v.op == "v":
            continue
        if v.op == "rnd":
            return None
        if v.op != "frombe" or not isinstance(v.args[1], int):
            raise Undecided("value %s" % v)
        n = v.args[1]
        for k in range(256):
            def f(t):
                if t.op == "sel" and t.args[0] is not None and rnds(t.args[0]) and all(isinstance(x, int) for x in t.args[1:3]):
                    return ((1 << 8 * t.args[2]) - 1) - (255 - k if t.args[1] == 0 else 0)
                if t.op == "rnd":
                    return ((1 << 8 * n) - 1) - (255 - k)
                if t.op in ("srem", "urem", "and"):
                    a = [x if isinstance(x, int) else subst_fn(x, f) for x in t.args]
                    if all(isinstance(x, int) for x in a):
                        return a[0] & a[1] if t.op == "and" else a[0] % a[1]
                return None
            x = subst_fn(v.args[0], f) if not isinstance(v.args[0], int) else v.args[0]
            if not isinstance(x, int) or not 0 <= x < 1 << 8 * n:
                raise Undecided("value %s" % v)
            x = int.from_bytes(x.to_bytes(n, "little"), "big")
            best = x if best is None else max(best, x)
    if best is None:
        raise Undecided("no value")
    if best < bound - 1:
        return "with the bound %d no number above %d can be returned" % (bound, best)
    return None


def below(st, v, limit):
    d = sub(v, limit)
    for t, b in st.facts.items():
        if t.op == "neg" and b and equal(t.args[0], d):
            return True
    return False


def seeded(prog, seed):
    """the deterministic source is the generator that was seeded, with the given seed"""
    S = Scenario(prog)
    I = S.I
    log = []
    for n in ("__gmp_randseed_ui", "__gmp_randseed", "__gmpz_urandomm"):
        def m(I_, ins, n_, a, st):
            log.append((n_, a))
            return EXTERN[n_](I_, ins, n_, a, st) if n_ in EXTERN else None
        I.models[n] = m
    I.models["pbc_mpz_random"] = lambda *a: NotImplemented
    S.run1("pbc_random_set_deterministic", seed)
    z, lim = S.mpz("z"), S.mpz("limit")
    S.run1("pbc_mpz_random", z, lim)
    seeds = [a for n, a in log if n.startswith("__gmp_randseed")]
    draws = [a for n, a in log if n == "__gmpz_urandomm"]
    if not draws:
        raise Undecided("no draw recognised")
    if not seeds:
        return "the deterministic source is not seeded"
    if not equal(seeds[-1][1], seed) if is_val(seeds[-1][1]) else False:
        return "the deterministic source is seeded with %s instead of the given seed" % show(seeds[-1][1])
    if any(d[1] != seeds[-1][0] for d in draws):
        return "numbers are drawn from another generator than the one that was seeded"
    return None


SOURCES = {"d": "deterministic", "f": "file", "u": "function"}


def configured(prog, seq, between):
    """the source configured last is the one that is used"""
    S = Scenario(prog)
    I = S.I
    I.split = "branches"
    log = []

    def spy(n, what):
        def m(I_, ins, n_, a, st):
            log.append((what, a))
            return EXTERN[n_](I_, ins, n_, a, st) if n_ in EXTERN else None
        I.models[n] = m
    for n in ("__gmp_randseed_ui", "__gmp_randseed"):
        spy(n, "seed")
    for n in ("__gmpz_urandomm", "__gmpz_urandomb", "__gmpz_rrandomb", "__gmp_urandomb_ui", "__gmp_urandomm_ui"):
        spy(n, "d")
    for n in ("fopen", "open", "getrandom"):
        spy(n, "f")
    I.models["!user source"] = lambda I_, ins, n, a, st: log.append(("u", a))
    I.models["pbc_mpz_random"] = lambda *a: NotImplemented
    for i, k in enumerate(seq):
        del log[:]
        arg = A("v", "seed%d" % i) if k == "d" else S.raw("data%d" % i)
        if k == "d":
            S.run1("pbc_random_set_deterministic", arg)
            sd = [a for w, a in log if w == "seed"]
            if not sd:
                return "choosing the deterministic source does not seed it"
            if is_val(sd[-1][1]) and not equal(sd[-1][1], arg):
                return "the deterministic source is seeded with %s instead of the given seed" % show(sd[-1][1])
        elif k == "f":
            S.run1("pbc_random_set_file", arg)
        else:
            S.run1("pbc_random_set_function", Fn("!user source", None), arg)
        if not between and i + 1 < len(seq):
            continue
        del log[:]
        outs = S.run("pbc_mpz_random", S.mpz("z%d" % i), S.mpz("limit%d" % i), st=S.st.copy())
        used = {w for w, a in log if w != "seed"}
        if not outs:
            raise Undecided("no way through a request")
        if used - {k}:
            return "after the %s source was chosen, a request uses the %s source" % (SOURCES[k], SOURCES[(used - {k}).pop()])
        if not used:
            raise Undecided("no use of a source recognised")
        for w, a in log:
            if w == "f" and isinstance(a[0], Ptr) and a[0] != arg:
                return "another file than the one chosen is opened"
            if w == "u" and a[2] != arg:
                return "the function chosen gets other data"
    return None


def filed(prog):
    S = Scenario(prog)
    I = S.I
    opened = []

    def m_fopen(I_, ins, n, a, st):
        opened.append(a[0])
        return EXTERN["fopen"](I_, ins, n, a, st)
    I.models["fopen"] = m_fopen
    I.models["pbc_mpz_random"] = lambda *a: NotImplemented
    name = S.raw("filename")
    S.run1("pbc_random_set_file", name)
    S.run("pbc_mpz_random", S.mpz("z"), S.mpz("limit"))
    if not opened:
        raise Undecided("no file opened")
    if any(isinstance(p, Ptr) and p != name for p in opened):
        return "after choosing a file as the source, another file is opened"
    return None
