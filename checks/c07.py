"""Temporaries are initialised before use and released exactly once on every path."""
from engine.check import Check, program
from engine.typestate import Analysis, Func, primitive, ALLOC
from engine import ir


def main():
    prog = program()
    c = Check("C07", "Path-sensitive typestate analysis of every library function with bottom-up summaries: each local element, field, "
              "big integer, array and heap block that does not escape goes through initialise - use - release exactly once on every "
              "path to the return; conditions taken earlier on a path prune contradictory continuations.", floor=60)
    an = Analysis(prog)
    an.all()
    bad = {}
    for f, kind, o, w, t in an.reports:
        bad.setdefault(f, []).append((kind, o, w, t))
    seen = set()
    for m in prog.mods:
        for f in m.functions.values():
            if not f.defined or (f.file, f.line, f.name) in seen:
                continue
            seen.add((f.file, f.line, f.name))
            if f in bad:
                for kind, o, w, t in bad[f]:
                    where = w if w != "exit" else "%s:%d" % (f.file, f.line)
                    c.violation("%s:%s:%s:%s" % (f.file, f.name, kind, o), "%s: %s: %s" % (where, f.name, t))
                continue
            if f in an.tracked:
                c.funcs.add(f.name)
                c.good("%s:%s: %d objects" % (f.file, f.name, an.tracked[f]))
    for f, e in an.gaveup:
        c.und.append(("%s:%s" % (f.file, f.name), e))
    c.extra["typestate"] = an.stats
    return c.finish()
