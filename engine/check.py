"""Obligation bookkeeping, evidence and verdicts."""
import json, os, sys, time, traceback
from . import build
from .absint import Undecided
from .poly import TooBig
from .scen import Missing
from .ir import IRError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Known:
    """known-findings.json: [{property, key, what}] - only these keys are accepted"""

    def __init__(self):
        p = os.path.join(VERIF, "known-findings.json")
        self.items = json.load(open(p))["findings"] if os.path.exists(p) else []

    def get(self, prop, key):
        for it in self.items:
            if it["property"] == prop and it["key"] == key:
                return it
        return None


class Check:
    def __init__(self, pid, rule, floor, assumptions=(), level="other"):
        self.pid, self.rule, self.floor = pid, rule, floor
        self.assumptions = list(assumptions)
        self.level = level
        self.ok, self.bad, self.und, self.known = [], [], [], []
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.kn = Known()
        self.extra = {}
        self.funcs = set()
        self.used = set()

    # --- an obligation: fn returns None (holds) or a violation message / list of (key, message)
    def ob(self, name, fn):
        try:
            r = fn()
        except (Undecided, TooBig) as e:
            self.und.append((name, "%s" % e))
            return None
        except Missing as e:
            self.und.append((name, "anchor not found: %s" % e))
            return None
        except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, RecursionError, MemoryError) as e:
            self.und.append((name, "internal: %s %s" % (type(e).__name__, e)))
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            return None
        if r is None or r is True or r == []:
            self.ok.append(name)
            return True
        if isinstance(r, str):
            r = [(name, r)]
        for key, msg in r:
            self.violation(key, msg)
        return False

    def parallel(self, items, worker, limit=120):
        """worker(check, item) states the obligations of one item; items run in forked processes"""
        import multiprocessing as mp
        global _work
        items = list(items)
        _work = (self, items, worker, limit)
        n = min(8, os.cpu_count() or 1, max(1, len(items)))
        if n == 1 or os.environ.get("VERIF_SERIAL"):
            res = map(_one, range(len(items)))
        else:
            pool = mp.get_context("fork").Pool(n)
            res = pool.imap(_one, range(len(items)))
        for ok, bad, und, known, funcs in res:
            self.ok += ok
            self.bad += bad
            self.und += und
            for k, w in known:
                if k not in self.used:
                    self.used.add(k)
                    self.known.append((k, w))
            self.funcs |= funcs
            if self.bad and os.environ.get("VERIF_FAILFAST"):
                break
        if n > 1 and not os.environ.get("VERIF_SERIAL"):
            pool.close()
            pool.join()

    def violation(self, key, msg):
        k = self.kn.get(self.pid, key)
        if k is not None:
            if key not in self.used:
                self.used.add(key)
                self.known.append((key, k["what"]))
        else:
            self.bad.append((key, msg))

    def good(self, name):
        self.ok.append(name)

    def undecided(self, name, why):
        self.und.append((name, why))

    def finish(self):
        decided = len(self.ok) + len(self.bad) + len(self.known)
        print("%s [%s]: %d obligations decided (%d hold, %d violated, %d known findings), %d undecided; floor %d"
              % (self.pid, self.tier, decided, len(self.ok), len(self.bad), len(self.known), len(self.und), self.floor))
        for n, w in self.und[:40]:
            print("  undecided: %s -- %s" % (n, w[:300]))
        for k, w in self.known:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, w))
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": self.level,
            "coverage": {
                "explanation": self.rule,
                "obligations": decided, "discharged": len(self.ok),
                "undecided": len(self.und), "undecided_list": ["%s: %s" % x for x in self.und][:60],
                "known_findings": ["%s: %s" % x for x in self.known],
                "functions_analysed": len(self.funcs),
                "functions": sorted(self.funcs)[:400],
                "samples": self.ok[:25],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(self.bad),
        }
        ev["coverage"].update(self.extra)
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.pid + ".json"), "w"), indent=1, default=str)
        if self.bad:
            rp = os.path.join(d, self.pid + ".violations.txt")
            with open(rp, "w") as f:
                for k, m in self.bad:
                    f.write("[%s] %s: %s\n" % (self.pid, k, m))
            seen = 0
            for k, m in self.bad[:30]:
                print("  violated: %s -- %s" % (k, m[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if decided < self.floor:
            print("ANALYSIS-BROKEN: only %d of at least %d obligations could be decided" % (decided, self.floor))
            return 3
        return 0


_work = None


def _expired(sig, frame):
    raise Undecided("time limit of the analysis reached")


BUDGET = {"quick": 700, "thorough": 7000}


def _one(i):
    import signal
    c, items, worker, limit = _work
    s = Check(c.pid, c.rule, 0, level=c.level)
    import resource
    import time
    # the whole check has a budget: what is left after it is undecided, not late
    left = int(BUDGET.get(c.tier, BUDGET["quick"]) - (time.time() - c.t0))
    if left <= 1:
        s.und.append((str(items[i])[:200], "no time left"))
        return s.ok, s.bad, s.und, s.known, s.funcs
    lim = resource.getrlimit(resource.RLIMIT_AS)
    if lim[0] == resource.RLIM_INFINITY or lim[0] > 7 << 29:
        resource.setrlimit(resource.RLIMIT_AS, (7 << 29, lim[1]))
    signal.signal(signal.SIGALRM, _expired)
    signal.alarm(min(limit, left))
    try:
        worker(s, items[i])
    except Undecided as e:
        s.und.append((str(items[i])[:200], str(e)))
    except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, RecursionError, TooBig, Missing, IRError, MemoryError) as e:
        s.und.append((str(items[i])[:200], "internal: %s %s" % (type(e).__name__, e)))
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
    finally:
        signal.alarm(0)
    return s.ok, s.bad, s.und, s.known, s.funcs


_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = build.load()
    return _prog
