"""Development aid (no check uses it): make and confirm a planted bug.

mk(id, property, [(file, old, new)...], needs, breaks, demo_c) writes seeded/<id>/;
confirm(id) applies it to /repo, builds, runs the stable tests, the demo and the check, undoes it."""
import json, os, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"

DEMO = '''#!/bin/bash
# run with cwd /repo after the build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -w -g -I/repo/include -I/repo -o "$t/demo" "$d/demo.c" /repo/.libs/libpbc.a -lgmp -lm %s || exit 2
cd "$t" && timeout 120 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def mk(sid, prop, edits, needs, breaks, demo, extra="", demosh=None):
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo dirty"
    for f, old, new in edits:
        p = os.path.join(R, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh("git -C /repo diff").stdout
    sh("git -C /repo checkout -- .")
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.c"), "w").write(demo) if demo else None
    open(os.path.join(d, "demo.sh"), "w").write(demosh or DEMO % extra)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    confirm(sid)


def confirm(sid, checks=None, tests=True):
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo dirty"
    out = [sid, meta["property"]]
    try:
        b0 = sh("bash /opt/vp/build.sh && cd /repo && bash %s/demo.sh" % d)
        out.append("clean-demo=%d" % b0.returncode)
        if b0.returncode:
            print((b0.stdout + b0.stderr)[-800:])
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode:
            out.append("PATCH-FAILS " + r.stderr)
        else:
            r = sh("bash /opt/vp/build.sh")
            if r.returncode:
                out.append("BUILD-FAILS" + r.stderr[-400:])
            else:
                r = sh("cd /repo && bash %s/demo.sh" % d)
                out.append("bug-demo=%d" % r.returncode)
                if tests:
                    sh("bash /opt/vp/test.sh /tmp/seedt.json")
                    got = set(json.load(open("/tmp/seedt.json"))["passed"])
                    out.append("tests-lost=%s" % sorted(base - got)[:4])
                for c in checks or [meta["property"]]:
                    r = sh("cd %s && timeout 900 python3 run.py %s quick" % (V, c))
                    v = [l for l in r.stdout.splitlines() if "violated:" in l]
                    out.append("%s:rc=%d %s" % (c, r.returncode, v[0][:200] if v else ""))
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    print(" | ".join(out), flush=True)


if __name__ == "__main__":
    for s in sys.argv[1:]:
        confirm(s)
