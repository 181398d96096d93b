#!/usr/bin/env python3
"""Builds and confirms one planted bug: mkseed.py DEF.py ...

DEF.py defines id, property, needs, breaks, edits=[(file, old, new)], demo (Go
source of the demonstration), lib (False: no helper). In a scratch copy of
/repo the change must apply, build and pass the stable tests, and the
demonstration must pass without it and fail with it.
"""
import json, os, runpy, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seedwt"


def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def stable_tests():
    """The suite's stable tests, run in the scratch copy."""
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    r = sh(". /opt/vp/env.sh; cd %s && go test -json -vet=off -count=1 $(packages)" % WT)
    status = {}
    for l in r.stdout.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Test") and e.get("Action") in ("pass", "fail"):
            status[e["Package"] + "/" + e["Test"]] = e["Action"]
    bad = sorted(x for x in stable if status.get(x) != "pass")
    return bad, r.stdout


def one(path):
    d = runpy.run_path(path)
    sid = d["id"]
    sh("rm -rf /tmp/seedwt && cp -a /repo /tmp/seedwt")
    for f, old, new in d["edits"]:
        p = os.path.join(WT, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "%s: %d occurrences in %s" % (sid, s.count(old), f)
        open(p, "w").write(s.replace(old, new))
    out = os.path.join(V, "seeded", sid)
    tmp = "/tmp/seedout"
    sh("rm -rf /tmp/seedout && mkdir -p /tmp/seedout")
    diff = sh("git -C %s diff" % WT).stdout
    open(tmp + "/patch.diff", "w").write(diff)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
    shutil.copy(V + "/tools/seedlib/demo.sh", tmp + "/demo.sh")
    os.chmod(tmp + "/demo.sh", 0o755)
    if d.get("lib", True):
        shutil.copy(V + "/tools/seedlib/helper_test.go", tmp)
    open(tmp + "/demo_test.go", "w").write(d["demo"].lstrip())
    # original lines only
    bad, log = stable_tests()
    if bad:
        return "%s: tests notice the change: %s" % (sid, bad[:5])
    r = sh("cd %s && %s/demo.sh" % (WT, tmp))
    if r.returncode == 0:
        return "%s: the demonstration passes with the change\n%s" % (sid, r.stdout[:900])
    if "build failed" in r.stdout or "[setup failed]" in r.stdout:
        return "%s: demo does not build\n%s" % (sid, r.stdout[:900])
    r2 = sh("cd /repo && %s/demo.sh" % tmp)
    if r2.returncode != 0:
        return "%s: the demonstration fails without the change\n%s" % (sid, r2.stdout[:900])
    added = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(tmp, out)
    return "%s: kept (%s)" % (sid, "; ".join(x.strip() for x in r.stdout.splitlines() if "_test.go" in x)[:300])


for p in sys.argv[1:]:
    print(one(p), flush=True)
sh("rm -rf /tmp/seedwt /tmp/seedout")
