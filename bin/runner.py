#!/usr/bin/env python3
"""Runs the checks of one property: TLC explores the specification and prints
behaviours, the harness executes them against /repo's current tree, TLC judges
the recorded traces. This file only moves data around; every verdict is TLC's.

usage: runner.py PROPERTY quick|thorough
exit:  0 the property held on everything explored, 1 a violation, 2 no answer
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(V, "bin"))
from plan import CASES, PLAN  # noqa: E402


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.budget = float(os.environ.get("VERIF_BUDGET", "0") or 0)
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = 0
        self.spec_states = 0
        self.sources = []
        self.mismatches = []
        self.crashes = []
        self.lock = threading.Lock()
        self.bins = {}
        self.scripts = {}

    # -- tools -------------------------------------------------------------
    def env(self, **kw):
        e = dict(os.environ)
        e.update({k: str(v) for k, v in kw.items()})
        return e

    def sh(self, cmd, timeout=800, **kw):
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)

    def build(self, flavor="plain"):
        """plain; race: with the race detector; deep: caches behind the stores stop at every operation."""
        with self.lock:
            if flavor in self.bins:
                return self.bins[flavor]
        ov = os.path.join(self.work, "overlay.json")
        files = {}
        for f in sorted(os.listdir(os.path.join(V, "harness"))):
            if f.endswith("_test.go"):
                files["%s/verifharness/%s" % (REPO, f)] = os.path.join(V, "harness", f)
        json.dump({"Replace": files}, open(ov, "w"))
        dst = os.path.join(self.work, "h-%s.test" % flavor)
        opts = {"race": "-race"}.get(flavor, "")
        if flavor == "deep":
            mod = self.deepmod()
            opts = "-tags verifdeep -modfile %s" % mod if mod else ""
        cmd = ". /opt/vp/env.sh && cd %s && go test %s -overlay %s -vet=off -c -o %s ./verifharness"
        r = self.sh(["bash", "-c", cmd % (REPO, opts, ov, dst)])
        if flavor != "plain" and (r.returncode != 0 or not os.path.exists(dst)):
            log("variant %s does not build: plain build used instead" % flavor)
            r = self.sh(["bash", "-c", cmd % (REPO, "", ov, dst)])
        if r.returncode != 0 or not os.path.exists(dst):
            log(r.stdout)
            raise NoAnswer("the harness does not build against /repo")
        with self.lock:
            self.bins[flavor] = dst
        return dst

    def deepmod(self):
        """A copy of go-cache whose methods call a hook first, and a go.mod using it."""
        name = "github.com/patrickmn/go-cache"
        r = self.sh(["bash", "-c", ". /opt/vp/env.sh && cd %s && go list -m -f '{{.Dir}}' %s" % (REPO, name)])
        src = r.stdout.strip()
        if r.returncode != 0 or not os.path.isdir(src):
            return None
        dst = os.path.join(self.work, "gocache")
        os.makedirs(dst, exist_ok=True)
        for f in os.listdir(src):
            if f.endswith(".go") and not f.endswith("_test.go"):
                t = open(os.path.join(src, f)).read()
                t = re.sub(r"(?m)^(func \(c \*cache\) [A-Z]\w*\(.*\{)$", r"\1\n\tif Hook != nil {\n\t\tHook()\n\t}", t)
                open(os.path.join(dst, f), "w").write(t)
        open(os.path.join(dst, "hook.go"), "w").write("package cache\n\n// Hook is called by every exported method first.\nvar Hook func()\n")
        open(os.path.join(dst, "go.mod"), "w").write("module %s\n" % name)
        mod = os.path.join(self.work, "deep.mod")
        open(mod, "w").write(open(os.path.join(REPO, "go.mod")).read() + "\nreplace %s => %s\n" % (name, dst))
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(self.work, "deep.sum"))
        return mod

    def tlc(self, module, name, workers=2, mem="3g", timeout=800, **env):
        meta = os.path.join(self.work, "meta-" + name)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + self.work, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", module + ".cfg", module + ".tla"]
        r = self.sh(cmd, cwd=os.path.join(V, "spec"), env=self.env(VERIF_TIER=self.tier, VERIF_SEED=self.seed, **env), timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
        if "Model checking completed. No error has been found" not in r.stdout or not m:
            tail = "\n".join(x for x in r.stdout.splitlines() if not x.startswith('"'))[-3000:]
            raise NoAnswer("TLC failed on %s (%s):\n%s" % (module, name, tail))
        out = [json.loads(x) for x in r.stdout.splitlines() if x.startswith('"')]
        return out, int(m.group(1)), int(m.group(2))

    def harness(self, test, name, timeout=600, flavor="plain", **env):
        """Executes one harness entry point; a crash of the process is reported with what it was doing."""
        r = self.sh([self.build(flavor), "-test.run", "^%s$" % test, "-test.timeout", "%ds" % timeout], cwd=self.work, timeout=timeout + 60,
                    env=self.env(GODEBUG="asynctimerchan=0", VERIF_SEED=self.seed, VERIF_REGISTRY=os.path.join(V, "spec/registry.json"), **env))
        return r

    # -- sources of scripts --------------------------------------------------
    def graph(self, sl):
        out, gen, dist = self.tlc("SolidGen", "gen-" + sl, VERIF_SLICE=sl)
        rng = random.Random("%d-%s" % (self.seed, sl))
        nodes = [json.loads(x[7:]) for x in out if x.startswith("SCRIPT ")]
        nodes.sort(key=lambda n: json.dumps(n["path"], sort_keys=True))
        paths = {json.dumps(n["path"], sort_keys=True) for n in nodes}
        scripts = []
        for i, n in enumerate(nodes):
            loops = sorted(n["loops"], key=lambda c: json.dumps(c, sort_keys=True))
            rng.shuffle(loops)
            edges = sorted(n["edges"], key=lambda c: json.dumps(c, sort_keys=True))
            rng.shuffle(edges)
            cmds = n["path"] + loops
            if edges:
                # one transition more, then the requests that must leave it unchanged once again
                cmds = cmds + [edges[0]]
            scripts.append({"id": "graph:%s:%d" % (sl, i), "cmds": cmds})
            for k, c in enumerate(edges[1:]):
                p = n["path"] + [c]
                if json.dumps(p, sort_keys=True) not in paths:
                    if self.tier == "thorough" or len(edges) < 12 or rng.random() < 0.25:
                        scripts.append({"id": "graph:%s:%d.%d" % (sl, i, k), "cmds": p})
        with self.lock:
            self.spec_states += dist
            self.states += dist
            self.transitions += gen
        return scripts

    FRESH = {"reg", "refresh", "exchange", "gate", "faults", "altered", "overlap", "conc", "race", "deep", "pair", "sdk", "sdkpar", "vt", "live", "livepar"}

    def table(self, tb):
        out, gen, dist = self.tlc("SolidCases" if tb in CASES else "SolidTables", "tab-" + tb, VERIF_SLICE=tb)
        macros = sorted((json.loads(x[6:]) for x in out if x.startswith("MACRO ")), key=lambda m: json.dumps(m, sort_keys=True))
        rng = random.Random("%d-%s" % (self.seed, tb))
        rng.shuffle(macros)
        kind = "overlap" if tb == "overlap" else ""
        size = 1 if tb in self.FRESH else 40 if tb in CASES else 8
        scripts = []
        for i in range(0, len(macros), size):
            cmds = [c for m in macros[i:i + size] for c in m]
            scripts.append({"id": "table:%s:%d" % (tb, i // size), "kind": kind, "cmds": cmds})
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.samples += len(macros)
        return scripts

    # -- execution -----------------------------------------------------------
    def execute(self, scripts, name, flavor="plain"):
        src, dst = os.path.join(self.work, name + ".in"), os.path.join(self.work, name + ".nd")
        with open(src, "w") as f:
            for s in scripts:
                f.write(json.dumps(s) + "\n")
        r = self.harness("TestScripts", name, flavor=flavor, VERIF_IN=src, VERIF_OUT=dst)
        if r.returncode != 0:
            self.crash(name, r.stdout, {s["id"]: s for s in scripts})
        for s in scripts:
            self.scripts[s["id"]] = s
        return dst

    def random(self, prof, n, depth, name):
        dst = os.path.join(self.work, name + ".nd")
        r = self.harness("TestRandom", name, VERIF_OUT=dst, VERIF_PROFILE=prof, VERIF_N=n, VERIF_DEPTH=depth)
        if r.returncode != 0:
            self.crash(name, r.stdout, {})
        if os.path.exists(dst + ".scripts"):
            for l in open(dst + ".scripts"):
                try:
                    s = json.loads(l)
                    self.scripts[s["id"]] = s
                except ValueError:
                    pass
        return dst

    def crash(self, name, out, scripts):
        """The process died: a crash inside zntrio/solid is an observation, anything else is no answer."""
        m = re.search(r"fatal error: [^\n]*|WARNING: DATA RACE|VERIF HANG[^\n]*|panic: [^\n]*", out)
        solid = r"zntr\.io/solid/(?!verifharness)"
        if m and "test timed out" not in m.group(0) and "verif:" not in m.group(0):
            first = out[m.start():]
            if "DATA RACE" in m.group(0):
                first = first.split("==================")[0]
            elif "VERIF HANG" not in m.group(0):
                first = first.split("\n\n")[0] + "\n\n" + (first.split("\n\n") + [""])[1]
            if "DATA RACE" in m.group(0):
                # the code making each of the two accesses, the library below it aside; an object of the harness
                # is written by these functions only once it was handed out, or handed over, for good
                own = solid + r"|zntr\.io/solid/verifharness\.(fill|overwrite|scribble|labelOf)\("
                mine = []
                for race in out[m.start():].split("WARNING: DATA RACE")[1:]:
                    race = race.split("==================")[0]
                    tops = [re.search(r"zntr\.io/solid/[^\n]*", b) for b in re.split(r"(?m)^(?:Read|Write|Previous read|Previous write) (?:at|of)", race.split("\nGoroutine ")[0])[1:]]
                    if any(x and re.match(own, x.group(0)) for x in tops):
                        mine, first = tops, "WARNING: DATA RACE" + race
                        break
            else:
                mine = re.search(solid, first)
            if mine:
                self.crashes.append({"source": name, "what": m.group(0), "owners": ["H01", self.prop], "output": first[:12000]})
                return
        raise NoAnswer("harness failed (%s):\n%s" % (name, out[-4000:]))

    def validate(self, files, name, workers=8):
        path = os.path.join(self.work, name + ".traces")
        n = ev = 0
        bad = 0
        with open(path, "w") as w:
            for f in files:
                if not os.path.exists(f):
                    continue
                for l in open(f):
                    try:
                        d = json.loads(l)
                    except ValueError:
                        bad += 1
                        continue
                    n += 1
                    ev += len(d["ev"])
                    w.write(l)
        if n == 0 and self.crashes:
            return
        if n == 0:
            raise NoAnswer("no trace was recorded (%s)" % name)
        out, gen, dist = self.tlc("SolidTrace", "trace-" + name, workers=workers, mem="10g", VERIF_TRACES=path)
        with self.lock:
            self.traces += n
            self.events += ev
            self.states += dist
            self.transitions += gen
        mis = [json.loads(x[9:]) for x in out if x.startswith("MISMATCH ")]
        if mis:
            want = {m["trace"] for m in mis}
            recs = {}
            for l in open(path):
                d = json.loads(l)
                if d["id"] in want:
                    recs[d["id"]] = d
            for m in mis:
                m["record"] = recs.get(m["trace"])
                m["script"] = self.scripts.get(m["trace"])
            self.mismatches += mis

    def go(self):
        self.build()
        jobs = PLAN[self.prop]
        plan = jobs.get(self.tier) or jobs["quick"]
        with ThreadPoolExecutor(max_workers=4) as ex:
            futs = []
            for item in plan:
                kind, arg = item[0], item[1]
                if kind == "graph":
                    futs.append((item, ex.submit(self.graph, arg)))
                elif kind == "table":
                    futs.append((item, ex.submit(self.table, arg)))
            scripts = {item: f.result() for item, f in futs}
        files = []
        byflavor = {}
        for item in scripts:
            byflavor.setdefault(item[2] if len(item) > 2 else "plain", []).extend(scripts[item])
        for item in scripts:
            self.sources.append("%s %s: %d scripts" % (item[0], " ".join(item[1:]), len(scripts[item])))
        for flavor in byflavor:
            files.append(self.execute(byflavor[flavor], "scripts-" + flavor, flavor))
        k = 0
        for item in plan:
            if item[0] == "random":
                k += 1
                files.append(self.random(item[1], item[2], item[3], "random%d" % k))
                self.sources.append("random %s: %d traces of %d commands" % (item[1], item[2], item[3]))
        if files:
            self.validate(files, "all")
        return self.report()

    # -- verdict -------------------------------------------------------------
    def known(self):
        path = os.path.join(V, "known-findings.json")
        return json.load(open(path))["findings"] if os.path.exists(path) else []

    def summary(self):
        """Every mismatch, whatever the property (for development)."""
        seen = {}
        for m in self.mismatches:
            k = (m["op"], tuple((f["what"], tuple(f["owners"])) for f in m["failed"]))
            seen.setdefault(k, []).append(m)
        for k, ms in sorted(seen.items(), key=lambda x: -len(x[1])):
            log("%d x %s e.g. %s:%d" % (len(ms), k, ms[0]["trace"], ms[0]["line"]))
        for c in self.crashes:
            log("crash", c["what"], c["source"])

    def report(self):
        if os.environ.get("VERIF_SUMMARY"):
            self.summary()
        mine = []
        for m in self.mismatches:
            owners = {o for f in m["failed"] for o in f["owners"]}
            if self.prop in owners:
                mine.append({"trace": m["trace"], "line": m["line"], "op": m["op"], "failed": [f for f in m["failed"] if self.prop in f["owners"]],
                             "script": m.get("script"), "record": m.get("record")})
        for c in self.crashes:
            if self.prop in c["owners"]:
                mine.append({"trace": c["source"], "line": 0, "op": "crash", "failed": [{"what": c["what"], "owners": c["owners"]}], "output": c["output"]})
        mine.sort(key=lambda m: (len((m.get("record") or {}).get("ev", [])), m["line"], m["trace"]))
        listed, fresh = [], []
        for m in mine:
            k = next((k for k in self.known() if k["property"] == self.prop and match(k, m)), None)
            (listed if k else fresh).append((k, m))
        for k in {id(k): k for k, _ in listed}.values():
            log("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        self.evidence([m for _, m in fresh], len(listed))
        if fresh:
            d = os.path.join(V, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s.json" % self.prop)
            json.dump([m for _, m in fresh][:20], open(path, "w"), indent=1)
            for _, m in fresh[:3]:
                log("  %s line %s (%s): %s" % (m["trace"], m["line"], m["op"], "; ".join(f["what"] for f in m["failed"])[:300]))
            log("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        log("property %s held: %d traces, %d events validated, %d specification states explored, %.1f s"
            % (self.prop, self.traces, self.events, self.spec_states, time.time() - self.t0))
        return 0

    def evidence(self, viol, listed):
        e = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "wall_s": round(time.time() - self.t0, 2),
            "coverage": {
                "states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                "samples": self.samples, "events_validated": self.events, "specification_states": self.spec_states,
                "mismatches_of_other_properties": len(self.mismatches) - len(viol) - listed, "sources": self.sources,
            },
            "violations": len(viol),
        }
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(e, open(os.path.join(V, "evidence", self.prop + ".json"), "w"), indent=1)


def match(k, m):
    """A listed finding matches a mismatch with the same operation, condition and case."""
    if k.get("op") != m["op"] or k.get("condition") not in [f["what"] for f in m["failed"]]:
        return False
    rec = m.get("record")
    if not rec or not 0 < m["line"] <= len(rec["ev"]):
        return False
    a = rec["ev"][m["line"] - 1].get("a", {})
    return all(a.get(x) == y for x, y in k.get("case", {}).items())


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    if prop not in PLAN:
        log("unknown property", prop)
        return 2
    r = Run(prop, tier)
    try:
        return r.go()
    except NoAnswer as e:
        log("no answer:", e)
        return 2
    except subprocess.TimeoutExpired as e:
        log("no answer: time limit", e.cmd[:3])
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(r.work, ignore_errors=True)
        else:
            log("kept", r.work)


if __name__ == "__main__":
    sys.exit(main())
