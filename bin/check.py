#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Decides one property of the jsoncolor tree in /repo.  Builds the harness
against /repo's working tree, records executions of the real code, and has TLC
check every one of them against the TLA+ specification in spec/; for some
properties TLC also enumerates behaviours of the specification, which are then
replayed into the real code.  See DESIGN.md.

Exit codes: 0 held on everything explored, 1 violated (with a VIOLATION line),
2 the check itself could not run.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
TLA = "/opt/veriftools/tla/"
CP = TLA + "tla2tools.jar:" + TLA + "CommunityModules-deps.jar"

sys.path.insert(0, os.path.join(VERIF, "bin"))
from plan import PLAN  # noqa: E402


class Infra(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/opt/veriftools/go1.26.10/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    return e


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vh-%s-" % prop)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "evaluations": 0, "cases_replayed_from_spec": 0, "steps_validated": 0,
                    "rounds": 0, "parts": {}, "samples": []}
        self.violations = []
        self.known = []

    # -- building ----------------------------------------------------------
    def build(self, race=False):
        src = os.path.join(self.dir, "harness")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
        out = os.path.join(self.dir, "vh-race" if race else "vh")
        if os.path.exists(out):
            return out
        cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
        r = subprocess.run(cmd, cwd=src, env=goenv(), capture_output=True, text=True, timeout=600)
        if r.returncode:
            raise Infra("building the harness failed:\n" + r.stdout + r.stderr)
        return out

    def build_cli(self):
        out = os.path.join(self.dir, "jc")
        if not os.path.exists(out):
            r = subprocess.run(["go", "build", "-o", out, "./cmd/jc"], cwd=REPO, env=goenv(),
                               capture_output=True, text=True, timeout=600)
            if r.returncode:
                raise Infra("building cmd/jc failed:\n" + r.stdout + r.stderr)
        return out

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, env, timeout, cfg=None, workers=8):
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), d)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in env.items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xss512m", "-Xmx12g", "-Djava.io.tmpdir=" + d, "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config",
               (cfg or module) + ".cfg", module + ".tla"]
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             text=True, errors="replace", start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            rc = None
        shutil.rmtree(d, ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ""))
        m = m or re.findall(r"([\d]+) states generated.*?([\d]+) distinct", out.replace(",", ""))
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        done = "Model checking completed. No error has been found." in out
        return {"done": done, "rc": rc, "out": out, "generated": gen, "distinct": dist}

    def count(self, part, r):
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        p = self.cov["parts"].setdefault(part, {"states": 0, "transitions": 0})
        p["states"] += r["distinct"]
        p["transitions"] += r["generated"]

    # -- violations ----------------------------------------------------------
    def violate(self, kind, data):
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        path = os.path.join(EVID, "replays", "%s-%d.json" % (self.prop, len(self.violations) + 1))
        data = dict(data, property=self.prop, kind=kind, seed_base=self.seed, tier=self.tier)
        with open(path, "w") as f:
            json.dump(data, f)
        self.violations.append(path)
        log("violation (%s): %s" % (kind, json.dumps(show(data))[:4000]))

    def side(self, d):
        try:
            b = open(os.path.join(d, "current"), "rb").read()
            n = int(b[:10])
            return b[10:10 + n].decode("utf-8", "replace")
        except Exception:
            return ""

    def run_harness(self, part, args, d, race=False, timeout=600, env=None):
        """Runs the harness; returns True when its output can be used."""
        vh = self.build(race)
        e = goenv()
        e.update(env or {})
        e["VH_SCRATCH"] = d
        e["GORACE"] = "halt_on_error=1 exitcode=66"
        e["GOTRACEBACK"] = "single"
        try:
            r = subprocess.run([vh] + args, cwd=d, env=e, capture_output=True, timeout=timeout,
                               stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            raise Infra("harness part %s did not finish in %d s" % (part, timeout))
        err = r.stderr.decode("utf-8", "replace")
        if r.returncode == 0:
            return True
        if r.returncode == 3 or "HARNESS:" in err:
            raise Infra("harness failed: " + err[-2000:])
        if r.returncode == -9:
            raise Infra("harness was killed (memory?)")
        what = {97: "hang", 66: "data race"}.get(r.returncode, "crash")
        self.violate(what, {"part": part, "args": args, "case": self.side(d), "stderr": err[-6000:]})
        return False

    # -- parts ---------------------------------------------------------------
    def validate(self, part, module, lines, timeout, env=None):
        """TLC on recorded traces; returns the rejected [(id, pos)]."""
        tr = os.path.join(self.dir, "trace.ndjson")
        rej = os.path.join(self.dir, "rej")
        if os.path.exists(rej):
            os.unlink(rej)
        with open(tr, "w") as f:
            f.writelines(lines)
        e = {"TRACE": tr, "REJ": rej}
        e.update(env or {})
        r = self.tlc(module, e, timeout)
        res = []
        if os.path.exists(rej):
            for l in open(rej):
                l = l.strip().strip('"').split()
                if len(l) >= 2:
                    res.append((int(l[0]), int(l[1])))
        if r["done"]:
            self.count(part, r)
            return res
        return None if not lines else self.bisect(part, module, lines, timeout, env, r)

    def bisect(self, part, module, lines, timeout, env, r):
        """TLC could not evaluate the specification on some trace: find it.
        Such a trace is not a behaviour of the specification."""
        if len(lines) == 1:
            i = json.loads(lines[0])["id"]
            log("TLC cannot evaluate trace %d: %s" % (i, r["out"][-1500:]))
            return [(i, 0)]
        if time.time() - self.t0 > 780:
            raise Infra("TLC did not finish:\n" + r["out"][-3000:])
        h = len(lines) // 2
        t = min(timeout, 60)
        res = []
        for half in (lines[:h], lines[h:]):
            if len(res) >= 3:
                break
            res += self.validate(part, module, half, t, env)
        return res

    def part_gen(self, name, part, seed, n, deadline):
        d = os.path.join(self.dir, "out")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        gen = part["gen"]
        args = ["gen", "-prop", gen, "-n", str(n), "-seed", str(seed), "-out", d]
        env = {}
        if part.get("cli"):
            env["VH_JC"] = self.build_cli()
        if not self.run_harness(name, args, d, race=part.get("race", False), env=env):
            return
        ev = os.path.join(d, "events.ndjson")
        lines = open(ev).readlines()
        self.cov["evaluations"] += len(lines)
        if part.get("module"):
            rej = self.validate(name, part["module"], lines, part.get("timeout", 400))
        else:
            rej = []
        if rej is None:
            raise Infra("TLC failed on an empty trace file")
        bad = dict(rej)
        self.cov["traces_validated_against_impl"] += len(lines) - len(bad)
        if len(self.cov["samples"]) < 4 and lines:
            for l in (lines[0], lines[len(lines) // 2]):
                self.cov["samples"].append(trim(show(json.loads(l))))
        by = {}
        for l in lines:
            t = None
            if bad:
                t = json.loads(l)
                by[t["id"]] = t
            self.cov["steps_validated"] += l.count('"k":')
        for i in sorted(bad)[:5]:
            t = by.get(i, {})
            p = bad[i]
            ops = t.get("ops", [])
            self.violate("rejected trace", {"part": name, "module": part["module"], "gen": gen, "n": n, "seed": seed,
                                            "id": i, "pos": p, "step": ops[p - 1] if 0 < p <= len(ops) else None,
                                            "trace": t if len(json.dumps(t)) < 300000 else None})

    def part_enum(self, name, part, seed, tier):
        """TLC enumerates cases from the specification, the harness replays them."""
        d = os.path.join(self.dir, "enum")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        cases = os.path.join(d, "cases")
        env = {"CASES": cases, "SEED": seed}
        env.update(part.get("env", {}))
        env.update(part.get("env_" + tier, {}))
        r = self.tlc(part["module"], env, part.get("timeout", 600), cfg=part.get("cfg_" + tier, part.get("cfg", part["module"])))
        if not r["done"] or not os.path.exists(cases):
            raise Infra("TLC enumeration %s failed:\n%s" % (part["module"], r["out"][-3000:]))
        self.count(name, r)
        args = ["replay", "-prop", part["replay"], "-cases", cases, "-out", d, "-seed", str(seed)]
        henv = {"VH_JC": self.build_cli()} if part.get("cli") else {}
        if not self.run_harness(name, args, d, race=part.get("race", False), env=henv):
            return
        n = 0
        bad = []
        for l in open(os.path.join(d, "result.ndjson")):
            x = json.loads(l)
            if "count" in x:
                n = x["count"]
            else:
                bad.append(x)
        if n == 0:
            raise Infra("no cases replayed for " + name)
        self.cov["cases_replayed_from_spec"] += n
        self.cov["evaluations"] += n
        self.cov["traces_validated_against_impl"] += n - min(n, len(bad))
        self.cov["parts"][name]["cases_replayed"] = self.cov["parts"][name].get("cases_replayed", 0) + n
        for b in bad[:5]:
            self.violate("spec behaviour not matched", {"part": name, "module": part["module"], "mismatch": b, "env": env})

    def part_model(self, name, part, tier):
        """Checks the invariants/properties of a design-level model."""
        cfg = part["cfg_" + tier] if "cfg_" + tier in part else part.get("cfg", part["module"])
        r = self.tlc(part["module"], part.get("env", {}), part.get("timeout", 600), cfg=cfg)
        if not r["done"]:
            raise Infra("model %s fails its own properties or does not finish:\n%s" % (part["module"], r["out"][-4000:]))
        self.count(name, r)

    # -- whole run -------------------------------------------------------------
    def run(self):
        plan = PLAN[self.prop]
        thorough = self.tier == "thorough"
        budget = float(os.environ.get("VERIF_BUDGET", "600")) if thorough else 0
        for name, part in plan.items():
            if part.get("tier") == "thorough" and not thorough:
                continue
            if part["kind"] == "model":
                self.part_model(name, part, self.tier)
            elif part["kind"] == "enum":
                self.part_enum(name, part, self.seed, self.tier)
            if self.violations:
                return
        rnd = 0
        while True:
            for name, part in plan.items():
                if part["kind"] != "gen":
                    continue
                if part.get("tier") == "thorough" and not thorough:
                    continue
                n = part["n"] if not thorough else part.get("n_thorough", part["n"] * 2)
                self.part_gen(name, part, self.seed * 1000003 + rnd * 7919, n, None)
                if self.violations:
                    return
            rnd += 1
            self.cov["rounds"] = rnd
            if not thorough or time.time() - self.t0 > budget:
                return

    def evidence(self):
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations),
              "assumptions": ["TLC evaluates the specification correctly", "the harness records what the code did",
                              "executions outside the generated and enumerated ones are not covered"]}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def show(x):
    """Byte arrays as text, for people."""
    if isinstance(x, list):
        if x and all(isinstance(i, int) and not isinstance(i, bool) and 0 <= i < 256 for i in x):
            return bytes(x).decode("utf-8", "backslashreplace")
        return [show(i) for i in x]
    if isinstance(x, dict):
        return {k: show(v) for k, v in x.items()}
    return x


def trim(x, n=1500):
    s = json.dumps(x, ensure_ascii=False)
    return x if len(s) <= n else s[:n] + "..."


def replay(path):
    """Runs the recorded violation again on the current tree."""
    data = json.load(open(path))
    c = Check(data["property"], data.get("tier", "quick"), data.get("seed_base", 1))
    try:
        if data["kind"] == "rejected trace":
            part = PLAN[data["property"]][data["part"]]
            d = os.path.join(c.dir, "out")
            os.makedirs(d)
            env = {"VH_JC": c.build_cli()} if part.get("cli") else {}
            ok = c.run_harness(data["part"], ["gen", "-prop", data["gen"], "-n", str(data["n"]), "-seed", str(data["seed"]),
                                              "-only", str(data["id"]), "-out", d], d, race=part.get("race", False), env=env)
            rej = []
            if ok:
                lines = open(os.path.join(d, "events.ndjson")).readlines()
                rej = c.validate("replay", data["module"], lines, 300)
            print("reproduced" if (not ok or rej) else "not reproduced")
            return 1 if (not ok or rej) else 0
        print(json.dumps(show(data), indent=1)[:6000])
        c.run()
        print("reproduced" if c.violations else "not reproduced")
        return 1 if c.violations else 0
    finally:
        c.close()


def main():
    a = sys.argv[1:]
    if "--replay" in a:
        sys.exit(replay(a[a.index("--replay") + 1]))
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    c = Check(prop, tier, seed)
    rc = 0
    try:
        c.run()
        c.evidence()
        if c.violations:
            rc = 1
            for p in c.violations[:5]:
                print("VIOLATION property=%s replay=%s" % (prop, p))
        else:
            print("OK property=%s tier=%s seed=%d traces=%d states=%d wall=%.1fs" % (
                prop, tier, seed, c.cov["traces_validated_against_impl"], c.cov["states"], time.time() - c.t0))
    except Infra as e:
        c.evidence()
        if c.violations:
            rc = 1
            for p in c.violations[:5]:
                print("VIOLATION property=%s replay=%s" % (prop, p))
        else:
            print("ERROR property=%s: %s" % (prop, e))
            rc = 2
    finally:
        c.close()
    sys.exit(rc)


main()
