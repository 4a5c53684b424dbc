"""Command line: run a check, replay a violation, prove determinism."""

import argparse
import gc
import json
import os
import sys
import time
import traceback

from . import core, runner

HERE = runner.HERE
ALL = ["C%02d" % i for i in range(1, 18)]
EVID = os.path.join(HERE, "evidence")


def known_findings(prop):
    """Open findings: (violation class, substring of the detail, text)."""
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [x for x in d.get("open", []) if x["property"] == prop]


def matches(finding, v):
    return v[0] == finding["class"] and all(s in v[1] for s in finding["contains"])


def tier_runs(mod, tier):
    return getattr(mod, "RUNS", {"quick": 1500, "thorough": 60000})[tier]


def main(argv):
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    a = sub.add_parser("run")
    a.add_argument("prop")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a.add_argument("--runs", type=int)
    a.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 4))
    a.add_argument("--wall", type=float)
    a.add_argument("--no-evidence", action="store_true")
    a.add_argument("--no-min", action="store_true")
    a = sub.add_parser("replay")
    a.add_argument("file")
    a.add_argument("--log", action="store_true")
    a = sub.add_parser("one")
    a.add_argument("prop")
    a.add_argument("seed")
    a.add_argument("--tier", default="quick")
    a.add_argument("--log", action="store_true")
    a = sub.add_parser("determinism")
    a.add_argument("props", nargs="*")
    a.add_argument("--runs", type=int, default=200)
    a = sub.add_parser("digest")
    a.add_argument("prop")
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--runs", type=int, default=200)
    a.add_argument("--workers", type=int, default=8)
    sub.add_parser("setup")
    args = ap.parse_args(argv)
    try:
        return globals()["cmd_" + args.cmd](args)
    except core.HarnessError as e:
        print("HARNESS ERROR:", e)
        return 2
    finally:
        runner.cleanup()


def cmd_setup(args):
    """Nothing is installed; check that what the checks need is there."""
    import shutil

    need = [sys.executable, shutil.which("gcc")]
    if not all(need):
        print("missing tool: %s" % need)
        return 1
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    print("ok")
    return 0


def prepare(prop):
    mod = runner.module(prop)
    try:
        runner.bootstrap()
        if hasattr(mod, "prepare"):
            mod.prepare(runner.SCRATCH)
    except core.HarnessError:
        raise
    except BaseException:
        tb = traceback.format_exc()
        if runner._in_repo(tb):
            # the package cannot even be imported
            return mod, tb
        raise
    gc.collect()
    gc.freeze()
    return mod, None


def cmd_run(args):
    t0 = time.time()
    prop = args.prop.upper()
    mod, broken = prepare(prop)
    if broken:
        return report(prop, args, mod, None, {"plan": None}, ("import-failed", broken), 0, t0, {})
    runs = args.runs or tier_runs(mod, args.tier)
    wall = args.wall or (420 if args.tier == "quick" else 6 * 3600)
    print("%s: tier=%s seed=%d runs=%d workers=%d repo=%s" % (
        prop, args.tier, args.seed, runs, args.workers, runner.REPO))
    sys.stdout.flush()
    agg = Agg()
    results = runner.batch(mod, args.tier, args.seed, runs, args.workers, wall, on_result=agg.add)
    errors = {i: r for i, r in results.items() if r.get("error") and not r.get("violation")}
    viols = {i: r for i, r in results.items() if r.get("violation")}
    agg.search_s = time.time() - t0
    if viols:
        i = min(viols)
        seed = "%d:%d" % (args.seed, i)
        plan = runner.make_plan(mod, seed, args.tier)
        r = viols[i]
        return finish_violation(prop, args, mod, agg, plan, r, seed, t0)
    if errors:
        i = min(errors)
        print("HARNESS ERROR in run %d:%d\n%s" % (args.seed, i, errors[i]["error"]))
        return 2
    for f in known_findings(prop):
        st = probe_finding(mod, f, args)
        if st:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    if not args.no_evidence:
        write_evidence(prop, args, mod, agg, t0, 0)
    print("%s: held on %d runs (%d non-trivial, %d distinct), %.1fs" % (
        prop, agg.n, agg.nontrivial, len(agg.distinct), time.time() - t0))
    return 0


def probe_finding(mod, f, args):
    """Run the recorded probe of an open finding; True if it still fails."""
    if "probe" not in f:
        return True
    env = mkenv(mod, "quick")
    res = runner.execute(env, f["probe"]["plan"], f["probe"].get("trace"))
    env.oracle.stop()
    return bool(res.get("violation") and matches(f, res["violation"]))


def mkenv(mod, tier):
    wd = os.path.join(runner.SCRATCH, "main")
    os.makedirs(wd, exist_ok=True)
    return runner.Env(mod, wd, runner.Oracle(mod, wd), tier)


def finish_violation(prop, args, mod, agg, plan, r, seed, t0):
    cls, detail = r["violation"]
    print("%s: violation %s in run %s\n%s" % (prop, cls, seed, detail))
    sys.stdout.flush()
    env = mkenv(mod, args.tier)
    trace = r.get("trace")
    info = {"seed": seed, "minimised": False}
    if r.get("died"):
        # no trace came back: the replay file re-runs the seed itself
        trace = None
    elif not args.no_min:
        p2, t2, cur, n = runner.minimise(env, plan, trace, cls)
        if cur is not None:
            plan, trace = p2, t2
            detail = cur["violation"][1]
            info = {"seed": seed, "minimised": True, "executions": n}
        else:
            print("note: the recorded trace did not reproduce the violation; "
                  "the replay file re-runs the seed")
            trace = None
    again = runner.execute(env, plan, trace)
    info["reproduced"] = bool(again.get("violation") and again["violation"][0] == cls)
    env.oracle.stop()
    data = {"property": prop, "class": cls, "detail": detail, "plan": plan, "trace": trace,
            "tier": args.tier, "info": info, "log": again.get("log")}
    return report(prop, args, mod, agg, data, (cls, detail), 1, t0, info)


def report(prop, args, mod, agg, data, v, n, t0, info):
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    path = os.path.join(EVID, "replays", "%s-%s.json" % (prop, args.seed))
    data.setdefault("property", prop)
    data.setdefault("class", v[0])
    data.setdefault("detail", v[1])
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    if data.get("plan"):
        print("minimised: %d ops, %d faults, %d preemptions, reproduced=%s" % (
            sum(len(t["ops"]) for t in data["plan"]["tasks"]),
            len((data["trace"] or {}).get("faults", {})),
            len((data["trace"] or {}).get("preempts", {})), info.get("reproduced")))
        print(v[1])
    if agg is not None and not args.no_evidence:
        write_evidence(prop, args, mod, agg, t0, 1)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


class Agg:
    def __init__(self):
        self.n = 0
        self.nontrivial = 0
        self.distinct = set()
        self.ilv = set()
        self.steps = self.switches = 0
        self.sim_ns = 0
        self.faults = {}
        self.stats = {}
        self.samples = []
        self.crc = {}
        self.search_s = 0

    def add(self, i, r):
        if i < 0 or r.get("error"):
            return
        self.n += 1
        self.crc[i] = (r["log"], r["steps"])
        self.steps += r["steps"]
        self.switches += r["switches"]
        self.sim_ns += r["sim_ns"]
        for k, v in r["faults"].items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in r["stats"].items():
            self.stats[k] = self.stats.get(k, 0) + v
        if r["switches"]:
            self.ilv.add(r["ilv"])
        if r.get("extra", {}).get("nontrivial"):
            self.nontrivial += 1
            self.distinct.add(r["log"])
        if len(self.samples) < 3 and r.get("extra", {}).get("nontrivial"):
            self.samples.append({"run": i, "steps": r["steps"], "switches": r["switches"],
                                 "faults": r["faults"], "stats": r["stats"],
                                 "event_log_crc": r["log"]})


def write_evidence(prop, args, mod, agg, t0, nviol):
    wall = time.time() - t0
    search = max(agg.search_s, 0.01)
    samples = []
    for s in agg.samples:
        seed = "%d:%d" % (args.seed, s["run"])
        plan = runner.make_plan(mod, seed, args.tier)
        s = dict(s)
        s["seed"] = seed
        s["plan"] = plan
        samples.append(s)
    ev = {
        "property": prop,
        "tier": args.tier if args.tier in ("quick", "thorough") else "quick",
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg.n,
            "distinct_nontrivial": len(agg.distinct),
            "rule": mod.RULE + "; distinct by the CRC of the run's event log (every I/O, "
                    "fault, switch and outcome)",
            "samples": samples,
            "nontrivial_runs": agg.nontrivial,
            "simulated_runs_per_hour": round(agg.n / search * 3600),
            "runs_per_seed": 1,
            "simulated_seconds": round(agg.sim_ns / 1e9, 3),
            "decision_points": agg.steps,
            "context_switches": agg.switches,
            "distinct_interleavings": len(agg.ilv),
            "interleaving_measure": "CRC of the sequence of (from task, to task, function and "
                                    "line offset) of all context switches of a run",
            "faults_injected": dict(sorted(agg.faults.items())),
            "probes": dict(sorted(agg.stats.items())),
            "real_components": mod.REAL,
            "stubbed_components": mod.STUB,
        },
        "assumptions": getattr(mod, "ASSUME", []) + [
            "search samples seeds; it does not enumerate all schedules or fault sequences",
        ],
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    os.makedirs(EVID, exist_ok=True)
    p = os.path.join(EVID, prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def cmd_replay(args):
    with open(args.file) as f:
        d = json.load(f)
    prop = d["property"]
    mod, broken = prepare(prop)
    if broken or d.get("plan") is None:
        print(broken or "no plan in replay file")
        return 1 if broken else 0
    env = mkenv(mod, d.get("tier", "quick"))
    res = runner.execute(env, d["plan"], d["trace"], keep_log=args.log)
    env.oracle.stop()
    if args.log:
        for l in res.get("log_lines") or ():
            print(l)
    if res.get("error"):
        print("HARNESS ERROR\n" + res["error"])
        return 2
    v = res.get("violation")
    if v:
        print("%s: %s" % tuple(v))
        same = v[0] == d["class"]
        print("same violation class: %s, same event log: %s" % (same, res["log"] == d.get("log")))
        print("VIOLATION property=%s replay=%s" % (prop, args.file))
        return 1
    print("no violation")
    return 0


def cmd_one(args):
    mod, broken = prepare(args.prop.upper())
    if broken:
        print(broken)
        return 1
    env = mkenv(mod, args.tier)
    plan = runner.make_plan(mod, args.seed, args.tier)
    print(json.dumps(plan, indent=1))
    res = runner.execute(env, plan, keep_log=args.log)
    env.oracle.stop()
    for l in res.pop("log_lines", None) or ():
        print(l)
    print(json.dumps({k: v for k, v in res.items() if k != "error"}, indent=1, default=str))
    print(res.get("error") or "")
    if res.get("violation"):
        print(res["violation"][0], res["violation"][1])
    return 0


def cmd_digest(args):
    mod, broken = prepare(args.prop.upper())
    agg = Agg()
    res = runner.batch(mod, "quick", args.seed, args.runs, args.workers, 1e9, on_result=agg.add)
    for i in sorted(res):
        r = res[i]
        print(i, r.get("log"), r.get("steps"), r.get("switches"), r.get("ilv"),
              (r.get("violation") or [""])[0], bool(r.get("error")))
    return 0


def cmd_determinism(args):
    """Same seeds in fresh interpreters: worker counts 8/8/3, another hash seed."""
    import subprocess

    bad = 0
    for prop in args.props or ALL:
        outs = []
        for workers, hs in ((8, "0"), (8, "0"), (3, "0"), (8, "4242")):
            env = dict(os.environ, VERIF_HASHSEED=hs)
            env.pop("PYTHONHASHSEED", None)
            r = subprocess.run(
                [sys.executable, os.path.join(HERE, "check.py"), "digest", prop,
                 "--runs", str(args.runs), "--workers", str(workers)],
                env=env, capture_output=True, text=True)
            if r.returncode:
                print(r.stdout[-2000:], r.stderr[-2000:])
            outs.append(r.stdout.splitlines())
        n = len(outs[0])
        diffs = [i for i in range(n) if len({tuple(o[i:i + 1]) for o in outs}) != 1]
        same = all(len(o) == n for o in outs)
        print("%s: %d runs x 4 executions, %d diverging%s" % (
            prop, n, len(diffs), "" if same else " (different number of runs)"))
        for i in diffs[:3]:
            print("   ", [o[i] for o in outs if i < len(o)])
        bad += len(diffs) + (not same)
    return 1 if bad else 0
