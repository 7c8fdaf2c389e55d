"""Decides one property: seeded simulated runs, minimisation of what fails, replay files and evidence.

  run.py C01 [--tier quick|thorough] [--seed N] [--runs N] [--budget S] [--only INDEX] [--workers N]
  run.py C01 --replay FILE        run one replay file again (exit 1 and the VIOLATION line if it fails again)
  run.py C01 --selftest           run many scenarios twice (other worker count, other hash seed), compare histories
"""
import argparse
import importlib
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from sim import build as builder  # noqa: E402
from sim import engine  # noqa: E402
from sim import shrink as shrinker  # noqa: E402

PYTHON = "/opt/venv/bin/python"
EVIDENCE = os.path.join(VERIF, "evidence")


class HarnessError(RuntimeError):
    pass


class Pool:
    """Warm worker processes; each simulated run is a forked child of one of them."""

    def __init__(self, pid, lib, workers, hashseed=None):
        self.tasks = queue.PriorityQueue()
        self.results = queue.Queue()
        self.seq = 0
        self.procs = []
        self.fatal = None
        env = engine.environment()
        self.scratch = tempfile.mkdtemp(prefix="sim-scratch-")
        env["TMPDIR"] = self.scratch
        if hashseed is not None:
            env["PYTHONHASHSEED"] = str(hashseed)
        for _ in range(workers):
            proc = subprocess.Popen([PYTHON, "-m", "sim.worker", pid, lib], cwd=VERIF, env=env, stdin=subprocess.PIPE,
                                    stdout=subprocess.PIPE, text=True, bufsize=1)
            self.procs.append(proc)
            threading.Thread(target=self._serve, args=(proc,), daemon=True).start()

    def _serve(self, proc):
        first = proc.stdout.readline()
        try:
            hello = json.loads(first)
        except ValueError:
            hello = {"fatal": f"worker died at start: {first!r}"}
        if "fatal" in hello:
            self.fatal = hello["fatal"]
            self.results.put({"id": -1, "status": "fatal", "msg": hello["fatal"]})
            return
        while True:
            _, _, req = self.tasks.get()
            if req is None:
                return
            try:
                proc.stdin.write(json.dumps(req) + "\n")
                proc.stdin.flush()
                line = proc.stdout.readline()
                res = json.loads(line)
            except (ValueError, BrokenPipeError, OSError) as exc:
                self.results.put({"id": req["id"], "status": "harness", "kind": "worker-died", "msg": str(exc)})
                self.results.put({"id": -1, "status": "fatal", "msg": f"worker died: {exc}"})
                return
            self.results.put(res)

    def submit(self, req, prio=1):
        self.seq += 1
        self.tasks.put((prio, self.seq, req))

    def close(self):
        for proc in self.procs:
            try:
                proc.kill()
                proc.wait()
            except OSError:
                pass
        shutil.rmtree(self.scratch, ignore_errors=True)

    def run_all(self, reqs):
        """Run the given requests, return the results in order."""
        want = {}
        for i, req in enumerate(reqs):
            req["id"] = 10 ** 9 + self.seq + i
            want[req["id"]] = i
        for req in reqs:
            self.submit(req, 0)
        out = [None] * len(reqs)
        left = len(reqs)
        while left:
            res = self.results.get()
            if res["status"] == "fatal":
                raise HarnessError(res["msg"])
            if res["id"] in want:
                out[want[res["id"]]] = res
                left -= 1
        return out


def load_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path) or os.environ.get("SIM_NO_FINDINGS"):
        return []
    with open(path, encoding="utf8") as f:
        data = json.load(f)
    return [x for x in data.get("findings", []) if x["property"] == pid]


def matches(finding, res):
    return re.search(finding["kind"], res.get("kind", "")) and re.search(finding["match"], res.get("msg", ""), re.S)


def meta(pid):
    """The property module's description, without loading torch."""
    src = importlib.import_module(f"sim.props.meta")
    return src.META[pid]


def write_json(path, value):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = f"{path}.{os.getpid()}.tmp"
    with open(tmp, "w", encoding="utf8") as f:
        json.dump(value, f, indent=1, default=str)
    os.rename(tmp, path)


def report(pid, res, path):
    print(f"VIOLATION property={pid} replay={path}")
    print(f"  kind: {res['kind']}")
    print(f"  what: {res.get('msg', '')[:1500]}")
    if res.get("where"):
        print("  where:\n" + "\n".join("    " + ln for ln in res["where"].splitlines()[-14:]))
    sys.stdout.flush()


def replay(args, lib):
    with open(args.replay, encoding="utf8") as f:
        rec = json.load(f)
    pool = Pool(args.property, lib, 1)
    try:
        res = pool.run_all([{"scn": rec["scenario"], "tier": args.tier, "trace": True, "timeout": 120,
                             "stderr": args.verbose}])[0]
    finally:
        pool.close()
    if res["status"] == "violation":
        report(args.property, res, args.replay)
        if rec.get("digest") and rec.get("kind") == res["kind"] and res.get("stats") \
                and res["stats"]["digest"] != rec["digest"]:
            print("  note: the history differs from the recorded one (the tree is another one than at recording)")
        for line in res.get("trace", [])[-40:]:
            print("  " + line)
        return 1
    print(f"replay: {res['status']} {res.get('kind', '')} {res.get('msg', '')}")
    return 0 if res["status"] == "ok" else 2


def selftest(args, lib, info):
    runs = args.runs or 60
    seeds = [args.seed, args.seed + 1, args.seed + 2]
    reqs = [{"index": i, "seed": s, "tier": args.tier, "timeout": 120} for s in seeds for i in range(runs)]
    bad = 0
    base = None
    for workers, hashseed in ((8, 0), (3, 0), (8, 12345)):
        pool = Pool(args.property, lib, workers, hashseed)
        try:
            out = pool.run_all([dict(r) for r in reqs])
        finally:
            pool.close()
        got = [(r["status"], r.get("kind"), (r.get("stats") or {}).get("digest")) for r in out]
        if base is None:
            base = got
        else:
            diff = [i for i, (a, b) in enumerate(zip(base, got)) if a != b]
            bad += len(diff)
            print(f"selftest {args.property}: {len(got)} runs, workers={workers} hashseed={hashseed}: "
                  f"{len(diff)} histories differ {[(reqs[i]['seed'], reqs[i]['index']) for i in diff[:5]]}")
    return 1 if bad else 0


def main():
    # pylint: disable=too-many-locals,too-many-branches,too-many-statements
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--only", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("SIM_WORKERS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args()
    pid = args.property
    t0 = time.time()
    info = meta(pid)
    try:
        lib, binfo = builder.build()
    except RuntimeError as exc:
        print(f"engine build failed: {exc}", file=sys.stderr)
        return 2
    if args.replay:
        return replay(args, lib)
    if args.selftest:
        return selftest(args, lib, info)

    quick = args.tier == "quick"
    runs = args.runs or (info["runs"] if quick else 10 ** 9)
    budget = args.budget or (info.get("budget", 240) if quick else float(os.environ.get("SIM_THOROUGH_S", "600")))
    timeout = info.get("timeout", 60)
    findings = load_findings(pid)
    pool = Pool(pid, lib, args.workers)
    totals = {"faults": {}, "probes": {}, "states": set(), "steps": 0, "sim_time": 0.0, "checks": 0}
    samples = []
    digests = {}
    nontrivial = set()
    done = 0
    failures = {}
    known_hits = {}
    unreproduced = []
    harness = []
    rc = 0
    known_lines = []
    first_reqs = {}

    def absorb(res):
        stats = res.get("stats")
        if not stats:
            return
        for k, v in stats["faults"].items():
            totals["faults"][k] = totals["faults"].get(k, 0) + v
        for k, v in stats["probes"].items():
            totals["probes"][k] = totals["probes"].get(k, 0) + v
        totals["states"].update(stats["states"])
        totals["steps"] += stats["steps"]
        totals["sim_time"] += stats["sim_time"]
        totals["checks"] += stats["checks"]

    try:
        # the listed findings, each by its own history
        for fnd in findings:
            with open(os.path.join(VERIF, fnd["replay"]), encoding="utf8") as f:
                rec = json.load(f)
            res = pool.run_all([{"scn": rec["scenario"], "tier": args.tier, "timeout": 120}])[0]
            if res["status"] == "violation" and matches(fnd, res):
                known_lines.append(f"KNOWN-FINDING: property={pid} {fnd['what']}")
            elif res["status"] == "violation":
                failures[-1 - len(failures)] = dict(res, scn=rec["scenario"])
        t_start = time.time()
        nxt = args.only if args.only is not None else 0
        end = nxt + 1 if args.only is not None else runs
        inflight = 0
        stop = bool(failures) and not args.keep_going
        while True:
            while not stop and nxt < end and inflight < args.workers * 2 and time.time() - t_start < budget:
                req = {"id": nxt, "index": nxt, "seed": args.seed, "tier": args.tier, "timeout": timeout,
                       "trace": nxt < 3, "stderr": args.verbose}
                first_reqs[nxt] = req
                pool.submit(req)
                nxt += 1
                inflight += 1
            if inflight == 0:
                break
            res = pool.results.get()
            if res["status"] == "fatal":
                raise HarnessError(res["msg"])
            inflight -= 1
            done += 1
            absorb(res)
            if res["status"] == "ok":
                digests[res["id"]] = res["stats"]["digest"]
                if res["stats"]["checks"] > 0 and res["stats"]["steps"] > 0:
                    nontrivial.add(res["stats"]["digest"])
                if len(samples) < 3 and res.get("trace"):
                    samples.append({"index": res["id"], "scenario": res.get("scn"), "history": res["trace"][:25]})
            elif res["status"] == "violation":
                hit = next((f for f in findings if matches(f, res)), None)
                if hit:
                    known_hits[hit["id"]] = known_hits.get(hit["id"], 0) + 1
                    continue
                failures[res["id"]] = res
                if args.keep_going:
                    print(f"[{res['id']}] {res['kind']}: {res.get('msg', '')[:300]}", flush=True)
                else:
                    stop = True
            else:
                harness.append(res)
                if len(harness) > 5:
                    raise HarnessError(json.dumps(harness[:3], default=str)[:4000])
        explore_s = time.time() - t_start

        # a run that gave no answer is repeated once on its own
        for res in harness:
            again = pool.run_all([dict(first_reqs[res["id"]], timeout=120)])[0]
            if again["status"] == "violation":
                failures[again["id"]] = again
            elif again["status"] != "ok":
                raise HarnessError(json.dumps(again, default=str)[:4000])

        reported = []
        if failures:
            for idx in sorted(failures):
                res = failures[idx]
                scn = res.get("scn")
                if scn is None:
                    # the child died before it could say what it ran: generate the scenario again
                    scn = shrinker.regenerate(pool, pid, args.seed, idx, args.tier)
                confirmed = None
                for _ in range(3):
                    again = pool.run_all([{"scn": scn, "tier": args.tier, "timeout": max(120, timeout)}])[0]
                    if again["status"] == "violation":
                        confirmed = again
                        break
                if confirmed is None:
                    unreproduced.append({"index": idx, "kind": res["kind"], "msg": res.get("msg", "")[:300]})
                    continue
                small, sres, tried = shrinker.minimise(pool, scn, confirmed, args.tier, timeout)
                hit = next((f for f in findings if matches(f, sres)), None)
                if hit:
                    known_hits[hit["id"]] = known_hits.get(hit["id"], 0) + 1
                    continue
                name = re.sub(r"[^A-Za-z0-9]+", "-", sres["kind"])[:40]
                path = os.path.join(EVIDENCE, "replays", f"{pid}-s{args.seed}-{idx}-{name}.json")
                rec = {"property": pid, "verif_seed": args.seed, "index": idx, "kind": sres["kind"],
                       "msg": sres.get("msg"), "digest": (sres.get("stats") or {}).get("digest"),
                       "scenario": small, "original_scenario": scn, "minimisation_runs": tried,
                       "history": sres.get("trace")}
                write_json(path, rec)
                fresh = Pool(pid, lib, 1)
                try:
                    final = fresh.run_all([{"scn": small, "tier": args.tier, "trace": True,
                                            "timeout": max(120, timeout)}])[0]
                finally:
                    fresh.close()
                if final["status"] != "violation":
                    unreproduced.append({"index": idx, "kind": sres["kind"], "msg": "not in a fresh process"})
                    continue
                report(pid, final, path)
                reported.append({"kind": final["kind"], "msg": final.get("msg", "")[:500], "replay": path})
                rc = 1
                break
        # the same seed must give the same history
        recheck = {}
        if rc == 0 and digests:
            ids = sorted(digests)[:: max(1, len(digests) // 6)][:6]
            outs = pool.run_all([dict(first_reqs[i]) for i in ids])
            recheck = {i: (o.get("stats") or {}).get("digest") == digests[i] for i, o in zip(ids, outs)}
    except HarnessError as exc:
        print(f"harness error, no answer: {exc}", file=sys.stderr)
        return 2
    finally:
        pool.close()

    wall = time.time() - t0
    for line in known_lines:
        print(line)
    evidence = {
        "property": pid, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": done, "distinct_nontrivial": len(nontrivial), "rule": info["rule"],
            "samples": samples or [{"note": "no run of this batch completed without a violation"}],
            "oracle_checks": totals["checks"], "simulated_steps": totals["steps"],
            "simulated_runs_per_hour": round(3600 * done / max(explore_s, 1e-6)),
            "seeds_per_hour": round(3600 * done / max(explore_s, 1e-6)),
            "simulated_time_s": round(totals["sim_time"], 3),
            "faults_injected": dict(sorted(totals["faults"].items())),
            "reach_probes": dict(sorted(totals["probes"].items())),
            "distinct_states": len(totals["states"]), "distinct_states_measure": info["states"],
            "components_real": info["real"], "components_stubbed": info["stub"],
            "scenario_indices": [0 if args.only is None else args.only, max(nxt - 1, 0)],
            "determinism_recheck": recheck, "unreproduced": unreproduced,
            "known_findings_reproduced": known_lines, "known_finding_hits_in_search": known_hits,
            "engine_build": binfo, "exploration_s": round(explore_s, 2),
        },
        "assumptions": info["assumptions"], "wall_s": round(wall, 2), "violations": len(reported),
        "violation_details": reported,
    }
    write_json(os.path.join(EVIDENCE, f"{pid}.json"), evidence)
    if rc == 0:
        print(f"{pid}: held in {done} simulated runs ({totals['checks']} checks, {len(nontrivial)} distinct histories, "
              f"{sum(totals['faults'].values())} faults) in {wall:.1f} s")
    if unreproduced:
        print(f"note: {len(unreproduced)} failures did not reproduce: {unreproduced[:2]}", file=sys.stderr)
    if not all(recheck.values()):
        print(f"note: histories not repeatable: {recheck}", file=sys.stderr)
    return rc


if __name__ == "__main__":
    sys.exit(main())
