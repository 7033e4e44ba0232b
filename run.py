#!/usr/bin/env python3
"""Runs the check of one property.

usage: run.py PROPERTY [TIER]     run the check (VERIF_SEED, VERIF_TIER)
       run.py --replay FILE       run the case of a replay file again
"""
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
GO = "/opt/veriftools/go1.24.13/bin/go"
sys.path.insert(0, os.path.join(VERIF, "checks"))

from config import CHECKS  # noqa: E402


def goenv():
    e = dict(os.environ)
    e.update(
        PATH=os.path.dirname(GO) + ":" + e.get("PATH", "/usr/bin:/bin"),
        GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod",
        GOPATH=e.get("GOPATH", "/root/go"), GOSUMDB="off",
        GOTRACEBACK="all",
    )
    e.pop("GOROOT", None)
    return e


class CheckError(Exception):
    """The check could not give an answer."""


def build(tmp, race=False, instrument=True):
    """Builds the worker from the working tree of the repository."""
    env = goenv()
    mod = os.path.join(tmp, "go.mod")
    # a copy: go may update it
    shutil.copy(os.path.join(HARNESS, "go.mod"), mod)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(tmp, "go.sum"))
    args = [GO, "build", "-modfile", mod]
    if instrument:
        ov = os.path.join(tmp, "ov")
        os.makedirs(ov)
        r = subprocess.run([GO, "run", "-modfile", mod, "./instr", ov, os.path.join(tmp, "overlay.json"),
                            REPO + "/srpc", REPO + "/rpcstream"], cwd=HARNESS, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("instrumenter failed: " + r.stderr[-2000:])
        args += ["-overlay", os.path.join(tmp, "overlay.json")]
    if race:
        args += ["-race"]
    out = os.path.join(tmp, "worker-race" if race else "worker")
    r = subprocess.run(args + ["-o", out, "./worker"], cwd=HARNESS, env=env, capture_output=True, text=True)
    if r.returncode != 0 and instrument:
        # not because of the inserted scheduling points?
        print("build with scheduling points failed, building without: " + r.stderr[-600:])
        return build(tmp, race, False)
    if r.returncode != 0:
        raise CheckError("build failed: " + r.stderr[-3000:])
    return out


def run_workers(tmp, worker, prop, tier, seed, scale, limit, race=False, shards=8, tag="w", extra=()):
    """Runs the shards. Returns (reports, problems)."""
    procs = []
    env = goenv()
    if race:
        env["GORACE"] = "halt_on_error=1 exitcode=66 history_size=3"
    for i in range(shards):
        out = os.path.join(tmp, f"{tag}{i}.json")
        err = open(os.path.join(tmp, f"{tag}{i}.err"), "wb")
        cmd = [worker, "-prop", prop, "-seed", str(seed), "-shard", str(i), "-shards", str(shards), "-tier", tier,
               "-out", out, "-scale", str(scale)] + list(extra)
        if race:
            cmd.append("-racemode")
        p = subprocess.Popen(cmd, stdout=err, stderr=err, env=env, start_new_session=True, cwd=tmp)
        procs.append((i, p, out, err))
    deadline = time.time() + limit
    reports, problems = [], []
    for i, p, out, err in procs:
        timed_out = False
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            timed_out = True
            p.send_signal(signal.SIGQUIT)
            try:
                p.wait(10)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        err.close()
        with open(os.path.join(tmp, f"{tag}{i}.err"), errors="replace") as f:
            text = f.read()
        if p.returncode == 0 and not timed_out:
            with open(out) as f:
                reports.append(json.load(f))
            continue
        problems.append({"shard": i, "rc": p.returncode, "timeout": timed_out, "text": text})
    return reports, problems


def classify_crash(text):
    """Tells if the crash of a worker is a failure of the code under test."""
    m = re.search(r"WARNING: DATA RACE\n(.*?)\n==================", text, re.S)
    if m:
        body = m.group(1)
        if "aperturerobotics/starpc/" in body:
            return "data-race", body
        return None, body
    m = re.search(r"^(panic: .*|fatal error: .*|unexpected fault address.*)$", text, re.M)
    if m:
        tail = text[m.start():]
        # the goroutine which failed is printed first
        g = re.search(r"^goroutine \d+ .*?\n(.*?)(\n\n|\Z)", tail, re.M | re.S)
        body = m.group(1) + "\n" + (g.group(1) if g else "")
        if "all goroutines are asleep" in m.group(1):
            return "deadlock", tail[:6000]
        if "aperturerobotics/starpc/" in body:
            return "panic", body
        if m.group(1).startswith("panic: ") and "/harness/worker/" in body:
            # a monitor met a value which the code must not return
            return "monitor-panic", body
        return None, body
    return None, text[-3000:]


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) match=/(.*?)/ (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3), re.S), m.group(4)))
    return out


def write_replay(prop, tier, seed, v, n):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{seed}-{n}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, **v}, f, indent=1)
    return path


def merge(reports):
    m = {"evaluations": 0, "sigs": set(), "hists": set(), "counters": {}, "samples": [], "violations": [],
         "inconclusive": [], "sets": {}}
    for r in reports:
        m["evaluations"] += r["evaluations"]
        m["sigs"].update(r["sigs"] or [])
        m["hists"].update(r.get("hists") or [])
        for k, v in (r["counters"] or {}).items():
            if k == "vhook_points_seen":
                continue
            m["counters"][k] = m["counters"].get(k, 0) + v
        m["samples"] += (r["samples"] or [])[:1]
        m["violations"] += (r["violations"] or []) + (r.get("findings") or [])
        m["inconclusive"] += r["inconclusive"] or []
        for k, l in (r.get("sets") or {}).items():
            m["sets"].setdefault(k, set()).update(l)
    return m


def go_check(prop, cfg, tier, seed, tmp):
    """A check run by the Go worker."""
    results = []
    viol = []
    for mode in cfg["modes"]:
        race = mode.get("race", False)
        if mode.get("tier") and mode["tier"] != tier:
            continue
        worker = build(os.path.join(mkdir(tmp, "race" if race else "plain")), race=race,
                       instrument=mode.get("instrument", True))
        scale = mode.get("thorough_scale", 20) if tier == "thorough" else 1
        limit = mode.get("limit", 400) if tier == "quick" else 20000
        name = mode.get("prop", prop)
        tag = "race" if race else "w"
        reports, problems = run_workers(tmp, worker, name, tier, seed, scale, limit, race=race,
                                        shards=mode.get("shards", 8), tag=tag)
        for p in problems:
            kind, body = classify_crash(p["text"])
            if kind:
                viol.append({"key": kind, "msg": body[:5000], "shard": p["shard"], "index": -1})
            elif p["timeout"]:
                raise CheckError("shard %d did not finish in time:\n%s" % (p["shard"], p["text"][:3000]))
            else:
                raise CheckError("shard %d failed (%s):\n%s" % (p["shard"], p["rc"], p["text"][-3000:]))
        m = merge(reports)
        # a case which got no answer in time is run again, alone
        for inc in m["inconclusive"][:3]:
            reps, probs = run_workers(tmp, worker, name, tier, seed, scale, 400, race=race, shards=1, tag="again",
                                      extra=["-only", str(inc["index"]), "-repeat", "3"])
            if probs or (reps and reps[0]["inconclusive"]):
                viol.append({"key": "no-progress", "index": inc["index"],
                             "msg": "the case does not end (twice, no deadlock seen): " + inc["msg"]})
            elif reps:
                viol += reps[0]["violations"] or []
        viol += m["violations"]
        m["race"] = race
        results.append(m)
    return results, viol


def mkdir(*p):
    d = os.path.join(*p)
    os.makedirs(d, exist_ok=True)
    return d


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    cfg = CHECKS[prop]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-" + prop + "-")
    try:
        coverage, viol, assumptions = {}, [], list(cfg.get("assumptions", []))
        evals, sigs, samples, hists = 0, set(), [], set()
        if cfg.get("modes"):
            results, viol = go_check(prop, cfg, tier, seed, tmp)
            counters = {}
            for m in results:
                evals += m["evaluations"]
                sigs |= m["sigs"]
                hists |= m["hists"]
                samples += m["samples"]
                for k, v in m["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                for k, l in m["sets"].items():
                    if k == "points":
                        counters["scheduling_points_hit"] = max(counters.get("scheduling_points_hit", 0), len(l))
                    else:
                        coverage.setdefault("observed", {})[k] = sorted(l)[:60]
                        counters["distinct:" + k] = len(l)
            coverage["counters"] = dict(sorted(counters.items()))
            if hists:
                coverage["distinct_histories"] = len(hists)
        if cfg.get("extra"):
            try:
                ex = cfg["extra"](tmp=tmp, tier=tier, seed=seed, env=goenv(), repo=REPO, verif=VERIF, go=GO)
            except (subprocess.SubprocessError, OSError, RuntimeError) as e:
                raise CheckError(repr(e)[-4000:])
            evals += ex["evaluations"]
            sigs |= set(ex["sigs"])
            samples += ex["samples"]
            # not cases of the Go worker
            viol += [dict(v, index=-1) for v in ex["violations"]] if cfg.get("modes") else ex["violations"]
            coverage.setdefault("counters", {}).update(ex.get("counters", {}))
        coverage["evaluations"] = evals
        coverage["distinct_nontrivial"] = len(sigs)
        coverage["rule"] = cfg["rule"]
        coverage["samples"] = samples[:6]
        if cfg.get("level") == "fault_enumeration":
            coverage["exhaustive"] = False
        if cfg.get("only"):
            # what else the workload met belongs to other properties
            rest = [v for v in viol if v["key"] not in cfg["only"]]
            viol = [v for v in viol if v["key"] in cfg["only"]]
            if rest:
                coverage["not_of_this_property"] = sorted({v["key"] for v in rest})
                print("not of this property:", ", ".join(coverage["not_of_this_property"]))
        known = known_findings(prop)
        new, seen = [], {}
        for v in viol:
            for key, rx, what in known:
                if v["key"] == key and rx.search(v["msg"]):
                    seen[what] = seen.get(what, 0) + 1
                    break
            else:
                new.append(v)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
                       "coverage": coverage, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2),
                       "violations": len(new)}, f, indent=1)
            f.write("\n")
        for key, rx, what in known:
            print(f"KNOWN-FINDING: property={prop} {what}")
        print(f"{prop}: {evals} cases, {len(sigs)} distinct, {len(new)} violations, {time.time() - t0:.1f} s")
        if new:
            for n, v in enumerate(new[:5]):
                path = write_replay(prop, tier, seed, v, n)
                print(f"[{v['key']}] {v['msg'][:1500]}")
                print(f"VIOLATION property={prop} replay={path}")
            return 1
        if evals == 0:
            raise CheckError("nothing was run")
        return 0
    except CheckError as e:
        print(f"{prop}: no answer: {e}", file=sys.stderr)
        return 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    with open(path) as f:
        v = json.load(f)
    prop = v["property"]
    cfg = CHECKS[prop]
    if not cfg.get("modes") or v.get("index", -1) < 0:
        print(json.dumps(v, indent=1)[:4000])
        os.environ.update(VERIF_SEED=str(v["seed"]), VERIF_TIER=v["tier"])
        sys.argv = [sys.argv[0], prop]
        return main()
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        mode = cfg["modes"][0]
        worker = build(tmp, race=mode.get("race", False), instrument=mode.get("instrument", True))
        scale = mode.get("thorough_scale", 20) if v["tier"] == "thorough" else 1
        reps, probs = run_workers(tmp, worker, mode.get("prop", prop), v["tier"], v["seed"], scale, 800, shards=1,
                                  race=mode.get("race", False), tag="r",
                                  extra=["-only", str(v["index"]), "-case", os.path.abspath(path), "-repeat", "500"])
        for p in probs:
            print(p["text"][:5000])
        n = sum(len(r["violations"] or []) for r in reps) + len(probs)
        for r in reps:
            for x in r["violations"] or []:
                print(f"[{x['key']}] {x['msg']}")
        print("reproduced" if n else "not reproduced")
        return 1 if n else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
