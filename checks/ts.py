"""The checks of the TypeScript code: bundles the sources of the repository with
the harness (harness/ts) and runs them with node."""
import json
import os
import shutil
import signal
import subprocess
import time


class NoAnswer(RuntimeError):
    pass


def bundle(tmp, repo, verif, entry="main.ts", name="main.mjs", gen=None):
    ts = os.path.join(verif, "harness", "ts")
    out = os.path.join(tmp, name)
    r = subprocess.run(["node", os.path.join(ts, "build.mjs"), repo, os.path.join(ts, entry), out] + ([gen] if gen else []),
                       capture_output=True, text=True, timeout=300)
    if r.returncode != 0:
        raise NoAnswer("bundling failed: " + (r.stdout + r.stderr)[-3000:])
    return out


def shards(tmp, js, prop, tier, seed, scale, n, limit, which=None, extra=()):
    procs = []
    for i in (which if which is not None else range(n)):
        out = os.path.join(tmp, f"ts{i}.json")
        log = open(os.path.join(tmp, f"ts{i}.log"), "wb")
        cmd = ["node", "--enable-source-maps", "--max-old-space-size=2000", js, "-prop", prop, "-seed", str(seed), "-tier", tier,
               "-scale", str(scale), "-shard", str(i), "-shards", str(n), "-out", out] + list(extra)
        procs.append((i, subprocess.Popen(cmd, stdout=log, stderr=log, cwd=tmp, start_new_session=True), out, log))
    end = time.time() + limit
    reports, bad = [], []
    for i, p, out, log in procs:
        late = False
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            late = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        log.close()
        if p.returncode == 0 and not late and os.path.exists(out):
            with open(out) as f:
                reports.append(json.load(f))
            continue
        with open(os.path.join(tmp, f"ts{i}.log"), errors="replace") as f:
            text = f.read()
        cur = "?"
        if os.path.exists(out + ".cur"):
            with open(out + ".cur") as f:
                cur = f.read().strip()
        bad.append((i, late, p.returncode, cur, text))
    return reports, bad


def gopeer(tmp, env, repo, verif, go):
    """Builds the Go end of the calls between TypeScript and Go."""
    h = os.path.join(verif, "harness")
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(h, f), os.path.join(tmp, f))
    mod = os.path.join(tmp, "go.mod")
    with open(mod) as f:
        text = f.read()
    if repo != "/repo":
        with open(mod, "w") as f:
            f.write(text.replace("=> /repo", "=> " + repo))
    out = os.path.join(tmp, "tspeer")
    r = subprocess.run([go, "build", "-modfile", mod, "-o", out, "./tspeer"], cwd=h, env=env, capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise NoAnswer("go build: " + r.stderr[-3000:])
    return ["-peer", out]


def gowasm(tmp, env, repo, verif, go):
    """Builds the Go end for GOOS=js."""
    jsenv = dict(env, GOOS="js", GOARCH="wasm")
    peer = gopeer(tmp, jsenv, repo, verif, go)[1]
    root = subprocess.run([go, "env", "GOROOT"], env=env, capture_output=True, text=True, timeout=60).stdout.strip()
    for f in ("wasm_exec.js", "wasm_exec_node.js"):
        for d in ("lib/wasm", "misc/wasm"):
            if os.path.exists(os.path.join(root, d, f)):
                shutil.copy(os.path.join(root, d, f), os.path.join(tmp, f))
                break
    return ["-peer", peer, "-loader", os.path.join(tmp, "wasm_exec_node.js")]


def generate(tmp, tier, seed, repo, verif):
    """Runs the generator of the repository on random services; returns the folder
    with its output and what is wrong with it."""
    js = bundle(tmp, repo, verif, "gen.ts", "gen.mjs")
    gen = os.path.join(tmp, "gen")
    files = 150 if tier == "quick" else 1500
    r = subprocess.run(["node", js, "-out", gen, "-seed", str(seed), "-files", str(files)], capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise NoAnswer("generator: " + (r.stdout + r.stderr)[-3000:])
    with open(os.path.join(gen, "violations.json")) as f:
        bad = json.load(f)
    if bad:
        return None, bad, 0
    r = subprocess.run(["node", os.path.join(verif, "harness", "ts", "typecheck.mjs"), repo, gen], capture_output=True, text=True, timeout=900)
    if r.returncode != 0:
        raise NoAnswer("type check: " + (r.stdout + r.stderr)[-3000:])
    res = json.loads(r.stdout)
    for e in res["errors"][:10]:
        bad.append({"key": "gen-types", "index": -1, "msg": "the generated code (or a use of it with the types of the schema) does not compile: " + e})
    return gen, bad, res["files"]


def check(prop, n=8, limit=300, thorough=30, prepare=None, gen=False):
    def run(tmp, tier, seed, env, repo, verif, go):
        out, early, files = generate(tmp, tier, seed, repo, verif) if gen else (None, [], 0)
        if early:
            return {"evaluations": files, "sigs": {str(v["msg"]) for v in early}, "samples": [], "violations": early, "counters": {"files type-checked": files}}
        js = bundle(tmp, repo, verif, gen=out)
        extra = prepare(tmp, env, repo, verif, go) if prepare else []
        scale = thorough if tier == "thorough" else 1
        lim = limit if tier == "quick" else 20000
        reports, bad = shards(tmp, js, prop, tier, seed, scale, n, lim, extra=extra)
        violations = []
        if bad:
            # once more, to tell a slow machine from code which never ends
            again, still = shards(tmp, js, prop, tier, seed, scale, n, lim, which=[b[0] for b in bad][:4], extra=extra)
            reports += again
            for i, late, rc, cur, text in still:
                if late or "heap out of memory" in text or rc == 134:
                    violations.append({"key": "ts-never-ends", "index": -1,
                                       "msg": f"shard {i} does not end (twice), it was at case {cur}: the code under test loops or collects memory without end\n{text[-1500:]}"})
                else:
                    raise NoAnswer(f"shard {i} failed ({rc}) at case {cur}:\n{text[-3000:]}")
        res = {"evaluations": 0, "sigs": set(), "samples": [], "violations": violations, "counters": {}}
        hists = set()
        for r in reports:
            res["evaluations"] += r["evaluations"]
            res["sigs"].update(r["sigs"])
            hists.update(r["hists"])
            res["samples"] += r["samples"][:1]
            res["violations"] += r["violations"]
            for k, v in r["counters"].items():
                res["counters"][k] = res["counters"].get(k, 0) + v
        res["counters"]["distinct_histories"] = len(hists)
        if files:
            res["counters"]["files type-checked"] = files
        res["counters"] = dict(sorted(res["counters"].items()))
        return res
    return run


def cleanup(path):
    shutil.rmtree(path, ignore_errors=True)
