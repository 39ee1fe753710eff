#!/usr/bin/env python3
"""check.py ID [--replay FILE]: decides one property of /repo's current tree.

Builds the harness against the tree (with the delay hooks laid over it), runs
the workload of the property as child processes and judges what the monitors
in them reported. See DESIGN.md.

exit 0  held on everything explored
exit 1  VIOLATION line printed
exit 2  no answer (build failure, too little observed, time ran out)
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS  # noqa: E402

GOENV = dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GOFLAGS="-mod=readonly", GOSUMDB="off")
for k in ("GOROOT", "GOEXPERIMENT", "GODEBUG", "GOOS", "GOARCH"):
    GOENV.pop(k, None)


def say(*a):
    print(*a, flush=True)


def go_bin():
    for g in ("/usr/local/bin/go", "/opt/veriftools/go1.27.3/bin/go", "/usr/local/go/bin/go"):
        if os.path.exists(g):
            return g
    return "go"


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build_instrument():
    out = os.path.join(HERE, "build", "instrument")
    src = os.path.join(HERE, "tools", "instrument")
    newest = max(os.path.getmtime(os.path.join(src, f)) for f in os.listdir(src))
    if os.path.exists(out) and os.path.getmtime(out) >= newest:
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = f"{out}.{os.getpid()}"
    r = run([go_bin(), "build", "-o", tmp, "."], cwd=src, env=GOENV)
    if r.returncode != 0:
        say(r.stdout)
        sys.exit(2)
    os.replace(tmp, out)
    return out


def build(work, spec):
    """Returns (binary, points to slow down, instrumented?) or exits 2."""
    pkg, race = spec["pkg"], spec.get("race", False)
    r = run([build_instrument(), "-repo", REPO, "-extra", os.path.join(HERE, "harness", "overlay"), "-out", os.path.join(work, "ovl")])
    if r.returncode != 0:
        say(r.stdout)
        sys.exit(2)
    with open(os.path.join(HERE, "harness", "go.mod")) as f:
        mod = f.read().replace("=> /repo", "=> " + REPO)
    modf = os.path.join(work, "go.mod")
    with open(modf, "w") as f:
        f.write(mod)
    shutil.copy(os.path.join(HERE, "harness", "go.sum"), os.path.join(work, "go.sum"))
    binary = os.path.join(work, pkg + ".test")
    log = ""
    for ovl in ("overlay.json", "plain.json"):
        cmd = [go_bin(), "test", "-c", "-vet=off", "-modfile", modf, "-overlay", os.path.join(work, "ovl", ovl), "-o", binary]
        if race:
            cmd.append("-race")
        r = run(cmd + ["./" + pkg], cwd=os.path.join(HERE, "harness"), env=GOENV)
        if r.returncode == 0:
            with open(os.path.join(work, "ovl", "points.txt")) as f:
                n = [l.split()[0] for l in f if re.search(spec.get("points", "."), l)]
            return binary, n, ovl == "overlay.json"
        log += r.stdout
    say("the harness does not build against this tree:\n" + log[-6000:])
    sys.exit(2)


RACE = re.compile(r"^={10,}\nWARNING: DATA RACE\n(.*?)\n={10,}$", re.S | re.M)
CRASH = re.compile(r"^(panic: |fatal error: |unexpected fault address|SIG[A-Z]+: |.*bug: received .*demux error)", re.M)


def run_children(pid, spec, work, binary, npoints, seed, tier, replay):
    shards = 1 if replay else spec.get("shards", 4)
    procs = []
    for i in range(shards):
        out = os.path.join(work, f"res{i}.json")
        env = dict(os.environ, ZZ_PROP=pid, ZZ_SEED=str(seed), ZZ_TIER=tier, ZZ_OUT=out, ZZ_POINTS=",".join(npoints),
                   ZZ_SHARD=str(i), ZZ_SHARDS=str(shards), ZZ_REPO=REPO, ZZ_WORK=work,
                   GORACE="halt_on_error=0 exitcode=0 history_size=3 atexit_sleep_ms=0",
                   GOTRACEBACK="all")
        env.pop("GODEBUG", None)
        if replay:
            env["ZZ_ONLY"] = str(replay["index"])
            env["ZZ_MULT"] = "20"
        logf = open(os.path.join(work, f"log{i}"), "wb")
        procs.append((i, out, logf, subprocess.Popen([binary, "-test.timeout=0"], cwd=work, env=env, stdout=logf, stderr=subprocess.STDOUT,
                                                     start_new_session=True)))
    limit = time.time() + (spec.get("timeout", 420) if tier == "quick" else 3 * 3600)
    results = []
    stop = False
    pending = list(procs)
    while pending:
        for t in list(pending):
            i, out, logf, p = t
            rc = p.poll()
            timed = False
            if rc is None:
                if not stop and time.time() < limit:
                    continue
                timed = True
                try:
                    os.killpg(p.pid, signal.SIGTERM)
                    p.wait(5)
                except (subprocess.TimeoutExpired, ProcessLookupError):
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            pending.remove(t)
            logf.close()
            with open(logf.name, "rb") as f:
                log = f.read().decode("utf-8", "replace")
            res = None
            try:
                with open(out) as f:
                    res = json.load(f)
            except (OSError, ValueError):
                pass
            prog = {}
            try:
                with open(out + ".progress") as f:
                    prog = json.loads(f.readline())
            except (OSError, ValueError):
                pass
            results.append(dict(shard=i, rc=rc, timed=timed, aborted=stop and timed, res=res, log=log, prog=prog))
            if res and res.get("failures"):
                stop = True
        time.sleep(0.03)
    return results


def judge(pid, spec, results):
    """Returns (failures, known, problems, totals)."""
    fails, known, problems = [], [], []
    tot = dict(evaluations=0, distinct=set(), cases=0, events=0, min_events=0, rule="", obs={}, samples=[], points=0, hits=0)
    for r in results:
        res = r["res"]
        for m in RACE.finditer(r["log"]):
            f = dict(r["prog"] or {})
            f["msg"] = "data race:\n" + m.group(1)[:5000]
            fails.append(f)
        if not res:
            c = CRASH.search(r["log"])
            if c and not r["timed"] and r["rc"] not in (0, -9, 137):
                f = dict(r["prog"] or {})
                f["msg"] = "the process crashed: " + r["log"][c.start():c.start() + 5000]
                fails.append(f)
            elif not r["aborted"]:
                problems.append(f"shard {r['shard']}: no result (exit {r['rc']}, timed out: {r['timed']}) in {json.dumps(r['prog'])}\n{r['log'][-3000:]}")
            continue
        fails += res["failures"] or []
        for k in res["known"] or []:
            if k not in known:
                known.append(k)
        if not res["done"] and not res["failures"]:
            problems.append(f"shard {r['shard']} did not finish")
        tot["evaluations"] += res["evaluations"]
        tot["distinct"].update(res["distinct"] or [])
        tot["cases"] = max(tot["cases"], res["cases"])
        tot["events"] += res["events"]
        tot["min_events"] = max(tot["min_events"], res["min_events"])
        tot["rule"] = res["rule"]
        tot["points"] = max(tot["points"], res["points_hit"])
        tot["hits"] += res["point_hits"]
        tot["samples"] += (res["samples"] or [])[:4]
        for k, v in res["obs"].items():
            tot["obs"][k] = max(v, tot["obs"].get(k, 0)) if k.startswith("max ") else tot["obs"].get(k, 0) + v
    if not fails and not problems and tot["events"] < tot["min_events"]:
        problems.append(f"only {tot['events']} events observed, {tot['min_events']} needed")
    return fails, known, problems, tot


def known_findings():
    out = {}
    try:
        with open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
                if m:
                    out[m.group(2)] = (m.group(1), m.group(3))
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    spec = PROPS[pid]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        with open(sys.argv[3]) as f:
            replay = json.load(f)
        seed, tier = replay["seed"], replay["tier"]
        replay = replay if replay.get("index") is not None else None
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    os.chmod(work, 0o755)
    try:
        if spec.get("script"):
            mod = __import__(spec["script"])
            fails, known, problems, tot = mod.run(pid, spec, work, seed, tier, REPO, HERE, GOENV, go_bin())
            instrumented, npoints = False, []
        else:
            binary, npoints, instrumented = build(work, spec)
            tb = time.time()
            results = run_children(pid, spec, work, binary, npoints, seed, tier, replay)
            if os.environ.get("VERIF_KEEPLOG"):
                for r in results:
                    sys.stderr.write(r["log"][-20000:])
            fails, known, problems, tot = judge(pid, spec, results)
            if os.environ.get("VERIF_TIMING"):
                say(f"build {tb-t0:.1f}s run {time.time()-tb:.1f}s")
    finally:
        shutil.rmtree(work, ignore_errors=True)

    kf = known_findings()
    for k in known:
        if k in kf and kf[k][0] == pid:
            say(f"KNOWN-FINDING: property={pid} {k}: {kf[k][1]}")
        else:
            fails.append(dict(msg=f"finding {k}, which KNOWN_FINDINGS.txt does not list"))

    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["evaluations"],
            "distinct_nontrivial": len(tot["distinct"]),
            "rule": tot["rule"],
            "samples": tot["samples"][:16] or ["none"],
            "cases": tot["cases"],
            "events_checked": tot["events"],
            "observed": tot["obs"],
            "instrumented": instrumented,
            "instrumentation_points": len(npoints),
            "points_reached": tot["points"],
            "library_steps": tot["hits"],
        },
        "assumptions": spec.get("assumptions", []) + ["Verdicts hold for the executions listed, not for all.",
                                                      "Dependencies outside /repo are taken as they are."],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fails),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if fails:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{pid}-{seed}-{tier}.json")
        f0 = fails[0]
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, "tier": tier, "index": f0.get("index"), "failures": fails[:20],
                       "replay": f"python3 /verif/check.py {pid} --replay {path}"}, f, indent=1)
        for x in fails[:3]:
            say(f"{pid}: case {x.get('index')} {x.get('case')} {{{x.get('params')}}} policy={x.get('policy')}\n  {x.get('msg', '')[:3000]}")
        say(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    if problems:
        say("no answer:\n" + "\n".join(problems))
        sys.exit(2)
    say(f"{pid}: held on {tot['evaluations']} executions ({len(tot['distinct'])} distinct), {tot['events']} events checked, {time.time()-t0:.1f} s")


if __name__ == "__main__":
    main()
