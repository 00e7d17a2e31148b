#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Builds the simulator for the property from /repo's working tree, runs a seeded batch of simulated
executions, gates every violation (same seed twice, fresh-process replay, minimisation) and writes
the evidence file. Exit 0 clean, 1 with a VIOLATION line, 3 for an error of the check itself.
"""
import json, os, re, shutil, subprocess, sys, time, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from config import PROPS

VERIF = B.VERIF

def die(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(3)

def run(cmd, timeout=None):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)

def symbolise(exe, addrs):
    if not addrs:
        return []
    out = run(["addr2line", "-Cfse", exe] + addrs).stdout.split("\n")
    return [f"{out[2*i]} ({out[2*i+1]})" for i in range(min(len(addrs), len(out) // 2))]

def expand(exe, msg):
    ad = sorted(set(re.findall(r"@(0x[0-9a-f]+)", msg)))
    for a, s in zip(ad, symbolise(exe, ad)):
        msg = msg.replace("@" + a, "\n        " + s)
    return msg

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out

def matches(kf, r, frames):
    """a known finding names scenario, class and a pattern over message and call stack"""
    if kf["scenario"] != r["scenario"] or kf["class"] != r["class"]:
        return False
    return re.search(kf["pattern"], r["msg"] + "\n" + "\n".join(frames), re.S) is not None

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    print(f"property {prop}: {cfg['title']}; tier {tier}; VERIF_SEED={seed}", flush=True)
    exe = None
    try:
        exe = B.build([cfg["group"]])[cfg["group"]]
    except B.BuildError as e:
        die(str(e))
    tbuild = time.time() - t0
    secs = float(os.environ.get("SIM_SECS", cfg.get("quick", 40) if tier == "quick" else cfg.get("thorough", 600)))
    workers = os.cpu_count() or 8
    tmp = tempfile.mkdtemp(prefix="sim-")
    try:
        rc = go(prop, tier, seed, cfg, t0, tbuild, exe, secs, workers, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def determinism(exe, prop, seed, n):
    """the same seeds in differently partitioned processes must give identical event-log hashes"""
    def part(step):
        ps = [subprocess.Popen([exe, "hashes", "--prop", prop, "--seed", str(seed), "--runs", str(n), "--step", str(step), "--off", str(o)], stdout=subprocess.PIPE, text=True) for o in range(step)]
        m = {}
        for p in ps:
            for l in p.communicate()[0].split("\n"):
                f = l.split()
                if len(f) == 6:
                    m[int(f[0])] = tuple(f[1:])
        return m
    a, b = part(3), part(8)
    diff = [i for i in range(n) if a.get(i) != b.get(i)]
    return diff, len(a)

def go(prop, tier, seed, cfg, t0, tbuild, exe, secs, workers, tmp):
    nd = 240 if tier == "quick" else 2000
    diff, got = determinism(exe, prop, seed, nd)
    if diff or got != nd:
        # a run that hangs the wall clock has no comparable hash; anything else is an error of the check
        print(f"determinism check: {len(diff)} of {nd} runs differ", flush=True)
        nondet = True
    else:
        nondet = False
    out = os.path.join(tmp, "batch.json")
    r = run([exe, "batch", "--prop", prop, "--seed", str(seed), "--secs", str(secs), "--workers", str(workers), "--out", out])
    if r.returncode or not os.path.exists(out):
        die("batch failed: " + r.stderr[-2000:])
    b = json.load(open(out))
    viol = [x for x in b["results"] if x["status"] == "violation"]
    errs = [x for x in b["results"] if x["status"] == "error"]
    samples = [dict(seed=x["seed"], scenario=x["scenario"], params=x["params"], steps=x["steps"], switches=x["switches"], preempts=x["preempts"], hash=x["hash"], outcome=x["status"]) for x in b["results"] if x["status"] == "ok"][:6]
    kfs = known_findings(prop)
    hitk, reported, gate_fail = {}, None, []
    # group by scenario/class/top frames; examine the shortest run of each group
    groups = {}
    for x in sorted(viol, key=lambda x: x["steps"]):
        fr = symbolise(exe, x["stack"][:12])
        k = next((i for i, kf in enumerate(kfs) if matches(kf, x, fr)), None)
        if k is not None:
            hitk.setdefault(k, []).append(x)
            continue
        groups.setdefault((x["scenario"], x["class"]), []).append(x)
    for (scn, cls), xs in sorted(groups.items(), key=lambda kv: (kv[0][1] == "wallclock-hang", kv[1][0]["steps"])):
        for x in xs[:2]:
            res = gate(exe, prop, x, tmp)
            if isinstance(res, str):
                gate_fail.append(f"{scn}/{cls} seed {x['seed']}: {res}")
                continue
            reported = res
            break
        if reported:
            break
    wall = time.time() - t0
    hours = max(b["wall"], 0.001) / 3600
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2),
              violations=1 if reported else 0,
              coverage=dict(
                  evaluations=b["runs"], distinct_nontrivial=b["distinct"],
                  rule="one case = one simulated execution decided by one seed (workload parameters, every scheduling decision at memory-access granularity, every fault and timer); non-trivial = at least one preemption of a running thread away from its default continuation or at least one injected fault; distinct = different 64-bit hash over the whole event log (scheduling decisions, faults, workload events)",
                  samples=samples,
                  runs_per_hour=int(b["runs"] / hours), seeds_per_hour=int(b["runs"] / hours),
                  simulated_seconds=b["sim_s"], memory_access_steps=b["steps"], context_switches=b["switches"], forced_preemptions=b["preempts"],
                  nontrivial_runs=b["nontrivial"], runs_per_scenario=b["scenarios"], faults_injected=b["faults"], probes=b["probes"], notes=b["notes"],
                  determinism=dict(seeds_run_twice=nd, worker_partitions=[3, 8], differing=len(diff)),
                  components_real=cfg["real"], components_stub=cfg["stub"],
                  known_findings_hit={kfs[k]["id"]: len(v) for k, v in hitk.items()},
                  build_s=round(tbuild, 1), search_s=b["wall"]),
              assumptions=cfg.get("assumptions", []) + ["sequentially consistent memory; preemption only between instrumented accesses", "search is sampling: a clean batch is evidence, not proof"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evp = os.path.join(VERIF, "evidence", prop + ".json")
    with open(evp + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(evp + ".tmp", evp)
    print(f"{b['runs']} simulated runs in {b['wall']:.1f}s ({int(b['runs']/hours)}/h), {b['distinct']} distinct non-trivial, {b['sim_s']:.1f} simulated s, faults {b['faults']}, probes {b['probes']}")
    for k, kf in enumerate(kfs):
        print(f"KNOWN-FINDING: property={prop} {kf['id']}: {kf['what']} ({len(hitk.get(k, []))} runs of this batch)")
    if reported:
        print(reported["text"])
        print(f"VIOLATION property={prop} replay={reported['path']}", flush=True)
        return 1
    if errs:
        x = errs[0]
        print("\n".join(symbolise(exe, x["stack"])))
        die(f"{b['errors']} runs ended in a harness error, first: seed {x['seed']} scenario {x['scenario']} {x['class']} {x['msg']}")
    if gate_fail:
        die("violations that do not replay: " + "; ".join(gate_fail[:5]))
    if nondet:
        die("simulation is not deterministic")
    if b["runs"] == 0:
        die("no runs")
    return 0

def gate(exe, prop, x, tmp):
    def one(args):
        r = run([exe] + args, timeout=120)
        try:
            return json.loads(r.stdout.strip().split("\n")[-1])
        except Exception:
            return None
    hang = x["class"] == "wallclock-hang"
    base = ["one", "--prop", prop, "--scenario", "", "--runseed", str(x["seed"])]
    tr = os.path.join(tmp, "full.trace")
    a = one(base)
    c = one(base + ["--trace", tr])
    for y in (a, c):
        if not y or y["status"] != "violation" or y["class"] != x["class"] or (y["hash"] != x["hash"] and not hang):
            return "re-execution of the seed differs"
    if hang:
        path = finish(exe, prop, c, tr)
        return path
    d = one(["replay", tr])
    if not d or d["status"] != "violation" or d["class"] != x["class"]:
        return "replay of the full trace differs"
    mn = os.path.join(tmp, "min.trace")
    r = run([exe, "min", tr, mn, "--budget", "25"], timeout=200)
    src = mn if r.returncode == 0 and os.path.exists(mn) else tr
    e1, e2 = one(["replay", src]), one(["replay", src])
    if not e1 or not e2 or e1["status"] != "violation" or e1["class"] != x["class"] or e1["hash"] != e2["hash"]:
        return "replay of the minimised trace differs"
    return finish(exe, prop, e1, src)

def finish(exe, prop, res, trace):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{prop}-{res['scenario']}-{res['hash'][:8]}.trace")
    txt = [f"violation class {res['class']} in scenario {res['scenario']} (run seed {res['seed']}, {res['steps']} steps)", "  " + expand(exe, res["msg"])]
    txt += ["    at " + s for s in symbolise(exe, res["stack"][:20])]
    n = sum(1 for l in open(trace) if l[:2] in ("p ", "t ", "b ", "c "))
    txt.append(f"  minimised to {n} scheduling/fault/workload decisions; replay with: python3 tools/replay.py {path}")
    with open(path, "w") as f:
        f.write("".join("# " + l + "\n" for l in "\n".join(txt).split("\n")))
        f.write(open(trace).read())
    return dict(path=path, text="\n".join(txt))

if __name__ == "__main__":
    main()
