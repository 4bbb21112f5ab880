#!/usr/bin/env python3
"""check.py <property> [quick|thorough] - build the simulation of the current /repo tree and search.

Exit 0: the property held on every simulated run.  Exit 1 and a line
'VIOLATION property=<id> replay=<path>': it was broken, the replay file reproduces it.
Exit 2: the check itself failed.
  check.py --replay <file>   rebuild and replay a recorded violation (exit 1 if it reproduces)
"""
import fcntl, glob, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
from config import PROPS, BUILDS, REAL, STUBS

JOBS = os.cpu_count() or 8
KNOWN = os.path.join(V, "known_findings.txt")

def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) scenario=(\S+) class=(\S+) match=/(.*)/ -- (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(dict(scenario=m.group(2), cls=m.group(3), rx=m.group(4), text=m.group(5)))
    return out

class NoBuild(Exception): pass

def build(name, top):
    b = BUILDS[name]
    d = os.path.join(top, name)
    os.makedirs(d, exist_ok=True)
    cmd = ["make", "-s", "-j%d" % JOBS, "-f", os.path.join(V, "Makefile.sim"), "B=" + d, "REPO=" + REPO,
           "SCEN=" + " ".join(b["scen"]), "XDEF=" + b.get("defs", "")]
    if b.get("numa"): cmd.append("NUMA=1")
    if b.get("topo"): cmd.append("TOPO=1")
    for k in ("CLANG", "OPT", "STD", "TSX"):
        if b.get(k.lower()): cmd.append("%s=%s" % (k, b[k.lower()]))
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
    if r.returncode:
        sys.stderr.write(r.stdout[-4000:])
        if b.get("config"): raise NoBuild(r.stdout)    # a documented configuration of the library
        raise SystemExit(2)
    return os.path.join(d, "simbin")

def run(binp, part, prop, bname, seed, wall, runs, rdir, tmp):
    out = os.path.join(tmp, "out-%s.json" % bname)
    if os.path.exists(out): os.unlink(out)
    cmd = [binp, "--run", "--seed", str(seed), "--runs", str(runs), "--wall", "%.1f" % wall, "--jobs", str(JOBS), "--prop", prop,
           "--build", bname, "--replaydir", rdir, "--out", out]
    if part.get("scen"): cmd += ["--scen", ",".join(part["scen"])]
    if part.get("classes"): cmd += ["--classes", ",".join(part["classes"])]
    cmd += part.get("opts", [])
    if "--hb" not in cmd: cmd.append("--hbww")
    if part.get("ignore"): cmd += ["--ignore", ",".join(part["ignore"])]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=wall + 300)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        sys.stderr.write(r.stdout[-2000:] + r.stderr[-2000:])
        raise SystemExit(2)
    return r.returncode, json.load(open(out))

def replay_file(path):
    head = dict(l.rstrip("\n").split(" ", 1) for l in open(path) if " " in l and not l.startswith("#"))
    tmp = tempfile.mkdtemp(prefix="vsim-")
    try:
        try: binp = build(head["build"], tmp)
        except NoBuild: return 1
        if head.get("class") == "does-not-compile": return 0
        r = subprocess.run([binp, "--replay", path, "-v"])
        return r.returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay": raise SystemExit(replay_file(sys.argv[2]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    rdir = os.path.join(V, "replays"); os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vsim-")
    rc = 0; parts = []; viol = None; known = known_findings(prop); matched = []
    try:
        total_w = sum(p.get("weight", 1) for p in cfg["parts"])
        for i, part in enumerate(cfg["parts"]):
            bname = part["build"]
            try: binp = build(bname, tmp)
            except NoBuild as e:
                p = os.path.join(rdir, "%s-%s-compile.replay" % (prop, bname))
                with open(p, "w") as f: f.write("property %s\nbuild %s\nclass does-not-compile\n" % (prop, bname) + "".join("# %s\n" % l for l in str(e).split("\n") if "error" in l))
                viol = {"class": "does-not-compile", "message": "the library does not compile with " + BUILDS[bname].get("defs", ""), "replay": p, "min": None}; rc = 1
                break
            share = part.get("weight", 1) / total_w
            if tier == "quick":
                runs, wall = int(cfg.get("runs", 120000) * share), max(8.0, cfg.get("wall", 40) * share)
            else:
                runs, wall = 10**12, max(20.0, float(os.environ.get("VERIF_WALL", "420")) * share)
            s = seed * 1000003 + i * 7919 + (0 if tier == "quick" else 500000000)
            attempt = 0
            ignore_scen = []
            while True:
                c, d = run(binp, part, prop, bname, s, wall, runs, rdir, tmp)
                if c == 1:
                    scen = next((l.split(" ", 1)[1].strip() for l in open(d["replay"]) if l.startswith("scenario ")), "?")
                    k = next((k for k in known if k["scenario"] == scen and k["cls"] == d["class"] and re.search(k["rx"], d["message"])), None)
                    if k:       # a listed finding: look for anything else with further seeds
                        if k not in matched: matched.append(k)
                        attempt += 1; s += 104729
                        if attempt < 20: continue
                        c = 0
                break
            d["build"] = bname; d["defs"] = BUILDS[bname].get("defs", ""); parts.append(d)
            if c == 1:
                # the replay must reproduce in a fresh process
                r = subprocess.run([binp, "--replay", d["replay"]], stdout=subprocess.PIPE, text=True)
                if r.returncode == 4:       # same violation, other hash: the simulator lost control of something, the defect is real
                    sys.stderr.write("replay differs in detail: " + r.stdout[-500:])
                elif r.returncode != 1:
                    sys.stderr.write("replay did not reproduce: " + r.stdout[-500:])
                    raise SystemExit(2)
                viol = d; rc = 1
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    secs = sum(p["seconds"] for p in parts) or 1e-9
    n = sum(p["runs"] for p in parts)
    faults = {}; probes = {}; scens = {}; thr = {}; ign = {}
    for p in parts:
        for k, v in p["faults"].items():
            e = faults.setdefault(k, dict(fired=0, runs=0)); e["fired"] += v["fired"]; e["runs"] += v["runs"]
        for src, dst in (("probes", probes), ("scenarios", scens), ("os_threads", thr), ("ignored", ign)):
            for k, v in p[src].items(): dst[k] = dst.get(k, 0) + v
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 2), violations=1 if viol else 0,
        coverage=dict(
            evaluations=n, distinct_nontrivial=sum(p["distinct"] for p in parts),
            rule="One evaluation is one simulated execution of a scenario: workload choices, every thread interleaving and every fault are drawn from one seed. "
                 "Distinct: different hash over the sequence of synchronisation points reached (thread, kind, object) and the workload. Non-trivial: more than one OS thread took part and the "
                 "schedule deviated at least once from run-to-block, or (single-threaded scenarios) more than 50 synchronisation points were passed.",
            samples=[dict(build=p["build"], scenarios=p["scenarios"], first_seed_base=p["seed"], runs=p["runs"], switches=p["switches"], sync_points=p["sync_points"]) for p in parts],
            seeds_per_hour=int(n / secs * 3600), simulated_runs_per_hour=int(n / secs * 3600),
            simulated_seconds=round(sum(p["sim_ns"] for p in parts) / 1e9, 3),
            scheduling_points=sum(p["points"] for p in parts), synchronisation_points=sum(p["sync_points"] for p in parts), preemptions=sum(p["switches"] for p in parts),
            runs_ended_in_fault_free_fair_phase=sum(p["fair_runs"] for p in parts),
            happens_before_checks=sum(p["hb_checks"] for p in parts), expected_terminations_seen=sum(p["terminate_expected_and_seen"] for p in parts),
            faults_injected=faults, rare_conditions_reached=probes, runs_per_scenario=scens, os_threads_histogram=thr, failures_of_other_properties_seen=ign,
            builds=[dict(name=p["build"], defines=p["defs"], runs=p["runs"]) for p in parts],
            components_real=REAL, components_stubbed=STUBS, known_findings_seen=[k["text"] for k in matched]),
        assumptions=["sequentially consistent interleaving at every instrumented memory access, plus stale atomic reads the C++ model allows where the scenario enables them",
                     "simulated OS primitives (mutex, condition variable, futex, clocks, sleep) behave within their POSIX contracts"])
    if viol:
        ev["coverage"]["violation"] = dict(cls=viol["class"], message=viol["message"], replay=viol["replay"], minimisation=viol["min"])
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    print("%s %s: %d simulated runs in %.1f s (%d/h), %.0f simulated seconds, %d distinct" % (prop, tier, n, secs, n / secs * 3600, ev["coverage"]["simulated_seconds"], ev["coverage"]["distinct_nontrivial"]))
    if viol:
        print("class=%s message: %s" % (viol["class"], viol["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, viol["replay"]))
    raise SystemExit(rc)

main()
