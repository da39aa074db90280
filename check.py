#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decides one property by seeded simulation.
check.py replay <file>                       : replays a violation in a fresh process (exit 1: reproduced exactly).

Exit 0: the property held on everything explored; 1: VIOLATION line printed; 3: the check itself could not run."""
import glob, json, os, re, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "driver"))
import build  # noqa: E402
from plans import PLANS  # noqa: E402

WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
FINDINGS = os.path.join(ROOT, "known-findings.txt")


def die(msg):
    sys.stdout.flush()
    print("check error: " + msg, file=sys.stderr)
    sys.exit(3)


def known_findings(prop):
    """Lines 'finding: property=<id> match=<regular expression on "class: message"> :: <what fails>'."""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def sim_env(c, plan):
    e = dict(os.environ)
    for k in ("LD_PRELOAD", "OMP_NUM_THREADS", "OMP_SCHEDULE", "SIM_HANG", "SIM_NOASLR"):
        e.pop(k, None)
    e.update(c.env() if hasattr(c, "env") else {})
    return e


def replay_file(c, plan, path):
    p = subprocess.run([c.out("simulator"), "replay", "file", path], env=sim_env(c, plan), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    return p.returncode, p.stdout.decode(errors="replace")


def run_check(prop, tier, seed):
    plan = PLANS[prop]
    t0 = time.time()
    try:
        c = build.ensure(plan["sim"])
    except (build.BuildError, subprocess.TimeoutExpired, OSError) as e:
        die("cannot build the simulator: %s" % e)
    built = time.time() - t0
    work = os.path.join(build.BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work)
    replays = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(replays, exist_ok=True)
    budget = float(os.environ.get("SIM_BUDGET", plan[tier]))
    procs = []
    for w in range(WORKERS):
        out = os.path.join(work, "o%d.json" % w)
        log = open(os.path.join(work, "l%d" % w), "wb")
        cmd = [c.out("simulator"), "run", "prop", prop, "seed", str(seed), "worker", str(w), "workers", str(WORKERS), "budget", str(budget), "out", out,
               "replays", os.path.join(work, "rep%d" % w), "min", "25"]
        procs.append((subprocess.Popen(cmd, env=sim_env(c, plan), stdout=log, stderr=subprocess.STDOUT, cwd=work, start_new_session=True), out, log))
    end = time.time() + budget + 180
    rcs = [None] * WORKERS
    stop = None
    while any(r is None for r in rcs) and time.time() < end:
        for i, (p, _, _) in enumerate(procs):
            if rcs[i] is None:
                rcs[i] = p.poll()
        if stop is None and any(r == 1 for r in rcs):
            stop = time.time() + 3   # others need not go on
        if stop is not None and time.time() > stop:
            break
        time.sleep(0.1)
    for i, (p, _, log) in enumerate(procs):
        if rcs[i] is None:
            rcs[i] = p.poll()
        if rcs[i] is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            rcs[i] = "stopped"
        log.close()

    tot = dict(runs=0, steps=0, switches=0, syncOps=0, simSeconds=0.0, decisions=0)
    counters, hashes, samples, vios, unrep = {}, set(), [], [], 0
    for i, (_, out, _) in enumerate(procs):
        if rcs[i] not in (0, 1):
            continue
        d = json.load(open(out))
        for k in tot:
            tot[k] += d[k]
        for k, (n, r) in d["counters"].items():
            a = counters.setdefault(k, [0, 0])
            a[0] += n
            a[1] += r
        hashes.update(d["hashes"])
        samples += d["samples"]
        unrep += d.get("unrepeatable", 0)
        if "violation" in d:
            vios.append(d["violation"])

    known = known_findings(prop)
    for _, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    reported = []
    errors = []
    for v in sorted(vios, key=lambda v: os.path.getsize(v["replay"])):
        rc, txt = replay_file(c, plan, v["replay"])
        if rc != 1:
            errors.append("replay of %s in a fresh process gave %d: %s" % (v["replay"], rc, txt.strip()[-400:]))
            continue
        dst = os.path.join(replays, os.path.basename(v["replay"]))
        shutil.copyfile(v["replay"], dst)
        v["replay"] = dst
        reported.append(v)
        break

    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 1), violations=len(reported),
              assumptions=plan.get("assumptions", []),
              coverage=dict(evaluations=tot["runs"], distinct_nontrivial=len(hashes), rule=plan["rule"], samples=samples[:4] or ["none"],
                            runs_per_hour=int(tot["runs"] / max(1e-9, wall - built) * 3600), build_s=round(built, 1),
                            simulated_seconds=round(tot["simSeconds"], 3), scheduler_steps=tot["steps"], context_switches=tot["switches"],
                            synchronisation_operations=tot["syncOps"], recorded_decisions=tot["decisions"],
                            interleaving_measure="distinct hashes over (thread, step) of every context switch and of all synchronisation events",
                            injected={k: dict(times=n, runs=r) for k, (n, r) in counters.items() if n and k.startswith("fault")},
                            reached={k: dict(times=n, runs=r) for k, (n, r) in counters.items() if n and not k.startswith("fault")},
                            workers=WORKERS, components=plan["components"], unrepeatable_runs=unrep))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
        o.write("\n")

    logs = {}
    for i in range(WORKERS):
        t = open(os.path.join(work, "l%d" % i), "rb").read()[-1500:].decode(errors="replace")
        logs[i] = t
    shutil.rmtree(work, ignore_errors=True)

    if reported:
        v = reported[0]
        print("%s: %s (seed %d)" % (v["class"], v["message"], v["seed"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        return 1
    bad = [i for i in range(WORKERS) if rcs[i] not in (0, 1, "stopped")]
    if bad or errors or any(r == "stopped" for r in rcs):
        for i in bad[:2]:
            print("worker %d ended with %s: %s" % (i, rcs[i], logs[i]), file=sys.stderr)
        die("; ".join(errors) or "workers failed: %s" % rcs)
    if unrep:
        die("%d violations could not be repeated" % unrep)
    if tot["runs"] == 0 or not hashes:
        die("nothing was explored")
    print("%s: %d runs, %d distinct interleavings, %d steps, %.0f simulated s, no violation (%.0f s)" % (prop, tot["runs"], len(hashes), tot["steps"], tot["simSeconds"], wall))
    return 0


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        path = os.path.abspath(sys.argv[2])
        prop = next((l.split()[1] for l in open(path) if l.startswith("prop ")), None)
        if prop not in PLANS:
            die("no property in " + path)
        try:
            c = build.ensure(PLANS[prop]["sim"])
        except build.BuildError as e:
            die(str(e))
        rc, txt = replay_file(c, PLANS[prop], path)
        print(txt, end="")
        return rc
    prop = sys.argv[1]
    if prop not in PLANS:
        die("unknown property " + prop)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return run_check(prop, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
