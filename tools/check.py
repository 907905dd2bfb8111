#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Builds the simulator from /repo's working tree, searches seeds for a violation of one
property, confirms every violation by exact replay in a fresh process, minimises it,
writes evidence/PROPERTY.json.  Exit 0: held on everything explored; 1: violated
(VIOLATION line); 2: the check itself failed."""
import glob, json, os, re, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as builder
import scenarios

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def known_findings(prop):
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*)/ (.*)", line.rstrip("\n"))
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out

def header(path):
    h = {}
    for line in open(path, errors="replace"):
        if not line.startswith("# "):
            break
        k, _, v = line[2:].rstrip("\n").partition(" ")
        h[k] = v
    return h

def replay(exe, path):
    r = run([exe, "replay", path, "--err", path + ".err"])
    if os.path.exists(path + ".err"):
        os.unlink(path + ".err")
    d = {}
    for line in r.stdout.splitlines():
        k, _, v = line.partition(" ")
        d.setdefault(k, v)
    return d.get("status"), d.get("class"), d.get("loghash"), d.get("message", "")

def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    parts = scenarios.PARTS[prop]
    budget = float(os.environ.get("VERIF_BUDGET", scenarios.BUDGET[tier]))
    jobs = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))
    exes, build_info = {}, {}
    for which in sorted(set(p["exe"] for p in parts)):
        try:
            exes[which], build_info[which] = builder.build(which)
        except RuntimeError as e:
            print("build failed: %s" % e)
            return 2
    known = known_findings(prop)
    reported, errors, findings = [], [], {}
    tot = dict(runs=0, nontrivial=0, ops=0, evals=0, steps=0, sim_time=0.0, twice=0)
    faults, fault_runs, probes, samples, per = {}, {}, {}, [], []
    sigs = set()
    t_search = 0.0
    weight = sum(p.get("weight", 1) for p in parts)
    rdir = os.path.join(ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    for part in parts:
        exe, name = exes[part["exe"]], part["scenario"]
        out = tempfile.mkdtemp(prefix="sim-%s-" % prop.lower())
        try:
            b = budget * part.get("weight", 1) / weight
            ts = time.time()
            r = run([exe, "run", "--prop", name, "--seed", str(seed), "--budget", str(b), "--jobs", str(jobs),
                     "--out", out, "--max-viol", "3", "--twice", "6", "--cpu", str(part.get("cpu", 20))])
            el = time.time() - ts
            t_search += el
            if r.returncode:
                errors.append("the simulator ended with %d: %s" % (r.returncode, r.stdout[-1500:]))
            runs = 0
            for f in sorted(glob.glob(out + "/stats.*")):
                d = json.load(open(f))
                for k in tot:
                    tot[k] += d.get(k, 0)
                runs += d["runs"]
                for k, v in d["faults"].items():
                    faults[k] = faults.get(k, 0) + v
                for k, v in d["fault_runs"].items():
                    fault_runs[k] = fault_runs.get(k, 0) + v
                samples += [s for s in d["samples"]][:1]
            part_sigs = set()
            for f in glob.glob(out + "/sigs.*"):
                raw = open(f, "rb").read()
                part_sigs |= set(struct.unpack("<%dQ" % (len(raw) // 8), raw))
            sigs |= set((name, s) for s in part_sigs)
            for f in glob.glob(out + "/probes.*"):
                for line in open(f):
                    k, _, v = line.rstrip("\n").rpartition(" ")
                    probes[k] = probes.get(k, 0) + int(v)
            per.append(dict(scenario=name, program="sim_" + part["exe"], runs=runs, distinct=len(part_sigs),
                            seeds_per_hour=int(runs / el * 3600) if el else 0, wall_s=round(el, 1)))
            for f in glob.glob(out + "/nondet.*"):
                dst = os.path.join(rdir, "%s-%s" % (prop, os.path.basename(f)))
                shutil.copy(f, dst)
                errors.append("a seed gave two different executions: %s" % dst)
            # violations: exact replay in fresh processes, then a minimised one
            seen = set()
            for f in sorted(glob.glob(out + "/viol.*"), key=lambda p: (os.path.getsize(p), p)):
                h = header(f)
                cls, msg = h.get("class", "?"), h.get("message", "")
                hit = [k for k in known if k[0] == cls and k[1].search(msg)]
                if hit:
                    findings[hit[0][2]] = findings.get(hit[0][2], 0) + 1
                    continue
                key = (cls, re.sub(r"[-+]?[0-9.]+(e[-+]?[0-9]+)?", "N", re.sub(r'"[^"]*"', "Q", msg)))
                if key in seen or len(seen) >= 3:
                    continue
                a, b2 = replay(exe, f), replay(exe, f)
                if a != b2 or a[0] != "2" or a[1] != cls or (a[2] != h.get("loghash") and cls != "hang"):
                    dst = os.path.join(rdir, "%s-unstable-%s" % (prop, os.path.basename(f)))
                    shutil.copy(f, dst)
                    errors.append("a violation did not replay exactly: %s %s / %s / %s" % (dst, h, a, b2))
                    continue
                seen.add(key)
                base = os.path.join(rdir, "%s-%s.plan" % (prop, os.path.basename(f).split(".")[1]))
                shutil.copy(f, base)
                best = base
                mini = base + ".min"
                mb = 20 if tier == "quick" else 120
                r = run([exe, "minimise", base, mini, "--budget", str(mb)])
                if r.returncode == 0 and os.path.exists(mini):
                    c, d = replay(exe, mini), replay(exe, mini)
                    hm = header(mini)
                    again = [k for k in known if k[0] == hm.get("class") and k[1].search(hm.get("message", ""))]
                    if c == d and c[0] == "2" and c[1] == cls and not again and (c[2] == hm.get("loghash") or cls == "hang"):
                        os.replace(mini, base)
                        msg = hm.get("message", msg)
                if os.path.exists(mini):
                    os.unlink(mini)
                reported.append((best, cls, msg))
        finally:
            shutil.rmtree(out, ignore_errors=True)
    wall = time.time() - t0
    info = scenarios.INFO[prop]
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=tot["runs"],
            distinct_nontrivial=len(sigs),
            rule=info.get("rule", scenarios.RULE) + " " + info["nontrivial"],
            samples=samples[:3],
            simulated_runs=tot["runs"],
            runs_that_checked_the_property=tot["nontrivial"],
            seeds_per_hour=int(tot["runs"] / t_search * 3600) if t_search else 0,
            simulated_operations=tot["ops"],
            constraint_function_evaluations=tot["evals"],
            checked_steps=tot["steps"],
            simulated_time=dict(value=tot["sim_time"], unit=info.get("time_unit", "time parameter units travelled (the library has no other clock)")),
            faults_injected={k: v for k, v in faults.items() if v},
            runs_with_fault={k: v for k, v in fault_runs.items() if v},
            distinct_measure=info["measure"],
            reached=dict(sorted(probes.items())),
            scenarios=per,
            runs_executed_twice_and_compared=tot["twice"],
            real_components=info["real"],
            stubbed_components=info["stub"],
            build=build_info),
        assumptions=info["assumptions"],
        wall_s=round(wall, 2),
        violations=len(reported))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    for what, n in findings.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print("%s %s: %d runs, %d distinct, %d checked, %.0f s" % (prop, tier, tot["runs"], len(sigs), tot["nontrivial"], wall))
    for p, cls, msg in reported:
        print("%s: %s" % (cls, msg))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if reported:
        return 1
    for e in errors:
        print("ERROR: " + e)
    if errors:
        return 2
    if tot["nontrivial"] == 0:
        print("ERROR: no run checked the property")
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
