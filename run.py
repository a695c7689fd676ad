#!/usr/bin/env python3
"""Runs the simulation check of one property.

  run.py check <ID> [--tier quick|thorough]    exit 0: held; 1: VIOLATION line printed; 2: the check itself failed
  run.py replay <file>                          runs a replay file against the current tree
  run.py determinism [runs]                     runs every scenario twice at different worker counts, compares hashes
  run.py setup                                  builds everything
"""
import collections, json, os, random, shutil, subprocess, sys, tempfile, time
import vbuild

HERE = vbuild.HERE
NW = os.cpu_count() or 4

# property -> [(scenario, quick runs, thorough runs)]; the first scenario's faulty and fault-free runs are counted apart.
from table import CHECKS


def known():
    """KNOWN_FINDINGS: lines "known: property=.. scenario=.. class=.. replay=.. what=.."; "fixed:" lines suppress nothing."""
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: "):
                rest, what = l[7:].strip().split(" what=", 1)
                d = dict(x.split("=", 1) for x in rest.split())
                d["what"] = what
                out.append(d)
    return out


def parse_line(t, tag):
    return json.loads(t[len(tag) + 1:])


def batch(exe, scenario, seed, runs, secs, out, tier, nw=NW, hashes=False, kn=()):
    """Runs `runs` seeds of a scenario over nw workers. Returns the workers' summaries and violations."""
    env = dict(os.environ)
    env["SIM_KNOWN"] = "\n".join(kn)
    if hashes:
        env["SIM_HASHES"] = "1"
    ps = []
    for w in range(nw):
        ps.append(subprocess.Popen([exe, "batch", scenario, str(seed), str(w), str(nw), str(runs), str(secs), out, "1" if tier == "thorough" else "0"],
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env))
    S, V, H = [], [], {}
    for p in ps:
        o, e = p.communicate()
        if p.returncode != 0:
            raise RuntimeError("worker failed (%d): %s" % (p.returncode, e.decode(errors="replace")[-2000:]))
        got = False
        for l in o.decode(errors="replace").splitlines():
            if l.startswith("V "):
                V.append(parse_line(l, "V"))
            elif l.startswith("S "):
                S.append(parse_line(l, "S"))
                got = True
            elif l.startswith("H "):
                _, i, hh = l.split()
                H[int(i)] = hh
        if not got:
            raise RuntimeError("worker gave no summary")
    return S, V, H


def replay(exe, plan):
    r = subprocess.run([exe, "replay", plan], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    for l in r.stdout.decode(errors="replace").splitlines():
        if l.startswith("R "):
            return json.loads(l[2:])
    raise RuntimeError("replay gave no result: " + r.stderr.decode(errors="replace")[-500:])


def header(plan):
    d = {}
    for l in open(plan, errors="replace"):
        if l.startswith("class "):
            d["class"] = l[6:].strip()
        elif l.startswith("hash "):
            d["hash"] = l[5:].strip()
        elif l.startswith("scenario "):
            d["scenario"] = l[9:].strip()
    return d


def cov_union(out, scenario):
    u = None
    for f in os.listdir(out):
        if f.startswith("cov-%s-" % scenario):
            b = open(os.path.join(out, f), "rb").read()
            u = int.from_bytes(b, "little") if u is None else u | int.from_bytes(b, "little")
            n = len(b)
    return (bin(u).count("1"), n, u) if u is not None else (0, 0, 0)


def traces_union(out, scenario):
    t, s = set(), set()
    for f in os.listdir(out):
        if f.startswith("traces-%s-" % scenario):
            for l in open(os.path.join(out, f)):
                (t if l[0] == "t" else s).add(l[1:].strip())
    return t, s


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    print("check %s tier %s VERIF_SEED=%d" % (pid, tier, seed), flush=True)
    spec = CHECKS[pid]
    exe = vbuild.build()
    tb = time.time() - t0
    out = tempfile.mkdtemp(prefix="fcsim-")
    kn = [k for k in known() if k["property"] == pid]
    viol, per = [], {}
    tot = collections.Counter()
    counts = collections.Counter()
    alltraces, allstates, cov = set(), set(), 0
    covn = 0
    simtime = 0.0
    samples = []
    div = 0
    detn = 0
    try:
        knkeys = ["%s %s" % (k["scenario"], k["class"]) for k in kn]
        scs = spec["scenarios"]
        cap = 240.0 if tier == "quick" else float(os.environ.get("VERIF_SECS", "1500"))
        for name, q, th in scs:
            runs = q if tier == "quick" else th
            S, V, _ = batch(exe, name, seed, runs, cap / len(scs) if tier == "quick" else cap / len(scs), out, tier, kn=knkeys)
            n = sum(s["runs"] for s in S)
            wf = sum(s["with_fault"] for s in S)
            c = collections.Counter()
            for s in S:
                for k, v in s["counts"].items():
                    c[k] += v
                simtime += s["sim_time"]
                tot["ops"] += s["ops"]
            counts += c
            tot["runs"] += n
            tot["faulty"] += wf
            tr, st = traces_union(out, name)
            alltraces |= {name + x for x in tr}
            allstates |= {name + x for x in st}
            e, covn, u = cov_union(out, name)
            cov |= u
            per[name] = {"runs": n, "runs_with_a_fault": wf, "runs_without_a_fault": n - wf, "distinct_traces": len(tr), "library_edges": e,
                         "wall_s": round(max(s["wall"] for s in S), 2), "faults": {k[1:]: v for k, v in sorted(c.items()) if k[0] == "F"},
                         "probes": {k[1:]: v for k, v in sorted(c.items()) if k[0] == "P"}}
            # Determinism, on this very run: the first seeds again, on another number of workers.
            m = min(n, 24 if tier == "quick" else 200)
            a = batch(exe, name, seed, m, 60, out + "/", tier, nw=3, hashes=True, kn=knkeys)[2]
            b = batch(exe, name, seed, m, 60, out + "/", tier, nw=NW, hashes=True, kn=knkeys)[2]
            div += sum(1 for i in a if b.get(i) != a[i])
            detn += len(a)
            if len(samples) < 4:
                r = subprocess.run([exe, "one", name, str(len(samples)), str(seed)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, SIM_VERBOSE="1"))
                txt = [l for l in r.stdout.decode(errors="replace").splitlines() if l.startswith(("scenario", "seed", "op "))]
                samples.append(" ; ".join(txt)[:1500])
            for v in V:
                v["scenario"] = name
                viol.append(v)
        # gate
        fresh, errors, seen = [], [], set()
        for v in sorted(viol, key=lambda v: v["min"]):
            key = (v["scenario"], v["class"])
            if "%s %s" % key in knkeys or key in seen:
                continue
            h = header(v["file"])
            r1, r2 = replay(exe, v["file"]), replay(exe, v["file"])
            ok = r1["violated"] and r2["violated"] and r1["class"] == r2["class"] == h.get("class") and r1["hash"] == r2["hash"] == h.get("hash")
            if not ok:
                errors.append("violation %s of %s does not replay (%s / %s / file %s)" % (v["class"], v["scenario"], r1, r2, h))
                continue
            seen.add(key)
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            dst = os.path.join(HERE, "replays", "%s-%s-%s.plan" % (pid, v["scenario"], h["hash"]))
            shutil.copy(v["file"], dst)
            v["replay"] = dst
            fresh.append(v)
        nknown = 0
        for k in kn:
            plan = os.path.join(HERE, k["replay"])
            r = replay(exe, plan)
            if r["violated"] and r["class"] == k["class"]:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
                nknown += 1
            elif r["violated"]:
                # The input fails in another way than the one recorded.
                dst = plan
                fresh.append({"class": r["class"], "scenario": k["scenario"], "replay": dst, "msg": r["msg"], "ops": 0, "min": 0})
        wall = time.time() - t0
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
            "coverage": {
                "evaluations": tot["runs"], "distinct_nontrivial": len(alltraces),
                "rule": "One evaluation is one simulated run, made from VERIF_SEED and the run's index by a seeded generator: a sequence of operations, faults, clock changes and process deaths. "
                        "Two runs are distinct when their traces (the sequence of operations, process lives, fired faults and thread switches) differ; runs without an operation are not generated.",
                "samples": samples,
                "operations": tot["ops"], "runs_with_a_fault": tot["faulty"], "runs_without_a_fault": tot["runs"] - tot["faulty"],
                "runs_per_hour": int(tot["runs"] / max(0.001, sum(p["wall_s"] for p in per.values())) * 3600),
                "seeds_per_hour": int(tot["runs"] / max(0.001, sum(p["wall_s"] for p in per.values())) * 3600),
                "simulated_seconds": int(simtime), "distinct_state_prefixes": len(allstates),
                "faults_fired": {k[1:]: v for k, v in sorted(counts.items()) if k[0] == "F"},
                "probes": {k[1:]: v for k, v in sorted(counts.items()) if k[0] == "P"},
                "library_edges_reached": bin(cov).count("1"), "library_edges_total": covn,
                "per_scenario": per,
                "determinism": {"seeds_run_again": detn, "divergences": div, "how": "the same seeds on 3 and on %d workers, event-log hashes compared" % NW},
                "known_findings_reproduced": nknown,
                "real_components": spec.get("real", "the whole library (document model, archive plugin, utilities, maths) compiled from /repo, libxml2, libfmt, glibc stdio buffering"),
                "simulated_components": spec.get("stub", "file system behind fopen, wall clock behind time, getcwd, mkdir, process lifetime, heap layout, thread scheduling at mutexes"),
            },
            "assumptions": spec.get("assumptions", []) + ["A run samples schedules and faults; it does not enumerate them.", "libxml2, libfmt and glibc are trusted."],
            "wall_s": round(wall, 2), "violations": len(fresh),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.tmp" % pid)
        json.dump(ev, open(tmp, "w"), indent=1)
        os.rename(tmp, os.path.join(HERE, "evidence", pid + ".json"))
        print("%d runs (%d with faults), %d distinct traces, %d operations, %d/%d edges, determinism %d/%d, %.1f s (build %.1f s)" %
              (tot["runs"], tot["faulty"], len(alltraces), tot["ops"], bin(cov).count("1"), covn, detn - div, detn, wall, tb))
        for v in fresh:
            print("  %s: %s" % (v["class"], v["msg"].replace("\n", " | ")[:700]))
        for e in errors:
            print("  NOT REPRODUCIBLE: " + e)
        for v in fresh:
            print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        if fresh:
            return 1
        if errors:
            return 2
        if div:
            print("the simulation is not deterministic: %d of %d seeds diverged" % (div, detn))
            return 2
        return 0
    finally:
        shutil.rmtree(out, ignore_errors=True)


def determinism(n):
    exe = vbuild.build()
    out = tempfile.mkdtemp(prefix="fcsim-")
    bad = 0
    try:
        for name in sorted({s[0] for c in CHECKS.values() for s in c["scenarios"]}):
            a = batch(exe, name, 7, n, 300, out, "quick", nw=NW, hashes=True)[2]
            b = batch(exe, name, 7, n, 300, out, "quick", nw=5, hashes=True)[2]
            d = sum(1 for i in a if a[i] != b.get(i))
            bad += d
            print("%-16s %d seeds, %d divergences" % (name, len(a), d), flush=True)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return 2 if bad else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        print(vbuild.build())
        return 0
    if a[0] == "determinism":
        return determinism(int(a[1]) if len(a) > 1 else 200)
    if a[0] == "replay":
        exe = vbuild.build()
        r = replay(exe, a[1])
        print(json.dumps(r, indent=1))
        return 1 if r["violated"] else 0
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return check(a[1], "thorough" if tier == "thorough" else "quick")
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:
        print("ERROR: %s: %s" % (type(e).__name__, e))
        sys.exit(2)
