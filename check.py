#!/usr/bin/env python3
"""Seeded deterministic-simulation checks for neo-sonar/neo.

  check.py C01            search (VERIF_SEED, VERIF_TIER), exit 0 / 1 + VIOLATION line / 2 on an error of the check
  check.py --replay FILE  rebuild from /repo and re-execute one replay file
  check.py --setup        compile the simulation core once
  check.py --selftest     build the workers once and run the determinism sample of every property
"""
import collections, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NEO_REPO", "/repo")
BUILD = os.environ.get("NEO_SIM_BUILD", os.path.join(HERE, "build"))
JOBS = max(1, min(8, os.cpu_count() or 1))
sys.path.insert(0, os.path.join(HERE, "sim"))
from props import PROPS, VARIANTS  # noqa: E402


class CheckError(Exception):
    pass


# ------------------------------------------------------------------------------------------- build
def build(targets):
    """Every object is rebuilt from /repo's working tree; nothing from an earlier run is reused."""
    out = os.path.join(BUILD, "p%d" % os.getpid())
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cmd = ["make", "-s", "-k", "-j%d" % JOBS, "-f", os.path.join(HERE, "sim", "Makefile"),
           "OUT=" + out, "REPO=" + REPO] + ["%s/%s" % (out, t) for t in targets]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        raise CheckError("build failed")
    return out


# ------------------------------------------------------------------------------------------- worker access
def run_plans(worker, plans, timeout=300):
    """Executes plan texts, each in a fresh process image forked from the worker; returns one record per plan."""
    p = subprocess.run([worker, "stdin"], input="".join(x + "end\n" for x in plans), stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, text=True, timeout=timeout)
    recs = [json.loads(l) for l in p.stdout.splitlines() if l.startswith("{")]
    if len(recs) != len(plans):
        raise CheckError("worker lost a run")
    return recs


def run_plans_parallel(worker, plans):
    if not plans:
        return []
    k = min(JOBS, len(plans))
    procs = []
    for j in range(k):
        part = plans[j::k]
        p = subprocess.Popen([worker, "stdin"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, text=True)
        procs.append((p, part))
    import threading
    res = [None] * k

    def one(j):
        p, part = procs[j]
        o, _ = p.communicate("".join(x + "end\n" for x in part))
        res[j] = [json.loads(l) for l in o.splitlines() if l.startswith("{")]
    ts = [threading.Thread(target=one, args=(j,)) for j in range(k)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    out = [None] * len(plans)
    for j in range(k):
        if len(res[j]) != len(procs[j][1]):
            raise CheckError("worker lost a run")
        for i, r in enumerate(res[j]):
            out[j + i * k] = r
    return out


def gen_plan(worker, prop, seed, tier):
    r = subprocess.run([worker, "gen", prop, str(seed), str(tier)], stdout=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise CheckError("gen failed")
    return r.stdout


# ------------------------------------------------------------------------------------------- plans
class Plan:
    def __init__(self, text):
        self.head, self.ops, self.faults, self.pres = [], [], [], []
        for l in text.splitlines():
            if l.startswith("#") or not l.strip():
                continue
            w = l.split()
            {"op": self.ops, "fault": self.faults, "pre": self.pres}.get(w[0], self.head).append(w)

    def text(self):
        return "".join(" ".join(w) + "\n" for w in self.head + self.ops + self.faults + self.pres)

    def copy(self):
        q = Plan("")
        q.head, q.ops = [list(w) for w in self.head], [list(w) for w in self.ops]
        q.faults, q.pres = [list(w) for w in self.faults], [list(w) for w in self.pres]
        return q


def same(rec, cls):
    """Same violation class (sanitizer findings count as one family: shrinking may move where the bad access lands)."""
    c = rec.get("cls")
    if c is None:
        return False
    fam = lambda x: "memory" if x.split(":")[0] in ("asan", "bounds", "signal", "assert") else x
    return fam(c) == fam(cls)


def minimise(worker, text, cls, budget):
    t0 = time.time()
    cur = Plan(text)

    def attempt(cands):
        cands = [c for c in cands if c is not None]
        for i in range(0, len(cands), JOBS):
            if time.time() - t0 > budget:
                return None
            part = cands[i:i + JOBS]
            for c, r in zip(part, run_plans_parallel(worker, [x.text() for x in part])):
                if same(r, cls):
                    return c
        return None

    def ddmin(attr):
        nonlocal cur
        n = 2
        while time.time() - t0 <= budget:
            items = getattr(cur, attr)
            if not items:
                return
            n = min(n, len(items))
            size = -(-len(items) // n)
            cands = []
            for i in range(0, len(items), size):
                c = cur.copy()
                setattr(c, attr, [list(w) for w in items[:i] + items[i + size:]])
                if attr == "ops":
                    ids = {w[1] for w in c.ops}
                    c.faults = [w for w in c.faults if w[1] in ids]
                cands.append(c)
            got = attempt(cands)
            if got is not None:
                cur = got
                n = max(2, n - 1)
            elif size == 1:
                return
            else:
                n = min(len(items), n * 2)

    for _ in range(2):
        before = cur.text()
        for attr in ("pres", "faults", "ops", "pres"):
            ddmin(attr)
        # shrink numeric arguments
        for group, first in (("ops", 4), ("faults", 3), ("pres", 1), ("head", 2)):
            i = 0
            while i < len(getattr(cur, group)):
                w = getattr(cur, group)[i]
                if group == "head" and w[0] != "cfg":
                    i += 1
                    continue
                for k in range(first, len(w)):
                    while time.time() - t0 <= budget:
                        v = int(getattr(cur, group)[i][k])
                        if v <= 1:
                            break
                        cands = []
                        for nv in sorted({0, 1, 2, v // 2, v - 1}):
                            if nv < v:
                                c = cur.copy()
                                getattr(c, group)[i][k] = str(nv)
                                cands.append(c)
                        got = attempt(cands)
                        if got is None:
                            break
                        cur = got
                i += 1
        if cur.text() == before or time.time() - t0 > budget:
            break
    return cur.text()


# ------------------------------------------------------------------------------------------- known findings
def load_known(prop):
    out = []
    path = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get("status") == "known" and d.get("property") == prop:
                    out.append(d)
    return out


def match_known(known, rec, plan_text):
    for k in known:
        if k["cls"] == rec.get("cls") and re.search(k["msg"], rec.get("msg", "")) \
           and all(re.search(x, plan_text, re.M) for x in k.get("plan", [])):
            return k
    return None


# ------------------------------------------------------------------------------------------- the check
def strip(r):
    return {k: v for k, v in r.items() if k not in ("cov_total", "cov_hit")}


def check(prop, tier, vseed):
    t_start = time.time()
    spec = PROPS[prop]
    variants = spec.get("variants", ["a", "b"])
    targets = ["%s_%s" % (spec["worker"], v) for v in variants]
    out = build(targets)
    t_build = time.time() - t_start
    tnum = 1 if tier == "thorough" else 0
    secs = spec["thorough_s"] if tnum else spec["quick_s"]
    if "NEO_SIM_SECONDS" in os.environ:
        secs = float(os.environ["NEO_SIM_SECONDS"])
    base = int(hashlib.sha256(("%s/%d" % (prop, vseed)).encode()).hexdigest()[:15], 16)
    workers = [os.path.join(out, t) for t in targets]

    # seeded search: disjoint run indices per job; the build variant is part of the job
    procs = []
    for j in range(JOBS):
        vi = j % len(workers)
        f = open(os.path.join(out, "job%d.jsonl" % j), "w+")
        p = subprocess.Popen([workers[vi], "run", prop, str(base), str(j), str(JOBS), "100000000", str(secs), str(tnum)],
                             stdout=f, stderr=subprocess.DEVNULL)
        procs.append((p, f, vi))
    recs, cov, covtot, sim_runs = [], [set() for _ in workers], [0] * len(workers), 0
    for p, f, vi in procs:
        try:
            p.wait(timeout=secs + 240)
        except subprocess.TimeoutExpired:
            p.kill()
            raise CheckError("worker did not finish")
        f.seek(0)
        for l in f:
            if not l.startswith("{"):
                continue
            try:
                d = json.loads(l)
            except ValueError:
                raise CheckError("garbled worker output")
            if "cov_total" in d:
                covtot[vi] = d["cov_total"]
                cov[vi].update(d["cov_hit"])
            else:
                d["vi"] = vi
                recs.append(d)
        if p.returncode != 0:
            raise CheckError("worker exit %d" % p.returncode)
    t_search = time.time() - t_start - t_build
    if not recs:
        raise CheckError("no runs")

    bad = [r for r in recs if "cls" in r]
    killed = [r for r in bad if r["cls"] == "killed"]
    bad = [r for r in bad if r["cls"] != "killed"]
    known = load_known(prop)
    known_seen, fresh = {}, []
    for r in bad:
        k = None
        if known:
            k = match_known(known, r, gen_plan(workers[r["vi"]], prop, r["seed"], tnum))
        if k is not None:
            known_seen[k["what"]] = known_seen.get(k["what"], 0) + 1
        else:
            fresh.append(r)

    # the same seed, from its plan text, in another process and another order, must give the same record
    good = [r for r in recs if "cls" not in r]
    sample = good[:: max(1, len(good) // 24)][:24]
    nondet = 0
    for vi, w in enumerate(workers):
        part = [r for r in sample if r["vi"] == vi][::-1]
        if part:
            again = run_plans(w, [gen_plan(w, prop, r["seed"], tnum) for r in part])
            for a, b in zip(part, again):
                if {k: v for k, v in a.items() if k != "vi"} != b:
                    nondet += 1

    violation_line, exit_code, replay = None, 0, None
    # shortest failing plans first; one confirmed violation is enough
    cands = sorted(fresh, key=lambda r: (r["edges"], r["seed"]))
    tried = 0
    for r in cands[:6]:
        tried += 1
        w = workers[r["vi"]]
        text = gen_plan(w, prop, r["seed"], tnum)
        first = run_plans(w, [text])[0]
        if not same(first, r["cls"]):
            continue
        small = minimise(w, text, r["cls"], 45 if not tnum else 180)
        runs = run_plans(w, [small]) + run_plans(w, [small, small])
        if not all(same(x, r["cls"]) for x in runs):
            small = text
            runs = run_plans(w, [small]) + run_plans(w, [small, small])
            if not all(same(x, r["cls"]) for x in runs):
                continue
        rec = runs[0]
        if known and match_known(known, rec, small):
            k = match_known(known, rec, small)
            known_seen[k["what"]] = known_seen.get(k["what"], 0) + 1
            continue
        exact = all(x == rec for x in runs)
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        replay = os.path.join(HERE, "replays", "%s-%s.replay" % (prop, hashlib.sha256(small.encode()).hexdigest()[:12]))
        with open(replay, "w") as f:
            f.write("# property %s, build variant %s, found with VERIF_SEED=%d run seed %d\n"
                    % (prop, variants[r["vi"]], vseed, r["seed"]))
            f.write("# violation: %s: %s\n# history %s schedule %s, %s\n" % (
                rec["cls"], rec["msg"], rec["hash"], rec["sched"],
                "three replays identical" if exact else "three replays agree on the violation"))
            f.write("# variant %s\n" % variants[r["vi"]])
            f.write(small)
        print("violation: %s: %s" % (rec["cls"], rec["msg"]))
        print("minimised plan:\n" + small)
        violation_line = "VIOLATION property=%s replay=%s" % (prop, replay)
        exit_code = 1
        break
    if exit_code == 0 and fresh:
        raise CheckError("%d failing runs could not be reproduced (%s)" % (len(fresh), fresh[0]))
    if exit_code == 0 and nondet:
        raise CheckError("%d of %d sampled runs were not reproducible" % (nondet, len(sample)))
    if exit_code == 0 and killed:
        raise CheckError("%d runs were killed from outside" % len(killed))

    # evidence
    stats = collections.Counter()
    for r in recs:
        for k, v in r["stats"].items():
            stats[k] += v
    need = spec["nontrivial"]
    seen = set()
    for r in recs:
        if all(any(r["stats"].get(x, 0) for x in alt.split("|")) for alt in need):
            seen.add((r["hash"], r["sched"]))
    wall = time.time() - t_start
    probes = {k: v for k, v in stats.items() if k.startswith("probe_")}
    ev = {
        "property": prop, "tier": tier, "seed": vseed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": len(recs),
            "distinct_nontrivial": len(seen),
            "rule": spec["rule"],
            "samples": [gen_plan(workers[r["vi"]], prop, r["seed"], tnum)[:1500] for r in recs[:3]],
            "simulated_runs_per_hour": int(len(recs) / max(t_search, 1e-3) * 3600),
            "seeds_per_hour": int(len({r["seed"] for r in recs}) / max(t_search, 1e-3) * 3600),
            "simulated_seconds_of_signal": round(sum(r["simt"] for r in recs), 3),
            "instrumented_steps": sum(r["edges"] for r in recs),
            "faults_injected": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault_")},
            "states_probed": probes,
            "operations": {k: v for k, v in sorted(stats.items()) if not k.startswith(("fault_", "probe_"))},
            "task_switches": sum(r["switches"] for r in recs),
            "distinct_interleavings": len({r["sched"] for r in recs if r["switches"]}),
            "interleaving_measure": "hash over every (task, next task, code edge at which the switch happened)",
            "distinct_histories": len({r["hash"] for r in recs}),
            "edges_reached": [len(c) for c in cov], "edges_instrumented": covtot,
            "build_variants": [spec.get("variant_text", VARIANTS)[v] for v in variants],
            "determinism_sample": {"runs_repeated": len(sample), "different": nondet},
            "components_real": spec["real"], "components_stubbed": spec["stub"],
            "known_findings_seen": known_seen,
            "failing_runs": len(bad),
            "build_s": round(t_build, 1), "search_s": round(t_search, 1),
        },
        "assumptions": spec["assume"],
        "wall_s": round(wall, 2),
        "violations": 1 if exit_code else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s: %d runs, %d distinct non-trivial, %d failing, %.0fs build, %.0fs search"
          % (prop, len(recs), len(seen), len(bad), t_build, t_search))
    print("  faults %s" % ev["coverage"]["faults_injected"])
    print("  probes %s" % probes)
    if violation_line:
        print(violation_line)
    shutil.rmtree(out, ignore_errors=True)
    return exit_code


def replay(path):
    text = open(path).read()
    prop = re.search(r"^prop (\S+)", text, re.M).group(1)
    m = re.search(r"^# variant (\S+)", text, re.M)
    v = m.group(1) if m else PROPS[prop].get("variants", ["a"])[0]
    t = "%s_%s" % (PROPS[prop]["worker"], v)
    out = build([t])
    w = os.path.join(out, t)
    p = os.path.join(out, "plan")
    open(p, "w").write(text)
    recs = [json.loads([l for l in subprocess.run([w, "exec", p], stdout=subprocess.PIPE, text=True).stdout.splitlines()
                        if l.startswith("{")][-1]) for _ in range(2)]
    sys.stdout.write(subprocess.run([w, "exec", p, "v"], stdout=subprocess.PIPE, text=True).stdout)
    shutil.rmtree(out, ignore_errors=True)
    if recs[0] != recs[1]:
        print("replays differ")
        return 2
    if "cls" in recs[0]:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def selftest():
    for v in sorted({w + "_" + x for s in PROPS.values() for w in [s["worker"]] for x in s.get("variants", ["a", "b"])}):
        out = build([v])
        w = os.path.join(out, v)
        for prop in subprocess.run([w, "list"], stdout=subprocess.PIPE, text=True).stdout.split():
            r = [subprocess.run([w, "run", prop, "5", "0", "1", "6", "20", "0"], stdout=subprocess.PIPE).stdout for _ in range(2)]
            print(v, prop, "deterministic" if r[0] == r[1] else "NOT deterministic")
            if r[0] != r[1]:
                return 2
        shutil.rmtree(out, ignore_errors=True)
    return 0


def main():
    os.chdir(HERE)
    try:
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        if sys.argv[1] == "--selftest":
            return selftest()
        if sys.argv[1] == "--setup":
            build(["sim.o", "ref.o"])  # checks rebuild everything; this only proves the toolchain works
            return 0
        return check(sys.argv[1], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
    except CheckError as e:
        print("check error: %s" % e)
        return 2
    finally:
        shutil.rmtree(os.path.join(BUILD, "p%d" % os.getpid()), ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
