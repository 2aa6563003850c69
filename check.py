#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   - decide one property by simulated executions
   check.py replay FILE                 - replay one recorded violation

Builds the simulator from /repo's working tree, runs seeded executions on all
cores, minimises the first violation, confirms that its replay file reproduces
it exactly in a fresh process, and writes evidence/PROPERTY.json.
Exit 0: held on everything explored.  1: VIOLATION.  2: the check itself failed.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time, queue

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
QUICK = float(os.environ.get("VERIF_SECONDS", "45"))
THOROUGH = float(os.environ.get("VERIF_SECONDS", "720"))

REAL = {
    "epoch": ["internal/party (VSS, transfer, share reduction, RBC, agreement, refresh, share distribution)", "pkg/core (links, framing, dispatcher)",
              "pkg/protobuf", "internal/polyring", "internal/polycommit", "internal/bls (commitments, openings; pairings of equal inputs are memoised)",
              "drand/kyber threshold signatures", "Reed-Solomon coding"],
    "mvba": ["internal/party (agreement: provable broadcast, election, votes)", "pkg/core (links, framing, dispatcher)", "pkg/protobuf", "drand/kyber threshold signatures"],
    "transport": ["pkg/core (links, framing, dispatcher)", "pkg/protobuf", "internal/party (connection set-up, routing, GetMessage)"],
    "vss": ["internal/party (dealer program, receipt and verification of a dealing)", "pkg/core (links, framing, dispatcher)", "pkg/protobuf", "internal/polyring",
            "internal/polycommit", "internal/bls (commitments, openings; pairings of equal inputs are memoised)"],
    "node": ["cmd/DyCAPs (the deployed program, all of its roles)", "internal/party", "pkg/core (links, framing, dispatcher)", "pkg/protobuf", "internal/polyring",
             "internal/polycommit", "internal/bls (commitments, openings; pairings of equal inputs are memoised)", "drand/kyber threshold signatures", "Reed-Solomon coding"],
    "rbc": ["internal/party (reliable broadcast)", "pkg/core (links, framing, dispatcher)", "pkg/protobuf", "Reed-Solomon coding"],
}
STUB = ["network (net): simulated sockets, byte streams with windows, resets, refused dials", "clocks and timers (time): simulated per-process clocks",
        "goroutine scheduling, channels, select, mutexes, wait groups, sync.Map ordering: decided by the seeded scheduler",
        "randomness (crypto/rand): seeded per process", "pairing library (kilic/bls12-381): copy with memoised pairings and the reduction of mul014 fixed (see DESIGN.md)",
        "process exit, logging and the file system (os, ioutil, log): simulated per process"]


def die(msg, code=2):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(code)


def env():
    e = dict(os.environ)
    e.update(GOMAXPROCS="1", GOGC="off", GODEBUG="asyncpreemptoff=1")
    return e


def build(out):
    e = dict(os.environ)
    e["VERIF_REPO"] = REPO
    for k in ("GOMAXPROCS", "GOGC", "GODEBUG"):
        e.pop(k, None)
    try:
        r = subprocess.run(["bash", HERE + "/sim/build.sh", out], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    except subprocess.TimeoutExpired:
        die("build timed out")
    if r.returncode != 0:
        die("the simulator does not build from %s:\n%s" % (REPO, r.stdout.decode(errors="replace")[-4000:]))
    return out + "/sim"


def run(sim, args, timeout):
    try:
        r = subprocess.run([sim] + args, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "timed out"
    if r.returncode != 0:
        return None, "exit %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[-2000:])
    return [json.loads(l) for l in r.stdout.decode().splitlines() if l.startswith("{")], ""


def findings(prop):
    """entries 'known: property=C01 kind=<kind> match=<regex> :: <what fails>'"""
    out = []
    try:
        for l in open(HERE + "/known-findings.txt"):
            m = re.match(r"known: property=(\S+) kind=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    except FileNotFoundError:
        pass
    return out


def explore(sim, prop, seed, seconds, known, deep=False):
    """Runs the workers (every other one with large committees, if deep); returns (summaries, first new violation, known hits)."""
    q = queue.Queue()
    procs, errs = [], {}
    ex = ",".join(k for k, rx, _ in known if rx.pattern == ".*")
    for i in range(WORKERS):
        p = subprocess.Popen([sim, "worker", "-prop", prop, "-seed", str(seed), "-from", str(i), "-stride", str(WORKERS), "-seconds", str(seconds),
                              "-known", ex, "-maxv", "4"] + (["-deep"] if deep and i % 2 else []), env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        procs.append(p)

        def rd(p=p, i=i):
            for l in p.stdout:
                if l.startswith(b"{"):
                    q.put((i, json.loads(l)))
            p.wait()
            q.put((i, None))

        def er(p=p, i=i):
            b = p.stderr.read()
            errs[i] = b.decode(errors="replace")[:3000]
        threading.Thread(target=rd, daemon=True).start()
        threading.Thread(target=er, daemon=True).start()
    sums, new, hits, live = [], None, {}, WORKERS
    deadline = time.time() + seconds + (900 if deep else 240)
    failed = None
    try:
        while live:
            try:
                i, d = q.get(timeout=max(0.1, deadline - time.time()))
            except queue.Empty:
                failed = "a worker did not finish in time"
                break
            if d is None:
                live -= 1
                if procs[i].returncode != 0:
                    time.sleep(0.3)
                    failed = "worker %d ended with %d: %s" % (i, procs[i].returncode, errs.get(i, ""))
                    break
                continue
            if d.get("sum"):
                sums.append(d)
                continue
            v = d["viol"]
            k = [t for kind, rx, t in known if kind == v["kind"] and rx.search(v["detail"])]
            if k:
                hits[k[0]] = d
                continue
            new = d
            break
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
    if failed and not new:
        die(failed)
    return sums, new, hits


def determinism(sim, prop, seed, n=3):
    """The same executions in separate processes have to be identical."""
    a, ea = run(sim, ["worker", "-prop", prop, "-seed", str(seed), "-from", "0", "-count", str(n), "-maxv", "99"], 200)
    b, eb = run(sim, ["worker", "-prop", prop, "-seed", str(seed), "-from", "0", "-count", str(n), "-maxv", "99"], 200)
    if a is None or b is None:
        die("determinism probe failed: %s %s" % (ea, eb))
    if a[-1]["digests"] != b[-1]["digests"] or a[-1]["steps"] != b[-1]["steps"]:
        die("executions are not repeatable: %s vs %s" % (a[-1]["digests"], b[-1]["digests"]))
    return n


def same(d, res):
    return any(v["prop"] == d["viol"]["prop"] and v["kind"] == d["viol"]["kind"] for v in res.get("viol") or [])


def report(sim, prop, d, seed):
    """Minimises, writes the replay file and confirms it in a fresh process."""
    first = d
    secs = 60 if os.environ.get("VERIF_TIER") == "thorough" else 25
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(d["spec"], f)
    m, err = run(sim, ["min", "-spec", f.name, "-prop", prop, "-kind", d["viol"]["kind"], "-seconds", str(secs)], secs + 180)
    os.unlink(f.name)
    if m and m[-1].get("ok"):
        d = dict(m[-1], idx=first["idx"])
    os.makedirs(HERE + "/replays", exist_ok=True)
    for cand in (d, first):
        path = "%s/replays/%s-%s-%s.json" % (HERE, prop, cand["viol"]["kind"], cand["digest"][:8])
        doc = {"property": prop, "kind": cand["viol"]["kind"], "violation": cand["viol"]["detail"], "seed": seed, "run": first["idx"], "digest": cand["digest"],
               "replay": "python3 /verif/check.py replay " + path, "spec": cand["spec"], "original_spec": first["spec"], "minimise_tries": cand.get("tries", 0)}
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        r, err = run(sim, ["run", "-spec", path], 300)
        if r and same(cand, r[-1]) and r[-1]["digest"] == cand["digest"]:
            print("%s: %s" % (cand["viol"]["kind"], cand["viol"]["detail"][:1500]))
            print("seed=%s run=%s steps=%s digest=%s faults=%s" % (seed, first["idx"], r[-1]["steps"], cand["digest"], json.dumps(cand["spec"].get("faults"))[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            return path
    die("a violation of %s (%s: %s) did not reproduce from its replay file: %s" % (prop, d["viol"]["kind"], d["viol"]["detail"][:500], err))


def main():
    if len(sys.argv) < 2:
        die(__doc__)
    tmp = tempfile.mkdtemp(prefix="verif-sim-")
    try:
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
        if sys.argv[1] == "replay":
            doc = json.load(open(sys.argv[2]))
            sim = build(tmp)
            r, err = run(sim, ["run", "-spec", os.path.abspath(sys.argv[2])], 600)
            if r is None:
                die(err)
            r = r[-1]
            for v in r.get("viol") or []:
                print(v["prop"], v["kind"], v["detail"])
            hit = any(v["prop"] == doc["property"] and v["kind"] == doc["kind"] for v in r.get("viol") or [])
            print("digest %s (recorded %s)%s" % (r["digest"], doc["digest"], "" if r["digest"] != doc["digest"] else ": identical execution"))
            if hit:
                print("VIOLATION property=%s replay=%s" % (doc["property"], sys.argv[2]))
            sys.exit(1 if hit else 0)
        prop = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        seed = int(os.environ.get("VERIF_SEED", "1"))
        print("property=%s tier=%s seed=%d workers=%d" % (prop, tier, seed, WORKERS), flush=True)
        t0 = time.time()
        sim = build(tmp)
        tb = time.time() - t0
        probes = determinism(sim, prop, seed)
        known = findings(prop)
        seconds = QUICK if tier == "quick" else THOROUGH
        t1 = time.time()
        sums, new, hits = explore(sim, prop, seed, seconds, known, tier == "thorough")
        wall = time.time() - t1
        path = report(sim, prop, new, seed) if new else None
        evidence(prop, tier, seed, sums, wall, tb, probes, hits, new, path, time.time() - t0)
        for t in sorted(hits):
            print("KNOWN-FINDING: property=%s %s" % (prop, t))
        if new:
            sys.exit(1)
        n = sum(s["runs"] for s in sums)
        if n == 0:
            die("no execution was completed")
        print("held on %d executions" % n)
        sys.exit(0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def evidence(prop, tier, seed, sums, wall, tb, probes, hits, new, path, total):
    def tot(k):
        return sum(s.get(k) or 0 for s in sums)

    def merge(k):
        r = {}
        for s in sums:
            for a, b in (s.get(k) or {}).items():
                r[a] = r.get(a, 0) + b
        return dict(sorted(r.items()))
    runs = tot("runs")
    digests = set(x for s in sums for x in s["nontrivial"])
    orders = set(x for s in sums for x in s["orders"])
    samples = [x for s in sums for x in s["samples"]][:4]
    if new:
        samples = [{"run": new["idx"], "spec": new["spec"], "violation": new["viol"]}] + samples
    counts, withf = merge("counts"), merge("with")
    probesn = {k: counts.pop(k) for k in list(counts) if k.startswith("probe-")}
    scen = merge("scen")
    cov = {
        "evaluations": max(runs, 1 if new else 0),
        "distinct_nontrivial": len(digests),
        "rule": "Every execution runs the real programs of all members (and the client) under the seeded scheduler; seed and run number determine schedule, faults and "
                "misbehaviour. Non-trivial: protocol messages were exchanged and the scheduler had at least one choice among several runnable tasks or deliveries, or a "
                "fault was injected. Distinct: different digest over the complete sequence of scheduling, delivery and fault events.",
        "samples": samples,
        "runs_per_hour": round(runs / wall * 3600) if wall else 0,
        "seeds_per_hour": round(runs / wall * 3600) if wall else 0,
        "simulated_seconds": round(tot("simns") / 1e9, 1),
        "scheduler_steps": tot("steps"),
        "messages": tot("frames"),
        "runs_reaching_goal": tot("done"),
        "distinct_delivery_orders": len(orders),
        "delivery_order_measure": "distinct hashes over the sequence (sender, receiver, message type) of all messages honest members read",
        "fault_and_event_counts": counts,
        "runs_with_fault_or_event": withf,
        "rare_condition_probes": dict(sorted(probesn.items())),
        "scenarios": scen,
        "determinism_probe": "%d executions repeated in a second process with identical digests" % probes,
        "real_components": sorted(set(x for k in scen for x in REAL.get(k.split()[0], REAL["epoch"]))),
        "stub_components": STUB,
        "build_s": round(tb, 1),
        "known_findings_hit": sorted(hits),
    }
    doc = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": ["sender ids are authentic: a member cannot write another existing member's id into its messages",
                           "threshold signatures, pairings and hashes are not broken", "at most F members per committee misbehave"],
           "wall_s": round(total, 1), "violations": 1 if new else 0}
    if path:
        doc["coverage"]["replay"] = path
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (HERE, prop), "w") as f:
        json.dump(doc, f, indent=1)


main()
