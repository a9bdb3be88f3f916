#!/usr/bin/env python3
"""Driver of the deterministic simulator.

  check.py run C05               check one property (VERIF_SEED, VERIF_TIER)
  check.py replay FILE           re-execute a replay file
  check.py selftest [C05 ...]    determinism: every run twice, other worker counts
"""
import concurrent.futures as cf, hashlib, json, os, random, shutil, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from plan import PLAN  # noqa: E402

NW = 8
CXX = "g++"
SCEN_FLAGS = ("-std=c++17 -O1 -g0 -w -fno-pie -fsanitize=thread --param tsan-instrument-func-entry-exit=0 "
              "-D_GLIBCXX_ASSERTIONS -include {h}/sim/sim_assert.hpp -I{r}/src -I/usr/include/eigen3 -I{h}/sim -I{h}/scen").split()
RT_FLAGS = "-std=c++17 -O2 -w -fno-pie -I{h}/sim".split()


def err(msg):
    print("ERROR " + msg, flush=True)
    sys.exit(2)


def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        fs = []
        if os.path.isfile(base):
            fs = [base]
        else:
            for d, dn, fn in os.walk(base):
                dn.sort()
                fs += [os.path.join(d, f) for f in sorted(fn)]
        for f in fs:
            h.update(os.path.relpath(f, base).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build(prop):
    """Compile the scenario units of a property against the current working tree."""
    spec = PLAN[prop]
    os.makedirs(BUILD, exist_ok=True)
    common = tree_hash([os.path.join(REPO, "src"), os.path.join(HERE, "sim")] +
                       [os.path.join(HERE, "scen", f) for f in sorted(os.listdir(os.path.join(HERE, "scen"))) if f.endswith(".hpp")])
    jobs, objs = [], []
    fmt = lambda fl: [x.format(h=HERE, r=REPO) for x in fl]
    for u in [("sim/sim.cpp", RT_FLAGS)] + [("scen/" + u, SCEN_FLAGS) for u in spec["units"]]:
        src = os.path.join(HERE, u[0])
        key = hashlib.sha256((common + tree_hash([src]) + " ".join(u[1])).encode()).hexdigest()[:24]
        o = os.path.join(BUILD, os.path.basename(u[0])[:-4] + "-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((src, fmt(u[1]), o))

    def comp(j):
        src, fl, o = j
        tmp = o + ".%d.tmp" % os.getpid()
        p = subprocess.run([CXX] + fl + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0 and "/scen/" in src:     # block copies go through the simulator
            p = subprocess.run(["objcopy"] + ["--redefine-sym=%s=sim_%s" % (f, f) for f in ("memcpy", "memmove", "memset")] + [tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            os.replace(tmp, o)
        return p.returncode, src, p.stdout

    with cf.ThreadPoolExecutor(NW) as ex:
        for rc, src, out in ex.map(comp, jobs):
            if rc:
                print(out[-4000:])
                err("compilation of %s against %s failed" % (src, REPO))
    key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, prop + "-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        p = subprocess.run([CXX, "-no-pie"] + objs + ["-lpthread", "-ldl", "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print(p.stdout[-4000:])
            err("link failed")
        os.replace(tmp, exe)
    for o in objs + [exe]:
        try:
            os.utime(o)
        except OSError:
            pass
    prune()
    return exe


def prune(limit=1 << 30):
    fs = []
    for f in os.listdir(BUILD):
        p = os.path.join(BUILD, f)
        if os.path.isfile(p):
            try:
                st = os.stat(p)
            except OSError:
                continue
            fs.append((st.st_mtime, st.st_size, p))
    tot = sum(x[1] for x in fs)
    for m, s, p in sorted(fs):
        if tot <= limit or time.time() - m < 3600:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        tot -= s


class Scratch:
    def __enter__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        import tempfile
        self.d = tempfile.mkdtemp(prefix="simrun", dir=base)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def search(exe, scen, seed, runs, tlimit, d, workers=NW, hashes=False, start=0):
    """Runs start..start+runs-1 of the scenario over `workers` processes."""
    ps = []
    for w in range(workers):
        n = runs // workers + (1 if w < runs % workers else 0)
        if n == 0:
            continue
        sets = os.path.join(d, "set-%s-%d" % (scen.replace("/", "_"), w))
        ps.append((sets, subprocess.Popen([exe, "run", "--scenario", scen, "--seed", str(seed), "--start", str(start + w), "--stride", str(workers),
                                           "--runs", str(n), "--time", str(tlimit), "--dir", d, "--sets", sets, "--maxviol", "2",
                                           "--hashes", "1" if hashes else "0"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    outs = []
    with cf.ThreadPoolExecutor(len(ps)) as ex:
        outs = list(ex.map(lambda p: (p[0], p[1].communicate(), p[1].returncode), ps))
    viols, sums, hs, states, distinct = [], [], {}, set(), set()
    for sets, (o, e), rc in outs:
        if rc:
            print(o[-2000:], e[-2000:])
            err("simulator worker failed (%d)" % rc)
        for ln in o.splitlines():
            if ln.startswith("V "):
                viols.append(json.loads(ln[2:]))
            elif ln.startswith("S "):
                sums.append(json.loads(ln[2:]))
            elif ln.startswith("H "):
                f = ln.split()
                hs[int(f[1])] = " ".join(f[2:])
        if os.path.exists(sets):
            b = open(sets, "rb").read()
            for k, h in struct.iter_unpack("<QQ", b):
                (states if k == 1 else distinct).add(h)
            os.unlink(sets)
    viols.sort(key=lambda v: v["run"])
    return viols, sums, hs, states, distinct


class Batch:
    """A persistent simulator process that executes choice lists."""

    def __init__(self, exe, scen, d, mode="batch"):
        self.p = subprocess.Popen([exe, mode, "--scenario", scen, "--dir", d], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def run(self, ch):
        self.p.stdin.write(" ".join(map(str, ch)) + "\n")
        self.p.stdin.flush()
        ln = self.p.stdout.readline()
        if not ln:
            err("simulator process ended during replay")
        return json.loads(ln)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def run_fresh(exe, scen, ch, d, mode="batch"):
    b = Batch(exe, scen, d, mode)
    try:
        return b.run(ch)
    finally:
        b.close()


def minimise(exe, scen, ch, cls, d, tlimit):
    """Delete, zero and lower choices while the same violation class persists."""
    t_end = time.time() + tlimit
    pool = [Batch(exe, scen, d) for _ in range(NW)]
    ex = cf.ThreadPoolExecutor(NW)
    tries = [0]
    seen = set()

    def first_ok(cands):
        # try in chunks of NW, take the first (in order) that still fails the same way
        for i in range(0, len(cands), NW):
            if time.time() > t_end:
                return None
            part = cands[i:i + NW]
            res = list(ex.map(lambda t: t[0].run(t[1]), zip(pool, part)))
            tries[0] += len(part)
            for c, r in zip(part, res):
                if r["status"] == "violation" and r["class"] == cls:
                    return r["choices"]
        return None

    def key(c):
        return (len(c), sum(1 for x in c if x), sum(min(x, 1 << 40) for x in c))

    def strip(c):
        c = list(c)
        while c and c[-1] == 0:
            c.pop()
        return c
    cur = strip(ch)
    better = True
    while better and time.time() < t_end:
        better = False
        size = max(1, len(cur) // 2)
        while size >= 1 and time.time() < t_end:
            i = 0
            while i < len(cur) and time.time() < t_end:
                cands = []
                idx = []
                j = i
                while j < len(cur) and len(cands) < NW:
                    c = strip(cur[:j] + cur[j + size:])
                    z = strip(cur[:j] + [0] * min(size, len(cur) - j) + cur[j + size:])
                    for x in (c, z):
                        if key(x) < key(cur) and tuple(x) not in seen:
                            seen.add(tuple(x))
                            cands.append(x)
                            idx.append(j)
                    j += size
                got = first_ok(cands) if cands else None
                if got is not None and key(strip(got)) < key(cur):
                    cur = strip(got)
                    better = True
                else:
                    i = j
            size //= 2
        # lower single values
        i = 0
        while i < len(cur) and time.time() < t_end:
            v = cur[i]
            if v > 1:
                cands = []
                for nv in [1, 2, 3] + [v >> k for k in range(1, 40)][::-1] + [v - 1]:
                    if 0 < nv < v:
                        x = cur[:i] + [nv] + cur[i + 1:]
                        if tuple(x) not in seen:
                            seen.add(tuple(x))
                            cands.append(x)
                got = first_ok(cands[:24]) if cands else None
                if got is not None and key(strip(got)) < key(cur):
                    cur = strip(got)
                    better = True
                    continue
            i += 1
    for b in pool:
        b.close()
    ex.shutdown()
    return cur, tries[0]


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p)).get("findings", []):
            if k["property"] == prop:
                out.append(k)
    return out


def run_check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PLAN[prop]
    print("property=%s tier=%s seed=%d repo=%s" % (prop, tier, seed, REPO), flush=True)
    exe = build(prop)
    t_build = time.time() - t0
    rc = 0
    reported = 0
    cov = {"scenarios": {}}
    tot = dict(runs=0, disc=0, nontriv=0, steps=0, simtime=0.0, wall=0.0)
    ctr, samples, allstates, alldist = {}, [], 0, 0
    kf = known_findings(prop)
    kf_seen = set()
    det_total = 0
    with Scratch() as d:
        for sc in spec["scenarios"]:
            name = sc["id"]
            runs = sc[tier] if tier in sc else sc["quick"]
            tl = sc.get(tier + "_time", {"quick": 60, "thorough": 600}.get(tier, 60))
            ts = time.time()
            viols, sums, _, states, distinct = search(exe, name, seed, runs, tl, d)
            wall = time.time() - ts
            n = sum(s["runs"] for s in sums)
            print("  %s: %d runs in %.1f s (%.0f/s), %d distinct non-trivial, %d states, %d violating" %
                  (name, n, wall, n / max(wall, 1e-9), len(distinct), len(states), len(viols)), flush=True)
            tot["runs"] += n
            tot["wall"] += wall
            for k, kk in (("disc", "discarded"), ("nontriv", "nontrivial"), ("steps", "steps"), ("simtime", "simtime")):
                tot[k] += sum(s[kk] for s in sums)
            sct, scd = {}, {}
            for s in sums:
                for k, v in s["counters"].items():
                    ctr[k] = ctr.get(k, 0) + v
                    sct[k] = sct.get(k, 0) + v
                for k, v in s["discards"].items():
                    scd[k] = scd.get(k, 0) + v
            samples += [name + " " + x for s in sums for x in s["samples"]][:3]
            allstates += len(states)
            alldist += len(distinct)
            cov["scenarios"][name] = {"runs": n, "discarded": scd, "distinct_nontrivial": len(distinct), "distinct_states": len(states),
                                      "counters": sct, "wall_s": round(wall, 2)}
            # determinism sample: same runs again, another worker count
            if not viols:
                m = min(n, spec.get("det", 48))
                _, _, h1, _, _ = search(exe, name, seed, m, 120, d, workers=3, hashes=True)
                _, _, h2, _, _ = search(exe, name, seed, m, 120, d, workers=8, hashes=True)
                bad = [i for i in h1 if i in h2 and h1[i] != h2[i]]
                if bad:
                    # the simulator controls every input of a run, so only the code under test can make two executions of one seed differ
                    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
                    path = os.path.join(HERE, "replays", "%s-%s.json" % (prop, hashlib.sha256((name + "repeat").encode()).hexdigest()[:10]))
                    json.dump({"property": prop, "scenario": name, "class": prop + ":not-repeatable", "verif_seed": seed, "runs": bad[:64],
                               "message": "runs %s, executed twice from the same seed, differ: %s" % (bad[:5], [(h1.get(i), h2.get(i)) for i in bad[:2]])}, open(path, "w"), indent=1)
                    print("VIOLATION property=%s replay=%s" % (prop, path))
                    print("  class %s:not-repeatable: runs %s of %s differ between two executions of the same seed" % (prop, bad[:5], name), flush=True)
                    reported += 1
                    rc = 1
                det_total += m
            # violations, one per class
            by = {}
            for v in viols:
                by.setdefault(v["res"]["class"], []).append(v)
            for cls, vs in by.items():
                v = min(vs, key=lambda x: len(x["choices"]))
                r1 = run_fresh(exe, name, v["choices"], d)
                r2 = run_fresh(exe, name, v["choices"], d)
                exact = True
                for r in (r1, r2):
                    if r["status"] != "violation":
                        err("run %d of %s (%s) does not replay: %s vs %s" % (v["run"], name, cls, v["res"], {k: r[k] for k in ("status", "class", "msg", "hash")}))
                    exact = exact and r["class"] == cls and r["hash"] == v["res"]["hash"]
                if not exact:
                    print("  note: run %d of %s violates again on replay but not bit for bit: the code under test reads something outside the run (indeterminate memory)" % (v["run"], name))
                known = [k for k in kf if k.get("class") == cls and k.get("match", "") in v["res"]["msg"]]
                if known:
                    for k in known:
                        kf_seen.add(k["what"])
                    continue
                if reported >= 3:
                    rc = 1
                    continue
                mini, tries = minimise(exe, name, v["choices"], cls, d, sc.get("shrink", 25 if tier == "quick" else 120))
                full = run_fresh(exe, name, mini, d, "trace")
                if full["status"] != "violation" or full["class"] != cls:
                    mini = v["choices"]
                    full = run_fresh(exe, name, mini, d, "trace")
                os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
                path = os.path.join(HERE, "replays", "%s-%s.json" % (prop, hashlib.sha256((name + cls).encode()).hexdigest()[:10]))
                json.dump({"property": prop, "scenario": name, "class": cls, "message": full["msg"], "hash": full["hash"],
                           "verif_seed": seed, "run": v["run"], "run_seed": v["seed"], "original_choices": v["choices"],
                           "choices": full["choices"][:len(mini)], "schedule": ["%s=%d" % (l, c) for l, c in zip(full["labels"], full["choices"])],
                           "shrink_attempts": tries, "trace": full["trace"].splitlines()}, open(path, "w"), indent=1)
                fin = run_fresh(exe, name, json.load(open(path))["choices"], d)
                if fin["status"] != "violation" or (exact and (fin["class"] != cls or fin["hash"] != full["hash"])):
                    err("minimised replay of %s does not reproduce" % cls)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("  class %s: %s" % (cls, full["msg"]))
                print("  run %d of %s, %d choices minimised to %d (%d attempts)" % (v["run"], name, len(v["choices"]), len(mini), tries), flush=True)
                reported += 1
                rc = 1
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    wall = time.time() - t0
    if rc == 0:
        for pr in spec.get("probes", []):
            if not ctr.get(pr):
                print("  note: probe '%s' was never reached" % pr)
    cov.update({
        "evaluations": tot["runs"], "distinct_nontrivial": alldist,
        "rule": spec["rule"], "samples": samples[:8],
        "discarded": tot["disc"], "runs_per_hour": int(tot["runs"] / max(tot["wall"], 1e-9) * 3600), "seeds_per_hour": int(tot["runs"] / max(tot["wall"], 1e-9) * 3600),
        "simulated_seconds": round(tot["simtime"], 6), "simulated_steps": tot["steps"],
        "faults_and_probes": dict(sorted(ctr.items())),
        "distinct_states_or_interleavings": allstates, "state_measure": spec["state"],
        "real_components": spec["real"], "stubbed_components": spec["stub"],
        "determinism_runs_compared": det_total, "build_s": round(t_build, 1), "probes_never_reached": [p for p in spec.get("probes", []) if not ctr.get(p)],
    })
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov,
          "assumptions": spec.get("assume", []), "wall_s": round(wall, 2), "violations": reported}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d runs, %.1f s (build %.1f s)" % (prop, "held" if rc == 0 else "VIOLATED", tot["runs"], wall, t_build))
    return rc


def replay(path):
    r = json.load(open(path))
    exe = build(r["property"])
    if "runs" in r:
        with Scratch() as d:
            hs = [[search(exe, r["scenario"], r["verif_seed"], 1, 120, d, workers=1, hashes=True, start=i)[2] for _ in range(4)] for i in r["runs"][:16]]
        bad = [i for i, h in zip(r["runs"], hs) if any(x != h[0] for x in h)]
        if bad:
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
            print("runs %s differ between repetitions" % bad)
            return 1
        print("no violation on this tree")
        return 0
    with Scratch() as d:
        full = run_fresh(exe, r["scenario"], r["choices"], d, "trace")
    print(full["trace"])
    same = full["class"] == r["class"] and full["hash"] == r["hash"]
    print("status=%s class=%s hash=%s (recorded %s)" % (full["status"], full["class"], full["hash"], r["hash"]))
    if full["status"] == "violation":
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        print("reproduced exactly" if same else "a different violation than recorded")
        return 1
    print("no violation on this tree")
    return 0


def selftest(props):
    bad = 0
    n = int(os.environ.get("SIM_RUNS", "400"))
    for p in props or sorted(PLAN):
        exe = build(p)
        with Scratch() as d:
            for sc in PLAN[p]["scenarios"]:
                ref = None
                for seed in range(1, 4):
                    ref = None
                    for w in (8, 1, 3, 16):
                        _, _, h, _, _ = search(exe, sc["id"], seed, n if w > 1 else n // 4, 600, d, workers=w, hashes=True)
                        if ref is None:
                            ref = h
                        diff = [i for i in h if h[i] != ref.get(i)]
                        if diff:
                            bad += 1
                            print("NONDETERMINISM %s %s seed %d workers %d runs %s" % (p, sc["id"], seed, w, diff[:10]))
                            for i in diff[:3]:
                                print("   ", ref.get(i), "|", h[i])
                print("%s %s: compared" % (p, sc["id"]), flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    if len(sys.argv) >= 3 and sys.argv[1] == "run":
        sys.exit(run_check(sys.argv[2]))
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) >= 2 and sys.argv[1] == "selftest":
        sys.exit(selftest(sys.argv[2:]))
    if len(sys.argv) >= 2 and sys.argv[1] == "build":
        for p in sys.argv[2:] or sorted(PLAN):
            build(p)
        sys.exit(0)
    if len(sys.argv) == 2 and sys.argv[1] == "setup":
        # checks compile what they need themselves; this only proves the toolchain and the runtime build
        os.makedirs(BUILD, exist_ok=True)
        rc = subprocess.run([CXX] + [x.format(h=HERE, r=REPO) for x in RT_FLAGS] + ["-c", os.path.join(HERE, "sim/sim.cpp"), "-o", os.path.join(BUILD, "setup.o")]).returncode
        sys.exit(2 if rc else 0)
    print(__doc__)
    sys.exit(2)
