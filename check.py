#!/usr/bin/env python3
"""Driver of the checks.

  check.py PROPERTY [--tier quick|thorough]     run one check (seed from VERIF_SEED)
  check.py replay FILE [--log]                  re-execute a replay file
  check.py setup                                build the simulator
  check.py determinism PROPERTY [N]             run the first N cases twice, differently sharded, and compare
"""
import fcntl, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(HERE, "_build")
WORKERS = 8
NOBODY = 65534

# cases, deadline in seconds; least number of cases even if that takes longer (up to 6 deadlines)
LEAST = {"D11": 120, "D12": 120, "D13": 250, "G04": 300, "G05": 120, "G07": 120, "G12": 1000}
QUICK, THOROUGH = {}, {}
for p in ["D%02d" % i for i in range(1, 17)] + ["G%02d" % i for i in range(1, 14)]:
    QUICK[p] = (100000, 14)
    THOROUGH[p] = (10000000, 600)

REAL_G = ("real: everything under src/ except tests (option parser, DBC scanner and line parser, directory creator, code generators, file writer, main), "
          "libstdc++ iostreams/filesystem/regex; stub: kernel file system, clock, time zone, locale data, environment, heap, scheduler, process start and end")
REAL_D = ("real: the generator and every line of the driver it generated, compiled by gcc with each node's own configuration; "
          "stub: the bus, the frames in flight, the nodes' application code, tick source, hash function and monitor hooks, power cycles, the task scheduler")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def tree_hash(root, exts, skip=()):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read() + b"\0")
    return h.hexdigest()[:20]


def locked(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_sim():
    with locked("sim"):
        key = tree_hash(os.path.join(HERE, "sim"), (".cpp", ".h", ".list"))
        out = os.path.join(BUILD, "sim-" + key)
        if not os.path.exists(os.path.join(out, "sim")):
            r = sh([os.path.join(HERE, "build.sh"), "sim", out])
            if r.returncode:
                print(r.stdout.decode(errors="replace")[-3000:])
                print("the simulator does not build")
                sys.exit(2)
            shutil.rmtree(os.path.join(out, "o"), ignore_errors=True)
            for o in os.listdir(BUILD):
                if o.startswith("sim-") and o != "sim-" + key:
                    shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
        return os.path.join(out, "sim")


def build_coder():
    with locked("coder"):
        key = tree_hash(os.path.join(REPO, "src"), (".cpp", ".h", ".hpp", ".c", ".inc"), ("tests", "_build"))
        out = os.path.join(BUILD, "coder-" + key)
        if not os.path.exists(os.path.join(out, "coder.so")):
            r = sh([os.path.join(HERE, "build.sh"), "coder", REPO, out])
            if r.returncode:
                print(r.stdout.decode(errors="replace")[-3000:])
                print("the generator does not build")
                sys.exit(2)
            shutil.rmtree(os.path.join(out, "c"), ignore_errors=True)
            old = sorted((o for o in os.listdir(BUILD) if o.startswith("coder-") and o != "coder-" + key), key=lambda o: os.path.getmtime(os.path.join(BUILD, o)))
            for o in old[:-3]:
                shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
        return os.path.join(out, "coder.so")


class Arena:
    """Private scratch directory; workers run as an unprivileged user when that is possible."""

    def __init__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK | os.X_OK) and shutil.disk_usage("/dev/shm").free > 2 << 30 else "/tmp"
        self.dir = tempfile.mkdtemp(prefix="simcheck-", dir=base)
        os.chmod(self.dir, 0o755)
        self.drop = os.getuid() == 0
        if self.drop:
            try:
                t = subprocess.run(["/bin/true"], user=NOBODY, group=NOBODY, extra_groups=[])
                self.drop = t.returncode == 0
            except Exception:
                self.drop = False
        self.n = 0

    def sub(self):
        self.n += 1
        d = os.path.join(self.dir, "w%d" % self.n)
        os.mkdir(d)
        if self.drop:
            os.chown(d, NOBODY, NOBODY)
        return d

    def start(self, args, d):
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C", "SIM_CORPUS": os.path.join(HERE, "corpus")}
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if self.drop else {}
        return subprocess.Popen(args, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=open(os.path.join(d, "stdout"), "wb"),
                                stderr=open(os.path.join(d, "stderr"), "wb"), start_new_session=True, **kw)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def tail(d):
    try:
        with open(os.path.join(d, "stderr"), "rb") as f:
            return f.read()[-400:].decode(errors="replace")
    except OSError:
        return ""


def wait(p, limit):
    try:
        return p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        kill(p)
        return None


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.sim, self.coder = build_sim(), build_coder()
        self.arena = Arena()
        if self.arena.drop:
            # the build directory may lie where others cannot read
            for n in ("sim", "coder"):
                src = getattr(self, n)
                dst = os.path.join(self.arena.dir, os.path.basename(src))
                shutil.copy(src, dst)
                os.chmod(dst, 0o755)
                setattr(self, n, dst)
        self.known = known_findings(prop)
        self.knownfile = os.path.join(self.arena.dir, "known.json")
        with open(self.knownfile, "w") as f:
            json.dump(self.known, f)
        os.chmod(self.knownfile, 0o644)

    def args(self, mode, d, **kw):
        a = [self.sim, mode, "--coder", self.coder, "--scratch", d]
        for k, v in kw.items():
            a += ["--" + k, str(v)]
        return a

    def search(self, d, cases, deadline, shard=0, shards=1, only=None, roundtrip=False):
        kw = dict(prop=self.prop, seed=self.seed, shard=shard, shards=shards, cases=cases, deadline=deadline, out=os.path.join(d, "r.json"), known=self.knownfile)
        if only is None and self.tier == "quick":
            kw["least"] = LEAST.get(self.prop, 160) // WORKERS
        if only:
            kw["only"] = ",".join(map(str, only))
        if self.tier == "thorough":
            kw["thorough"] = 1
        if roundtrip:
            kw["roundtrip"] = 1
        return self.arena.start(self.args("run", d, **kw), d)


def read_json(p):
    try:
        with open(p, encoding="utf-8", errors="replace") as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def known_findings(prop):
    r = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=\"([^\"]*)\" (.*)", line.strip())
            if m and m.group(1) == prop:
                r.append({"class": m.group(2), "match": m.group(3), "text": m.group(4)})
    return r


def digests(p):
    r = {}
    try:
        for line in open(p):
            a, b = line.split()
            r[int(a)] = b
    except OSError:
        pass
    return r


def progress(d):
    try:
        return int(open(os.path.join(d, "r.json.progress")).read().split()[0])
    except (OSError, ValueError, IndexError):
        return None


def load_traces(p):
    sets = [set(), set()]
    try:
        b = open(p, "rb").read()
        at = 0
        for s in sets:
            (n,) = struct.unpack_from("<Q", b, at)
            at += 8
            s.update(struct.unpack_from("<%dQ" % n, b, at))
            at += 8 * n
    except (OSError, struct.error):
        pass
    return sets


def merge(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def replay_once(run, plan_file, log=False):
    """returns (verdict dict or None when the process died, description)"""
    d = run.arena.sub()
    shutil.copy(plan_file, os.path.join(d, "plan.json"))
    os.chmod(os.path.join(d, "plan.json"), 0o644)
    doc = read_json(plan_file)
    if doc is not None and "case" in doc:
        p = run.search(d, 0, 600, only=[doc["case"]])
        rc = wait(p, 900)
        if rc == 0:
            return {"class": "", "detail": ""}, "quiet"
        if rc == 1:
            v = read_json(os.path.join(d, "r.json"))["violation"]
            return {"class": v["class"], "detail": v["detail"], "trace": v["trace"]}, "violation"
        return None, "simulator process ended with %s" % rc
    p = run.arena.start(run.args("replay", d, file=os.path.join(d, "plan.json"), out=os.path.join(d, "v.json"), log=1 if log else 0), d)
    rc = wait(p, 600)
    v = read_json(os.path.join(d, "v.json"))
    if rc not in (0, 1) or v is None:
        return None, "simulator process ended with %s %s" % (rc, tail(d))
    return v, ""


def main_check(prop, tier, seed):
    t0 = time.time()
    cases, deadline = (THOROUGH if tier == "thorough" else QUICK)[prop]
    if os.environ.get("SIM_DEADLINE"):
        deadline = float(os.environ["SIM_DEADLINE"])
    if os.environ.get("SIM_CASES"):
        cases = int(os.environ["SIM_CASES"])
    run = Run(prop, tier, seed)
    try:
        return check_body(run, prop, tier, seed, cases, deadline, t0)
    finally:
        run.arena.close()


def check_body(run, prop, tier, seed, cases, deadline, t0):
    build_s = time.time() - t0
    ds = [run.arena.sub() for _ in range(WORKERS)]
    ts = time.time()
    ps = [run.search(d, cases, deadline, i, WORKERS) for i, d in enumerate(ds)]
    found, broken = [], []
    limit = deadline * 7 + 240
    pending = set(range(WORKERS))
    while pending:
        for i in list(pending):
            rc = ps[i].poll()
            if rc is None:
                if time.time() - ts > limit:
                    kill(ps[i])
                    rc = "timeout"
                else:
                    continue
            pending.discard(i)
            if rc == 1:
                found.append(read_json(os.path.join(ds[i], "r.json"))["violation"])
            elif rc != 0:
                broken.append((progress(ds[i]), rc, tail(ds[i])))
            if rc != 0 and pending:
                # the others stop soon after the first alarm
                limit = min(limit, time.time() - ts + 3)
        time.sleep(0.02)
    search_s = time.time() - ts
    # ---- aggregate
    tot = {"plans": 0, "runs": 0, "simNs": 0, "steps": 0}
    fired, outcomes, probes, samples, ncases = {}, {}, {}, [], 0
    tr, nt, dig = set(), set(), {}
    for d in ds:
        r = read_json(os.path.join(d, "r.json"))
        if not r:
            continue
        ncases += r["cases"]
        for k in tot:
            tot[k] += r["stats"][k]
        merge(fired, r["stats"]["fired"])
        merge(outcomes, r["stats"]["outcomes"])
        merge(probes, r["stats"]["probes"])
        samples += r["stats"]["samples"]
        a, b = load_traces(os.path.join(d, "r.json.traces"))
        tr |= a
        nt |= b
        dig.update(digests(os.path.join(d, "r.json.digest")))
    viol = None
    if broken and all(rc == "timeout" for _, rc, _ in broken) and found:
        broken = []     # stopped because somebody else had raised an alarm
    crashes = [b for b in broken if b[1] != "timeout"] or ([] if found else broken)
    if found:
        found.sort(key=lambda v: v["index"])
        viol = found[0]
    elif crashes:
        viol = handle_crash(run, crashes[0])
        if viol is None:
            print("ERROR: worker ended with %s at case %s and does not do so again: %s" % (crashes[0][1], crashes[0][0], crashes[0][2]))
            return 2
    # ---- determinism: some cases again, in one fresh process, every plan as read from a file
    det = {"cases": 0, "mismatches": 0}
    if viol is None and dig:
        pick = sorted(dig)
        pick = [pick[0], pick[len(pick) // 2], pick[-1]]
        d = run.arena.sub()
        p = run.search(d, 0, 120, only=sorted(set(pick)), roundtrip=True)
        rc = wait(p, 240)
        again = digests(os.path.join(d, "r.json.digest"))
        for i in set(pick):
            if i in again:
                det["cases"] += 1
                det["mismatches"] += again[i] != dig[i]
        if det["mismatches"]:
            print("ERROR: the simulation is not deterministic: cases %s" % [i for i in again if again[i] != dig.get(i)])
            return 2
    rc = 0
    if viol is not None:
        rc = report(run, prop, viol)
    write_evidence(run, prop, tier, seed, locals())
    if rc == 0:
        for k in run.known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    if rc == 0:
        print("%s held: %d cases, %d plans, %d simulated runs in %.1f s (%d distinct traces)" % (prop, ncases, tot["plans"], tot["runs"], time.time() - t0, len(tr)))
    return rc


def handle_crash(run, crash):
    case, rc, err = crash
    if case is None:
        return None
    d = run.arena.sub()
    p = run.search(d, 0, 600, only=[case])
    rc2 = wait(p, 300)
    if rc2 == 0:
        return None
    if rc2 == 1:
        return read_json(os.path.join(d, "r.json"))["violation"]
    if rc2 == 3:
        print(tail(d))
        return None
    return {"index": case, "class": "process-destroyed", "detail": "the code under test destroyed the simulated machine (%s)" % (rc2 if rc2 is not None else "endless loop"), "case": case}


def report(run, prop, viol):
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    path = os.path.join(HERE, "replay", "%s.json" % prop)
    doc = {"property": prop, "seed": run.seed, "tier": run.tier, "index": viol["index"], "class": viol["class"], "detail": viol["detail"], "trace": viol.get("trace")}
    if "case" in viol:
        doc["case"] = viol["case"]
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
    else:
        doc["plan"] = viol["plan"]
        with open(path, "w") as f:
            json.dump(doc, f)
        # the same plan again in a fresh process
        v, why = replay_once(run, path)
        if v is None or v["class"] != viol["class"] or v["trace"] != viol["trace"]:
            v2, why2 = replay_once(run, path)
            if v is None or v2 is None or v["class"] == "" or (v["class"], v["trace"]) != (v2["class"], v2["trace"]):
                print("ERROR: the violation does not replay: %s / %s %s" % (viol["class"], v, why))
                print("detail: " + viol["detail"])
                return 2
            doc["class"], doc["detail"], doc["trace"] = v["class"], v["detail"], v["trace"]
        # minimise
        d = run.arena.sub()
        shutil.copy(path, os.path.join(d, "plan.json"))
        os.chmod(os.path.join(d, "plan.json"), 0o644)
        p = run.arena.start(run.args("shrink", d, file=os.path.join(d, "plan.json"), outfile=os.path.join(d, "min.json"), deadline=40), d)
        wait(p, 150)
        m = read_json(os.path.join(d, "min.json"))
        if m and m["class"] == doc["class"]:
            full = dict(doc)
            for k in ("detail", "trace", "plan", "log"):
                doc[k] = m[k]
            doc["minimised"] = {"tried": m["tried"], "kept": m["kept"]}
            with open(path, "w") as f:
                json.dump(doc, f, indent=1)
            v, why = replay_once(run, path)
            if v is None or v["class"] != doc["class"] or v["trace"] != doc["trace"]:
                doc = full
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
    print("class:  " + doc["class"])
    print("detail: " + doc["detail"][:1500])
    print("seed %d, case %d; replay with: %s replay %s" % (run.seed, viol["index"], os.path.join(HERE, "check.py"), path))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


RULES = {}


def write_evidence(run, prop, tier, seed, v):
    secs = max(v["search_s"], 0.001)
    tot = v["tot"]
    g = prop[0] == "G"
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(v["nt"]),
        "rule": ("One evaluation is one simulated %s. Every plan (inputs, schedule, faults) comes from one seeded generator per case. "
                 "Distinct and non-trivial: different hash of the complete event trace (%s), counting only runs in which at least one fault, crash, foreign action or context switch was injected."
                 % (("generator process", "every system call with arguments and result, output, scheduling step") if g
                    else ("bus run of a fleet of nodes", "every frame sent, delivered, lost or damaged, every decoded state"))),
        "samples": v["samples"][:3],
        "cases": v["ncases"],
        "plans": tot["plans"],
        "runs_per_hour": int(tot["runs"] / secs * 3600),
        "seeds_per_hour": int(v["ncases"] / secs * 3600),
        "simulated_seconds": tot["simNs"] / 1e9,
        "scheduler_steps": tot["steps"],
        "distinct_traces": len(v["tr"]),
        "faults_injected": v["fired"],
        "outcomes": v["outcomes"],
        "probes": v["probes"],
        "determinism_recheck": v["det"],
        "components": REAL_G if g else REAL_D,
        "build_s": round(v["build_s"], 2),
        "workers": WORKERS,
    }
    while len(json.dumps(cov)) > 50000 and cov["samples"]:
        cov["samples"] = [str(s)[:1500] for s in cov["samples"]][:1] if len(cov["samples"]) > 1 else []
    if not cov["samples"]:
        cov["samples"] = ["seed %d case 0" % seed]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": ["see DESIGN.md: domain of the matrix and file-system model, and the list of simulated components"],
        "wall_s": round(time.time() - v["t0"], 2),
        "violations": 1 if v["rc"] == 1 else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main_replay(path, log):
    doc = read_json(path)
    prop = doc.get("property") or doc["plan"]["prop"]
    run = Run(prop, doc.get("tier", "quick"), doc.get("seed", 1))
    try:
        v, why = replay_once(run, path, log)
        if v is None:
            if "case" in doc:
                print("class: process-destroyed (%s)" % why)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
            print("ERROR: " + why)
            return 2
        for line in v.get("log", []):
            print(line)
        print("class: %s\ndetail: %s\ntrace: %s%s" % (v["class"] or "(held)", v["detail"], v.get("trace"), "" if v.get("trace") == doc.get("trace") else " (recorded: %s)" % doc.get("trace")))
        if v["class"]:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    finally:
        run.arena.close()


def main_determinism(prop, n):
    run = Run(prop, "quick", int(os.environ.get("VERIF_SEED", "1")))
    try:
        res = []
        for shards, trip in ((1, True), (3, False), (8, False)):
            ds = [run.arena.sub() for _ in range(shards)]
            ps = [run.search(d, n, 3600, i, shards, roundtrip=trip) for i, d in enumerate(ds)]
            m = {}
            for p, d in zip(ps, ds):
                p.wait()
                m.update(digests(os.path.join(d, "r.json.digest")))
            res.append(m)
        bad = [i for i in res[0] if any(r.get(i) != res[0][i] for r in res)]
        print("%s: %d cases, 1/3/8 processes, mismatches: %s" % (prop, len(res[0]), bad))
        return 1 if bad else 0
    finally:
        run.arena.close()


def main():
    a = sys.argv[1:]
    if a and a[0] == "setup":
        build_sim()
        return 0
    if a and a[0] == "replay":
        return main_replay(a[1], "--log" in a)
    if a and a[0] == "determinism":
        return main_determinism(a[1], int(a[2]) if len(a) > 2 else 40)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return main_check(a[0], tier, int(os.environ.get("VERIF_SEED", "1")))


if __name__ == "__main__":
    sys.exit(main())
