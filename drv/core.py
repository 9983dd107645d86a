"""Seeded search over simulated runs: workers, shrinking, replay files, evidence, known findings."""
import hashlib, importlib, json, multiprocessing, os, random, subprocess, sys, time, traceback

import sim

HERE = sim.HERE
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
FINDINGS = os.path.join(HERE, "KNOWN_FINDINGS.txt")

COMPONENTS = {
    "real code": ["all Rust code of the crate (graph, nodes, cache, streams, colour, deformers, image I/O glue)",
                  "all C++ code of the library (API, OIIO/OCIO glue, config, system memory)",
                  "OpenImageIO with its OpenEXR, PNG, TIFF, JPEG, TGA and DPX readers and writers", "OpenColorIO or OIIO colour management, petgraph, linked-hash-map, the config crate"],
    "simulated (seam)": ["open/read/write/close/stat/rename/unlink/truncate (interposed libc calls over a scratch folder, faults by plan)",
                         "clock_gettime, gettimeofday, time (simulated clock)", "getrandom (seeded)", "sysconf/sysinfo physical memory size",
                         "thread scheduling (real threads, one runs at a time, the plan picks which)", "process crash (_exit at the planned I/O call)"],
    "stub": ["LDPK lens model library (not installed): a small closed-form polynomial model with the same interface"],
}


class Violation(Exception):
    """A property does not hold in this run; kind stays the same while shrinking."""

    def __init__(self, kind, text, line=None):
        Exception.__init__(self, "%s: %s" % (kind, text))
        self.kind, self.text, self.line = kind, text, line


class Stats:
    """What a check measured; everything adds up over runs."""

    def __init__(self):
        self.n = {}          # counters
        self.sets = {}       # sets of hashes: distinct things seen
        self.nontrivial = set()

    def add(self, key, k=1):
        self.n[key] = self.n.get(key, 0) + k

    def see(self, key, what):
        s = self.sets.setdefault(key, set())
        if len(s) < 200000:
            s.add(what if isinstance(what, int) else h64(what))

    def merge(self, o):
        for k, v in o.n.items():
            self.n[k] = self.n.get(k, 0) + v
        for k, v in o.sets.items():
            self.sets.setdefault(k, set()).update(v)
        self.nontrivial |= o.nontrivial

    def run(self, r):
        """Counts a simulated run."""
        self.add("simulated_runs")
        for l in r.log:
            if l.startswith("@"):
                l = l.split(" ", 1)[1]
            if l.startswith("F "):
                p = l.split()
                self.add("fault %s %s" % (p[1], p[3]))
            elif l == "CRASH":
                self.add("fault process crash")
            elif l.startswith("END "):
                for f in l.split()[1:]:
                    k, v = f.split("=")
                    self.add({"io": "io_calls", "clock": "clock_reads", "ns": "simulated_ns"}[k], int(v))
            elif l.startswith("P "):
                for f in l.split()[1:]:
                    k, v = f.split("=")
                    self.add("schedule_" + k, int(v))


def h64(s):
    if not isinstance(s, bytes):
        s = repr(s).encode() if not isinstance(s, str) else s.encode()
    return int.from_bytes(hashlib.blake2b(s, digest_size=8).digest(), "big")


def seed_of(base, prop, i):
    return h64("%d/%s/%d" % (base, prop, i))


def load(prop):
    m = importlib.import_module("props." + prop.lower())
    if not hasattr(m, "plain_gen"):
        import gen
        m.plain_gen = m.gen
        m.gen = lambda rng, i, tier: gen.shifted(rng, m.plain_gen(rng, i, tier)) if prop not in gen.OWN_FRAMES else m.plain_gen(rng, i, tier)
    return m


def worker(prop, base, tier, w, nw, total, deadline, best, q):
    st = Stats()
    found = None
    samples = []
    done = 0
    try:
        m = load(prop)
        z = sim.Zygote()
        try:
            for i in range(w, total, nw):
                if i > best.value or time.time() > deadline:
                    break
                rng = random.Random(seed_of(base, prop, i))
                plan = m.gen(rng, i, tier)
                if len(samples) < 2:
                    samples.append({"run": i, "plan": plan[:40]})
                done += 1
                try:
                    if m.judge(z, plan, st):
                        st.nontrivial.add(h64("\n".join(plan)))
                except Violation as v:
                    if not again(m, plan, v.kind):
                        # Not an execution the simulator controls: say so, report nothing.
                        st.add("violations that did not come back")
                        continue
                    found = (i, plan, v.kind, v.text)
                    with best.get_lock():
                        best.value = min(best.value, i)
                    break
        finally:
            z.close()
        q.put(("ok", w, done, st, found, samples))
    except BaseException:
        q.put(("error", w, done, st, None, traceback.format_exc()))


def again(m, plan, kind):
    """Does the plan violate the property again, in a new simulator process?"""
    for _ in range(3):
        z = sim.Zygote()
        try:
            m.judge(z, plan, Stats())
        except Violation as v:
            if v.kind == kind:
                return True
        finally:
            z.close()
    return False


def shrink(m, plan, kind, budget=25.0):
    """Drops plan lines while the same kind of violation remains."""
    z = sim.Zygote()
    end = time.time() + budget
    tries = 0

    def bad(p):
        try:
            m.judge(z, p, Stats())
        except Violation as v:
            return v if v.kind == kind else None
        except Exception:
            return None
        return None

    try:
        best = bad(plan)
        if best is None:
            return plan, None, 1
        step = max(1, len(plan) // 2)
        while step >= 1 and time.time() < end:
            i, changed = 0, False
            while i < len(plan) and time.time() < end:
                cand = plan[:i] + plan[i + step:]
                tries += 1
                v = bad(cand)
                if v is not None:
                    plan, best, changed = cand, v, True
                else:
                    i += step
            if step == 1 and not changed:
                break
            step = step // 2 if step > 1 else (1 if changed else 0)
        if hasattr(m, "simplify"):
            for cand in m.simplify(plan):
                if time.time() > end:
                    break
                tries += 1
                v = bad(cand)
                if v is not None:
                    plan, best = cand, v
        return plan, best, tries
    finally:
        z.close()


def build():
    p = subprocess.run(["bash", os.path.join(HERE, "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stdout.write(p.stdout.decode("utf-8", "replace")[-4000:])
        print("BUILD-FAILED: the simulator does not build from the current tree")
        sys.exit(3)


def search(prop, base, tier, total, seconds, workers):
    m = load(prop)
    q = multiprocessing.Queue()
    best = multiprocessing.Value("q", 1 << 60)
    deadline = time.time() + seconds
    ps = [multiprocessing.Process(target=worker, args=(prop, base, tier, w, workers, total, deadline, best, q)) for w in range(workers)]
    for p in ps:
        p.start()
    st, found, samples, runs = Stats(), None, [], 0
    errors = []
    for _ in ps:
        try:
            kind, w, done, s, f, sm = q.get(timeout=seconds + 240)
        except Exception:
            errors.append("a worker gave no answer")
            break
        runs += done
        st.merge(s)
        if kind == "error":
            errors.append(sm)
        else:
            samples += sm
            if f and (found is None or f[0] < found[0]):
                found = f
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.terminate()
    samples.sort(key=lambda s: s["run"])
    return m, st, found, samples[:3], runs, errors


def replay(path):
    d = json.load(open(path))
    m = load(d["property"])
    z = sim.Zygote()
    try:
        m.judge(z, d["plan"], Stats())
    except Violation as v:
        print("REPLAYED property=%s kind=%s\n%s" % (d["property"], v.kind, v.text))
        return 1
    finally:
        z.close()
    print("the plan in %s does not violate %s" % (path, d["property"]))
    return 0


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        build()
        sys.exit(replay(args[1]))
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    base = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    if not os.environ.get("VERIF_NOBUILD"):
        build()
    tb = time.time() - t0
    m = load(prop)
    total, seconds = m.BUDGET[tier]
    total = int(os.environ.get("VERIF_RUNS", total))
    seconds = float(os.environ.get("VERIF_SECONDS", seconds))
    workers = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, max(2, len(os.sched_getaffinity(0))))
    ts = time.time()
    m, st, found, samples, runs, errors = search(prop, base, tier, total, seconds, workers)
    tsearch = max(0.001, time.time() - ts)
    if errors and not found:
        print("HARNESS-ERROR: " + errors[0])
        sys.exit(4)
    rc = 0
    out = None
    if found:
        i, plan, kind, text = found
        small, v, tries = shrink(m, plan, kind)
        os.makedirs(REPLAYS, exist_ok=True)
        out = os.path.join(REPLAYS, "%s-%d-%d.json" % (prop, base, i))
        json.dump({"property": prop, "seed": base, "run": i, "kind": kind, "what": v.text if v else text, "plan": small, "plan_before_shrinking": plan,
                   "shrink_attempts": tries, "how": "python3 check.py --replay " + out}, open(out, "w"), indent=1)
        print("%s: %s" % (kind, (v.text if v else text)))
        print("minimised plan (%d of %d lines):" % (len(small), len(plan)))
        for l in small:
            print("    " + l)
        if v is None:
            print("(note: the violation did not come back when the plan was run again)")
        rc = 1
    if hasattr(m, "known"):
        # Listed findings: shown against the real code, never searched for.
        for line in m.known():
            print(line)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(st.nontrivial),
        "rule": m.RULE,
        "samples": samples,
        "seeds": runs,
        "seeds_per_hour": int(runs * 3600 / tsearch),
        "simulated_runs": st.n.get("simulated_runs", 0),
        "simulated_runs_per_hour": int(st.n.get("simulated_runs", 0) * 3600 / tsearch),
        "simulated_time_s": st.n.get("simulated_ns", 0) / 1e9,
        "intercepted_io_calls": st.n.get("io_calls", 0),
        "faults_injected": {k[6:]: v for k, v in sorted(st.n.items()) if k.startswith("fault ")},
        "counters": {k: v for k, v in sorted(st.n.items()) if not k.startswith("fault ") and k not in ("simulated_runs", "simulated_ns", "io_calls")},
        "distinct": {k: len(v) for k, v in sorted(st.sets.items())},
        "components": COMPONENTS,
        "workers": workers,
        "build_s": round(tb, 2),
        "search_s": round(tsearch, 2),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    json.dump({"property": prop, "tier": tier, "seed": base, "level": m.LEVEL, "coverage": cov, "assumptions": m.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2),
               "violations": 1 if found else 0}, open(os.path.join(EVIDENCE, prop + ".json"), "w"), indent=1)
    print("%s %s: %d seeds, %d simulated runs, %d distinct non-trivial plans, %.0f s" % (prop, tier, runs, cov["simulated_runs"], len(st.nontrivial), time.time() - t0))
    if rc:
        print("VIOLATION property=%s replay=%s" % (prop, out))
    sys.exit(rc)
