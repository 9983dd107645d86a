"""C14 config: loading always gives a usable configuration, the file's or the defaults, whatever the files, faults and memory."""
import math
import faultgen, world as w
from core import Violation

LEVEL = "exploration"
BUDGET = {"quick": (12000, 30), "thorough": (2000000, 500)}
RULE = ("Each seed lays out config files (valid in several spellings, empty, garbage, of the wrong shape, torn at a random byte, folders, dangling links) in folders of a search path that changes, with random memory sizes (also unknown), and loads "
        "configs with failing, short and interrupted opens, reads, stats and closes. Every load must return; without faults it must give the values of the first file on the path if that is valid and the defaults otherwise, with a fault one "
        "of these (or of a later folder when only looking for the file failed); the share must lie in [0, 1] and the capacity must be that share of the memory. Non-trivial: a valid file was loaded or a fault fired.")
ASSUMPTIONS = ["the capacity may differ from share times memory by one part in a million (single precision)", "a torn file that is still a valid config of another value cannot be noticed"]

FILE = "open_comp_graph.yaml"


def number(rng):
    v = rng.choice([0, 1, 20, 50, 99, 100, 33, 12.5, 0.25, 101, 250, -1, -20, 1e9, 75])
    x = rng.random()
    if x < 0.06:
        return rng.choice([".nan", ".inf", "-.inf"])
    return rng.choice(["%g" % v, "%.1f" % v, "%.3f" % v]) if abs(v) < 1e6 else "1.0e+9"


def share(txt):
    v = {".nan": float("nan"), ".inf": float("inf"), "-.inf": float("-inf")}.get(txt)
    if v is None:
        v = float(txt)
    return 0.0 if math.isnan(v) else max(0.0, min(1.0, v / 100.0))


def content(rng):
    """(text, share it defines or None when it defines nothing)"""
    n = number(rng)
    th = rng.choice(["0", "1", "8", "-1"])
    a, b = "cache:\n  ram_capacity_percent: %s\n" % n, "threading:\n  num_threads: %s\n" % th
    k = rng.random()
    if k < 0.5:
        body = rng.choice([a + b, b + a, "# settings\n" + a + "\n" + b, "---\n" + a + b, "cache: {ram_capacity_percent: %s}\nthreading: {num_threads: %s}\n" % (n, th), a + b + "other: 1\n",
                           "cache:\n    # comment\n    ram_capacity_percent:   %s   # percent\n%s" % (n, b), (a + b).rstrip("\n")])
        return body, share(n)
    if k < 0.62:
        full = b + a
        cut = rng.randint(0, len(full))
        return full[:cut], "torn"
    return rng.choice(["", "\n", "garbage", "cache: 5\nthreading: 3\n", "cache:\n  ram_capacity_percent: lots\n" + b, "[1, 2", "\x01\x02\x7f", "cache:\n\t- x", "{}", "null", a + "threading:\n  num_threads: none\n", "- a\n- b\n", ": : :",
                       "cache: &a [*a]\n", "a" * 300, "%YAML 9.9\n", a + a + b, "\u00e9\u00e9: 1", "cache:\n  ram_capacity_percent: [20]\n" + b]), None


def gen(rng, i, tier):
    L = []
    dirs = ["d%d" % k for k in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.1:
        dirs.append("\u00e9 x")
    for d in dirs:
        L.append("mkdir " + w.enc(d))
    states = {}
    names = [FILE, FILE, "other.yaml"]

    def put(d):
        p = "%s/%s" % (d, rng.choice(names))
        k = rng.random()
        L.append("rm " + w.enc(p))
        L.append("rmdir " + w.enc(p))
        if k < 0.72:
            txt, s = content(rng)
            L.append(("raw %s %s" % (w.enc(p), w.enc(txt))).strip())
            L.append("#share %s %s" % (w.enc(p), "-" if s is None else s if isinstance(s, str) else repr(s)))
        elif k < 0.8:
            L.append("mkdir " + w.enc(p))
            L.append("#share %s dir" % w.enc(p))
        elif k < 0.88:
            L.append("ln nowhere %s" % w.enc(p))
            L.append("#share %s none" % w.enc(p))
        else:
            L.append("#share %s none" % w.enc(p))
    for d in dirs:
        if rng.random() < 0.8:
            put(d)

    def path():
        if rng.random() < 0.07:
            L.append("unsetenv OPENCOMPGRAPH_CONFIG_PATH")
            return
        ds = [rng.choice(dirs + ["nowhere"]) for _ in range(rng.choice([1, 1, 2, 3]))]
        L.append("setenv OPENCOMPGRAPH_CONFIG_PATH " + w.enc(":".join(ds)))
    path()
    L.append("mem %d" % rng.choice([1, 1000, 262144, 4194304, 8388608, 67108864, 67108867, -1]))
    for _ in range(rng.randint(2, 6)):
        x = rng.random()
        if x < 0.25:
            put(rng.choice(dirs))
        elif x < 0.4:
            path()
        elif x < 0.5:
            L.append("mem %d" % rng.choice([0, 2, 500, 131072, 1048576, 33554432, 100000001, -1]))
        if rng.random() < 0.45:
            k = rng.random()
            if k < 0.3:
                a = rng.choice(["EIO", "ENOENT", "EACCES", "EMFILE", "EINTR"])
                L.append("fault open_r %d%s %s 0 -" % (rng.choice([1, 1, 2]), "" if a == "EINTR" else rng.choice(["", "+"]), a))
            elif k < 0.7:
                a = rng.choice(["EIO", "ESTALE", "EINTR", "short", "short"])
                L.append("fault read %d %s %d -" % (rng.choice([1, 1, 2, 3]), a, rng.choice([1, 3, 7])))
            elif k < 0.9:
                L.append("fault stat %d%s %s 0 -" % (rng.choice([1, 1, 2, 3]), rng.choice(["", "+"]), rng.choice(["EIO", "ENOENT", "EACCES"])))
            else:
                L.append("fault close 1 EIO 0 -")
        L.append("config " + rng.choice([FILE, FILE, FILE, "other.yaml", "missing.yaml"]))
    return L


def judge(z, plan, st):
    run = [l for l in plan if not l.startswith("#")]
    # line numbers of the run
    at, k = {}, 0
    for j, l in enumerate(plan):
        if not l.startswith("#"):
            k += 1
            at[k] = j
    r = z.run("\n".join(run) + "\n", wall=30)
    st.run(r)
    if r.died:
        b = [l for l in r.log if l.startswith("B ")]
        raise Violation("C14/died", "loading a config ends or hangs the process (exit %d signal %d): %s" % (r.rc, r.sig, r.err[-300:]))
    res = {at[ln]: l for ln, l in r.results() if l.startswith("config")}
    ops = r.ops()
    inv = {v: k for k, v in at.items()}
    files, env, mem, fault = {}, None, None, None
    good = 0
    for j, l in enumerate(plan):
        t = l.split()
        if not t:
            continue
        if t[0] == "#share":
            files[w.dec(t[1])] = t[2]
        elif t[0] == "rm":
            files[w.dec(t[1])] = "none" if files.get(w.dec(t[1])) != "dir" else "dir"
        elif t[0] == "rmdir":
            files[w.dec(t[1])] = "none"
        elif t[0] == "raw" and files.get(w.dec(t[1]), "none") == "none":
            files[w.dec(t[1])] = "torn"         # until its #share line
        elif t[0] == "setenv":
            env = w.dec(t[2]) if len(t) > 2 else ""
        elif t[0] == "unsetenv":
            env = None
        elif t[0] == "mem":
            mem = int(t[1])
        elif t[0] == "fault":
            fault = t[1]
        elif t[0] == "config":
            f, fault = fault, None
            if j not in res:
                continue
            kv = dict(x.split("=") for x in res[j].split()[1:])
            pct, byt = float(kv["pct"]), int(kv["bytes"])
            fired = [x for x in ops.get(inv[j], []) if x.startswith("F ")]
            if not (0.0 <= pct <= 1.0):
                raise Violation("C14/share", "the cache share is %s" % kv["pct"])
            if mem is not None:
                have = max(0, mem) * 4096
                if abs(byt - pct * have) > 1 + have * 1e-6:
                    raise Violation("C14/capacity", "share %s of %d bytes of memory gives a capacity of %d bytes" % (kv["pct"], have, byt))
            found = [files.get(d + "/" + t[1], "none") for d in (env.split(":") if env is not None else [])]
            found = [x for x in found if x not in ("none", "dir")]
            want = found[0] if found else "-"
            allowed = {want}
            if fired:
                st.add("loads with a fault that fired")
                allowed.add("-")
                if f == "stat":
                    allowed |= set(found)
                good += 1
            if "torn" in allowed:
                st.add("torn files loaded")
                continue
            vals = [0.0 if x == "-" else float(x) for x in allowed]
            if not any(abs(v - pct) <= 1e-6 for v in vals):
                raise Violation("C14/value", "%s with the search path %r gives the share %s, not %s%s" % (l, env, kv["pct"], " or ".join("%g" % v for v in vals), "" if not fired else " (fault: %s)" % fired[0][2:]))
            if want != "-":
                good += 1
            st.see("distinct situations", "%s|%s|%s" % (found, fired[:1], mem))
    st.add("loads judged", len(res))
    return good > 0
