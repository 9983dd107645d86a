"""C03 the cache never exceeds its capacity, counts what it holds, and evicts only the least recently used images it must."""
from collections import OrderedDict
import re
import gen as G_, ref, world as w
from core import Violation
from sim import digest

LEVEL = "exploration"
BUDGET = {"quick": (14000, 40), "thorough": (1000000, 600)}
RULE = ("Two thirds of the seeds read images of several sizes and LUTs through caches of random capacity, with capacity changes and read faults in between, and are judged by an "
        "exact least-recently-used model: used bytes, image count, and for every evaluation whether its file may be opened. One third evaluate random comps and check the bound, the "
        "consistency of count and bytes, that evaluating again adds nothing, that the image evaluated last is the one a cache shrunk to its size still holds, and that lowering the capacity to zero gives everything back. Non-trivial: at least one eviction or hit was predicted.")
ASSUMPTIONS = ["an image counts with its pixel bytes", "the size of the bookkeeping is not counted"]
ES = {"f32": 4, "f16": 2, "u8": 1, "u16": 2}


def gen(rng, i, tier):
    b = G_.Builder(rng)
    if i % 3 == 2:
        return gen_general(rng, b, tier)
    b.add("# exact")
    names = []
    b.graph("g")
    if rng.random() < 0.3:
        b.graph("k")
    gs = list(b.g)
    for k in range(rng.randint(3, 6)):
        ext = rng.choice(["exr", "exr", "tif", "png"])
        p = "a%d.%s" % (k, ext)
        wd, h = rng.choice([(4, 4), (4, 4), (8, 8), (2, 2), (16, 4), (5, 3)])
        dt = rng.choice({"exr": ["half", "float"], "tif": ["uint8", "uint16", "float"], "png": ["uint8", "uint16"]}[ext])
        b.add(w.mkimg(p, wd, h, rng.choice([3, 4]), dt, seed=k + 1))
        for g in gs:
            n = b.node(g, "read")
            b.set(g, n, "file_path", p)
            names.append((g, n))
            if rng.random() < 0.08:
                b.set(g, n, "use_cache", 0)
    if rng.random() < 0.4:
        for f in (1, 2, 3):
            b.add(w.mkimg("s.%d.exr" % f, 4, 4, 4, "half", seed=50 + f))
        n = b.node("g", "read")
        b.set("g", n, "file_path", "s.#.exr")
        names += [("g", n)] * 2
    if rng.random() < 0.15:
        n = b.node("g", "read")
        b.set("g", n, "file_path", "missing.exr")
        names.append(("g", n))
    caps = [0, 64, 128, 200, 256, 384, 512, 700, 1024, 1500, 4096, 1 << 20]
    b.add("cache c %d" % rng.choice(caps))
    two = rng.random() < 0.15
    if two:
        b.add("cache d %d" % rng.choice(caps))
    for _ in range(rng.randint(6, 24 if tier == "quick" else 60)):
        c = rng.choice("cd") if two else "c"
        k = rng.random()
        if k < 0.72:
            g, n = rng.choice(names)
            if rng.random() < 0.04:
                b.add("fault %s %d %s 0 -" % (rng.choice(["open_r", "read", "stat"]), rng.randint(1, 4), rng.choice(["EIO", "ENOENT", "eof"])))
            b.exec(g, n, c, [rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 1, 1, 2, 3]))])
        elif k < 0.82:
            b.add("lut3d %s %s %s %d" % (c, rng.choice(["Linear", "sRGB"]), rng.choice(["Linear", "sRGB"]), rng.choice([2, 3, 4])))
        else:
            b.add("cap %s %d" % (c, rng.choice(caps)))
        b.add("cstat " + c)
    return b.lines


def gen_general(rng, b, tier):
    b.add("# general")
    paths = G_.files(rng, b.lines, rng.randint(2, 4))
    caps = [0, 100, 256, 500, 1000, 2000, 4000, 1 << 20]
    b.add("cache c %d" % rng.choice(caps))
    b.graph("g")
    v, pool = b.tree("g", paths, nops=5)
    for _ in range(rng.randint(4, 10)):
        k = rng.random()
        if k < 0.45:
            n = v if rng.random() < 0.6 else rng.choice(pool)
            f = rng.choice([1, 2, 3])
            b.exec("g", n, "c", [f])
            b.add("cstat c")
            if rng.random() < 0.4:
                b.exec("g", n, "c", [f])
                b.add("cstat c")
            if rng.random() < 0.2:
                b.add("out g h")
                b.add("lutops h c %d %d" % (rng.choice([2, 3, 4]), rng.choice([1, 3])))
                b.add("cstat c")
        elif k < 0.6:
            b.add("cap c %d" % rng.choice(caps))
            b.add("cstat c")
        else:
            n = rng.choice(pool)
            at = sorted(a for a in w.NODES[b.g["g"]["types"][n]] if a != "file_path")
            if at:
                b.set("g", n, rng.choice(at))
    b.add("cap c 0")
    b.add("cstat c")
    b.add("cap c 5000")
    b.exec("g", v, "c", [1])
    b.add("cstat c")
    return b.lines


CST = re.compile(r"cstat (\S+) n=(\d+) used=(\d+) cap=(\d+)")


class Lru:
    def __init__(self, cap):
        self.cap, self.used, self.m, self.evictions, self.hits = cap, 0, OrderedDict(), 0, 0

    def get(self, k):
        if k in self.m:
            self.m.move_to_end(k)
            self.hits += 1
            return True
        return False

    def pop(self):
        k, s = self.m.popitem(last=False)
        self.used -= s
        self.evictions += 1

    def put(self, k, s):
        if self.cap == 0 or s > self.cap:
            return
        if k in self.m:
            self.used -= self.m.pop(k)
        while self.used + s > self.cap:
            self.pop()
        self.m[k] = s
        self.used += s

    def set_cap(self, c):
        while self.used > c:
            self.pop()
        self.cap = c


def judge(z, plan, st):
    r = z.run("\n".join(plan) + "\n")
    st.run(r)
    if r.died:
        # Not a matter of the cache unless the same plan lives without one.
        b = z.run("\n".join("cap %s 0" % l.split()[1] if l.startswith("cap ") else "cache %s 0" % l.split()[1] if l.startswith("cache ") else l for l in plan) + "\n")
        if b.died:
            st.add("inconclusive: run died")
            return False
        raise Violation("C03/died", "exit %d signal %d: %s" % (r.rc, r.sig, r.err[-300:].replace("\n", " ")))
    if plan and plan[0] == "# general":
        ok = judge_general(r, plan, st)
        return judge_last(z, r, plan, st) or ok
    ops = r.ops()
    lru, wk = {}, ref.Walk()
    sizes = measure(z, plan, st)
    inter = 0
    for ln, line in enumerate(plan, 1):
        t = line.split()
        if not t:
            continue
        wk.step(t)
        ls = ops.get(ln, [])
        if t[0] == "cache":
            lru[t[1]] = Lru(int(t[2]))
        elif t[0] == "cap" and t[1] in lru:
            lru[t[1]].set_cap(int(t[2]))
        elif t[0] == "lut3d" and t[1] in lru:
            k = ("lut",) + tuple(t[2:5])
            n = int(t[4])
            if not lru[t[1]].get(k):
                lru[t[1]].put(k, n * n * n * 3 * 4)
        elif t[0] == "exec" and t[3] in lru:
            g = wk.graphs.get(t[1])
            n = g.get(t[2]) if g else None
            res = [l for l in ls if l.startswith("R exec")]
            if n is None or not res or n.type != "read":
                continue
            fired = any(l.startswith("F ") for l in ls)
            L = lru[t[3]]
            opened = set(l.split()[2] for l in ls if l.startswith("IO open_r"))
            pat = w.dec(n.attrs.get("file_path", ("s", ""))[1])
            use = n.attrs.get("use_cache", ("i", "1"))[1] != "0"
            must_open, may_open = set(), set()
            for fi, f in enumerate(t[5:]):
                p = pat.replace("#", str(int(f)))
                if p == "missing.exr":
                    may_open.add(p)
                    continue
                if fired:
                    if len(t) > 6:
                        return inter > 0   # several frames under a fault: stop judging here
                    if " ns=2 " in res[0]:
                        may_open.add(p)    # the read failed, so the cache did not serve it
                        continue
                if use and L.get(p):
                    continue
                may_open.add(p)
                if not fired:
                    must_open.add(p)
                if use:
                    s = sizes.get(p)
                    if s is not None:
                        L.put(p, s)
            extra = opened - may_open
            if extra:
                raise Violation("C03/needless read", "line %d (%s) read %s again although the cache must still hold it" % (ln, line, " ".join(sorted(extra))))
            lack = must_open - opened
            if lack:
                raise Violation("C03/kept too much", "line %d (%s) did not read %s although the cache cannot hold it any more" % (ln, line, " ".join(sorted(lack))))
        elif t[0] == "cstat" and t[1] in lru:
            c = [CST.search(l) for l in ls if l.startswith("R cstat")]
            if not c or c[0] is None:
                continue
            n, used, cap = int(c[0].group(2)), int(c[0].group(3)), int(c[0].group(4))
            L = lru[t[1]]
            inter = max(inter, L.evictions + L.hits)
            st.see("distinct cache states", "%d %d %d %s" % (n, used, cap, list(L.m)))
            st.add("cache states compared")
            if used > cap:
                raise Violation("C03/over capacity", "line %d: the cache uses %d bytes with a capacity of %d" % (ln, used, cap))
            if cap != L.cap:
                raise Violation("C03/capacity", "line %d: the capacity is %d, it was set to %d" % (ln, cap, L.cap))
            if (n, used) != (len(L.m), L.used):
                raise Violation("C03/accounting", "line %d: the cache says %d images, %d bytes; it must hold %d images, %d bytes (%s)" % (ln, n, used, len(L.m), L.used, list(L.m)))
    for L in lru.values():
        st.add("evictions predicted", L.evictions)
        st.add("hits predicted", L.hits)
    return inter > 0


def cached(n):
    """Does an evaluation of this node keep its result in the cache?"""
    g = lambda a, d: int(n.attrs[a][1]) if a in n.attrs else d
    if g("use_cache", 1) == 0 or g("enable", 1) != 1:
        return False
    return n.type in ("read", "merge") or n.type == "crop" and bool(n.inputs) or n.type == "viewer" and g("bake_option", 0) != 0


def judge_last(z, r, plan, st):
    """What was evaluated last is what a cache with room for just that image keeps."""
    res = dict(r.results())
    wk = ref.Walk()
    cap, S, probes = 0, [], []
    for ln, line in enumerate(plan, 1):
        t = line.split()
        S.append(line)
        if not t:
            continue
        wk.step(t)
        if t[0] in ("cache", "cap"):
            cap = int(t[2])
        elif t[0] == "exec" and t[1] in wk.graphs:
            n = wk.graphs[t[1]].get(t[2])
            a = res.get(ln, "")
            if n is None or not a.startswith("exec 1 ns=1 ") or not cached(n):
                continue
            d = digest(a)
            size = int(d["n"]) * ES[d["t"]]
            if 0 < size <= cap:
                S += ["cap c %d" % size, "cstat c"]
                probes.append((len(S), ln, line, size))
                S.append("cap c %d" % cap)
    if not probes:
        return False
    q = z.run("\n".join(S) + "\n")
    st.run(q)
    ops = q.ops()
    for at, ln, line, size in probes:
        c = [CST.search(l) for l in ops.get(at, []) if l.startswith("R cstat")]
        if not c or c[0] is None:
            continue
        st.add("last images looked for in the cache")
        if (int(c[0].group(2)), int(c[0].group(3))) != (1, size):
            raise Violation("C03/not kept", "line %d (%s): the result has %d bytes, but a cache shrunk to just that holds %s images, %s bytes" % (ln, line, size, c[0].group(2), c[0].group(3)))
    return True


def measure(z, plan, st):
    """Bytes of each image as an observer of the evaluated stream counts them, in a run without a cache."""
    out, order = ["cache Z 0", "graph q", "node q r read"], []
    for l in plan:
        t = l.split()
        if t and t[0] == "mkimg":
            out += [l, "sets q r file_path " + t[1], "exec q r Z i 1"]
            order.append(w.dec(t[1]))
    r = z.run("\n".join(out) + "\n")
    st.run(r)
    sizes = {}
    for p, (_, l) in zip(order, [x for x in r.results() if x[1].startswith("exec")]):
        d = digest(l)
        if " ns=1 " in l and d:
            sizes[p] = int(d["n"]) * ES[d["t"]]
    return sizes


def judge_general(r, plan, st):
    ops = r.ops()
    prev = None
    lastexec = None
    seen = 0
    cap_was = None
    for ln, line in enumerate(plan, 1):
        t = line.split()
        if t[0] == "cstat":
            c = [CST.search(l) for l in ops.get(ln, []) if l.startswith("R cstat")]
            if not c or c[0] is None:
                continue
            n, used, cap = int(c[0].group(2)), int(c[0].group(3)), int(c[0].group(4))
            st.add("cache states checked")
            st.see("distinct cache states", "g %d %d %d" % (n, used, cap))
            seen += n > 0
            if used > cap:
                raise Violation("C03/over capacity", "line %d: the cache uses %d bytes with a capacity of %d" % (ln, used, cap))
            if (n == 0) != (used == 0):
                raise Violation("C03/accounting", "line %d: the cache says %d images, %d bytes" % (ln, n, used))
            before = plan[ln - 2].split() if ln >= 2 else [""]
            if before[0] == "cap" and prev and int(before[2]) >= prev[1] and plan[prev[2]:ln - 2] == [] and (n, used) != prev[:2]:
                raise Violation("C03/needless eviction", "line %d: a capacity of %s changed %d images, %d bytes into %d images, %d bytes" % (ln, before[2], prev[0], prev[1], n, used))
            if before[0] == "exec" and prev and lastexec == plan[ln - 2] and ln >= 4 and plan[ln - 4] == plan[ln - 2] and plan[ln - 3] == line and used < cap // 2 and (n, used) != prev[:2]:
                raise Violation("C03/grows", "line %d: evaluating the same again changed the cache from %d images, %d bytes to %d images, %d bytes" % (ln, prev[0], prev[1], n, used))
            prev = (n, used, ln)
        elif t[0] == "exec":
            lastexec = line
    return seen > 0
