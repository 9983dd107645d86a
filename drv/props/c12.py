"""C12 snapshots: an output stream taken from a graph never changes, whatever happens afterwards."""
import gen as G_, wr, faultgen, world as w
from core import Violation

LEVEL = "exploration"
BUDGET = {"quick": (8000, 40), "thorough": (1000000, 700)}
RULE = ("Each seed keeps output streams of evaluations while the same and other graphs are edited, evaluated again (same and other frames, shared cache, failing reads and writes), pixels are baked, LUTs are made from the streams, "
        "the cache is shrunk or destroyed, source files are replaced, and nodes and graphs are deleted. Each kept stream (pixels, windows, colour, deformer effect, colour operations) must read the same at every later point as when it was "
        "taken, and a stream taken right after an evaluation must be what the evaluation reported. Non-trivial: a kept stream was read again after a later evaluation.")
ASSUMPTIONS = ["streams are read through the public queries of the stream"]


def gen(rng, i, tier):
    b = G_.Builder(rng)
    paths = G_.files(rng, b.lines, rng.randint(1, 3), exts=["exr", "exr", "png", "tif"], odd=0.12)
    b.graph("g")
    v, pool = b.tree("g", paths, nops=rng.randint(0, 5), bake_all=0.4)
    tips = [("g", v)]
    pools = {"g": pool}
    if rng.random() < 0.4:
        b.graph("h")
        v2, p2 = b.tree("h", paths, nops=2)
        tips.append(("h", v2))
        pools["h"] = p2
    if rng.random() < 0.4:
        n, e = wr.write_node(rng, b, "g", rng.choice(pool), exts=["exr", "png", "tif"])
        pools["g"].append(n)
    b.add("cache c %d" % rng.choice([1 << 20, 1 << 20, 500, 0]))
    hs = []
    for s in range(rng.randint(4, 12)):
        k = rng.random()
        live = [t for t in tips if t[0] in b.g]
        if not live:
            break
        g, tip = rng.choice(live)
        G = b.g[g]
        nodes = [n for n in pools[g] if n in G["types"]]
        if not nodes:
            continue
        if k < 0.42:
            n = tip if tip in nodes and rng.random() < 0.5 else rng.choice(nodes)
            if rng.random() < 0.12:
                b.add(faultgen.read_fault(rng, paths) if rng.random() < 0.6 else "fault open_w 1 EACCES 0 -")
            b.exec(g, n, "c", [rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 1, 2]))])
            if rng.random() < 0.75:
                h = "s%d" % rng.randrange(4)
                b.add("out %s %s" % (g, h))
                hs.append(h)
        elif k < 0.65:
            n = rng.choice(nodes)
            at = sorted(a for a in w.NODES[G["types"][n]] if a != "file_path")
            if at:
                b.set(g, n, rng.choice(at))
        elif k < 0.7 and hs:
            b.add("lutops %s c %d %d" % (rng.choice(hs), rng.choice([2, 5]), rng.choice([1, 3])))
        elif k < 0.76:
            b.add("cap c %d" % rng.choice([0, 300, 1 << 20]))
        elif k < 0.8:
            b.add("delcache c")
            b.add("cache c %d" % rng.choice([1 << 20, 500]))
        elif k < 0.86:
            p = [x for x in paths if "#" not in x]
            if p:
                b.add(w.rand_img(rng, rng.choice(p), rng.randrange(1, 999)))
        elif k < 0.91:
            n = rng.choice(nodes)
            b.delnode(g, n)
        elif k < 0.94 and len(tips) > 1:
            b.add("delgraph " + g)
            b.g.pop(g)
        elif hs:
            b.add("dig " + rng.choice(hs))
    return b.lines


def judge(z, plan, st):
    A, hs, owner = [], [], {}
    for line in plan:
        t = line.split()
        if not t:
            continue
        A.append(line)
        if t[0] == "out":
            if t[2] not in hs:
                hs.append(t[2])
            A.append("dig " + t[2])
        elif t[0] not in w.ENV and t[0] not in ("fault", "dig", "node", "conn"):
            A += ["dig " + h for h in hs]
    A += ["dig " + h for h in hs]
    r = z.run("\n".join(A) + "\n")
    st.run(r)
    if r.died:
        st.add("inconclusive: the run died")
        return False
    first, last_exec, n, execs, again = {}, {}, 0, 0, 0
    cur = 0
    for l in r.log:
        if l.startswith("B "):
            cur = int(l.split()[1])
            t = A[cur - 1].split()
            if t[0] == "out":
                first.pop(t[2], None)
                owner[t[2]] = t[1]
            elif t[0] in ("graph", "delgraph"):
                last_exec.pop(t[1], None)
        elif l.startswith("R exec"):
            execs += 1
            last_exec[A[cur - 1].split()[1]] = l.split("|", 1)[1].strip()
        elif l.startswith("R dig "):
            _, _, h, d = l.split(" ", 3)
            st.add("streams read")
            if h not in first:
                first[h] = (d, cur, execs)
                e = last_exec.get(owner.get(h))
                if e is not None and e != d:
                    raise Violation("C12/not the result", "the stream taken at line %d is  %s\nbut the evaluation before gave  %s" % (cur, d, e))
            else:
                if execs > first[h][2]:
                    again += 1
                if first[h][0] != d:
                    raise Violation("C12/changed", "stream %s was  %s\nwhen taken, and after line %d (%s) is  %s" % (h, first[h][0], cur, A[cur - 2], d))
    st.add("streams read again after a later evaluation", again)
    return again > 0
