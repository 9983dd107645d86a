"""C18 memory: work that is repeated does not make the process hold more and more memory."""
import faultgen, gen as G_, wr, world as w
from core import Violation

LEVEL = "exploration"
BUDGET = {"quick": (6000, 45), "thorough": (1000000, 600)}
RULE = ("Each seed makes a round of work and repeats it twelve times (ever new values: 24 times) in one process: building a comp, edits, evaluations of reads and writes over several frames (some with failing or short opens, reads, writes, stats and closes, a full disk, "
        "missing and damaged files), LUTs, taking streams, deleting nodes, and either tearing everything down or keeping the graph and a cache of bounded capacity (with the same or ever new attribute values, frames, paths and node ids each round). The bytes that the process "
        "has allocated are read from the allocator after each round; after the third (fifteenth) round they must not grow from round to round. Non-trivial: an evaluation took place in every round.")
ASSUMPTIONS = ["growth below 100 bytes in nine rounds is not judged (remainders of split blocks)", "PNG sources get no failing read calls: the PNG reader of OpenImageIO 2.4 does not free 80 bytes when libpng ends it early", "colour space names are not ever new ones: OpenImageIO keeps each name (ustring) for good"]
ROUNDS = 12


def gen(rng, i, tier):
    b = G_.Builder(rng)
    tip, ws, pool = wr.comp(rng, b)
    pre = [l for l in b.lines if l.split()[0] in w.ENV]
    build = [l for l in b.lines if l.split()[0] not in w.ENV]
    outs = [b.g["g"]["vals"][(n, "file_path")] for n, _ in ws]
    if rng.random() < 0.15:
        pre.append(rng.choice(["raw bad.exr %d %d" % (rng.randrange(1, 200), rng.randrange(99)), "mkdir bad.exr"]))
        r = [n for n in pool if b.g["g"]["types"][n] == "read"]
        build.append("sets g %s file_path bad.exr" % rng.choice(r)) if r else None
    body = []
    b.lines = body
    for _ in range(rng.randint(1, 3)):
        fr = [rng.choice([1, 1, 2, 3, 9]) for _ in range(rng.choice([1, 1, 2]))]
        x = rng.random()
        if x < 0.3:
            body += wr.write_fault(rng, ws[0][1], sorted(set(wr.expand(o, f) for o in outs for f in fr)))
        elif x < 0.6:
            f = faultgen.read_fault(rng, ["f0.exr", "f0.tif", "f0.png"])
            if " env " not in f and " jump " not in f and not (f.startswith("fault read") and any(".png" in l for l in pre)):
                body.append(f)
        n = tip if rng.random() < 0.7 else rng.choice(pool)
        b.exec("g", n, "c", fr)
        body.append("heal")
        k = rng.random()
        if k < 0.3:
            m = rng.choice(pool)
            at = sorted(a for a in w.NODES[b.g["g"]["types"][m]] if a not in ("file_path",))
            if at:
                b.set("g", m, rng.choice(at))
        elif k < 0.4:
            body.append("lut3d c Linear sRGB %d" % rng.choice([2, 3]))
        elif k < 0.55:
            body += ["out g h", "lutops h c 8 %d" % rng.choice([3, 4]), "drop h"]
        elif k < 0.65:
            n2 = b.node("g", rng.choice(["grade", "read", "lens", "null"]))
            body.append("conn g %s %s 0" % (rng.choice(pool), n2))
            body += ["exec g %s c i 1" % n2, "delnode g %s" % n2]
        elif k < 0.7:
            body.append("config -")
    cap = rng.choice([0, 0, 1, 300, 1000, 3000, 1 << 20])
    x = rng.random()
    if x < 0.6:
        return pre + ["round"] + build + ["cache c %d" % cap] + body + ["delgraph g", "delcache c"]
    if x < 0.85:
        return pre + build + ["cache c %d" % cap, "round"] + body
    # Ever new values: what the cache may hold bounds the memory.
    g = [n for n in pool if b.g["g"]["types"][n] == "grade"]
    m = [n for n in pool if b.g["g"]["types"][n] == "merge"]
    new = ["setf g %s multiply_r @" % n for n in g] + ["setf g %s mix @" % n for n in m]
    body = [l for l in body if not l.startswith("fault")]
    if rng.random() < 0.5:
        # New frames, over sources that may be missing.
        body = [" ".join(l.split()[:5] + ["@F"] * len(l.split()[5:])) if l.startswith("exec") else l for l in body]
    r = [n for n in pool if b.g["g"]["types"][n] == "read"]
    if r and rng.random() < 0.3:
        n = rng.choice(r)
        new += rng.choice([["sets g %s file_path gone_@S.exr" % n], ["sets g %s file_path $@S.exr" % n], ["cp f0.exr @S.exr", "sets g %s file_path @S.exr" % n, "exec g %s c i 1" % tip, "rm @S.exr"]])
    if rng.random() < 0.3:
        new += ["node g zz %s @F" % rng.choice(["grade", "read", "lens", "null", "viewer", "merge", "crop", "xform"]), "conn g %s zz 0" % rng.choice(pool), "exec g zz c i 1", "delnode g zz"]
    if rng.random() < 0.15:
        new.append("config @S.yaml")
    return pre + build + ["cache c %d" % rng.choice([0, 1, 80, 150]), "round"] + new + body


def judge(z, plan, st):
    if "round" not in plan:
        return False
    at = plan.index("round")
    pre, body = plan[:at], plan[at + 1:]
    S, per = list(pre), []
    n = ROUNDS * 2 if any("@" in l for l in body) else ROUNDS
    for k in range(n):
        per.append(len(S))
        S += [l.replace("@F", str(100 + k)).replace("@S", "v%02d" % k).replace("@", "%.4f" % (0.5 + k / 64)) for l in body] + ["heap"]
    r = z.run("\n".join(S) + "\n")
    st.run(r)
    if r.died:
        st.add("inconclusive: the run died")
        return False
    h = [int(l.split()[2]) for l in r.log if l.startswith("R heap ")]
    ex = sum(1 for l in r.log if l.startswith("R exec "))
    if len(h) != n or ex < n:
        return False
    st.add("rounds judged", n)
    h = h[-ROUNDS:]
    st.see("distinct rounds", "\n".join(body))
    step = [b - a for a, b in zip(h[2:], h[3:])]
    if h[-1] - h[2] > 100 and sum(1 for s in step if s > 0) >= len(step) - 2:
        raise Violation("C18/memory grows", "the round is repeated %d times; after the third round the allocated memory grows by %s bytes per round" % (ROUNDS, ", ".join(map(str, step))))
    return True
