"""C16 evaluation: the result is each upstream node's operation applied to the results of its inputs, as an executable model computes it."""
import absol, faultgen, gen as G_, world as w

LEVEL = "exploration"
BUDGET = {"quick": (20000, 45), "thorough": (2000000, 600)}
RULE = ("Each seed builds a comp of image reads, grades, transforms, lenses, merges, crops, nulls, viewers and writes, edits it (attributes, connections, deletions), evaluates random nodes for random frames with a cache of random capacity, some "
        "evaluations with I/O faults, and compares the node status, windows, pixel type, colour space, pending colour operations and deformers (where they move given points) and every pixel of each fault-free evaluation, and every written file, with a small executable model that applies "
        "one function per node type to independently decoded source files. Non-trivial: at least one stream or file was compared with the model.")
ASSUMPTIONS = ["resampling is outside the model (those evaluations are not judged)", "the lens is the simulator's stand-in for the LDPK library; a transform's units are those of the code (translation in widths of the window, pivot in pixels)",
               "numbers may differ from the model by 2 in 10000 (float), 2 in 1000 (half) or one step (integers)"]
TYPES = ["grade", "merge", "crop", "null", "viewer", "grade", "merge", "crop", "xform", "lens", "xform"]


MORE = {"pixel_data_type": [0, 1, 255], "exr_compression": list(range(11)), "jpeg_subsampling": [0, 1, 2, 3, 4]}


def gen(rng, i, tier):
    b = G_.Builder(rng)
    paths = G_.files(rng, b.lines, rng.randint(1, 3), exts=["exr", "exr", "exr", "png", "tif"], seq=rng.random() < 0.5) + ["missing.exr"]
    if rng.random() < 0.8:
        paths.pop()
    b.graph("g")
    tip, pool = b.tree("g", paths, nops=rng.choice([1, 2, 3, 4, 6]), types=TYPES, nreads=rng.choice([1, 2, 2, 3]), some_attrs=0.45)
    outs = []
    if rng.random() < 0.35:
        n = b.node("g", "write")
        b.conn("g", rng.choice(pool), n, 0)
        b.set("g", n, "file_path", "o_%s%s.%s" % (n, rng.choice(["", ".#"]), rng.choice(["exr", "exr", "exr", "tif", "png", "png", "tga", "dpx", "jpg", "jpeg", "jpe", "jif", "jfif", "jfi"])))
        for a in ("crop_on_write", "pixel_data_type", "exr_compression", "png_compression_level", "jpeg_compression_level", "jpeg_subsampling", "jpeg_progressive"):
            if rng.random() < 0.4:
                b.set("g", n, a, rng.choice(MORE[a]) if a in MORE else None)
        pool.append(n)
        outs.append(n)
    b.add("cache c %d" % rng.choice([0, 1 << 20, 1 << 20, 300, 1000]))
    for _ in range(rng.randint(2, 6 if tier == "quick" else 10)):
        live = [n for n in pool if n in b.g["g"]["types"]]
        if not live:
            break
        n = tip if rng.random() < 0.4 and tip in live else rng.choice(live)
        if rng.random() < 0.12:
            b.add(faultgen.read_fault(rng, ["f0.exr"]))
        b.exec("g", n, "c", rng.choice([(1,), (1,), (2,), (1, 2), (3,)]), fl=rng.random() < 0.15)
        for _ in range(rng.randint(0, 3)):
            k = rng.random()
            m = rng.choice(live)
            if m not in b.g["g"]["types"]:
                continue
            t = b.g["g"]["types"][m]
            if k < 0.55:
                at = sorted(a for a in w.NODES[t] if a != "file_path")
                if t == "read":
                    b.set("g", m, "file_path", rng.choice(paths))
                elif t == "write":
                    b.set("g", m, rng.choice(["enable", "execute", "crop_on_write"]))
                elif at:
                    b.set("g", m, rng.choice(at))
            elif k < 0.85:
                s = rng.choice(live)
                if s in b.g["g"]["types"] and w.ARITY[t] and m not in b.ups("g", s):
                    b.conn("g", s, m, rng.randrange(w.ARITY[t]))
            elif k < 0.94:
                if b.g["g"]["in"][m]:
                    b.disc("g", m, max(b.g["g"]["in"][m]))
            elif len(live) > 4:
                b.delnode("g", m)
    return b.lines


def judge(z, plan, st):
    r, n = absol.judge(z, plan, st, "C16")
    return n > 0
