"""Plans with image writes, and what files an evaluation must write; shared by C06 to C09."""
import math, re
import gen as G_, world as w

EXTS = ["exr", "exr", "exr", "png", "tif", "tga", "jpg", "dpx"]


def expand(pattern, frame):
    f = float(frame)
    n = int(math.floor(abs(f) + 0.5)) * (1 if f >= 0 else -1)
    m = re.search("#+", pattern)
    if not m:
        return pattern
    s = "%0*d" % (len(m.group(0)), n)
    return pattern[:m.start()] + s + pattern[m.end():]


def active_writes(g, n):
    """Write nodes that an evaluation of n must write with, inputs first."""
    up = g.upstream(n)
    if up is None:
        return []
    out = []
    for m in up:
        if m.type != "write" or not m.inputs:
            continue
        at = lambda a: m.attrs.get(a, ("i", "1"))[1]
        if at("enable") != "0" and at("execute") != "0":
            out.append(m)
    return out


def targets(g, n, frames):
    """(write node, frame, path) of everything that an evaluation of n must write, frame by frame."""
    ws = active_writes(g, n)
    return [(m, f, expand(w.dec(m.attrs.get("file_path", ("s", ""))[1]), f)) for f in frames for m in ws]


def write_node(rng, b, g, src, exts=EXTS, path=None, attrs=0.35):
    n = b.node(g, "write")
    b.conn(g, src, n, 0)
    ext = rng.choice(exts)
    if path is None:
        path = "%s_%s%s.%s" % (rng.choice(["out", "o", "render"]), n, rng.choice(["", ".#", ".##", ".####", "."]).rstrip("."), ext)
    b.set(g, n, "file_path", path)
    for a in sorted(w.NODES["write"]):
        if a not in ("file_path", "enable", "execute") and rng.random() < attrs:
            if a == "pixel_data_type" and ext != "exr":
                b.set(g, n, a, rng.choice([255, 2, 3, 0]))
            elif a == "pixel_data_type":
                b.set(g, n, a, rng.choice([0, 1, 255]))
            else:
                b.set(g, n, a)
    return n, ext


def write_fault(rng, ext, paths):
    k = rng.random()
    p = rng.choice(["-"] + paths)
    if k < 0.3:
        return ["fault open_w %d%s %s 0 %s" % (rng.choice([1, 1, 2, 3]), rng.choice(["", "+"]), rng.choice(["EACCES", "ENOSPC", "EROFS", "EMFILE", "EIO", "ENOENT", "EISDIR"]), p)]
    if k < 0.85:
        n = rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 20, 30]) if ext in ("exr", "dpx", "jpg") else rng.choice([1, 1, 2, 3, 4, 5, 6, 8, 12])
        a = rng.choice(["EIO", "ENOSPC", "ENOSPC", "short"])
        return ["fault write %d%s %s %d %s" % (n, "+" if a != "short" and rng.random() < 0.4 else "", a, rng.choice([0, 1, 3, 5]), p)]
    if k < 0.92:
        return ["quota %d" % rng.choice([0, 1, 10, 50, 100, 200, 300, 400, 600])]
    return ["fault close 1%s EIO 0 %s" % (rng.choice(["", "+"]), p)]


def comp(rng, b, g="g", nops=None, exts=EXTS, pathless=0.0, seq=True, files=None):
    """A comp that ends in a write (maybe a second write in between, maybe something after it)."""
    paths = files if files is not None else G_.files(rng, b.lines, rng.randint(1, 2), exts=["exr", "exr", "png", "tif"], seq=seq)
    if files is None and seq:
        paths = [paths[-1]] * 2 + paths
    b.graph(g)
    v, pool = b.tree(g, paths, nops=rng.choice([0, 0, 1, 2, 3]) if nops is None else nops, nreads=rng.choice([1, 1, 2]), types=["grade", "merge", "crop", "xform", "null", "lens"])
    ws = []
    src = v if rng.random() < 0.4 else rng.choice(pool)
    n, ext = write_node(rng, b, g, src, exts)
    ws.append((n, ext))
    tip = n
    if rng.random() < 0.35:
        if rng.random() < 0.5:
            n2, e2 = write_node(rng, b, g, n if rng.random() < 0.5 else rng.choice(pool), exts)
            ws.append((n2, e2))
            if rng.random() < 0.6:
                m = b.node(g, "merge")
                b.conn(g, n, m, 0)
                b.conn(g, n2, m, 1)
                tip = m
            else:
                tip = n2
        else:
            t = b.node(g, rng.choice(["viewer", "null", "grade", "merge"]))
            b.conn(g, n, t, 0)
            tip = t
    return tip, ws, pool
