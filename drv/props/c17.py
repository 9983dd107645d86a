"""C17 round trip: what a write node stored, a read node in another process gives back."""
import gen as G_, model, absol, ref, wr, world as w
from core import Violation
from sim import digest

LEVEL = "exploration"
BUDGET = {"quick": (20000, 45), "thorough": (2000000, 600)}
RULE = ("Each seed evaluates a comp with image writes (EXR, TIFF, PNG) in one process, ends the process (normally, or by a crash at a write call of a further evaluation), and reads the written files with read nodes in a new process, "
        "which may change them and write them again for a third one. Every stream that a later process evaluates must be, in pixels, windows, pixel type and colour space, what the executable model gives when it follows the images "
        "through all processes; only the first source files are decoded independently. Non-trivial: at least one stream in a later process was compared.")
ASSUMPTIONS = ["lossy formats and compressions, PNG with transparency and metadata other than windows, colour space and (EXR) pixel aspect are not part of the model",
               "the machine does not lose power"]
TYPES = ["grade", "merge", "crop", "null", "viewer", "grade"]


def segment(rng, b, g, paths, exts, k):
    """One process: a comp over some files with writes; returns (names of nodes to evaluate, targets)."""
    b.graph(g)
    tip, pool = b.tree(g, paths, nops=rng.choice([0, 0, 1, 2, 3]), types=TYPES, nreads=rng.choice([1, 1, 2]), some_attrs=0.4)
    ws = []
    for j in range(rng.choice([1, 1, 2])):
        n = b.node(g, "write")
        b.conn(g, tip if rng.random() < 0.5 else rng.choice(pool), n, 0)
        b.set(g, n, "file_path", "p%d_%d%s.%s" % (k, j, rng.choice(["", ".#", ".###"]), rng.choice(exts)))
        for a in ("crop_on_write", "pixel_data_type", "exr_compression", "png_compression_level"):
            if rng.random() < 0.4:
                b.set(g, n, a, rng.choice([0, 1, 255, 255]) if a == "pixel_data_type" else None)
        ws.append(n)
    return tip, pool, ws


def gen(rng, i, tier):
    b = G_.Builder(rng)
    paths = G_.files(rng, b.lines, rng.randint(1, 2), exts=["exr", "exr", "exr", "png", "tif"], seq=rng.random() < 0.3)
    outs = []
    for k in range(rng.choice([2, 2, 3])):
        g = "g%d" % k
        if k:
            b.add("restart")
            paths = [p for p in outs] + ([rng.choice(paths)] if rng.random() < 0.2 else [])
        tip, pool, ws = segment(rng, b, g, paths, ["exr", "exr", "tif", "png"], k)
        b.add("cache c%d %d" % (k, rng.choice([0, 1 << 20])))
        for n in ws:
            fr = rng.choice([(1,), (1, 2), (2,), (1, 2, 3)])
            b.exec(g, n, "c%d" % k, fr)
            outs.append(b.g[g]["vals"][(n, "file_path")])
        if k:
            for _ in range(rng.randint(1, 3)):
                b.exec(g, rng.choice(pool), "c%d" % k, (rng.choice([1, 1, 2]),))
        if rng.random() < 0.2:
            b.add("fault write %d crash %d -" % (rng.choice([1, 2, 4, 8]), rng.choice([0, 1, 7])))
            b.exec(g, rng.choice(ws), "c%d" % k, (rng.choice([1, 3]),))
    return b.lines


def stored(fi, path, opaque):
    """The image a reader finds in a file that was written from the model's image."""
    ext = path.rsplit(".", 1)[-1]
    if fi.w <= 0 or fi.h <= 0 or len(fi.px) != fi.w * fi.h * fi.ch:
        raise model.Unknown("empty")
    if ext == "exr":
        t = fi.t if fi.t in ("f32", "f16") else "f16"
        return fi.copy(t=t, px=model.rounded(t, fi.px) if t != fi.t else fi.px, cs="Linear")
    if fi.dw != fi.fw or fi.dw[:2] != (0, 0):    # other formats have no or another place for that
        raise model.Unknown("windows")
    if ext == "png":
        if fi.ch == 4 and any(a != (1.0, 1.0) for a in fi.px[3::4]):
            raise model.Unknown("transparency")
        t = fi.t if fi.t in ("u8", "u16") else "u8"
        cs = "sRGB"
    elif ext == "tif":
        t = "f32" if fi.t == "f16" else fi.t
        cs = ""
    else:
        raise model.Unknown(ext)
    px = model.rounded(t, fi.px) if t != fi.t else fi.px
    if fi.ch == 4:
        px = [(1.0, 1.0) if i % 4 == 3 and fi.px[i] == (1.0, 1.0) else v for i, v in enumerate(px)]
    return fi.copy(t=t, px=px, cs=cs, pa=None, dw=(0, 0, fi.w, fi.h), fw=(0, 0, fi.w, fi.h))


def judge(z, plan, st):
    segs = [[]]
    for l in plan:
        if l == "restart":
            segs.append([])
        elif l.strip():
            segs[-1].append(l)
    files, default, n = {}, None, 0
    for k, seg in enumerate(segs):
        wk = ref.Walk()
        S = list(absol.PRE) if k == 0 else []
        jobs, armed, src = [], False, {}
        for line in seg:
            t = line.split()
            if t[0] == "fault":
                S.append(line)
                armed = True
                continue
            S.append(line)
            if t[0] == "mkimg":
                S.append("decodepx " + t[1])
                src[len(S)] = w.dec(t[1])
            if t[0] in w.ENV:
                continue
            wk.step(t)
            if t[0] == "exec":
                g = wk.graphs.get(t[1])
                nd = g.get(t[2]) if g else None
                if nd is not None and t[3] in wk.caches and g.upstream(nd) is not None:
                    at = len(S)
                    S += ["out %s zzh" % t[1], "dump zzh", "drop zzh"]
                    jobs.append((at, nd, t[5:], armed, line))
                armed = False
        r = z.run("\n".join(S) + "\n", keep=k > 0)
        st.run(r)
        if r.died:
            raise Violation("C17/died", "process %d ended with exit %d signal %d: %s" % (k + 1, r.rc, r.sig, r.err[-300:].replace("\n", " ")))
        X, D, _ = absol.lines_of(r)
        res = dict(r.results())
        if k == 0:
            W, H, C, t, px = model.parse_d(D[absol.PRE.index("dump zzh") + 1])
            default = model.Img((0, 0, W, H), (0, 0, W, H), C, t, "Linear", [model.exact(v) for v in px])
        for at, p in src.items():
            try:
                files[p] = model.parse_x(X[at])
            except (model.Unknown, KeyError):
                files[p] = None
        for at, nd, frames, faulty, line in jobs:
            a = res.get(at)
            wrote = {}
            bad = False
            im = None
            for f in frames:
                e = model.Eval(f, Known(files), default)
                try:
                    stt, im = e.node(nd)
                    for p, m, s in e.written:
                        try:
                            wrote[p] = ("ok", stored(e.file(m, s, p), p, True))
                        except model.Unknown:
                            wrote[p] = None
                except model.Unknown:
                    im = None
                    for m in nd_up(nd):
                        if m.type == "write":
                            wrote[wr.expand(w.dec(m.attrs.get("file_path", ("s", ""))[1]), f)] = None
            if faulty or a is None or not a.startswith("exec 1 "):
                for p in wrote:
                    files[p] = None
                if a is not None and not faulty and a.startswith("exec 0 "):
                    st.add("evaluations that failed")
                continue
            if im is not None and not (set(wrote) & set(e.reads)):
                d = digest(a)
                where = "process %d (%s)" % (k + 1, line)
                if w.exec_fields(a)[1] != "ns=%d" % stt:
                    raise Violation("C17/status", "%s: the node status is %s, not %d: %s" % (where, w.exec_fields(a)[1], stt, a))
                want = {"dw": "%d,%d,%d,%d" % im.dw, "fw": "%d,%d,%d,%d" % im.fw, "t": im.t, "cs": im.cs, "pa": "%.4f" % im.pa if im.pa is not None else None}
                for x, v in want.items():
                    if v is not None and d.get(x, "") != v:
                        raise Violation("C17/" + {"dw": "data window", "fw": "display window", "t": "pixel type", "cs": "colour space", "pa": "pixel aspect"}[x], "%s: %s is %s, not %s: %s" % (where, x, d.get(x), v, a))
                dl = D.get(at + 2)
                if dl and im.w * im.h * im.ch <= 4000:
                    W, H, C, t, px = model.parse_d(dl)
                    diff = model.differ(im, W, H, C, px)
                    if diff:
                        raise Violation("C17/pixels", "%s: %s" % (where, diff))
                if k:
                    n += 1
                    st.add("streams compared after a restart")
                    st.see("distinct images after a restart", str((im.dw, im.fw, [round(sum(v) / 2, 4) if v != model.ANY else None for v in im.px])))
            else:
                st.add("evaluations outside the model")
            files.update(wrote)
    return n > 0


class Known:
    """The files as the model knows them: those that do not exist give the placeholder, those outside the model raise Unknown."""

    def __init__(self, files):
        self.f = files

    def __contains__(self, p):
        return True

    def __getitem__(self, p):
        if p not in self.f:
            return "none", None
        if self.f[p] is None:
            raise model.Unknown("file")
        return self.f[p]


def nd_up(n):
    seen, todo = [], [n]
    while todo:
        m = todo.pop()
        if m not in seen:
            seen.append(m)
            todo += list(m.inputs.values())
    return seen
