"""Judges the evaluations of a plan against the executable model (model.py): streams, statuses and written files."""
import copy, math

import model, ref, wr, world as w
from core import Violation
from sim import digest

PRE = ["graph zz0", "node zz0 zn null", "cache zz0c 0", "exec zz0 zn zz0c i 1", "out zz0 zzh", "dump zzh", "delgraph zz0", "drop zzh"]


class Job:
    pass


def compile(plan, streams=True, files=True, keep_files=False):
    """The script of a plan with decodes of what is read before, and of what was written after each evaluation."""
    wk = ref.Walk()
    S, jobs, armed = list(PRE), [], False
    for pl, line in enumerate(plan, 1):
        t = line.split()
        if not t:
            continue
        if t[0] == "fault":
            S.append(line)
            armed = True
            continue
        if t[0] not in w.ENV:
            wk.step(t)
        if t[0] == "exec":
            g = wk.graphs.get(t[1])
            n = g.get(t[2]) if g else None
            if n is not None and t[3] in wk.caches and g.upstream(n) is not None and len(t) > 5:
                j = Job()
                j.plan, j.frames, j.armed = pl, t[5:], armed
                snap = copy.deepcopy(g)
                j.g, j.n = snap, snap.get(t[2])
                j.reads, j.files = {}, {}
                up = snap.upstream(j.n)
                for m in up:
                    if m.type == "read":
                        for f in j.frames:
                            p = wr.expand(w.dec(m.attrs.get("file_path", ("s", ""))[1]), f)
                            if p and p not in j.reads:
                                S.append("decodepx " + w.enc(p))
                                j.reads[p] = len(S)
                            elif not p:
                                j.reads[p] = 0
                S.append(line)
                j.at = len(S)
                if streams:
                    S += ["out %s zzh" % t[1], "dump zzh"]
                    j.dump = len(S)
                    S.append("drop zzh")
                if files:
                    for _, _, p in wr.targets(snap, j.n, j.frames):
                        if p and p not in j.files and not p.endswith("/"):
                            S.append("decodepx " + w.enc(p))
                            j.files[p] = len(S)
                jobs.append(j)
                armed = False
                continue
        S.append(line)
        if t[0] not in w.ENV:
            armed = False
    return S, jobs


def judge(z, plan, st, what, streams=True, files=True, run=None, keep=False):
    """Returns (run, evaluations judged).  Evaluations with faults are judged only in what they wrote, if they report success."""
    S, jobs = compile(plan, streams, files)
    r = z.run("\n".join(S) + "\n", keep=keep)
    st.run(r)
    if r.died:
        raise Violation(what + "/died", "the run ended with exit %d signal %d: %s" % (r.rc, r.sig, r.err[-300:].replace("\n", " ")))
    return r, check(r, S, jobs, plan, st, what)


def lines_of(r):
    X, D, P = {}, {}, {}
    cur = 0
    for l in r.log:
        if l.startswith("B "):
            cur = int(l.split(" ", 2)[1])
        elif l.startswith("X "):
            X[int(l.split(" ", 2)[1])] = l
        elif l.startswith("D "):
            D[cur] = l
        elif l.startswith("V "):
            P[cur] = l
    return X, D, P


def check(r, S, jobs, plan, st, what):
    X, D, P = lines_of(r)
    ops = r.ops()
    res = dict(r.results())
    W, H, C, t, px = model.parse_d(D[PRE.index("dump zzh") + 1])
    default = model.Img((0, 0, W, H), (0, 0, W, H), C, t, "Linear", [model.exact(v) for v in px])
    n = 0
    for j in jobs:
        a = res.get(j.at)
        if a is None or not a.startswith("exec"):
            continue
        fired = [l for l in ops.get(j.at, []) if l.startswith("F ")]
        if any(" env " in l for l in fired):
            break               # sources changed on disk: what a warm cache may still give is C04's matter
        ok = a.startswith("exec 1 ")
        try:
            fs = {p: model.parse_x(X[k]) if k else ("none", None) for p, k in j.reads.items() if k == 0 or k in X}
            wrote, stt, im = {}, None, None
            for f in j.frames:
                e = model.Eval(f, fs, default)
                stt, im = e.node(j.n)
                for p, m, src in e.written:
                    wrote[p] = (e, m, src)
        except model.Unknown as u:
            st.add("evaluations outside the model")
            continue
        if set(wrote) & set(j.reads):
            st.add("evaluations outside the model")
            continue
        where = "line %d (%s)" % (j.plan, plan[j.plan - 1])
        if not fired and hasattr(j, "dump") and ok:
            f = w.exec_fields(a)
            d = digest(a)
            if f[1] != "ns=%d" % stt:
                raise Violation(what + "/status", "%s: the node status is %s, not %d: %s" % (where, f[1], stt, a))
            want = {"dw": "%d,%d,%d,%d" % im.dw, "fw": "%d,%d,%d,%d" % im.fw, "t": im.t, "cs": im.cs, "nc": str(len(im.ops)), "nd": str(len(im.defs)), "pa": "%.4f" % im.pa, "or": str(im.ori - 1), "g": "%.4f" % im.g}
            for k in want:
                if d.get(k, "") != want[k]:
                    raise Violation(what + "/stream", "%s: %s is %s, not %s: %s" % (where, {"dw": "the data window", "fw": "the display window", "t": "the pixel type", "cs": "the colour space", "nc": "the number of colour operations",
                                                                                            "nd": "the number of deformers", "pa": "the pixel aspect", "or": "the orientation", "g": "the gamma"}[k], d.get(k), want[k], a))
            dl = D.get(j.dump)
            if dl and im.w * im.h * im.ch <= 4000:
                W, H, C, t, px = model.parse_d(dl)
                diff = model.differ(im, W, H, C, px)
                if diff:
                    raise Violation(what + "/pixels", "%s: %s" % (where, diff))
            if j.dump in P and im.defs:
                try:
                    want = model.points(im)
                except model.Unknown:
                    want = []
                got = P[j.dump].split()[2].split(",")
                for k, (x, y) in enumerate(want):
                    for a, b, e in ((float(got[3 * k]), x, "x"), (float(got[3 * k + 1]), y, "y")):
                        if not abs(a - b) <= 1e-4 * (1 + abs(b) + max(map(abs, im.dw))):
                            raise Violation(what + "/positions", "%s: the deformers move point %d to %s = %.7g, not %.7g" % (where, k, e, a, b))
            n += 1
            st.add("streams compared with the model")
            if im.defs:
                st.add("streams with pending deformers compared with the model")
            st.see("distinct model images", str((im.dw, im.fw, [round(sum(v) / 2, 4) if v != model.ANY else None for v in im.px])))
        if ok and all(l.split()[1] in ("open_w", "write") for l in fired):
            for p, (e, m, src) in sorted(wrote.items()):
                if p not in j.files or j.files[p] not in X or not p.endswith((".exr", ".tif", ".png", ".tga", ".dpx") + model.JPEG):
                    continue
                try:
                    fi = e.file(m, src, p)
                    s, got = model.parse_x(X[j.files[p]])
                except model.Unknown:
                    continue
                if got is None:
                    raise Violation(what + "/file", "%s reported success, but an independent reader finds %s: %s (faults: %s)" % (where, p, s, fired))
                if fi.w == 0 or fi.h == 0 or (fi.ori != 1 and p.endswith((".dpx", ".tga"))):
                    continue        # (OIIO's DPX swaps the size of transposed images)
                if p.endswith(".exr") and fi.t in ("f32", "f16"):
                    if (got.dw, got.fw) != (fi.dw, fi.fw):
                        raise Violation(what + "/file", "%s: %s has the data window %s and display window %s, not %s and %s" % (where, p, got.dw, got.fw, fi.dw, fi.fw))
                if (got.w, got.h) != (fi.w, fi.h):
                    raise Violation(what + "/file", "%s: %s has %dx%d pixels, not %dx%d" % (where, p, got.w, got.h, fi.w, fi.h))
                how = X[j.files[p]].split()[15].split("/")
                gi, _ = e.attr(m)
                cp = model.COMPRESSION.get(gi("exr_compression", 0))
                if p.endswith(".exr") and cp and how[0] != cp:
                    raise Violation(what + "/file", "%s: %s is compressed with %s, not %s" % (where, p, how[0], cp))
                if p.endswith((".exr", ".tif")) and got.ori != fi.ori:
                    raise Violation(what + "/file", "%s: %s has the orientation %d, not %d" % (where, p, got.ori, fi.ori))
                if p.endswith(model.JPEG):
                    ss = model.SUBSAMPLING.get(gi("jpeg_subsampling", 0))
                    if ss and how[1] not in ("-", ss):
                        raise Violation(what + "/file", "%s: %s is stored with subsampling %s, not %s" % (where, p, how[1], ss))
                    lo = hi = 0.0
                    for k in range(0, len(fi.px), fi.ch):
                        for v in fi.px[k:k + 3]:
                            v = v if v != model.ANY else (0.0, 1.0)
                            lo, hi = lo + min(1.0, max(0.0, v[0])), hi + min(1.0, max(0.0, v[1]))
                    c = 3.0 * fi.w * fi.h
                    mean = sum(v[0] for v in got.px) / len(got.px)
                    st.add("JPEG files compared with the model in the mean")
                    if not lo / c - 0.08 <= mean <= hi / c + 0.08:
                        raise Violation(what + "/file", "%s: the mean of %s is %.4f, not %.4f to %.4f" % (where, p, mean, lo / c, hi / c))
                    continue
                if got.ch != fi.ch:
                    continue
                if p.endswith(".tga") and fi.ch == 4:
                    continue        # the library does not keep alpha apart there
                if p.endswith(".png") and fi.ch == 4:
                    fi = model.unassociated(fi)
                lossy = p.endswith(".exr") and m.attrs.get("exr_compression", ("i", "0"))[1] not in ("0", "1", "2", "3", "4", "5")
                if lossy:
                    continue
                diff = model.differ(fi.copy(px=model.rounded(got.t, fi.px)), got.w, got.h, got.ch, [v[0] for v in got.px])
                if diff:
                    raise Violation(what + "/file", "%s: in %s %s" % (where, p, diff))
                n += 1
                st.add("files compared with the model")
    return n
