"""C09 frames: evaluating several frames is evaluating each of them, and the frame number selects the files."""
import re
import gen as G_, wr, world as w, ref
from core import Violation
from props.c07 import decs

LEVEL = "exploration"
BUDGET = {"quick": (6000, 45), "thorough": (1000000, 700)}
RULE = ("Each seed evaluates comps over frame sequences (with and without writes; repeated, negative, large and fractional frame numbers; any padding width; missing frames; frames that cannot be written) as one call with several frames, as one call per "
        "frame on a graph with the same history, and per frame with the file names spelled out instead of the pattern. Status, output, node status and the files on disk must agree in all three: the output is that of the last "
        "frame, success is reported exactly if every frame succeeds, and evaluation ends at the first frame that fails. Non-trivial: an evaluation of at least two frames was compared.")
ASSUMPTIONS = ["frame numbers are rounded half away from zero", "padding is the first run of # in a path; names carry no other variables"]


def gen(rng, i, tier):
    b = G_.Builder(rng)
    pad = rng.choice([1, 1, 2, 3, 4, 4, 5, 8, 9, 10, 12])
    ext = rng.choice(["exr", "exr", "tif", "png"])
    pool_fr = rng.choice([[1, 2, 3], [1, 2, 3], [0, -1, 2], [9, 10, 11], [99, 100, 1000], [-12, 12, 5], [1001, 123456, 7]])
    pat = "%s%s.%s" % (rng.choice(["fs.", "fs_", "f", "\u00e9.", "\u65e5_", "\u20ac"]), "#" * pad, ext)
    for f in pool_fr:
        if rng.random() < 0.93:
            b.add(w.mkimg(wr.expand(pat, f), 4, 4, rng.choice([3, 4]), seed=rng.randrange(1, 1000)))
    paths = [pat, pat]
    if rng.random() < 0.3:
        b.add(w.rand_img(rng, "still.exr", rng.randrange(1, 999)))
        paths.append("still.exr")
    b.graph("g")
    v, pool = b.tree("g", paths, nops=rng.choice([0, 1, 2, 3]), nreads=rng.choice([1, 1, 2]), types=["grade", "merge", "crop", "xform", "null", "lens"])
    tip = v
    if rng.random() < 0.55:
        n, e = wr.write_node(rng, b, "g", v if rng.random() < 0.5 else rng.choice(pool), exts=["exr", "exr", "png", "tif", "tga"], path="%s%s.%s" % (rng.choice(["o", "o", "\u00f6"]), rng.choice(["." + "#" * rng.choice([1, 3, 4, 10, 15]), "", ".##_x"]), rng.choice(["exr", "tif", "png"])))
        tip = n
        if rng.random() < 0.3:
            # A frame that cannot be written.
            p = b.g["g"]["vals"][(n, "file_path")]
            if "#" in p:
                b.add("mkdir " + w.enc(wr.expand(p, rng.choice(pool_fr))))
    b.add("cache c %d" % rng.choice([1 << 20, 1 << 20, 0, 400]))
    fl = rng.random() < 0.3

    def fr(k):
        o = [rng.choice(pool_fr) for _ in range(k)]
        if fl:
            o = [f + rng.choice([0.0, 0.25, -0.25, 0.49, -0.49, 0.5]) for f in map(float, o)]
        return o
    for _ in range(rng.randint(1, 3)):
        b.exec("g", tip if rng.random() < 0.8 else rng.choice(pool), "c", fr(rng.choice([1, 2, 2, 3, 4, 5])), fl=fl)
        if rng.random() < 0.3:
            m = rng.choice(pool)
            at = sorted(a for a in w.NODES[b.g["g"]["types"][m]] if a not in ("file_path",))
            if at:
                b.set("g", m, rng.choice(at))
    return b.lines


def literal(lines, f):
    """The same edits with file patterns replaced by the names at frame f."""
    out = []
    for l in lines:
        t = l.split()
        if t[0] == "sets" and t[3] == "file_path" and len(t) > 4:
            l = " ".join(t[:4] + [w.enc(wr.expand(w.dec(t[4]), f))])
        out.append(l)
    return out


def judge(z, plan, st):
    wk = ref.Walk()
    A, B, L, jobs = [], [], ["cache Z 0"], []
    k = 0
    for line in plan:
        t = line.split()
        if not t or t[0] == "fault":
            continue
        if t[0] in w.ENV:
            A.append(line), B.append(line), L.append(line)
            continue
        wk.step(t)
        if t[0] != "exec":
            A.append(line), B.append(line)
            continue
        g = wk.graphs.get(t[1])
        n = g.get(t[2]) if g else None
        if n is None or t[3] not in wk.caches or g.upstream(n) is None or len(t) < 6:
            continue
        # Literal names, from nothing, frame by frame: tells where the first failure is, and what each frame is.
        lits = []
        tg = wr.targets(g, n, t[5:])
        paths = []
        for _, _, p in tg:
            if p and p not in paths:
                paths.append(p)
        for f in t[5:]:
            k += 1
            L += literal(g.emit("L%d" % k, n), f)
            L.append("exec L%d %s Z i 7" % (k, n.name))
            lits.append(len(L))
            fp = [p for _, f2, p in tg if f2 == f and p]
            L += ["decode " + w.enc(p) for p in fp]
            L += ["rm " + w.enc(p) for p in fp] + ["delgraph L%d" % k]
        jobs.append([t, lits, tg, paths])
        jobs[-1].append(len(A))
        jobs[-1].append(len(B))
        A.append(None), B.append(None)
    if not jobs:
        return False
    l = z.run("\n".join(L) + "\n")
    st.run(l)
    if l.died:
        st.add("inconclusive: reference run died")
        return False
    el = {ln: r for ln, r in l.results() if r.startswith("exec")}
    # Now the two histories, up to the first failing frame of each evaluation.
    sa, sb = list(A), list(B)
    for t, lits, tg, paths, ia, ib in jobs:
        ok = [el[x].startswith("exec 1 ") for x in lits]
        nf = len(ok) if all(ok) else ok.index(False) + 1
        dec = "\n".join(["info " + t[1]] + ["decode " + w.enc(p) for p in paths])
        sa[ia] = " ".join(t) + "\n" + dec
        sb[ib] = "\n".join("%s %s" % (" ".join(t[:5]), f) for f in t[5:5 + nf]) + "\n" + dec
    a = z.run("\n".join(sa) + "\n")
    b = z.run("\n".join(sb) + "\n")
    st.run(a), st.run(b)
    for r, nm in ((a, "all frames at once"), (b, "frame by frame")):
        if r.died:
            raise Violation("C09/died", "%s: the run ended with exit %d signal %d: %s" % (nm, r.rc, r.sig, r.err[-300:].replace("\n", " ")))
    ga, gb, gl = groups(a), groups(b), groups(l)
    multi = 0
    ia = ib = il = 0
    for t, lits, tg, paths, _, _ in jobs:
        ok = [el[x].startswith("exec 1 ") for x in lits]
        nf = len(ok) if all(ok) else ok.index(False) + 1
        ra, da, fa = ga[ia]
        ia += 1
        rb, db, fb = gb[ib + nf - 1]
        ib += nf
        rl = [gl[il + q] for q in range(len(ok))]
        il += len(ok)
        what = " ".join(t)
        if w.exec_fields(ra) != w.exec_fields(rb):
            raise Violation("C09/not as frame by frame", "%s gives  %s\nbut frame by frame (ends at frame %s) it is  %s\n(different: %s)" % (what, ra, t[4 + nf], rb, w.diff_text(ra, rb)))
        if da != db:
            raise Violation("C09/files not as frame by frame", "%s leaves  %s\nframe by frame  %s" % (what, da, db))
        if not all(ok):
            # Whether frames before the failing one make the graph clean is not specified.
            fa, fb = re.sub(r"state=\d+", "", fa or ""), re.sub(r"state=\d+", "", fb or "")
        if fa != fb:
            raise Violation("C09/state not as frame by frame", "%s leaves  %s\nframe by frame  %s" % (what, fa, fb))
        if ra.startswith("exec 1 ") != all(ok):
            raise Violation("C09/status", "%s reports %s; by frame with literal names: %s" % (what, ra.split("|")[0], ok))
        if all(ok) and w.exec_fields(ra) != w.exec_fields(rl[-1][0]):
            raise Violation("C09/wrong frame", "%s gives  %s\nbut with the file names of frame %s written out it is  %s\n(different: %s)" % (what, ra, t[-1], rl[-1][0], w.diff_text(ra, rl[-1][0])))
        # Files: the last frame that writes a path wins.
        if tg and all(ok):
            want = {}
            for q in range(len(ok)):
                want.update(rl[q][1])
            if want != da:
                raise Violation("C09/wrong files", "%s leaves  %s\nbut its frames evaluated with literal names write  %s" % (what, da, want))
            st.add("files compared", len(want))
        st.add("frames compared", nf)
        if not all(ok):
            st.add("evaluations with a failing frame")
        if len(ok) > 1:
            multi += 1
    return multi > 0


def groups(run):
    """Per evaluation: its result, the files decoded after it, and the info line after it (without what is not compared)."""
    out = []
    for l in run.log:
        if l.startswith("R exec "):
            out.append([l[2:], {}, None])
        elif l.startswith("R decode ") and out:
            p = l.split(" ", 3)
            out[-1][1][p[2]] = p[3]
        elif l.startswith("R info ") and out:
            out[-1][2] = l
    return out
