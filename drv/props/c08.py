"""C08 side effects: only evaluations touch files, and only to write each frame of each active write node once."""
import gen as G_, wr, world as w, ref
from core import Violation
from props.c07 import sums

LEVEL = "exploration"
BUDGET = {"quick": (8000, 45), "thorough": (1000000, 700)}
RULE = ("Each seed edits, queries and evaluates one or two graphs with write nodes in front of, behind and beside the evaluated node, in diamonds, disabled, not to be executed, without input, deleted, and with "
        "reads that fail. Every edit and query must make no file system call at all. Around every evaluation all files are checksummed: only targets of active write nodes upstream of the evaluated node, for "
        "requested frames, may change; a frame whose write node cannot be evaluated must stay as it was; and without faults each target must be completed exactly once per frame and write node. "
        "Non-trivial: an evaluation that had to write something was judged.")
ASSUMPTIONS = ["JPEG targets only get faults when the file is created (libjpeg ends the process otherwise)", "file system calls are seen at the C library boundary, inside the scratch folder and for relative paths"]

QUERIES = ["info", "debug", "cstat", "dig", "out", "get"]


def gen(rng, i, tier):
    b = G_.Builder(rng)
    paths = G_.files(rng, b.lines, rng.randint(1, 2), exts=["exr", "exr", "png", "tif"])
    if rng.random() < 0.3:
        paths = paths + ["missing.exr"]
    if rng.random() < 0.25:
        # one frame of a sequence is missing
        s = [p for p in paths if "#" in p]
        if s:
            b.add("rm " + wr.expand(s[0], rng.choice([2, 3])))
    tip, ws, pool = wr.comp(rng, b, files=paths)
    g = "g"
    allw = [n for n, _ in ws]
    # Bystanders: writes on the side or after the tip, diamonds, writes without input.
    for _ in range(rng.randint(0, 3)):
        k = rng.random()
        if k < 0.35:
            n, e = wr.write_node(rng, b, g, rng.choice(pool))
            allw.append(n)
        elif k < 0.5:
            n, e = wr.write_node(rng, b, g, tip)
            allw.append(n)
        elif k < 0.75:
            m = b.node(g, "merge")
            b.conn(g, tip, m, 0)
            b.conn(g, rng.choice(allw + [tip]), m, 1)
            tip = m
        elif k < 0.85:
            n = b.node(g, "write")
            b.set(g, n, "file_path", "alone_%s.exr" % n)
            allw.append(n)
            m = b.node(g, "merge")
            b.conn(g, tip, m, 0)
            b.conn(g, n, m, 1)
            tip = m
        else:
            n, e = wr.write_node(rng, b, g, tip)
            allw.append(n)
            tip = n
    if rng.random() < 0.3:
        b.graph("h")
        r = b.node("h", "read", "hr")
        b.set("h", r, "file_path", rng.choice(paths))
        n, e = wr.write_node(rng, b, "h", r, path="h_out.#.exr")
    b.add("cache c %d" % rng.choice([1 << 20, 0, 600]))
    G = b.g[g]
    nodes = lambda: list(G["order"])
    for _ in range(rng.randint(3, 9)):
        k = rng.random()
        if k < 0.45:
            n = tip if rng.random() < 0.5 else rng.choice(nodes())
            fr = [rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
            if rng.random() < 0.12:
                b.add(rng.choice(["fault read %d EIO 0 -" % rng.randint(1, 30), "fault open_r %d EACCES 0 -" % rng.randint(1, 3), "fault open_w %d EACCES 0 -" % rng.randint(1, 2)]
                                 + ["fault write %d ENOSPC 0 -" % rng.randint(1, 12)]))
            b.exec(g, n, "c", fr, fl=rng.random() < 0.1)
            b.add("heal")
        elif k < 0.6:
            b.set(g, rng.choice([n for n in allw if n in G["types"]] or [nodes()[0]]), "enable", rng.choice([0, 0, 1])) if any(n in G["types"] for n in allw) else None
        elif k < 0.72:
            c = [n for n in allw if n in G["types"]]
            if c:
                b.set(g, rng.choice(c), "execute", rng.choice([0, 0, 1]))
        elif k < 0.78:
            c = [n for n in allw if n in G["types"] and n != tip]
            if c:
                b.delnode(g, rng.choice(c))
        elif k < 0.83:
            n = rng.choice(nodes())
            if G["in"][n]:
                b.disc(g, n, rng.choice(sorted(G["in"][n])))
        elif k < 0.88:
            b.add("exec h hr c i 1")
        else:
            n = rng.choice(nodes())
            b.lines += rng.choice([["info g"], ["debug g"], ["cstat c"], ["gets g %s file_path" % n, "geti g %s enable" % n, "getf g %s mix" % n], ["out g o", "dig o"], ["lut3d c Linear sRGB 3"]])
    if rng.random() < 0.15:
        b.add("conn g %s %s 0" % (tip, pool[0]))
        b.exec(g, tip, "c", (1, 2))
    return b.lines


QUIET = {"graph", "delgraph", "cache", "delcache", "node", "delnode", "seti", "setf", "sets", "geti", "getf", "gets", "conn", "disc", "info", "debug", "cstat", "dig", "out", "cap", "drop"}


def judge(z, plan, st):
    A, where = [], {}
    wk = ref.Walk()
    jobs = []
    R, k = ["cache Z 0"], 0
    for line in plan:
        t = line.split()
        if not t:
            continue
        if t[0] == "fault":
            A.append(line)
            continue
        if t[0] in w.ENV:
            A.append(line)
            R.append(line)
            continue
        wk.step(t)
        if t[0] != "exec":
            A.append(line)
            continue
        # A fault line stays right in front of the evaluation it is armed for.
        at = len(A)
        while at and A[at - 1].startswith("fault"):
            at -= 1
        A.insert(at, "sum")
        A.append(line)
        ln = len(A)
        A.append("sum")
        g = wk.graphs.get(t[1])
        n = g.get(t[2]) if g else None
        tg = wr.targets(g, n, t[5:]) if n is not None and t[3] in wk.caches else []
        # Can each write node be evaluated at each frame at all?
        chk = []
        if tg:
            for m, f, p in tg:
                k += 1
                R += g.emit("R%d" % k, m) + ["seti R%d %s execute 0" % (k, x.name) for x in g.upstream(m) if x.type == "write"]
                R.append("exec R%d %s Z %s %s" % (k, m.name, t[4], f))
                chk.append(len(R))
                R.append("delgraph R%d" % k)
        jobs.append((ln, tg, chk))
    a = z.run("\n".join(A) + "\n")
    st.run(a)
    r = z.run("\n".join(R) + "\n")
    st.run(r)
    if r.died:
        st.add("inconclusive: reference run died")
        return False
    if a.died:
        raise Violation("C08/died", "the run ended with exit %d signal %d: %s" % (a.rc, a.sig, a.err[-300:].replace("\n", " ")))
    er = {ln: l for ln, l in r.results() if l.startswith("exec")}
    ops = a.ops()
    for ln, ls in ops.items():
        if ln == 0:
            continue
        c = [l for l in ls if l.startswith("C ")]
        if A[ln - 1].split()[0] in QUIET and c:
            st.add("edits and queries judged")
            if any(x != "0" for x in c[0].split()[1:]):
                raise Violation("C08/edit touches files", "%s makes file system calls: %s %s" % (A[ln - 1], c[0], [l for l in ls if l.startswith("IO ")][:5]))
    good = 0
    for j, (ln, tg, chk) in enumerate(jobs):
        x = [l for l in ops.get(ln, []) if l.startswith("R exec")]
        b, e = sums(a.log, 2 * j), sums(a.log, 2 * j + 1)
        fired = [l for l in ops.get(ln, []) if l.startswith("F ")]
        may = set(p for _, _, p in tg)
        st.add("evaluations judged")
        for p in sorted(set(b) | set(e)):
            if b.get(p) != e.get(p) and p not in may:
                raise Violation("C08/foreign file", "%s %s %s; it may only write %s" % (A[ln - 1], "removed" if p not in e else "created" if p not in b else "changed", p, sorted(may)))
        if not tg or not x:
            continue
        able = {}
        for (m, f, p), rl in zip(tg, chk):
            able.setdefault(p, []).append(er.get(rl, "").startswith("exec 1 "))
        for p, v in able.items():
            if not any(v) and b.get(p) != e.get(p):
                raise Violation("C08/wrote without input", "%s wrote %s although what is to be written cannot be evaluated" % (A[ln - 1], p))
        if x[0].startswith("R exec 1 ") and not fired:
            io = [l.split() for l in ops[ln] if l.startswith("IO ")]
            for p in sorted(may):
                want = sum(1 for y in tg if y[2] == p)
                got = sum(1 for l in io if (l[1] == "close_w" and l[2] == p) or (l[1] == "rename" and l[3:4] == [p]))
                if got != want and p:
                    raise Violation("C08/not exactly once", "%s completed %s %d times; %d write%s due" % (A[ln - 1], p, got, want, " is" if want == 1 else "s are"))
                st.add("frames written exactly once", want)
            good += 1
    return good > 0
