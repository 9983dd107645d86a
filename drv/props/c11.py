"""C11 threads: evaluations of separate graphs in separate threads do not influence each other or the host."""
import gen as G_, wr, world as w
from core import Violation, h64

LEVEL = "exploration"
BUDGET = {"quick": (6000, 50), "thorough": (1000000, 700)}
RULE = ("Each seed runs two to four threads, each with graphs and a cache of its own, that build, edit and evaluate comps over shared source files and write files of their own, some with files that cannot be opened. One thread runs at a time; at every "
        "file system call, lock, futex and clock read the seeded schedule picks who goes on (uniform, bursty and few-switch schedules). Each thread must see exactly the results it sees when it runs alone, its files must have the same content, and afterwards "
        "the process state (thread setting of the image library, open files, working folder, environment) must be as before. Non-trivial: at least ten switches between threads happened while all had work.")
ASSUMPTIONS = ["a graph, its streams and its cache are used by one thread at a time", "switches happen at file system calls, lock operations, futex calls, clock reads and between operations; races between plain memory accesses in other places are not explored"]


def thread(rng, b, k, paths, tier):
    g = "g%d" % k
    b.graph(g)
    v, pool = b.tree(g, paths, nops=rng.choice([0, 1, 2, 3]), nreads=rng.choice([1, 1, 2]))
    tip = v
    if rng.random() < 0.5:
        n, e = wr.write_node(rng, b, g, v if rng.random() < 0.5 else rng.choice(pool), exts=["exr", "exr", "png", "tif", "tga"], path="o%d.%s%s" % (k, rng.choice(["", "#.", "####."]), rng.choice(["exr", "png", "tif"])))
        tip = n
        pool.append(n)
    c = "c%d" % k
    b.add("cache %s %d" % (c, rng.choice([1 << 20, 0, 500])))
    for _ in range(rng.randint(1, 4)):
        x = rng.random()
        if x < 0.65:
            b.exec(g, tip if rng.random() < 0.8 else rng.choice(pool), c, [rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 1, 2]))])
        elif x < 0.85:
            n = rng.choice(pool)
            at = sorted(a for a in w.NODES[b.g[g]["types"][n]] if a != "file_path")
            if at:
                b.set(g, n, rng.choice(at))
        elif x < 0.92:
            b.add("lut3d %s Linear sRGB %d" % (c, rng.choice([2, 3])))
        else:
            b.add("info " + g)
    b.exec(g, tip, c, [rng.choice([1, 2])])


def gen(rng, i, tier):
    lines = ["logio 0"]
    paths = G_.files(rng, lines, rng.randint(1, 3), exts=["exr", "exr", "png", "tif", "tga"])
    if rng.random() < 0.3:
        paths.append("missing.exr")
    lines.append("threads set %d" % rng.choice([1, 2, 3, 5]))
    nt = rng.choice([2, 2, 2, 3, 4])
    for k in range(nt):
        b = G_.Builder(rng)
        thread(rng, b, k, paths, tier)
        lines += ["T %d %s" % (k, l) for l in b.lines]
    if rng.random() < 0.2:
        lines.append("bad " + rng.choice(["fault open_r 1+ EACCES 0 %s", "fault open_w 1+ EACCES 0 o0.%s", "fault stat 1+ EIO 0 %s"]).replace("%s", rng.choice([p for p in paths if "#" not in p] or ["f0.exr"])))
    style = rng.random()
    n = rng.choice([50, 200, 600, 1500])
    s = []
    if style < 0.35:
        s = [rng.randrange(12) for _ in range(n)]
    elif style < 0.7:
        while len(s) < n:
            s += [rng.randrange(12)] + [-1] * rng.choice([0, 1, 2, 5, 10, 20, 60])
    else:
        s = [-1] * n
        for _ in range(rng.choice([1, 2, 3, 5])):
            s[rng.randrange(n)] = rng.randrange(12)
    for q in range(0, len(s), 30):
        lines.append("sched " + " ".join(map(str, s[q:q + 30])))
    return lines


def split(plan):
    env = [l for l in plan if l.split()[0] not in ("T", "sched", "bad")]
    th = {}
    for l in plan:
        t = l.split(" ", 2)
        if t[0] == "T":
            th.setdefault(int(t[1]), []).append(t[2])
    return env, th, [l for l in plan if l.startswith("sched")], [l[4:] for l in plan if l.startswith("bad ")]


def files_of(ops):
    out = []
    for l in ops:
        t = l.split()
        if t[0] == "sets" and t[3] == "file_path" and len(t) > 4 and t[4].startswith("o"):
            for f in (1, 2, 3):
                p = wr.expand(w.dec(t[4]), f)
                if p not in out:
                    out.append(p)
    return out


def judge(z, plan, st):
    env, th, sched, bad = split(plan)
    if len(th) < 1:
        return False
    ks = sorted(th)
    A = env + ["host"]
    for q, k in enumerate(ks):
        A += ["T %d %s" % (q, l) for l in th[k]]
    A += sched + bad + ["par", "host"]
    dec = {k: ["decode " + w.enc(p) for p in files_of(th[k])] for k in ks}
    for k in ks:
        A += dec[k]
    a = z.run("\n".join(A) + "\n")
    st.run(a)
    alone = {}
    for k in ks:
        r = z.run("\n".join(env + ["T 0 " + l for l in th[k]] + bad + ["par"] + dec[k]) + "\n")
        st.run(r)
        if r.died:
            st.add("inconclusive: a thread alone died")
            return False
        alone[k] = r
    if a.died:
        raise Violation("C11/died", "%s (each thread alone runs to the end): exit %d signal %d: %s" % ("no progress" if a.hung else "the run ended", a.rc, a.sig, a.err[-300:].replace("\n", " ")))
    for q, k in enumerate(ks):
        x = [l.split(" ", 1)[1] for l in a.log if l.startswith("@%d R " % q)]
        y = [l.split(" ", 1)[1] for l in alone[k].log if l.startswith("@0 R ")]
        x, y = [strip(l) for l in x], [strip(l) for l in y]
        if x != y:
            for u, v in zip(x + ["nothing"], y + ["nothing"]):
                if u != v:
                    raise Violation("C11/result", "thread %d with others gets  %s\nalone  %s" % (k, u, v))
        st.add("results compared", len(x))
    da = {l.split(" ", 3)[2]: l for l in a.log if l.startswith("R decode ")}
    for k in ks:
        for l in alone[k].log:
            if l.startswith("R decode "):
                p = l.split(" ", 3)[2]
                st.add("files compared")
                if da.get(p) != l:
                    raise Violation("C11/file", "file of thread %d with others: %s\nalone: %s" % (k, da.get(p), l))
    h = [l.rsplit(" ", 1)[0] for l in a.log if l.startswith("R host")]
    if len(h) == 2 and h[0] != h[1]:
        raise Violation("C11/host", "process state before: %s\nafter all threads ended: %s" % (h[0], h[1]))
    p = [l for l in a.log if l.startswith("P ")]
    sw = int(p[0].split("switches=")[1]) if p else 0
    st.see("distinct interleavings", h64(" ".join(l.split(" ", 1)[0] for l in a.log if l.startswith("@")) + " ".join(p) + "\n".join(plan)))
    return sw >= 10 and len(ks) > 1


def strip(l):
    # node ids are random: hashes stay out
    return " ".join(x for x in l.split() if not x.startswith("h="))
