"""C07 crash: a process that ends at any I/O call damages at most the one file being written; a restart completes."""
import gen as G_, wr, world as w
from core import Violation

LEVEL = "exploration"
BUDGET = {"quick": (4000, 45), "thorough": (1000000, 700)}
RULE = ("Each seed builds a comp with one or two image writes, evaluates part of it (acknowledged frames), perhaps edits it, and then evaluates a run of frames during which the process ends at "
        "up to four I/O calls drawn over the whole evaluation (before the call, or in the middle of a write that leaves a torn prefix). For each crash point the folder that survives is examined: files that are no "
        "target of the interrupted evaluation must be byte-identical, every target but one must be exactly its old or its complete new content, frames must have been finished in order, and a new process that evaluates the same "
        "frames must succeed and leave exactly the complete content. Non-trivial: at least one crash happened inside the evaluation.")
ASSUMPTIONS = ["a process crash keeps what the system calls before it wrote (no power failure; the library does not sync files)", "a write call that is interrupted by the crash has written a multiple of 64 bytes or the planned prefix"]


def gen(rng, i, tier):
    b = G_.Builder(rng)
    tip, ws, pool = wr.comp(rng, b)
    b.add("cache c %d" % rng.choice([1 << 20, 1 << 20, 0]))
    outs = [b.g["g"]["vals"][(n, "file_path")] for n, _ in ws]
    if rng.random() < 0.3:
        for o, (n, e) in zip(outs, ws):
            if o.endswith(("exr", "png", "tif")):
                for f in (1, 2):
                    b.add(w.mkimg(wr.expand(o, f), 4, 4, 4, seed=rng.randrange(1000)))
    if rng.random() < 0.6:
        b.exec("g", tip, "c", [rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 2]))])
        if rng.random() < 0.6:
            m = rng.choice(pool)
            at = sorted(a for a in w.NODES[b.g["g"]["types"][m]] if a not in ("file_path", "enable"))
            if at:
                b.set("g", m, rng.choice(at))
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.7:
            b.add("crashat w %d %d" % (rng.randrange(1, 1001), rng.choice([0, 1, 3, 7, 20, 100000])))
        else:
            b.add("crashat a %d 0" % rng.randrange(1, 1001))
    fr = rng.sample([1, 2, 3], rng.choice([1, 2, 3, 3]))
    if rng.random() < 0.15:
        fr.append(rng.choice(fr))
    b.exec("g", tip, "c", fr)
    return b.lines


def sums(log, k=0):
    """The k-th 'sum' of a log: path -> checksum."""
    out, n = {}, 0
    for l in log:
        if l == "R sumend":
            n += 1
        elif l.startswith("R sum ") and n == k:
            p = l.split(" ")
            out[p[2]] = p[3]
    return out


def decs(log):
    return [(l.split(" ", 3)[2], l.split(" ", 3)[3]) for l in log if l.startswith("R decode ")]


def judge(z, plan, st):
    crash = [l.split() for l in plan if l.startswith("crashat")]
    lines = [l for l in plan if not l.startswith("crashat")]
    ex = [k for k, l in enumerate(lines) if l.startswith("exec ")]
    if not ex or not crash:
        return False
    pre, last = lines[:ex[-1]], lines[ex[-1]].split()
    import ref
    wk = ref.Walk()
    for l in pre:
        t = l.split()
        if t and t[0] not in w.ENV and t[0] != "fault":
            wk.step(t)
    g = wk.graphs.get(last[1])
    n = g.get(last[2]) if g else None
    if n is None or last[3] not in wk.caches or g.upstream(n) is None:
        return False
    tg = wr.targets(g, n, last[5:])
    paths = []
    for _, _, p in tg:
        if p and p not in paths:
            paths.append(p)
    dec = ["decode " + w.enc(p) for p in paths]
    # Fault-free: contents before, and after each frame evaluated by itself from nothing.
    R = pre + ["sum"] + dec
    R += g.emit("R", n) + ["cache Z 0"]
    for f in last[5:]:
        R += ["exec R %s Z %s %s" % (n.name, last[4], f)] + dec
    r = z.run("\n".join(R) + "\n")
    st.run(r)
    # Counts of calls in the evaluation itself.
    c = z.run("\n".join(pre + [" ".join(last)] + dec) + "\n")
    st.run(c)
    if r.died or c.died:
        st.add("inconclusive: reference run died")
        return False
    rr = [l for _, l in r.results() if l.startswith("exec ")]
    if not rr or not all(l.startswith("exec 1 ") for l in rr[-len(last[5:]):]):
        return False
    d = decs(r.log)
    k = len(paths)
    vers = {p: [] for p in paths}      # contents in order of time
    for j in range(1 + len(last[5:])):
        for p, v in d[j * k:(j + 1) * k]:
            vers[p].append(v)
    before = sums(r.log)
    cl = [l for l in c.log if l.startswith("C ")]
    cnt = [int(x) for x in cl[-1].split()[1:]]
    hit = 0
    for _, kind, pm, arg in crash:
        tot = cnt[3] if kind == "w" else sum(cnt)
        if tot == 0:
            continue
        nth = max(1, (tot * int(pm) + 999) // 1000)
        f = "fault %s %d crash %s -" % ("write" if kind == "w" else "any", nth, arg)
        a = z.run("\n".join(pre + [f, " ".join(last)]) + "\n")
        st.run(a)
        if not a.crashed:
            if a.died:
                raise Violation("C07/died", "the run ended with exit %d signal %d: %s" % (a.rc, a.sig, a.err[-300:]))
            st.add("crash points that were not reached")
            continue
        hit += 1
        st.see("distinct crash points", "%s %s %s" % (kind, nth, "\n".join(plan)))
        again = ["sum"] + dec + g.emit("R", n) + ["cache Z 0", "exec R %s Z %s" % (n.name, " ".join(last[4:]))] + dec
        b = z.run("\n".join(again) + "\n", keep=True)
        st.run(b)
        if b.died:
            raise Violation("C07/restart died", "after a crash at %s the new process ended with exit %d signal %d: %s" % (f, b.rc, b.sig, b.err[-300:]))
        now = sums(b.log)
        for p, h in before.items():
            if p not in paths and now.get(p) != h:
                raise Violation("C07/other file", "a crash at %s in %s changed %s, which the evaluation does not write" % (f, " ".join(last), p))
        got = dict(decs(b.log)[:k])
        torn = [p for p in paths if got[p] not in vers[p]]
        if len(torn) > 1:
            raise Violation("C07/several damaged", "a crash at %s in %s left more than one damaged file:\n%s" % (f, " ".join(last), "\n".join("%s is %s, allowed %s" % (p, got[p], vers[p]) for p in torn)))
        st.add("crashes that left a torn file" if torn else "crashes that left no torn file")
        # Frames complete in order: a target that has begun means all targets of earlier frames are complete.
        once = [(fi, p) for fi, fr in enumerate(last[5:]) for _, f2, p in tg if f2 == fr and [x[2] for x in tg].count(p) == 1]
        begun = [fi for fi, p in once if got[p] != vers[p][0]]
        for fi, p in once:
            if begun and fi < max(begun) and got[p] != vers[p][-1]:
                raise Violation("C07/order", "a crash at %s in %s: a later frame was begun but %s is %s, not complete (%s)" % (f, " ".join(last), p, got[p], vers[p][-1]))
        e = [l for _, l in b.results() if l.startswith("exec ")]
        if not e or not e[-1].startswith("exec 1 "):
            raise Violation("C07/restart fails", "after a crash at %s a new process cannot evaluate the same frames: %s" % (f, e[-1].split("|")[0] if e else "nothing"))
        for p, v in decs(b.log)[k:]:
            if v != vers[p][-1]:
                raise Violation("C07/restart content", "after a crash at %s and a new evaluation %s is %s, not %s" % (f, p, v, vers[p][-1]))
        st.add("files compared", 2 * k)
    return hit > 0
