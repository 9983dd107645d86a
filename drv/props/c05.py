"""C05 recovery: once faults stop, the next evaluation is what it would be had there never been a fault."""
import faultgen, gen as G_, ref, wr, world as w
from core import Violation
from props.c06 import decodes

LEVEL = "exploration"
BUDGET = {"quick": (14000, 45), "thorough": (1000000, 700)}
RULE = ("Each seed evaluates a random comp over files that are good, missing, empty, cut short, garbage, folders or dangling links, with faults (failing or short open, read, stat and close calls, files removed "
        "or renamed in the middle, clock jumps) in some evaluations; every evaluation without an armed fault is compared with the same graph built from nothing, evaluated with no cache on "
        "the files as they are then. A third of the seeds evaluate comps with writes that fail (failing creates and writes, a full disk, missing folders, unwritable targets) and are made again once the reason is gone; files are compared as well. Non-trivial: at least one compared evaluation came after a fault that fired or after an evaluation that met a bad file.")
ASSUMPTIONS = ["a file that was read successfully does not change while cached", "image formats whose reader cannot tell that data is missing (JPEG) are not cut short"]


def gen(rng, i, tier):
    return gen_writes(rng, tier) if i % 3 == 2 else faultgen.gen(rng, i, tier)


def gen_writes(rng, tier):
    """Comps with writes: evaluations that succeed, fail for some reason, and are made again once the reason is gone."""
    b = G_.Builder(rng)
    b.add("logio 1")
    tip, ws, pool = wr.comp(rng, b)
    b.add("cache c %d" % rng.choice([1 << 20, 1 << 20, 0, 500]))
    outs = [b.g["g"]["vals"][(n, "file_path")] for n, _ in ws]
    sub = rng.random() < 0.3
    if sub:
        b.add("mkdir sub")
        outs[0] = "sub/" + outs[0]
        b.set("g", ws[0][0], "file_path", outs[0])
    reads = [b.g["g"]["vals"][(n, "file_path")] for n in pool if b.g["g"]["types"][n] == "read"]

    def ex(n, fr, look=True):
        b.exec("g", n, "c", fr)
        if look:
            for p in sorted(set(wr.expand(o, f) for o in outs for f in fr)):
                b.add("decode " + w.enc(p))

    for _ in range(rng.randint(1, 3 if tier == "quick" else 6)):
        fr = [rng.choice([1, 1, 2, 3]) for _ in range(rng.choice([1, 1, 2]))]
        n = tip if rng.random() < 0.8 else rng.choice(ws)[0]
        if rng.random() < 0.6:
            ex(n, fr)
        for _ in range(rng.choice([1, 1, 2])):
            x = rng.random()
            back = ["heal"]
            if x < 0.5:
                k = rng.randrange(len(ws))
                b.lines += wr.write_fault(rng, ws[k][1], sorted(set(wr.expand(outs[k], f) for f in fr)))
            elif x < 0.7:
                b.add(faultgen.read_fault(rng, reads))
                if " env " in b.lines[-1]:
                    b.lines.pop()
            elif x < 0.85 and sub:
                b.add("mv sub away")
                back = ["mv away sub"]
            else:
                p = w.enc(wr.expand(rng.choice(outs), fr[0]))
                b.lines += ["rm " + p, "mkdir " + p]
                back = ["rmdir " + p]
            ex(n, fr, False)
            b.lines += back
        k = rng.random()
        if k < 0.2:
            m = rng.choice(pool)
            at = sorted(a for a in w.NODES[b.g["g"]["types"][m]] if a not in ("file_path", "enable"))
            if at:
                b.set("g", m, rng.choice(at))
        ex(n if rng.random() < 0.8 else rng.choice(pool), fr)
    return b.lines


def judge(z, plan, st):
    r = z.run("\n".join(plan) + "\n")
    st.run(r)
    # Evaluations with an armed fault are C04's; here they only make the history.
    skip, armed, stale = set(), False, False
    for ln, line in enumerate(plan, 1):
        t = line.split()
        if t[0] == "fault":
            armed = True
            if len(t) > 6 and t[3] == "env":
                stale = True        # a file goes away for good: from here on a cached image may outlive it
        elif t[0] not in w.ENV:
            if (armed or stale) and t[0] == "exec":
                skip.add(ln)
            armed = False
        elif t[0] == "quota":
            armed = True
        elif t[0] == "heal":
            armed = False
    # The same goes for evaluations that are made while their target cannot be written.
    _, n = ref.compare(z, plan, st, "C05/not recovered", run=r, skip=skip, both_fail=any(l.startswith("decode") for l in plan))
    files(z, plan, st, r, skip)
    ops = r.ops()
    hurt, after = False, 0
    for ln in sorted(ops):
        ls = ops[ln]
        if hurt and ln not in skip and any(l.startswith("R exec") for l in ls):
            after += 1
        if any(l.startswith("F ") or "px=9adaaf0f24a8b4f3" in l for l in ls):
            hurt = True
    st.add("evaluations compared after a fault", after)
    st.see("distinct fault histories", "|".join(l for l in r.log if l.startswith("F ")) + "|" + "".join(l.split()[2] for l in r.log if l.startswith("R exec")))
    return n > 0 and after > 0


def files(z, plan, st, r, skip):
    """What a fault-free evaluation wrote is what it writes from nothing."""
    if not any(l.startswith("decode") for l in plan):
        return
    out, where = ref.reference(plan)
    at = {v: k for k, v in where.items() if v}
    S, lines = [], {}
    for j, l in enumerate(out, 1):
        S.append(l)
        ln = at.get(j)
        if ln:
            lines[ln] = len(S)
            while ln < len(plan) and plan[ln].startswith("decode"):
                S.append(plan[ln])
                ln += 1
    b = z.run("\n".join(S) + "\n")
    st.run(b)
    if b.died or r.died:
        return
    da, db = decodes(r), decodes(b)
    ra = {ln: x for ln, x in r.results() if x.startswith("exec")}
    wk = ref.Walk()
    for ln, line in enumerate(plan, 1):
        t = line.split()
        wk.step(t)
        if ln not in ra or ln in skip or not ra[ln].startswith("exec 1 ") or not where.get(ln):
            continue
        le = lines.get(ln)
        g = wk.graphs[t[1]]
        mine = set(p for _, _, p in wr.targets(g, g.get(t[2]), t[5:]))
        for p in sorted(p for q, p in da if q == ln and p in mine):
            x, y = da[(ln, p)], db.get((le, p))
            if y is None:
                continue
            st.add("files compared")
            if x != y:
                raise Violation("C05/file not recovered", "line %d (%s) succeeds and leaves  %s\nbut from nothing it leaves  %s" % (ln, plan[ln - 1], x, y))
