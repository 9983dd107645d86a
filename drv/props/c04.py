"""C04 read faults are contained: an image is read right or replaced by the placeholder and reported, nothing in between."""
import itertools
import absol, faultgen, ref, world as w
from core import Violation
from sim import digest

LEVEL = "exploration"
BUDGET = {"quick": (12000, 50), "thorough": (1000000, 700)}
RULE = ("Each seed evaluates a random comp (one to three image reads) with failing or short open, read, stat and close calls, files removed or renamed in the middle of the evaluation and clock jumps at "
        "random call numbers, over good and bad files. Every faulted evaluation must succeed and give exactly one of the results possible when each read either works or is replaced by the placeholder "
        "(all subsets are evaluated from nothing as reference), and the status of the read nodes must name that subset. Non-trivial: at least one fault fired in a judged evaluation.")
ASSUMPTIONS = ["data that arrives changed without an error (flipped bits in formats without checksums) cannot be noticed and is not part of this property",
               "image formats whose reader cannot tell that data is missing (JPEG) get no end-of-file or short-read faults"]
PLACE = "9adaaf0f24a8b4f3"


def gen(rng, i, tier):
    return faultgen.gen(rng, i, tier, static=0.25, faulty=0.9)


def judge(z, plan, st):
    r = z.run("\n".join(plan) + "\n")
    st.run(r)
    ra, ops = dict(r.results()), r.ops()
    wk = ref.Walk()
    out = ["cache Z 0"]
    jobs = []
    armed, stale, k = [], False, 0
    for ln, line in enumerate(plan, 1):
        t = line.split()
        if not t:
            continue
        if t[0] == "fault":
            armed.append(t)
            continue
        if t[0] in w.ENV:
            out.append(line)
            continue
        wk.step(t)
        if t[0] == "exec" and armed and not stale:
            g = wk.graphs.get(t[1])
            n = g.get(t[2]) if g else None
            up = g.upstream(n) if n else None
            if up and t[3] in wk.caches and (ln not in ra or ra[ln].startswith("exec")):
                reads = [m for m in up if m.type == "read"]
                if len(reads) <= 4:
                    job = (ln, n, reads, [])
                    for size in range(len(reads) + 1):
                        for sub in itertools.combinations(reads, size):
                            k += 1
                            saved = [m.attrs.get("file_path") for m in sub]
                            for m in sub:
                                m.attrs["file_path"] = ("s", "missing_zz.exr")
                            out += g.emit("R%d" % k, n)
                            for m, s in zip(sub, saved):
                                if s is None:
                                    del m.attrs["file_path"]
                                else:
                                    m.attrs["file_path"] = s
                            out.append("exec R%d %s Z %s %s" % (k, n.name, t[4], t[-1]))
                            at = len(out)
                            out.append("info R%d" % k)
                            out.append("delgraph R%d" % k)
                            job[3].append((sub, at))
                    jobs.append(job)
        if t[0] not in w.ENV:
            if any(len(f) > 6 and f[3] == "env" for f in armed):
                stale = True
            armed = []
    # Without faults and history: the images are what is in the files.
    plain = ["cache %s 0" % l.split()[1] if l.startswith("cache ") else l for l in plan if not l.startswith("fault ")]
    absol.judge(z, plain, st, "C04", files=False)
    if not jobs and not r.died:
        return False
    b = z.run("\n".join(out) + "\n")
    st.run(b)
    if b.died:
        st.add("inconclusive: reference run died")
        return False
    if r.died:
        raise Violation("C04/died", "the run ended with exit %d signal %d: %s" % (r.rc, r.sig, r.err[-300:].replace("\n", " ")))
    rb = dict(b.results())
    binfo = {ln: l for ln, l in b.results() if l.startswith("info")}
    judged = 0
    for ln, n, reads, subs in jobs:
        a = ra.get(ln)
        if a is None:
            continue
        fired = [l for l in ops[ln] if l.startswith("F ")]
        if not a.startswith("exec 1 "):
            raise Violation("C04/status", "line %d (%s) with %s reports %s" % (ln, plan[ln - 1], fired, a.split("|")[0]))
        match = [s for s, at in subs if w.exec_fields(rb[at])[2] == w.exec_fields(a)[2]]
        st.add("faulted evaluations judged" if fired else "evaluations judged whose fault did not fire")
        judged += bool(fired)
        st.see("distinct (fault, outcome)", str(fired) + str([[m.name for m in s] for s in match]))
        if not match:
            raise Violation("C04/wrong image", "line %d (%s) with %s gives  %s\nwhich is no combination of images read and placeholders; all read: %s" % (ln, plan[ln - 1], fired, a, rb[subs[0][1]]))
        if not fired and () not in match:
            raise Violation("C04/lost image", "line %d (%s): no fault fired but an image is missing: %s" % (ln, plan[ln - 1], a))
        # The statuses right after (info is the next line) must be those of one of the matching combinations.
        nx = ra.get(ln + 1, "")
        if nx.startswith("info") and ln < len(plan) and plan[ln].startswith("info"):
            have = w.info_nodes(nx)
            want = [w.info_nodes(binfo[at + 1]) for s, at in subs if s in match]
            names = [m.name for m in reads]
            if not any(all(have.get(x) == s.get(x) for x in names) for s in want):
                raise Violation("C04/unreported", "line %d (%s) with %s: the read nodes report %s, the image says %s" % (ln, plan[ln - 1], fired, [(x, have.get(x)) for x in names], [[(x, s.get(x)) for x in names] for s in want]))
            st.add("status reports judged")
        if n.type == "read" and n.attrs.get("enable", ("i", "1"))[1] == "1":
            d = digest(a)
            if (d.get("px") == PLACE) != (" ns=2 " in a):
                raise Violation("C04/unreported", "line %d (%s): %s" % (ln, plan[ln - 1], a))
    return judged > 0
