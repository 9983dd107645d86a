"""C10 host hygiene: an operation leaves the process that hosts the library as it found it, also when it fails."""
import gen as G_, wr, faultgen, world as w
from core import Violation

LEVEL = "exploration"
BUDGET = {"quick": (9000, 40), "thorough": (1000000, 700)}
RULE = ("Each seed runs comps with reads and writes (several formats, missing, truncated, garbage and swapped files, folders as files) under failing, short and interrupted opens, reads, writes, stats and closes, a full disk and clock jumps, in a "
        "process whose image library is set to a random number of threads. Before and after every operation the process-wide state is sampled: the image library's global settings, the number of open files, the working "
        "folder, the environment, locale, signal dispositions and mask, floating point modes, resource limits and the file mode mask must be the same. Non-trivial: a fault fired or an evaluation failed.")
ASSUMPTIONS = ["one operation at a time in the process"]


def gen(rng, i, tier):
    if rng.random() < 0.55:
        lines = faultgen.gen(rng, i, tier)
    else:
        b = G_.Builder(rng)
        tip, ws, pool = wr.comp(rng, b)
        b.add("cache c %d" % rng.choice([1 << 20, 0, 500]))
        outs = [b.g["g"]["vals"][(n, "file_path")] for n, _ in ws]
        for _ in range(rng.randint(1, 4)):
            fr = [rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < 0.75:
                b.lines += wr.write_fault(rng, ws[0][1], sorted(set(wr.expand(o, f) for o in outs for f in fr)))
            b.exec("g", tip, "c", fr)
            b.add("heal")
        lines = b.lines
    if rng.random() < 0.15:
        lines.append("lut3d c Linear sRGB 3")
    at = rng.randint(0, len(lines))
    while at < len(lines) and at > 0 and lines[at - 1].startswith("fault"):
        at += 1
    lines.insert(at, "threads set %d" % rng.choice([1, 2, 3, 5]))
    return lines


def judge(z, plan, st):
    A = []
    for line in plan:
        t = line.split()
        if not t:
            continue
        if t[0] in ("exec", "lut3d", "lutops", "delgraph", "delnode", "sets"):
            at = len(A)
            while at and A[at - 1].startswith("fault"):
                at -= 1
            A.insert(at, "host")
            A += [line, "host"]
        else:
            A.append(line)
    r = z.run("\n".join(A) + "\n")
    st.run(r)
    if r.died:
        st.add("inconclusive: the run died")
        return False
    hosts, cur, bad, what = None, None, False, None
    for l in r.log:
        if l.startswith("B "):
            cur = int(l.split()[1])
        elif l.startswith("F ") or l.startswith("R exec 0"):
            bad = True
        elif l.startswith("R host "):
            h = l[7:].rsplit(" ", 1)[0]
            if hosts is None:
                hosts, what = h, cur
            else:
                st.add("operations judged")
                if h != hosts:
                    dif = [(x, y) for x, y in zip(hosts.split(), h.split()) if x != y]
                    raise Violation("C10/" + dif[0][0].split("=")[0], "%s: before %s, after %s" % (A[cur - 1], " ".join(x for x, _ in dif), " ".join(y for _, y in dif)))
                hosts = None
    st.see("distinct fault histories", "|".join(l for l in r.log if l.startswith("F ")) + "|" + "".join(l.split()[2] for l in r.log if l.startswith("R exec")))
    return bad
