"""C19 independence: what an operation gives does not depend on chance, the clock, the heap or the machine."""
import importlib

import world as w
from core import Violation

LEVEL = "exploration"
BUDGET = {"quick": (12000, 45), "thorough": (1000000, 700)}
RULE = ("Each seed takes a history of edits, evaluations, writes, queries, streams, LUTs and read and write faults and runs it twice: in the plain world, and in one where the random numbers (node identities), the clock (its start and its pace, standing "
        "still, racing or running backwards, jumps in the middle of an operation), the content of fresh heap memory, the layout of the heap, the numbers of open files, the memory size, unrelated environment variables and the verbosity of the log "
        "are others. Every result, status, stream and file content has to be the same. Non-trivial: at least one evaluation was compared in a world that differs in what it uses.")
ASSUMPTIONS = ["the number of processors is not varied (the simulator owns every thread)"]
SOURCES = ["c01", "c02", "c05", "c05", "c06", "c12", "c15", "c16", "c16", "c17"]
WORLD = {"seed", "clock", "heapfill", "heapshift", "fds", "log", "mem", "jump", "setenv"}
MARK = "#w "        # a line of the other world only; a comment in the plain one


def other(rng):
    """Lines that make another world."""
    out = []
    if rng.random() < 0.6:
        out.append("seed %d" % rng.randrange(2, 1 << 62))
    if rng.random() < 0.6:
        out.append("clock %d %d" % (rng.choice([1, 10**9, 86400 * 10**9, 16 * 10**17, 2**31 * 10**9 - 10**6, 2**32 * 10**9 - 10**6, rng.randrange(10**18)]), rng.choice([0, 1, 10**6, 10**9, 3600 * 10**9, 10**12, -1, -1000])))
    if rng.random() < 0.5:
        out.append("heapfill %d" % rng.choice([1, 85, 170, 127, 63, 192, 254, rng.randint(1, 255)]))
    if rng.random() < 0.3:
        out.append("heapshift %d" % rng.randrange(1 << 30))
    if rng.random() < 0.2:
        out.append("fds %d" % rng.choice([1, 7, 60, 300]))
    if rng.random() < 0.15:
        out.append("log %s" % rng.choice(["error", "info", "debug", "debug", "trace", "off"]))
    if rng.random() < 0.2:
        out.append("mem %d" % rng.choice([1, 1000, 1 << 18, 1 << 24]))
    if rng.random() < 0.2:
        out.append("setenv %s %s" % (rng.choice(["TZ", "LANG", "LC_ALL", "HOME", "USER", "HOSTNAME", "TMPDIR", "COLUMNS", "FRAME"]), rng.choice(["C", "UTC-9", "de_DE.UTF-8", "nowhere", "7"])))
    return out or ["seed %d" % rng.randrange(2, 1 << 62), "heapfill 170"]


def gen(rng, i, tier):
    src = importlib.import_module("props." + rng.choice(SOURCES))
    plan = [l for l in src.gen(rng, rng.randrange(1 << 30), tier) if l.split()[:1] != ["seed"]]
    o = other(rng)
    for k in range(rng.choice([0, 0, 1, 2])):
        o.append(rng.choice(["fault any %d jump %d -" % (rng.randint(1, 20), rng.choice([3600 * 10**9, -86400 * 10**9, 10**15]))]))
    out = [MARK + l for l in o if not l.startswith("fault")] + plan
    # Some of it changes on the way.
    for l in o:
        if l.startswith("fault"):
            ex = [k for k, x in enumerate(out) if x.startswith("exec")]
            if ex:
                out.insert(rng.choice(ex), MARK + l)
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.randint(len(o), len(out))
        out.insert(k, MARK + rng.choice(["jump %d" % rng.choice([10**9, 10**14, -10**9, -10**14]), "seed %d" % rng.randrange(1 << 62), "heapfill %d" % rng.randint(1, 255), "heapshift %d" % rng.randrange(1 << 30)]))
    return out




def judge(z, plan, st):
    a = z.run("\n".join(plan) + "\n")
    b = z.run("\n".join(l[len(MARK):] if l.startswith(MARK) else l for l in plan) + "\n")
    st.run(a)
    st.run(b)
    if a.died:
        st.add("inconclusive: the run in the plain world died")
        return False
    if b.died:
        raise Violation("C19/died", "in the other world the run ends with exit %d signal %d, in the plain one it runs to its end: %s" % (b.rc, b.sig, b.err[-300:].replace("\n", " ")))
    la = [x for x in a.log if x[:2] in ("R ", "D ", "V ", "X ")]
    lb = [x for x in b.log if x[:2] in ("R ", "D ", "V ", "X ")]
    n = 0
    for x, y in zip(la, lb):
        same = w.same_result(x[2:], y[2:]) if x.startswith("R exec") and y.startswith("R exec") else x == y
        if not same:
            raise Violation("C19/" + x.split()[1], "in the plain world: %s\nin the other world: %s" % (x[:900], y[:900]))
        n += x.startswith("R exec")
        st.see("distinct results", x.split("|")[-1][:300])
    if len(la) != len(lb):
        raise Violation("C19/number of results", "%d results in the plain world, %d in the other" % (len(la), len(lb)))
    st.add("evaluations compared", n)
    st.add("results compared", len(la))
    for l in plan:
        if l.startswith(MARK):
            st.add("worlds with other " + l.split()[1])
    return n > 0
