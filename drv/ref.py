"""Reference runs: what each evaluation gives for a graph built from nothing, with no cache and no history."""
import random

import world as w
from core import Violation, h64


class Walk:
    """Follows a plan line by line with the graph model."""

    def __init__(self):
        self.graphs = {}
        self.caches = set()

    def step(self, t):
        if t[0] == "graph":
            self.graphs[t[1]] = w.Graph()
        elif t[0] == "delgraph":
            self.graphs.pop(t[1], None)
        elif t[0] == "cache":
            self.caches.add(t[1])
        elif t[0] == "delcache":
            self.caches.discard(t[1])
        elif t[0] in w.GRAPH_OPS and t[1] in self.graphs:
            self.graphs[t[1]].apply(t)


def reference(plan, shuffle=True, last_frame_only=False, keep=("out", "lutops", "lut3d", "dig")):
    """The reference script of a plan and, per plan line that has a result, the script line that gives the expected one.

    Environment lines stay where they are; each exec becomes: build the graph as it is now from
    nothing, execute it once with a cache of capacity zero."""
    wk = Walk()
    out = ["cache Z 0"]
    where = {}     # plan line (1-based) -> script line (1-based)
    live = {}      # graph -> reference graph of its latest exec
    rng = random.Random(h64("\n".join(plan)))
    k = 0
    for ln, line in enumerate(plan, 1):
        t = line.split()
        if not t or t[0] == "fault":
            continue
        if t[0] in w.ENV:
            out.append(line)
            continue
        wk.step(t)
        if t[0] == "exec":
            g = wk.graphs.get(t[1])
            n = g.get(t[2]) if g else None
            if n is None or t[3] not in wk.caches or g.upstream(n) is None:
                where[ln] = None
                continue
            k += 1
            rg = "R%d" % k
            out += g.emit(rg, n, order=rng.shuffle if shuffle else None, attr_order=rng.shuffle if shuffle else None)
            frames = t[5:]
            if last_frame_only:
                frames = frames[-1:]
            out.append("exec %s %s Z %s %s" % (rg, t[2], t[4], " ".join(frames)))
            where[ln] = len(out)
            if t[1] in live:
                out.append("delgraph " + live[t[1]])
            live[t[1]] = rg
        elif t[0] == "out" and "out" in keep:
            if t[1] in live:
                out.append("out %s %s" % (live[t[1]], t[2]))
        elif t[0] == "lutops" and "lutops" in keep:
            out.append("lutops %s Z %s %s" % (t[1], t[3], t[4]))
            where[ln] = len(out)
        elif t[0] == "lut3d" and "lut3d" in keep:
            out.append("lut3d Z %s %s %s" % (t[2], t[3], t[4]))
            where[ln] = len(out)
        elif t[0] in ("dig",) and "dig" in keep:
            out.append("dig " + t[1])
            where[ln] = len(out)
        elif t[0] == "drop" and "dig" in keep:
            out.append(line)
    return out, where


def compare(z, plan, st, what, shuffle=True, run=None, skip=None, both_fail=False):
    """Runs a plan and its reference; raises Violation where results differ.  Returns (run, compared)."""
    r = run or z.run("\n".join(plan) + "\n")
    if run is None:
        st.run(r)
    out, where = reference(plan, shuffle)
    b = z.run("\n".join(out) + "\n")
    st.run(b)
    if b.died:
        # The evaluation without cache and history dies as well: not this property's business.
        st.add("inconclusive: reference run died")
        return r, 0
    if r.died:
        raise Violation("%s/died" % what, "the run ended with exit %d signal %d (its reference runs to the end): %s" % (r.rc, r.sig, r.err[-300:].replace("\n", " ")))
    ra = {ln: x for ln, x in r.results() if not x.startswith("decode")}
    rb = {ln: x for ln, x in b.results() if not x.startswith("decode")}
    n = 0
    for ln in sorted(where):
        if where[ln] is None or (skip and ln in skip):
            continue
        a, e = ra.get(ln), rb.get(where[ln])
        if a is None or e is None or a.startswith("skip") or e.startswith("skip"):
            continue
        if both_fail and a.startswith("exec 0 ") and e.startswith("exec 0 "):
            continue
        n += 1
        if a.startswith("exec"):
            same = w.same_result(a, e)
        else:
            same = a == e
        st.see("distinct results", e.split("|")[-1])
        if not same:
            raise Violation(what, "line %d (%s) gives  %s\nbut evaluated from nothing it is  %s\n(different: %s)" % (ln, plan[ln - 1], a, e, w.diff_text(a, e)), ln)
    st.add("results compared", n)
    return r, n
