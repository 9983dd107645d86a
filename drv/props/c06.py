"""C06 write acknowledgement: success means every frame is on disk with the evaluated content, failure is reported."""
import re
import absol, gen as G_, ref, wr, world as w
from core import Violation
from sim import digest

LEVEL = "exploration"
BUDGET = {"quick": (9000, 50), "thorough": (1000000, 700)}
RULE = ("Each seed evaluates comps with one or two image writes (EXR, PNG, TIFF, TGA, JPEG, DPX) over one or several frames, with failing creates, failing, short and out-of-space writes at random call numbers, "
        "a full disk, missing folders, targets that are folders, and old files at the targets. After each evaluation every target file is decoded independently: if success was reported all of them "
        "must be there with exactly the content that a fault-free evaluation of the same graph from nothing writes; without a fault success must be reported; lossless float EXR must equal "
        "what a viewer shows for the same input. Non-trivial: a fault fired in a judged evaluation or at least one file was compared.")
ASSUMPTIONS = ["the machine does not lose power (the library does not sync files)", "formats that OpenImageIO cannot encode in memory (SGI, ICO, FITS, RLA) are not targets"]


def gen(rng, i, tier):
    b = G_.Builder(rng)
    tip, ws, pool = wr.comp(rng, b)
    b.add("cache c %d" % rng.choice([1 << 20, 0, 500]))
    x = rng.random()
    n0, e0 = ws[0]
    if x < 0.06:
        b.set("g", n0, "file_path", "nodir/o.#." + e0)
    elif x < 0.09:
        b.add("mkdir dir." + e0)
        b.set("g", n0, "file_path", "dir." + e0)
    elif x < 0.11:
        b.set("g", n0, "file_path", rng.choice(["o.xyz", "noext", "", "o."]))
    elif x < 0.15:
        b.add("mkdir sub")
        b.set("g", n0, "file_path", "sub/o.##." + e0)
    elif x < 0.2:
        b.set("g", n0, "file_path", "$NOSUCHVAR/o." + e0)
    outs = [b.g["g"]["vals"][(n, "file_path")] for n, _ in ws]
    if rng.random() < 0.3:
        for o, (n, e) in zip(outs, ws):
            if o.endswith(("exr", "png", "tif")) and "/" not in o:
                for f in (1, 2):
                    b.add(w.mkimg(wr.expand(o, f), 4, 4, 4, seed=rng.randrange(1000)))
    for _ in range(rng.randint(1, 4 if tier == "quick" else 7)):
        fr = [rng.choice([1, 1, 2, 3]) for _ in range(rng.choice([1, 1, 2, 3]))]
        n = tip if rng.random() < 0.8 else rng.choice(ws)[0]
        full = False
        if rng.random() < 0.65:
            k = rng.randrange(len(ws))
            exps = sorted(set(wr.expand(outs[k], f) for f in fr))
            fl = wr.write_fault(rng, ws[k][1], [p for p in exps if p])
            b.lines += fl
            full = True
        b.exec("g", n, "c", fr)
        if full:
            b.add("heal")
        k = rng.random()
        if k < 0.12:
            m = rng.choice(pool)
            at = sorted(a for a in w.NODES[b.g["g"]["types"][m]] if a not in ("file_path", "enable"))
            if at:
                b.set("g", m, rng.choice(at))
        elif k < 0.2:
            b.set("g", rng.choice(ws)[0], rng.choice(["enable", "execute", "crop_on_write"]))
        elif k < 0.3:
            for o in outs[:1]:
                b.add("rm " + (w.enc(wr.expand(o, 1)) or "nothing"))
    return b.lines


def compile(plan):
    """The script of the plan with decodes after each evaluation, and the reference script."""
    wk = ref.Walk()
    A, R, jobs = [], ["cache Z 0"], []
    armed, full, k = False, False, 0
    for line in plan:
        t = line.split()
        if not t:
            continue
        A.append(line)
        if t[0] == "fault":
            armed = True
            full = full or "ENOSPC" in line
            continue
        if t[0] in ("quota", "heal"):
            full = t[0] == "quota"
            continue
        if t[0] in w.ENV:
            R.append(line)
            continue
        wk.step(t)
        if t[0] == "exec":
            g = wk.graphs.get(t[1])
            n = g.get(t[2]) if g else None
            if n is None or t[3] not in wk.caches or g.upstream(n) is None:
                armed = False
                continue
            la = len(A)
            tg = wr.targets(g, n, t[5:])
            k += 1
            R += g.emit("R%d" % k, n)
            R.append("exec R%d %s Z %s %s" % (k, n.name, t[4], " ".join(t[5:])))
            lr = len(R)
            R.append("delgraph R%d" % k)
            files, seen = [], []
            for m, f, p in tg:
                if p and p not in seen and not p.endswith("/"):
                    seen.append(p)
                    A.append("decode " + w.enc(p))
                    R.append("decode " + w.enc(p))
                    files.append((p, len(A), len(R)))
            # What a viewer shows of what the last write of the last frame wrote.
            view = None
            if tg:
                m, f, p = tg[-1]
                at = lambda a, d: m.attrs.get(a, ("i", d))[1]
                if p.endswith(".exr") and at("pixel_data_type", "255") == "0" and at("crop_on_write", "2") in ("0", "2") and [x[2] for x in tg].count(p) >= 1 and p in seen:
                    src = m.inputs[min(m.inputs)]
                    em = g.emit("V%d" % k, src)
                    em = [x if not (x.startswith("node ") and x.endswith(" write")) else x for x in em]
                    R += em + ["seti V%d %s execute 0" % (k, x.name) for x in g.upstream(src) if x.type == "write"]
                    R += ["node V%d zzview viewer" % k, "seti V%d zzview bake_option 3" % k, "seti V%d zzview bake_pixel_data_type 0" % k,
                          "sets V%d zzview bake_color_space Linear" % k, "conn V%d %s zzview 0" % (k, src.name), "exec V%d zzview Z %s %s" % (k, t[4], f)]
                    view = (p, len(R))
                    R.append("delgraph V%d" % k)
            plain = tg and all(re.fullmatch(r"(sub/)?[\w.]+\.(exr|png|tif|tga|jpg|dpx)", p) and not p.startswith("dir.") for _, _, p in tg) and not any(m.type == "crop" for m in g.upstream(n))
            jobs.append((la, lr, files, armed, full, view, plain))
            armed = False
        else:
            armed = False
    return A, R, jobs


def judge(z, plan, st):
    A, R, jobs = compile(plan)
    absol.judge(z, plan, st, "C06", streams=False)
    a = z.run("\n".join(A) + "\n")
    st.run(a)
    r = z.run("\n".join(R) + "\n")
    st.run(r)
    if r.died:
        st.add("inconclusive: reference run died")
        return False
    if a.died:
        raise Violation("C06/died", "the run ended with exit %d signal %d: %s" % (a.rc, a.sig, a.err[-300:].replace("\n", " ")))
    ea = {ln: l for ln, l in a.results() if l.startswith("exec")}
    er = {ln: l for ln, l in r.results() if l.startswith("exec")}
    da, dr = decodes(a), decodes(r)
    ops = a.ops()
    good = 0
    for la, lr, files, armed, full, view, plain in jobs:
        x, y = ea.get(la), er.get(lr)
        if x is None or y is None:
            continue
        fired = [l for l in ops.get(la, []) if l.startswith("F ")]
        got = {p: da.get((la, p)) for p, _, _ in files}
        want = {p: dr.get((lr, p)) for p, _, _ in files}
        ok = x.startswith("exec 1 ")
        st.add("evaluations judged with a fault that fired" if fired else "evaluations judged")
        st.see("distinct (fault, outcome)", "%s %s" % (fired, x[:6]))
        if not ok and not x.startswith("exec 0 "):
            raise Violation("C06/status", "%s reports %s" % (A[la - 1], x.split("|")[0]))
        if ok:
            for p, _, _ in files:
                g = got[p]
                if g is None or " ok " not in g:
                    raise Violation("C06/success without file", "%s reported success but an independent reader finds: %s (faults: %s)" % (A[la - 1], g, fired))
                if y.startswith("exec 1 ") and g != want[p]:
                    raise Violation("C06/wrong content", "%s reported success; the file is  %s\nbut without faults and history it is  %s (faults: %s)" % (A[la - 1], g, want[p], fired))
                good += 1
                st.add("files compared")
            if view and y.startswith("exec 1 "):
                v = er.get(view[1])
                d, f = digest(v or ""), digest(want[view[0]] or "")
                if v and v.startswith("exec 1 ") and d.get("dim", "x").split("x")[:2] == f.get("dim", "y").split("x")[:2]:
                    st.add("files compared with a viewer")
                    if d["px"] != f["px"]:
                        raise Violation("C06/not what is shown", "%s wrote  %s\nbut a viewer of the same input shows  %s" % (A[la - 1], want[view[0]], v))
        elif not fired and not full and (y.startswith("exec 1 ") or plain):
            raise Violation("C06/failure without cause", "%s failed with no fault: %s (from nothing: %s)" % (A[la - 1], x.split("|")[0], y.split("|")[0]))
    return good > 0


def decodes(run):
    """(line of the evaluation before, path) -> decode result."""
    out, cur = {}, 0
    for l in run.log:
        if l.startswith("B "):
            p = l.split()
            if p[2] == "exec":
                cur = int(p[1])
        elif l.startswith("R decode "):
            out[(cur, w.dec(l.split()[2]) if "%" in l else l.split()[2])] = l
    return out
