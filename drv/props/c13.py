"""C13 every call returns with a status: no graph, attribute value, file content or fault ends or hangs the process."""
import gen as G_, wr, faultgen, world as w, ref
from core import Violation

LEVEL = "exploration"
BUDGET = {"quick": (14000, 50), "thorough": (2000000, 700)}
RULE = ("Each seed builds graphs freely: any connections (cycles, self-loops, several edges between nodes, inputs that do not exist), operations on deleted nodes and unknown attributes, attribute values at and beyond their limits (enumerations out of range, NaN, "
        "infinities, inverted and far-away windows), files that are missing, empty, truncated, garbage, bit-flipped or swapped during the evaluation, and read and write faults. Every operation must return: the process may neither end nor hang, and "
        "evaluations must report success or error (error for a deleted node or a cycle). Non-trivial: at least one evaluation was judged.")
ASSUMPTIONS = ["image sizes and windows up to some hundred pixels (memory is no limit)", "JPEG and DPX targets only get faults when the file is created; truncated and flipped JPEG files, and GIF, HDR and WebP targets, are not used (OpenImageIO itself writes outside its buffers there)",
               "resample nodes are used with factor 0 only, see KNOWN_FINDINGS.txt"]

ENUMS = {("merge", "mode"): [-1, 3, 7, 255, 256, 1000], ("viewer", "bake_option"): [-1, 4, 9, 255, 256], ("viewer", "bake_pixel_data_type"): [-1, 4, 7, 255, 256, 300],
         ("write", "pixel_data_type"): [-1, 4, 7, 256, 300], ("write", "crop_on_write"): [-1, 3, 7, 255, 256], ("write", "exr_compression"): [-1, 4, 5, 6, 7, 8, 9, 10, 11, 99, 255],
         ("write", "jpeg_subsampling"): [-1, 2, 3, 4, 5, 6, 99], ("write", "exr_dwa_compression_level"): [-5, 0, 1000], ("write", "png_compression_level"): [-2, 0, 10, 99],
         ("write", "jpeg_compression_level"): [-3, 0, 101, 1000], ("lens", "direction"): [-1, 2, 9], ("resample", "interpolate"): [-1, 2, 9]}
FL = ["nan", "inf", "-inf", "1e30", "-1e30", "1e-30", "0", "-1", "3.4e38", "1e-45", "1000"]
CSP = ["", "sRGB", "Linear", "nosuchspace", "%20", "linear"]


def weird(rng, b, g, n, t):
    at = sorted(w.NODES[t])
    if not at:
        return
    a = rng.choice(at)
    if (t, a) == ("resample", "factor"):
        return
    kind = w.NODES[t][a][0]
    x = rng.random()
    if x < 0.08:
        # wrong kind or unknown name
        b.add(rng.choice(["seti g %s nosuch 1", "setf g %s enable 1", "sets g %s enable 1", "sets g %s mix x", "seti g %s file_path 3", "setf g %s file_path 1"]).replace("g %s", "%s %s" % (g, n)))
    elif (t, a) in ENUMS and x < 0.8:
        b.add("seti %s %s %s %d" % (g, n, a, rng.choice(ENUMS[(t, a)])))
    elif a.startswith("window"):
        b.add("seti %s %s %s %d" % (g, n, a, rng.choice([-300, -50, -3, 0, 1, 3, 4, 9, 50, 200])))
    elif t in ("xform", "lens"):
        # Positions far away make images that no memory holds: small values, and what is no number.
        b.add("setf %s %s %s %s" % (g, n, a, rng.choice(["nan", "0", "-1", "1e-30", "-0.5", "3", "1e-45"]))) if kind == "f" else b.add("seti %s %s %s %d" % (g, n, a, rng.choice([-1, 2, 100])))
    elif kind == "f":
        b.add("setf %s %s %s %s" % (g, n, a, rng.choice(FL)))
    elif kind == "s" and a != "file_path":
        b.add(("sets %s %s %s %s" % (g, n, a, rng.choice(CSP))).strip())
    elif kind == "i":
        b.add("seti %s %s %s %d" % (g, n, a, rng.choice([-1, 2, 100, 2147483647, -2147483648])))


def gen(rng, i, tier):
    b = G_.Builder(rng)
    paths = G_.files(rng, b.lines, rng.randint(1, 3), exts=["exr", "exr", "png", "tif", "tga", "dpx"], odd=0.25)
    for k in range(rng.choice([0, 0, 1, 2])):
        src = rng.choice([p for p in paths if "#" not in p and not p.startswith("bad")])
        ext = src.rsplit(".", 1)[-1]
        q = "bad%d.%s" % (k, rng.choice([ext, ext, ext, "exr", "png"]))
        x = rng.random()
        if x < 0.55:
            b.add("cp %s %s" % (w.enc(src), q))
            for _ in range(rng.choice([1, 1, 2, 8])):
                b.add("flip %s %d %d" % (q, rng.randrange(1000), rng.randrange(8)))
        elif x < 0.75:
            b.add("cptrunc %s %s %d" % (w.enc(src), q, rng.randrange(1000)))
        elif x < 0.85:
            b.add("raw %s %s" % (q, "".join(w.enc(chr(rng.randrange(1, 127))) for _ in range(rng.choice([0, 1, 4, 60, 200])))))
        else:
            b.add("mkdir " + q)
        paths.append(q)
    if rng.random() < 0.3:
        paths += rng.sample(["missing.exr", "", ".", "/", "no/such/dir.png", "$NOSUCH/x.exr", "~/x.exr", "####", "x.####", "%20", "a" * 300], 2)
    g = "g"
    v, pool = None, []
    b.graph(g)
    v, pool = b.tree(g, paths, nops=rng.choice([0, 1, 2, 3, 5]), nreads=rng.choice([1, 2]))
    if rng.random() < 0.5:
        n, e = wr.write_node(rng, b, g, rng.choice(pool), exts=["exr", "exr", "png", "tif", "tga"])
        pool.append(n)
        if rng.random() < 0.15:
            b.add("sets %s %s file_path %s" % (g, n, w.enc(rng.choice(["", "x", "no/dir.exr", ".", "####", "x.exr/", "o.jpg", "o.dpx", "o.bmp", "o.tx", "o.ppm", "o.sgi", "o.iff", "o.ico"]))))
    b.add("cache c %d" % rng.choice([1 << 20, 0, 500]))
    G = b.g[g]
    dead = []
    for _ in range(rng.randint(2, 12)):
        k = rng.random()
        nodes = [n for n in pool if n in G["types"]]
        if not nodes:
            break
        n = rng.choice(nodes)
        if k < 0.35:
            weird(rng, b, g, n, G["types"][n])
        elif k < 0.5:
            b.add("conn %s %s %s %d" % (g, rng.choice(nodes), n, rng.choice([0, 0, 1, 1, 2, 7, 255])))
        elif k < 0.55:
            b.add("disc %s %s %d" % (g, n, rng.choice([0, 1, 2, 255])))
        elif k < 0.6:
            b.delnode(g, n)
            dead.append(n)
        elif k < 0.66 and dead:
            d = rng.choice(dead)
            b.lines += rng.choice([["conn g %s %s 0" % (d, n)], ["conn g %s %s 0" % (n, d)], ["disc g %s 0" % d], ["delnode g %s" % d], ["seti g %s enable 1" % d, "geti g %s enable" % d], ["exec g %s c i 1" % d], ["info g"], ["debug g"]])
        elif k < 0.7:
            b.lines += rng.choice([["info g", "debug g"], ["out g o", "dig o"], ["out g o", "lutops o c 3 3"], ["lut3d c %s %s 2" % (rng.choice(["Linear", "sRGB"]), rng.choice(["Linear", "sRGB"]))]])
        elif k < 0.74:
            m = b.node(g, rng.choice(["grade", "merge", "crop", "xform", "lens", "viewer", "null"]))
            pool.append(m)
        else:
            if rng.random() < 0.3:
                if "write" in [G["types"][x] for x in nodes] and rng.random() < 0.5 and not any(x in l for l in b.lines for x in ("o.ico", "o.sgi")):
                    b.lines += wr.write_fault(rng, "exr", ["nothing"])
                else:
                    b.add(faultgen.read_fault(rng, paths if all(p and " " not in p for p in paths) else ["f0.exr"]))
            b.exec(g, n, "c", rng.choice([(1,), (1, 2), (), (3,), (-5,), (2147483647,), (1, 1)]), fl=rng.random() < 0.2)
            b.add("heal")
    nodes = [n for n in pool if n in G["types"]]
    if nodes:
        b.exec(g, nodes[-1], "c", (1,))
    return b.lines


def judge(z, plan, st):
    r = z.run("\n".join(plan) + "\n", wall=30)
    st.run(r)
    if r.died:
        at = [l for l in r.log if l.startswith("B ")]
        ln = int(at[-1].split()[1]) if at else 0
        err = r.err.replace("\n", " ")
        import re
        m = re.search(r"panicked at [^:]*:\d+", err) or re.search(r"thread.cpp:\d+|[a-z]+\.cpp:\d+", err)
        raise Violation("C13/%s %s" % ("hang" if r.hung else "died", m.group(0).split(":")[0] if m else ""), "%s: exit %d signal %d: %s" % (plan[ln - 1] if ln else "?", r.rc, r.sig, err[-400:]))
    wk = ref.Walk()
    res = {ln: l for ln, l in r.results() if l.startswith("exec")}
    n = 0
    for ln, line in enumerate(plan, 1):
        t = line.split()
        if not t or t[0] in w.ENV or t[0] == "fault":
            continue
        wk.step(t)
        if t[0] == "exec" and ln in res:
            n += 1
            s = res[ln].split()[1]
            if s not in ("0", "1"):
                raise Violation("C13/status", "%s reports %s" % (line, res[ln].split("|")[0]))
            g = wk.graphs.get(t[1])
            nd = g.get(t[2]) if g else None
            if (nd is None or g.upstream(nd) is None) and s != "0":
                raise Violation("C13/success on nothing", "%s reports success for %s" % (line, "a node that does not exist" if nd is None else "a cycle"))
            if nd is not None and g.upstream(nd) is None:
                st.add("evaluations of cycles")
    st.add("evaluations judged", n)
    return n > 0


KNOWN = ["mkimg f.exr 4 4 4 float 0 0 0 0 4 4 1", "graph g", "node g rd1 read", "sets g rd1 file_path f.exr", "node g rs2 resample", "seti g rs2 factor 1", "conn g rd1 rs2 0", "cache c 100000", "exec g rs2 c i 1"]


def known():
    """The listed finding, shown against the real code while it still occurs."""
    import sim
    z = sim.Zygote()
    try:
        r = z.run("\n".join(KNOWN) + "\n", wall=30)
    finally:
        z.close()
    if r.died:
        return ["KNOWN-FINDING: property=C13 evaluating an enabled ResampleImage node with a factor other than 0 and an input ends the process (OpenImageIO assertion, image buffer of depth 0)"]
    return []
