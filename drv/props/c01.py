"""C01 cache transparency: no cache history or capacity changes what an evaluation gives."""
import gen as G_, ref, world as w
from props.c15 import DEF

LEVEL = "exploration"
BUDGET = {"quick": (16000, 45), "thorough": (1000000, 700)}
FOCUS = w.ALL_ATTRS + w.SPECIAL
RULE = ("Each seed builds one or two random comps over shared caches of random capacity, then alternates one change (the seed number picks which attribute, frame, input, path, "
        "environment variable or capacity) with evaluations of the viewer and of other nodes; every evaluation and every LUT is compared with the same graph built from nothing and "
        "evaluated with a cache of capacity zero in a separate simulated run. Non-trivial: at least two compared evaluations of which one was served from the cache (it read no file).")
ASSUMPTIONS = ["image files do not change while a cache that holds them lives (the cache is keyed by path)", "resample nodes only with factor 0 (known finding of C13)",
               "enumerated attributes stay within their documented values", "LDPK lens model is a stub with the same interface"]


def gen(rng, i, tier):
    b = G_.Builder(rng)
    ft, fa = FOCUS[i % len(FOCUS)]
    paths = G_.files(rng, b.lines, rng.randint(2, 4), odd=0.12)
    if rng.random() < 0.15:
        paths.append("missing.exr")
    caps = [1 << 20, 1 << 20, 1 << 20, 600, 300, 2000, 0]
    b.add("cache c %d" % rng.choice(caps))
    gs = ["g"] + (["k"] if rng.random() < 0.4 or fa == "graphs" else [])
    tips, pools = {}, {}
    for g in gs:
        b.graph(g)
        tips[g], pools[g] = b.tree(g, paths, nops=rng.choice([0, 1, 2, 4]), focus=ft if ft != "*" else rng.choice([None, "merge", "crop", "viewer", "grade"]))
    if fa == "env" or rng.random() < 0.1:
        b.add("setenv OCGV f0")
        ext = paths[0].rsplit(".", 1)[-1]
        b.lines.append(w.mkimg("f9." + ext, seed=rng.randrange(1000), ch=3))
        for n, t in b.g["g"]["types"].items():
            if t == "read" and rng.random() < 0.7:
                b.set("g", n, "file_path", "$OCGV." + ext)
    frames = [1, 2, 3]
    fr = {g: 1 for g in gs}

    def ex(g, n=None):
        n = n or (tips[g] if rng.random() < 0.8 else rng.choice(pools[g]))
        f = [fr[g]]
        fl = False
        if rng.random() < 0.1:
            f = [rng.choice(frames) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.15:
            f = [x + rng.choice([0.0, 0.25, -0.25, 0.5]) for x in f]
            fl = True
        b.exec(g, n, "c", f, fl)
        if rng.random() < 0.15 or fa == "lut":
            b.add("out %s h" % g)
            b.add("lutops h c %d %d" % (rng.choice([2, 3, 4]), rng.choice([1, 3])))
        if rng.random() < 0.05 or fa == "lut":
            b.add("lut3d c %s %s %d" % (rng.choice(["Linear", "sRGB"]), rng.choice(["Linear", "sRGB"]), rng.choice([2, 3, 5])))

    for g in gs:
        ex(g, tips[g])
    for _ in range(rng.randint(2, 6 if tier == "quick" else 10)):
        g = rng.choice(gs)
        G = b.g[g]
        names = list(G["types"])
        k = rng.random()
        if ft != "*" and k < 0.55 and (ft, fa) != ("read", "file_path"):
            c = [n for n in names if G["types"][n] == ft]
            if c:
                n = rng.choice(c)
                old = G["vals"].get((n, fa))
                v = old if old is not None else DEF[ft].get(fa)
                b.set(g, n, fa, G_.next_to(rng, v) if isinstance(v, float) and rng.random() < 0.3 else None)
                ex(g)
                if rng.random() < 0.4 and old is not None:
                    b.set(g, n, fa, old)
                    ex(g)
        elif fa == "file_path" and k < 0.6 or k < 0.6:
            c = [n for n in names if G["types"][n] == "read"]
            if c:
                b.set(g, rng.choice(c), "file_path", rng.choice(paths))
            ex(g)
        elif fa == "frame" and k < 0.95 or k < 0.66:
            fr[g] = rng.choice(frames + [4])
            ex(g)
        elif fa in ("swap", "order", "rewire") and k < 0.95 or k < 0.8:
            c = [n for n in names if G["types"][n] == "merge" and len(G["in"][n]) == 2]
            if c and rng.random() < 0.6:
                n = rng.choice(c)
                a0, a1 = G["in"][n][0] if 0 in G["in"][n] else None, G["in"][n].get(1)
                if a0 and a1:
                    b.conn(g, a1, n, 0)
                    b.conn(g, a0, n, 1)
            else:
                d = rng.choice(names)
                if w.ARITY[G["types"][d]]:
                    i0 = rng.randrange(w.ARITY[G["types"][d]])
                    s = rng.choice(names)
                    if d not in b.ups(g, s):
                        b.conn(g, s, d, i0)
                    elif rng.random() < 0.5:
                        b.disc(g, d, i0)
            ex(g)
        elif fa == "env" and k < 0.95 or k < 0.83:
            b.add("setenv OCGV f%d" % rng.choice([0, 9]))
            ex(g)
        elif k < 0.9:
            b.add("cap c %d" % rng.choice(caps + [100, 1000]))
            ex(g)
        else:
            n = rng.choice(names)
            t = G["types"][n]
            at = [a for a in w.NODES[t] if a != "file_path"]
            if at:
                b.set(g, n, rng.choice(sorted(at)))
            ex(g)
    return b.lines


def judge(z, plan, st):
    r, n = ref.compare(z, plan, st, "C01/differs")
    st.add("evaluations judged", n)
    hits = 0
    for ln, ls in r.ops().items():
        if ln and ls[0].split()[2] == "exec":
            if not any(l.startswith("IO open_r") for l in ls) and any(l.startswith("R exec 1") for l in ls):
                hits += 1
    st.add("evaluations that read no file", hits)
    st.see("distinct plans of reads and hits", "".join("h" if not any(l.startswith("IO open_r") for l in ls) else "m" for ln, ls in sorted(r.ops().items()) if ln and " exec" in ls[0]))
    return n >= 2 and hits >= 1

