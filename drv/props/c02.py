"""C02 edit-history independence: an evaluation depends on what the graph is, not on how it became that."""
import gen as G_, ref, world as w

LEVEL = "exploration"
BUDGET = {"quick": (16000, 45), "thorough": (1000000, 700)}
RULE = ("Each seed edits one or two graphs (create, delete and re-create nodes, set attributes several times, also to values out of their range on the way to the final ones and in any order, connect over existing inputs, disconnect, connect to deleted nodes, make and break "
        "cycles, evaluate something else, evaluate nodes that fail) and evaluates now and then; every evaluation is compared with a graph built from nothing, in a shuffled order of creation, "
        "setting and connecting, that has the same nodes, attributes and connections. Non-trivial: at least one compared evaluation after at least one edit that replaced or removed something.")
ASSUMPTIONS = ["node ids are unique within a graph", "resample nodes only with factor 0 (known finding of C13)", "enumerated attributes stay within their documented values",
               "LDPK lens model is a stub with the same interface"]
TYPES = ["grade", "merge", "crop", "xform", "lens", "null", "grade", "merge", "viewer", "resample", "write"]


WILD = {"i": [0, 1, -1, 7, 99, -1000, 2147483647, -2147483648], "f": [0.0, -0.0, 1.0, -1.0, 5.5, -1000.0, 1e9, 1e-9], "s": ["", "Linear", "x", "no such"]}


def detour(rng, b, g, n, t, at):
    """Sets attributes of a node to anything first and then, in another order, to what they shall be."""
    pick = rng.sample(at, min(len(at), rng.randint(1, 4)))
    if t == "crop" and rng.random() < 0.7:
        pick = [a for a in at if a.startswith("window")]
    for a in rng.sample(pick, rng.randint(1, len(pick))):
        k = w.NODES[t][a][0]
        b.add("set%s %s %s %s %s" % (k, g, n, a, w.val(rng.choice(WILD[k]) if rng.random() < 0.7 else G_.attr_value(rng, t, a))))
    rng.shuffle(pick)
    for a in pick:
        b.set(g, n, a)


def edit(rng, b, g, paths, ids, dead):
    G = b.g[g]
    names = list(G["order"])
    k = rng.random()
    if k < 0.22 or len(names) < 2:
        t = "read" if rng.random() < 0.3 else rng.choice(TYPES)
        ident = None
        if rng.random() < 0.3:
            ids[0] += 1
            ident = str(ids[0]) if rng.random() < 0.5 else "@n%d" % ids[0]
        n = b.node(g, t, ident=ident)
        if t == "read":
            b.set(g, n, "file_path", rng.choice(paths))
        elif t == "write":
            b.set(g, n, "file_path", "out_%s_%s.exr" % (g, n))
            if rng.random() < 0.5:
                b.set(g, n, "execute", 0)
        elif t == "resample":
            b.add("seti %s %s factor 0" % (g, n))
        elif t == "crop":
            for a in ("window_min_x", "window_min_y", "window_max_x", "window_max_y"):
                b.set(g, n, a)
        elif t == "viewer":
            b.set(g, n, "bake_option", rng.choice([3, 3, 3, 0, 1, 2]))
        if t != "read" and names and rng.random() < 0.85:
            b.conn(g, rng.choice(names[-3:]), n, 0)
            if t == "merge" and rng.random() < 0.8:
                b.conn(g, rng.choice(names), n, 1)
        if t == "read" and names and rng.random() < 0.5:
            d = rng.choice(names)
            b.conn(g, n, d, rng.randrange(2))
        return
    if k < 0.42:
        s, d = rng.choice(names), rng.choice(names)
        i = rng.choice([0, 0, 0, 1, 1, 2, 7, 255])
        if d in b.ups(g, s) and rng.random() < 0.75:
            s, d = d, s
        if d in b.ups(g, s) and rng.random() < 0.75:
            return
        b.conn(g, s, d, i)
    elif k < 0.54:
        d = rng.choice(names)
        used = list(G["in"][d])
        b.disc(g, d, rng.choice(used) if used and rng.random() < 0.8 else rng.randrange(3))
    elif k < 0.62:
        n = rng.choice(names)
        b.delnode(g, n)
        dead.append(n)
    elif k < 0.67 and dead:
        n = rng.choice(dead)
        x = rng.random()
        if x < 0.3:
            b.add("conn %s %s %s 0" % (g, n, rng.choice(names)))
        elif x < 0.6:
            b.add("conn %s %s %s 0" % (g, rng.choice(names), n))
        elif x < 0.8:
            b.add("delnode %s %s" % (g, n))
        else:
            b.add("seti %s %s enable 0" % (g, n))
    elif k < 0.95:
        n = rng.choice(names)
        t = G["types"][n]
        at = sorted(a for a in w.NODES[t] if a != "file_path")
        if t == "read" and rng.random() < 0.7:
            b.set(g, n, "file_path", rng.choice(paths))
        elif at:
            a = rng.choice(at)
            if a == "enable" and rng.random() < 0.5:
                a = rng.choice(at)
            if rng.random() < 0.4:
                detour(rng, b, g, n, t, at)
            else:
                b.set(g, n, a)
    else:
        n = rng.choice(names)
        b.add(rng.choice(["sets %s %s no_such_attr x", "seti %s %s no_such_attr 3", "setf %s %s enable 0.5", "debug %s", "info %s"]).replace("%s", g, 1).replace("%s", n, 1))


def gen(rng, i, tier):
    b = G_.Builder(rng)
    paths = G_.files(rng, b.lines, rng.randint(2, 3), odd=0.12) + (["missing.exr"] if rng.random() < 0.2 else [])
    b.add("cache c %d" % rng.choice([0, 0, 1 << 20, 500]))
    gs = ["g"] + (["k"] if rng.random() < 0.25 else [])
    ids, dead = [100], {g: [] for g in gs}
    for g in gs:
        b.graph(g)
        if rng.random() < 0.6:
            b.tree(g, paths, nops=rng.choice([1, 2, 3]))
    for _ in range(rng.randint(8, 30 if tier == "quick" else 60)):
        g = rng.choice(gs)
        edit(rng, b, g, paths, ids, dead[g])
        if rng.random() < 0.25 and b.g[g]["order"]:
            n = b.g[g]["order"][-1] if rng.random() < 0.6 else rng.choice(b.g[g]["order"])
            b.exec(g, n, "c", [rng.choice([1, 1, 2, 3, 4]) for _ in range(rng.choice([1, 1, 1, 2]))])
            if rng.random() < 0.1:
                b.add("out %s h" % g)
                b.add("lutops h c 3 3")
        if rng.random() < 0.03 and dead[g]:
            b.exec(g, rng.choice(dead[g]), "c", [1])
    for g in gs:
        if b.g[g]["order"]:
            b.exec(g, b.g[g]["order"][-1], "c", [1])
            b.exec(g, rng.choice(b.g[g]["order"]), "c", [2])
    return b.lines


def judge(z, plan, st):
    r, n = ref.compare(z, plan, st, "C02/differs")
    # A node that lies on a cycle, or was deleted, has no evaluation: it must say so.
    wk = ref.Walk()
    ra = dict(r.results())
    redo = 0
    for ln, line in enumerate(plan, 1):
        t = line.split()
        if t[0] in ("disc", "delnode", "conn"):
            redo += 1
        wk.step(t)
        if t[0] == "exec" and ra.get(ln, "skip") != "skip":
            g = wk.graphs[t[1]]
            node = g.nodes[t[2]]
            if not node.alive or g.upstream(node) is None:
                st.add("evaluations of deleted or cyclic nodes")
                if not ra[ln].startswith("exec 0 "):
                    raise ref.Violation("C02/accepted", "line %d (%s) evaluates a node that is %s but reports %s" % (ln, line, "deleted" if not node.alive else "on a cycle", ra[ln].split("|")[0]))
    st.see("distinct graph shapes evaluated", "|".join(l for l in plan if l.split()[0] in ("node", "conn", "disc", "delnode")))
    return n >= 1 and redo >= 2
