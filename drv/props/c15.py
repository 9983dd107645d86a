"""C15 queries: what a graph says about itself is what the operations so far made it."""
import math, struct
import faultgen, gen as G_, ref, wr, world as w
from core import Violation

LEVEL = "exploration"
BUDGET = {"quick": (20000, 40), "thorough": (2000000, 500)}
RULE = ("Each seed runs a random history of node creation and deletion, attribute changes (also of unknown attributes, of the wrong type and on deleted nodes), connections, disconnections and evaluations (also of deleted nodes and "
        "cycles, some with read and write faults) over one or two graphs, and after most steps asks for the graph state, the execute status, the existence and status of every node and the existence and value of attributes. "
        "Each answer must be the one of a model that keeps what was set, the documented defaults, and what each evaluation reported. Non-trivial: at least ten answers were judged.")
ASSUMPTIONS = ["whether setting an unknown attribute, or a failing evaluation, makes a clean graph dirty is not specified", "the statuses of the nodes of an evaluation with a fault that fired are judged only for consistency with its result"]
DEF = {"null": {},
       "read": {"enable": 1, "use_cache": 1, "file_path": ""},
       "grade": dict([("enable", 1), ("reverse", 0), ("clamp_black", 1), ("clamp_white", 0), ("premult", 0), ("mix", 1.0), ("process_r", 1), ("process_g", 1), ("process_b", 1), ("process_a", 0)]
                     + [("%s_%s" % (k, c), v) for k, v in (("black_point", 0.0), ("white_point", 1.0), ("lift", 0.0), ("gain", 1.0), ("multiply", 1.0), ("offset", 0.0), ("gamma", 1.0)) for c in "rgba"]),
       "merge": {"enable": 1, "use_cache": 1, "mode": 1, "mix": 1.0},
       "crop": {"enable": 1, "use_cache": 1, "window_min_x": 0, "window_min_y": 0, "window_max_x": 0, "window_max_y": 0, "reformat": 0, "black_outside": 0, "intersect": 0},
       "resample": {"enable": 1, "use_cache": 1, "factor": 0, "interpolate": 0},
       "xform": {"enable": 1, "invert": 0, "translate_x": 0.0, "translate_y": 0.0, "rotate": 0.0, "rotate_center_x": 0.0, "rotate_center_y": 0.0, "scale_x": 1.0, "scale_y": 1.0, "pivot_x": 0.5, "pivot_y": 0.5},
       "lens": {"enable": 1, "direction": 0, "lens_center_offset_x": 0.0, "lens_center_offset_y": 0.0, "distortion": 0.0, "anamorphic_squeeze": 1.0, "curvature_x": 0.0, "curvature_y": 0.0, "quartic_distortion": 0.0},
       "viewer": {"enable": 1, "use_cache": 1, "bake_option": 0, "bake_pixel_data_type": 1, "bake_color_space": "Linear", "crop_to_format": 0},
       "write": {"enable": 1, "execute": 1, "file_path": "", "crop_on_write": 2, "pixel_data_type": 255, "exr_compression": 0, "exr_dwa_compression_level": 45, "png_compression_level": 6, "jpeg_compression_level": 90,
                 "jpeg_subsampling": 0, "jpeg_progressive": 0}}
KIND = {int: "i", float: "f", str: "s"}
WILD = {"i": [0, 1, -1, 7, 255, 256, 2**31 - 1, -2**31, 12345], "f": [0.0, -1.0, 1e-30, 3.5, 1e30, -0.125, 16777217.0], "s": ["", "x", "a b", "\u00e9\u65e5", "#", "$HOME/x.exr", "o/../p.####.exr", "x" * 300]}
TYPES = sorted(DEF)


def gen(rng, i, tier):
    b = G_.Builder(rng)
    good = []
    for k in range(2):
        p = "f%d.%s" % (k, rng.choice(["exr", "tif", "png"]))
        b.add(w.mkimg(p, ch=rng.choice([3, 4]), seed=rng.randrange(1000)))
        good.append(p)
    paths = good + ["missing.exr"]
    gs = ["g"] if rng.random() < 0.6 else ["g", "h"]
    pools, dead = {}, {g: [] for g in gs}
    b.add("cache c %d" % rng.choice([0, 500, 1 << 20, 1 << 20]))
    for g in gs:
        b.graph(g)
        if rng.random() < 0.3:
            b.add("info " + g)
        _, pools[g] = b.tree(g, paths, nops=rng.choice([1, 2, 4]), types=["grade", "merge", "crop", "null", "viewer", "xform", "lens", "resample"], nreads=rng.choice([1, 2]), some_attrs=0.2)
        if rng.random() < 0.5:
            n = b.node(g, "write")
            if rng.random() < 0.9:
                b.conn(g, rng.choice(pools[g]), n, 0)
            b.set(g, n, "file_path", rng.choice(["o_%s.#.exr", "o_%s.tif", "nodir/o_%s.exr", "o_%s.png"]) % n)
            pools[g].append(n)
    idents, gone = [], {g: [] for g in gs}
    for _ in range(rng.randint(6, 18 if tier == "quick" else 40)):
        g = rng.choice(gs)
        live = [n for n in pools[g] if n in b.g[g]["types"]]
        k = rng.random()
        if k < 0.28 and live:
            m = rng.choice(live)
            t = b.g[g]["types"][m]
            if t == "read":
                b.set(g, m, "file_path", rng.choice(paths))
            else:
                at = sorted(a for a in w.NODES[t] if a != "file_path")
                if at:
                    b.set(g, m, rng.choice(at))
        elif k < 0.36:
            # Nodes apart that take any value.
            t = rng.choice(TYPES)
            idn = None
            if rng.random() < 0.5:
                free = [x for x in ("alpha", "beta", "gamma") if (g, x) not in idents]
                if free:
                    idn = "@" + rng.choice(free)
                    idents.append((g, idn[1:]))
            n = b.node(g, t, ident=idn)
            dead[g].append((n, t, idn))
        elif k < 0.5 and dead[g]:
            n, t, _ = rng.choice(dead[g])
            for _ in range(rng.choice([1, 1, 2, 5, 8])):
                at = rng.choice(sorted(DEF[t]) or ["enable"])
                kind = KIND[type(DEF[t][at])] if at in DEF[t] else "i"
                if rng.random() < 0.2:
                    kind = rng.choice("ifs")
                if rng.random() < 0.1:
                    at = rng.choice(["no_such", "Enable", "", "enable ", "mix", "file_path", "enable"]).strip() or "nix"
                b.add("set%s %s %s %s %s" % (kind, g, n, at, w.val(rng.choice(WILD[kind]))))
        elif k < 0.56 and dead[g]:
            n, t, idn = rng.choice(dead[g])
            b.add("delnode %s %s" % (g, n))
            dead[g].remove((n, t, idn))
            if not idn:
                gone[g].append((n, t))
            else:
                idents.remove((g, idn[1:]))
                if rng.random() < 0.6:
                    t2 = rng.choice(TYPES)
                    idents.append((g, idn[1:]))
                    dead[g].append((b.node(g, t2, ident=idn), t2, idn))
        elif k < 0.6 and gone[g]:
            n, t = rng.choice(gone[g])
            b.add(rng.choice(["seti %s %s enable 0", "delnode %s %s", "disc %s %s 0", "exec %s %s c i 1"]) % (g, n))
        elif k < 0.7 and len(live) > 1:
            d, s = rng.choice(live), rng.choice(live)
            a = w.ARITY[b.g[g]["types"][d]]
            if a and (d not in b.ups(g, s) or rng.random() < 0.15):
                if d in b.ups(g, s):
                    n = rng.randrange(a)
                    b.add("conn %s %s %s %d" % (g, s, d, n))
                    b.add("exec %s %s c i 1" % (g, d))
                    b.add("info " + g)
                    b.add("disc %s %s %d" % (g, d, n))
                    b.g[g]["in"][d].pop(n, None)
                else:
                    b.conn(g, s, d, rng.randrange(a))
        elif k < 0.75 and live:
            d = rng.choice(live)
            b.disc(g, d, rng.choice(sorted(b.g[g]["in"][d]) or [0]))
        elif k < 0.78 and len(live) > 3:
            n = rng.choice(live)
            t = b.g[g]["types"][n]
            b.delnode(g, n)
            gone[g].append((n, t))
        elif live:
            x = rng.random()
            if x < 0.15:
                b.add(faultgen.read_fault(rng, [p for p in good if p.endswith(("exr", "tif", "png"))]))
            elif x < 0.3:
                b.lines += [l for l in wr.write_fault(rng, "exr", ["-"]) if not l.startswith("quota")]
            b.exec(g, rng.choice(live), "c", rng.choice([(1,), (1,), (2,), (1, 2), (3,)]))
            if b.lines[-2].startswith("fault"):
                b.add("heal")
        if rng.random() < 0.7:
            b.add("info " + rng.choice(gs))
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            c = [(n, b.g[g]["types"][n]) for n in pools[g] if n in b.g[g]["types"]] + [x[:2] for x in dead[g]] * 2 + gone[g]
            if c:
                n, t = rng.choice(c)
                at = rng.choice(sorted(DEF[t]) or ["enable"])
                if rng.random() < 0.08:
                    at = rng.choice(["no_such", "mix", "enable", "file_path"])
                kind = KIND[type(DEF[t][at])] if at in DEF[t] and rng.random() < 0.9 else rng.choice("ifs")
                b.add("get%s %s %s %s" % (kind, g, n, at))
    for g in gs:
        b.add("info " + g)
    return b.lines


def status(n, memo):
    """The status a node has after a successful evaluation without faults."""
    at = lambda a, d: n.attrs.get(a, ("", d))[1]
    k = len(n.inputs)
    on = int(at("enable", "1"))
    if n.type == "read":
        return 2 if on == 0 or not at("file_path", "") or w.dec(at("file_path", "")).startswith("missing") else 1
    if n.type == "viewer":
        return 1
    if n.type == "write":
        return 1 if on == 0 or k else 2
    if n.type == "merge":
        return 1 if on == 1 and k >= 2 else 2
    return 1 if k else 2


def judge(z, plan, st):
    r = z.run("\n".join(plan) + "\n")
    st.run(r)
    if r.died:
        raise Violation("C15/died", "the run ended with exit %d signal %d: %s" % (r.rc, r.sig, r.err[-300:].replace("\n", " ")))
    res, ops = dict(r.results()), r.ops()
    wk = ref.Walk()
    state, es, stat, asked, stale = {}, {}, {}, 0, False
    for ln, line in enumerate(plan, 1):
        t = line.split()
        if not t or t[0] in w.ENV or t[0] == "fault":
            continue
        g = wk.graphs.get(t[1])
        if g:
            g.state = None
            # Two names for one identity are not part of the model.
            live = {m.ident for m in g.nodes.values() if m.alive and m.ident}
            if t[0] == "node" and len(t) > 4 and t[4] in live or any(x in g.nodes and not g.nodes[x].alive and g.nodes[x].ident in live for x in t[2:4]):
                break
        wk.step(t)
        g = wk.graphs.get(t[1])
        # Nor are more inputs than a node has.
        if g and t[0] == "exec" and any(m.alive and len(m.inputs) > w.ARITY[m.type] for m in g.nodes.values()):
            break
        if t[0] == "graph":
            state[t[1]], es[t[1]] = {255}, 255
            continue
        if g is None:
            continue
        changed = g.state == 0
        bad = t[0] in ("seti", "setf", "sets") and t[2] in g.nodes and w.known_attr(g.nodes[t[2]].type, t[3]) != t[0][3]
        if changed:
            state[t[1]] = (state[t[1]] | {0}) if bad else {0}
        a = res.get(ln, "")
        who = "line %d (%s)" % (ln, line)
        if t[0] == "delnode" and t[2] in g.nodes:
            want = "delnode %d" % changed
            asked += 1
            if a != want:
                raise Violation("C15/delete", "%s answers %s, not %s" % (who, a, want))
        elif t[0] == "exec" and t[2] in g.nodes and t[3] in wk.caches:
            n = g.get(t[2])
            stat.pop("fail", None)
            if not a.startswith("exec"):
                continue
            es[t[1]] = int(a.split()[1])
            fired = [l for l in ops.get(ln, []) if l.startswith("F ")]
            if any(" env " in l for l in fired):
                stale = True
            up = g.upstream(n) if n else None
            if up is None:
                if es[t[1]] != 0:
                    raise Violation("C15/execute", "%s of a node that %s reports %d" % (who, "depends on itself" if n else "does not exist", es[t[1]]))
                continue
            if es[t[1]] == 1:
                state[t[1]] = {1}
                for m in up:
                    stat[m] = {1, 2} if fired or stale else {status(m, None)}
            else:
                state[t[1]] = state[t[1]] | {0} if state[t[1]] == {1} else state[t[1]]
                for m in up:
                    stat[m] = {0, 1, 2} | stat.get(m, {255})
                stat["fail"] = (t[1], up, who)
        elif t[0] == "info":
            f = a.split()
            have = (int(f[2].split("=")[1]), int(f[3].split("=")[1]))
            asked += 1
            if have[0] not in state[t[1]]:
                raise Violation("C15/state", "%s: the state of the graph is %d, not %s" % (who, have[0], sorted(state[t[1]])))
            if have[1] != es[t[1]]:
                raise Violation("C15/execute status", "%s: the execute status is %d; the last evaluation reported %d" % (who, have[1], es[t[1]]))
            nodes = w.info_nodes(a)
            for m in g.nodes.values():
                x = nodes.get(m.name)
                want = stat.get(m, {255}) if m.alive else {3}
                # A node made under the identity of a deleted one answers for both names.
                if not m.alive and m.ident and any(o.alive and o.ident == m.ident for o in g.nodes.values()):
                    continue
                asked += 1
                if x is None or x[0] != int(m.alive):
                    raise Violation("C15/exists", "%s: node %s (%s) exists=%s, not %d" % (who, m.name, m.type, x and x[0], m.alive))
                if x[1] not in want:
                    raise Violation("C15/node status", "%s: the status of node %s (%s) is %d, not %s" % (who, m.name, m.type, x[1], sorted(want)))
            st.see("distinct answers", a)
            fl = stat.pop("fail", None)
            if fl and fl[0] == t[1] and all(m.alive for m in fl[1]) and not any(nodes[m.name][1] == 0 for m in fl[1]):
                raise Violation("C15/unnamed failure", "%s failed but no node that it evaluated has the error status: %s" % (fl[2], a))
        elif t[0] in ("geti", "getf", "gets") and t[2] in g.nodes:
            m = g.nodes[t[2]]
            if not m.alive and m.ident and any(o.alive and o.ident == m.ident for o in g.nodes.values()):
                continue
            k = t[0][3]
            v = {"i": 0, "f": 0.0, "s": ""}[k]
            ex = 0
            if m.alive and t[3] in DEF[m.type]:
                ex = 1
                if KIND[type(DEF[m.type][t[3]])] == k:
                    v = DEF[m.type][t[3]]
                    if t[3] in m.attrs:
                        v = m.attrs[t[3]][1]
                        v = int(v) if k == "i" else (w.dec(v) if k == "s" else float(v))
            asked += 1
            p = a.split(" ", 2)
            got = p[2] if len(p) > 2 else ""
            same = int(p[1]) == ex and (got == v if k == "s" else (int(got) == v if k == "i" else struct.pack("f", float(got)) == struct.pack("f", v)))
            if not same:
                raise Violation("C15/attribute", "%s answers %s, not %d %s" % (who, a, ex, v))
        if t[0] in w.GRAPH_OPS:
            stat.pop("fail", None)
    st.add("answers judged", asked)
    return asked >= 10
