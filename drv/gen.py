"""Plan generators shared by the checks."""
import re

import world as w

EXTS = ["exr", "exr", "exr", "png", "tif", "tga", "jpg", "dpx"]


ODD = ["\u00e9\u00e8", "\u65e5\u672c", "a b", "d.ir/f", "./f", "F-1_", "\u20ac", "x.y.z"]


def files(rng, lines, n=4, exts=EXTS, seq=True, prefix="f", odd=0.0):
    """Writes n image files (and a sequence) into the plan; returns paths a read node may use."""
    out = []
    if odd and rng.random() < odd:
        prefix = rng.choice(ODD)
        if "/" in prefix and prefix[0] != ".":
            lines.append("mkdir " + w.enc(prefix.split("/")[0]))
    for k in range(n):
        p = "%s%d.%s" % (prefix, k, rng.choice(exts))
        lines.append(w.rand_img(rng, p, rng.randrange(1, 1000)))
        out.append(p)
    if seq:
        ext = rng.choice(["exr", "tif"])
        pad = rng.choice([1, 3, 4])
        for f in (1, 2, 3):
            lines.append(w.mkimg("%ss.%0*d.%s" % (prefix, pad, f, ext), seed=rng.randrange(1, 1000), ch=rng.choice([3, 4])))
        out.append("%ss.%s.%s" % (prefix, "#" * pad, ext))
    return out


OWN_FRAMES = ("C07", "C09", "C13", "C14", "C18")
FILE_FRAME = re.compile(r"\.(-?\d+)\.(exr|tif|png|tga|jpg|dpx|jpe?g?|ji?fi?f?)\b")


def shifted(rng, plan):
    """Sometimes the same plan with other frame numbers, in evaluations and in the names of files."""
    if rng.random() > 0.15:
        return plan
    d = rng.choice([-1, -2, -4, 6, 8, 97, 1000, 9998, rng.randint(10, 20000)])
    out = []
    for l in plan:
        t = l.split()
        if t and t[0] == "exec":
            k = t.index("i") if "i" in t[4:5] else t.index("f") if "f" in t[4:5] else 0
            if k == 4:
                t[5:] = [w.val(int(f) + d if t[4] == "i" else float(f) + d) for f in t[5:]]
                out.append(" ".join(t))
                continue
        out.append(FILE_FRAME.sub(lambda m: ".%0*d.%s" % (len(m.group(1)), int(m.group(1)) + d, m.group(2)), l))
    return out


WIDE = {"window_min_x": lambda r: r.randint(-12, 2), "window_min_y": lambda r: r.randint(-12, 2), "window_max_x": lambda r: r.randint(3, 40), "window_max_y": lambda r: r.randint(3, 30)}


def wide_value(rng, t, a):
    """A value the usual lists do not have."""
    if a in WIDE:
        return WIDE[a](rng)
    x = rng.random()
    if t == "lens":
        return rng.uniform(-0.2, 0.2) if a != "anamorphic_squeeze" else rng.uniform(0.7, 1.5)
    if x < 0.5:
        v = rng.uniform(-3.0, 3.0)
    elif x < 0.7:
        v = float(rng.choice([-1, 2, 3, 10, -10, 100]))
    elif x < 0.85:
        v = rng.choice([0.0, 1.0, -1.0]) + rng.uniform(-1e-3, 1e-3)
    else:
        v = rng.uniform(-200.0, 200.0)
    if a.startswith(("scale", "gamma")):
        v = abs(v) + 0.05
    if a.startswith("white"):
        v = abs(v) + 0.5
    return v


def next_to(rng, v):
    d = 2.0 ** -(rng.randint(6, 16) if rng.random() < 0.5 else rng.randint(17, 23))
    return v + d * rng.choice([-1, 1]) * (abs(v) if v and rng.random() < 0.7 else 1)


def attr_value(rng, t, a, old=None):
    kind, vs = w.NODES[t][a]
    if (kind == "f" or a in WIDE) and rng.random() < 0.08:
        return wide_value(rng, t, a)
    x = rng.random()
    if kind == "f" and old is not None and x < 0.25:
        # Values next to each other must not be taken for the same.
        d = 2.0 ** -(rng.randint(6, 16) if rng.random() < 0.6 else rng.randint(17, 22))
        return rng.choice([-old, old + d, old + d, old - d, old - d, old * 0.5]) if t != "lens" else old + d
    c = [v for v in vs if v != old] or vs
    return rng.choice(c)


class Builder:
    """Grows a plan and remembers what is in the graphs."""

    def __init__(self, rng, lines=None):
        self.rng = rng
        self.lines = lines if lines is not None else []
        self.g = {}          # graph -> {"types": {name: type}, "vals": {(name, attr): v}, "in": {name: {i: src}}}
        self.k = 0

    def add(self, l):
        self.lines.append(l)

    def graph(self, g):
        self.add("graph " + g)
        self.g[g] = {"types": {}, "vals": {}, "in": {}, "order": []}

    def node(self, g, t, name=None, ident=None):
        self.k += 1
        name = name or "%s%d" % (t[0] + t[-1], self.k)
        self.add("node %s %s %s%s" % (g, name, t, (" " + ident) if ident else ""))
        G = self.g[g]
        G["types"][name] = t
        G["in"][name] = {}
        G["order"].append(name)
        return name

    def set(self, g, n, a, v=None):
        G = self.g[g]
        t = G["types"][n]
        if v is None:
            v = attr_value(self.rng, t, a, G["vals"].get((n, a)))
        self.add(w.setline(g, n, t, a, v))
        G["vals"][(n, a)] = v
        return v

    def conn(self, g, s, d, i):
        self.add("conn %s %s %s %d" % (g, s, d, i))
        self.g[g]["in"][d][i] = s

    def disc(self, g, d, i):
        self.add("disc %s %s %d" % (g, d, i))
        self.g[g]["in"][d].pop(i, None)

    def delnode(self, g, n):
        self.add("delnode %s %s" % (g, n))
        G = self.g[g]
        G["types"].pop(n)
        G["in"].pop(n)
        G["order"].remove(n)
        for m in G["in"].values():
            for k in [k for k, s in m.items() if s == n]:
                del m[k]

    def exec(self, g, n, c, frames=(1,), fl=False):
        self.add("exec %s %s %s %s %s" % (g, n, c, "f" if fl else "i", " ".join(w.val(f) for f in frames)))

    def ups(self, g, n, seen=None):
        seen = seen if seen is not None else set()
        if n in seen:
            return seen
        seen.add(n)
        for s in self.g[g]["in"].get(n, {}).values():
            self.ups(g, s, seen)
        return seen

    def tree(self, g, paths, nops=4, types=None, focus=None, nreads=None, bake_all=0.6, some_attrs=0.5):
        """A random comp: reads, operators with random inputs, a viewer at the end.  Returns (viewer, names)."""
        rng = self.rng
        types = types or ["grade", "merge", "crop", "xform", "lens", "null", "grade", "merge", "resample", "viewer"]
        pool = []
        for _ in range(nreads or rng.randint(1, 3)):
            r = self.node(g, "read")
            self.set(g, r, "file_path", rng.choice(paths))
            if rng.random() < 0.1:
                self.set(g, r, "use_cache", 0)
            pool.append(r)
        kinds = [rng.choice(types) for _ in range(rng.randint(0, nops) if rng.random() > 0.03 else nops + rng.randint(4, 14))]
        if focus and focus != "read":
            kinds.insert(rng.randint(0, len(kinds)), focus)
        last = pool[0]
        for t in kinds:
            n = self.node(g, t)
            # Mostly extend what is there, so that the viewer sees it.
            up = last if rng.random() < 0.8 else rng.choice(pool)
            if w.ARITY[t] > 1 and rng.random() < 0.9:
                up2, k = rng.choice(pool), rng.random()
                # Inputs are ordered by their numbers, whatever these are and whichever was connected first.
                i, j = sorted(rng.sample(range(256), 2)) if k < 0.06 else (0, 1)
                for s, m in ((up2, j), (up, i)) if 0.03 < k < 0.15 else ((up, i), (up2, j)):
                    self.conn(g, s, n, m)
            else:
                self.conn(g, up, n, 0)
            if t == "resample":
                self.add("seti %s %s factor 0" % (g, n))
            if t == "crop":
                for a in ("window_min_x", "window_min_y", "window_max_x", "window_max_y"):
                    self.set(g, n, a)
            for a in sorted(w.NODES[t]):
                # Switching nodes off hides what they do: rarely.
                if a == "enable":
                    if rng.random() < 0.06:
                        self.set(g, n, a, 0)
                elif a == "use_cache":
                    if rng.random() < 0.15:
                        self.set(g, n, a, 0)
                elif t == "viewer" and a == "bake_option":
                    self.set(g, n, a, 3 if rng.random() < 0.5 else rng.choice([0, 1, 2]))
                elif rng.random() < some_attrs * (0.3 if t == "grade" else 0.7) and not a.startswith("window"):
                    self.set(g, n, a)
            pool.append(n)
            last = n
        v = self.node(g, "viewer")
        self.conn(g, last, v, 0)
        self.set(g, v, "bake_option", 3 if rng.random() < bake_all else rng.choice([0, 1, 2]))
        if rng.random() < 0.3:
            self.set(g, v, "bake_color_space")
        if rng.random() < 0.3:
            self.set(g, v, "bake_pixel_data_type")
        if rng.random() < 0.2:
            self.set(g, v, "crop_to_format", 1)
        pool.append(v)
        return v, pool
