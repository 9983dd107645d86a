"""The simulated world: image files, node types with their attributes, and a model of the graph."""

I, F, S = "i", "f", "s"

# type -> attribute -> (kind, legal values to choose from).  Values are small dyadic numbers.
_mul = [0.5, 2.0, 0.25, 1.0, 1.5, 0.75]
_off = [0.0, 0.25, -0.25, 0.5, 0.125, -0.5]
_B = [0, 1]
NODES = {
    "null": {},
    "read": {"enable": (I, _B), "use_cache": (I, _B), "file_path": (S, None)},
    "grade": dict([("enable", (I, _B)), ("reverse", (I, _B)), ("clamp_black", (I, _B)), ("clamp_white", (I, _B)), ("premult", (I, _B)), ("mix", (F, [1.0, 0.5, 0.25, 0.0, 0.75]))]
                  + [("process_" + c, (I, _B)) for c in "rgba"]
                  + [("black_point_" + c, (F, [0.0, 0.125, -0.25, 0.25])) for c in "rgba"]
                  + [("white_point_" + c, (F, [1.0, 0.75, 1.5, 2.0])) for c in "rgba"]
                  + [("lift_" + c, (F, _off)) for c in "rgba"]
                  + [("gain_" + c, (F, _mul)) for c in "rgba"]
                  + [("multiply_" + c, (F, _mul)) for c in "rgba"]
                  + [("offset_" + c, (F, _off)) for c in "rgba"]
                  + [("gamma_" + c, (F, [1.0, 2.0, 0.5, 1.5])) for c in "rgba"]),
    "merge": {"enable": (I, _B), "use_cache": (I, _B), "mode": (I, [0, 1, 2]), "mix": (F, [1.0, 0.5, 0.25, 0.0])},
    "crop": {"enable": (I, _B), "use_cache": (I, _B), "window_min_x": (I, [0, 1, -1, 2]), "window_min_y": (I, [0, 1, -2, 2]), "window_max_x": (I, [3, 4, 5, 6]),
             "window_max_y": (I, [3, 4, 5, 7]), "reformat": (I, _B), "black_outside": (I, _B), "intersect": (I, _B)},
    "resample": {"use_cache": (I, _B), "interpolate": (I, _B)},
    "xform": {"enable": (I, _B), "invert": (I, _B), "translate_x": (F, [0.0, 0.25, 1.0, -0.5]), "translate_y": (F, [0.0, 0.5, -1.0, 0.25]), "rotate": (F, [0.0, 15.0, 90.0, -30.0]),
              "rotate_center_x": (F, [0.0, 0.5, 0.25]), "rotate_center_y": (F, [0.0, 0.5, -0.25]), "scale_x": (F, [1.0, 0.5, 1.5, 1.25]), "scale_y": (F, [1.0, 0.75, 1.5]),
              "pivot_x": (F, [0.5, 0.0, 0.25]), "pivot_y": (F, [0.5, 0.0, 1.0])},
    "lens": {"enable": (I, _B), "direction": (I, _B), "lens_center_offset_x": (F, [0.0, 0.125, -0.25]), "lens_center_offset_y": (F, [0.0, 0.25, -0.125]),
             "distortion": (F, [0.0, 0.0625, -0.03125, 0.125]), "anamorphic_squeeze": (F, [1.0, 1.25, 0.875]), "curvature_x": (F, [0.0, 0.0625, 0.125]),
             "curvature_y": (F, [0.0, 0.0625, -0.03125]), "quartic_distortion": (F, [0.0, 0.03125, 0.0625])},
    "viewer": {"enable": (I, _B), "use_cache": (I, _B), "bake_option": (I, [0, 1, 2, 3]), "bake_pixel_data_type": (I, [0, 1, 2, 3]),
               "bake_color_space": (S, ["Linear", "sRGB"]), "crop_to_format": (I, _B)},
    "write": {"enable": (I, _B), "execute": (I, _B), "file_path": (S, None), "crop_on_write": (I, [0, 1, 2]), "pixel_data_type": (I, [255, 0, 1, 2, 3]),
              "exr_compression": (I, [0, 1, 2, 3]), "exr_dwa_compression_level": (I, [45, 30]), "png_compression_level": (I, [6, 1, 9]),
              "jpeg_compression_level": (I, [90, 50, 100]), "jpeg_subsampling": (I, [0, 1]), "jpeg_progressive": (I, _B)},
}
ARITY = {"null": 1, "read": 0, "grade": 1, "merge": 2, "crop": 1, "resample": 1, "xform": 1, "lens": 1, "viewer": 1, "write": 1}
# What one attribute at a time can be varied in (resample stays at factor 0, see the known finding of C13).
ALL_ATTRS = [(t, a) for t in sorted(NODES) for a in sorted(NODES[t]) if t != "write" and (t, a) != ("read", "file_path")]
SPECIAL = [("read", "file_path"), ("*", "frame"), ("*", "swap"), ("*", "env"), ("*", "order"), ("*", "rewire"), ("*", "lut"), ("*", "graphs")]

ENV = {"mkimg", "raw", "rm", "rmdir", "mkdir", "mv", "ln", "cp", "cptrunc", "flip", "trunc", "setenv", "unsetenv", "mem", "jump", "heal", "quota", "splitreads"}
GRAPH_OPS = {"node", "delnode", "seti", "setf", "sets", "conn", "disc"}


def val(v):
    if isinstance(v, float):
        return "%.9g" % v
    if isinstance(v, str):
        return enc(v)
    return str(v)


def enc(s):
    return "".join(c if 32 < ord(c) < 127 and c != "%" else "".join("%%%02X" % b for b in c.encode()) for c in s)


def dec(s):
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == "%" and i + 2 < len(s) + 0:
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode()
            i += 1
    return out.decode("utf-8", "replace")


def setline(g, n, t, a, v):
    k = NODES[t][a][0]
    return "set%s %s %s %s %s" % (k, g, n, a, val(v))


# --------------------------------------------------------------------------- files

def mkimg(path, w=4, h=4, ch=4, dtype=None, x=0, y=0, full=None, seed=1, attrs=""):
    ext = path.rsplit(".", 1)[-1]
    if dtype is None:
        dtype = {"exr": "half", "png": "uint8", "tif": "uint16", "tga": "uint8", "jpg": "uint8", "dpx": "uint16"}[ext]
    fx, fy, fw, fh = full or (0, 0, w, h)
    return ("mkimg %s %d %d %d %s %d %d %d %d %d %d %d %s" % (enc(path), w, h, ch, dtype, x, y, fx, fy, fw, fh, seed, attrs)).strip()


def rand_img(rng, path, seed):
    ext = path.rsplit(".", 1)[-1]
    w, h = rng.choice([(4, 4), (4, 4), (3, 5), (6, 4), (2, 2), (5, 3)])
    if rng.random() < 0.06:
        w, h = rng.choice([(1, 1), (1, 7), (9, 1), (17, 3), (3, 19), (16, 16), (33, 9), (32, 31)])
    ch = rng.choice([4, 4, 3, 3, 1]) if ext not in ("jpg", "dpx", "tga") else rng.choice([3, 4] if ext == "tga" else [3])
    dt = {"exr": ["half", "float"], "png": ["uint8", "uint16"], "tif": ["uint8", "uint16", "float"]}.get(ext)
    dt = rng.choice(dt) if dt else None
    x = y = 0
    full = None
    if ext == "exr" and rng.random() < 0.4:
        x, y = rng.choice([(1, 0), (0, 1), (-1, -1), (1, 2), (2, -1)])
        full = rng.choice([(0, 0, 4, 4), (0, 0, 6, 6), (0, 0, w, h), (1, 1, 4, 4), (-2, 0, 6, 5), (2, -1, w, h)])
    attrs = "PixelAspectRatio:f=%s" % rng.choice(["2", "0.5", "1.5"]) if ext == "exr" and rng.random() < 0.12 else ""
    if ext in ("exr", "tif") and rng.random() < 0.12:
        attrs = (attrs + " Orientation:i=%d" % rng.randint(1, 8)).strip()
    return mkimg(path, w, h, ch, dt, x, y, full, seed, attrs)


# --------------------------------------------------------------------------- the graph model

class Node:
    def __init__(self, name, typ, ident, order):
        self.name, self.type, self.id, self.ident, self.order = name, typ, ident, ident, order
        self.attrs = {}      # name -> (kind, token)
        self.inputs = {}     # number -> Node
        self.alive = True


class Graph:
    """What a graph is after any sequence of edits: nodes, attributes that were set, connections."""

    def __init__(self):
        self.nodes = {}      # script name -> Node (maybe deleted)
        self.made = 0
        self.state = 255

    def get(self, name):
        n = self.nodes.get(name)
        return n if n is not None and n.alive else None

    def apply(self, t):
        """One edit; t: tokens.  Returns False if the script refers to unknown names (the executor skips it)."""
        op = t[0]
        if op == "node":
            self.made += 1
            self.nodes[t[2]] = Node(t[2], t[3], t[4] if len(t) > 4 else None, self.made)
            self.state = 0
            return True
        if t[2] not in self.nodes:
            return False
        n = self.nodes[t[2]]
        if op == "conn":
            if t[3] not in self.nodes:
                return False
            d = self.nodes[t[3]]
            if n.alive and d.alive:
                d.inputs[int(t[4]) & 255] = n
                self.state = 0
        elif op == "disc":
            if n.alive and n.inputs.pop(int(t[3]) & 255, None):
                self.state = 0
        elif op == "delnode":
            if n.alive:
                n.alive = False
                for m in self.nodes.values():
                    for k in [k for k, s in m.inputs.items() if s is n]:
                        del m.inputs[k]
                n.inputs = {}
                self.state = 0
        elif op in ("seti", "setf", "sets"):
            if n.alive:
                self.state = 0
                spec = known_attr(n.type, t[3])
                if spec == op[3]:
                    n.attrs[t[3]] = (op[3], t[4] if len(t) > 4 else "")
        return True

    def upstream(self, n):
        """The node and everything that feeds it, or None if it lies on or after a cycle."""
        seen, stack, ok = {}, set(), [True]

        def go(m):
            if m in stack:
                ok[0] = False
                return
            if m in seen:
                return
            stack.add(m)
            for k in sorted(m.inputs):
                go(m.inputs[k])
            stack.discard(m)
            seen[m] = True
        go(n)
        return list(seen) if ok[0] else None

    def emit(self, g, n, order=None, attr_order=None):
        """Script lines that build, from nothing, a graph that is what this one is upstream of n."""
        up = self.upstream(n)
        ns = sorted(up, key=lambda m: m.order)
        if order:
            order(ns)
        out = ["graph " + g]
        for m in ns:
            out.append("node %s %s %s" % (g, m.name, m.type))
        sets, conns = [], []
        for m in ns:
            for a in sorted(m.attrs):
                k, v = m.attrs[a]
                sets.append("set%s %s %s %s %s" % (k, g, m.name, a, v))
            for i in sorted(m.inputs):
                conns.append("conn %s %s %s %d" % (g, m.inputs[i].name, m.name, i))
        if attr_order:
            attr_order(sets)
            attr_order(conns)
        return out + sets + conns


def known_attr(typ, a):
    if typ == "resample" and a in ("enable", "factor"):
        return I
    s = NODES[typ].get(a)
    return s[0] if s else None


# --------------------------------------------------------------------------- comparing results

def exec_fields(r):
    """status, node status, digest text of an exec result line."""
    p = r.split(" ", 5)
    return p[1], p[2], r.split("|", 1)[1].strip()


def same_result(a, b, ignore_hash=True):
    return exec_fields(a) == exec_fields(b)


def diff_text(a, b):
    fa, fb = a.replace("|", "").split(), b.replace("|", "").split()
    return " ".join("%s<>%s" % (x, y) for x, y in zip(fa, fb) if x != y and not x.startswith("h=")) or "%s <> %s" % (a, b)


def info_nodes(line):
    """name -> (exists, status) of an info result."""
    out = {}
    for f in line.split()[4:]:
        p = f.split(":")
        out[p[0]] = (int(p[1]), int(p[2]))
    return out
