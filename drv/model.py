"""A small executable model of what an evaluation computes: images as lists of numbers, one function per node type.

A number is an interval (lowest, highest value a correct implementation may give): rounding to a pixel type or in
a colour conversion widens it.  ANY matches everything.  Node types or settings outside the model raise Unknown."""
import math, struct

import world as w, wr

ANY = (-math.inf, math.inf)
ZERO = (0.0, 0.0)
VALID, WARN = 1, 2
TYPES = {"float": "f32", "half": "f16", "uint8": "u8", "uint16": "u16"}
TYPE_NO = {0: "f32", 1: "f16", 2: "u8", 3: "u16"}


class Unknown(Exception):
    pass


class Img:
    def __init__(self, dw, fw, ch, t, cs, px, pa=1.0, ops=(), defs=(), ori=1, g=1.0):
        self.dw, self.fw, self.ch, self.t, self.cs, self.px, self.pa, self.ops, self.defs = dw, fw, ch, t, cs, px, pa, tuple(ops), tuple(defs)
        self.ori, self.g = ori, g       # orientation (1 to 8) and gamma as in the file

    @property
    def w(self):
        return self.dw[2] - self.dw[0]

    @property
    def h(self):
        return self.dw[3] - self.dw[1]

    def copy(self, **kw):
        d = dict(dw=self.dw, fw=self.fw, ch=self.ch, t=self.t, cs=self.cs, px=self.px, pa=self.pa, ops=self.ops, defs=self.defs, ori=self.ori, g=self.g)
        d.update(kw)
        return Img(**d)

    def at(self, x, y):
        x, y = x - self.dw[0], y - self.dw[1]
        if 0 <= x < self.w and 0 <= y < self.h:
            i = (y * self.w + x) * self.ch
            return self.px[i:i + self.ch]
        return [ZERO] * self.ch


def parse_x(line):
    """(state, image in the file's own coordinates) of a decodepx result."""
    t = line.split()
    if t[2] != "ok":
        return t[2], None
    W, H, C = int(t[3]), int(t[4]), int(t[5])
    x, y, fx, fy, fw, fh = map(int, t[7:13])
    px = [exact(float(v)) for v in (t[16] if len(t) > 16 else "").split(",") if v]
    if len(px) != W * H * C:
        raise Unknown("large file")
    return "ok", Img((x, y, x + W, y + H), (fx, fy, fx + fw, fy + fh), C, TYPES.get(t[6], t[6]), t[13][3:], px, float(t[14]), ori=int(t[15].split("/")[3]), g=float(t[15].split("/")[4]))


def parse_d(line):
    """(w, h, ch, type, numbers) of a dump."""
    t = line.split()
    W, H, C = map(int, t[2].split("x"))
    v = (t[4] if len(t) > 4 else "").split(",")
    v = [a for a in v if a]
    if t[3] == "f32":
        px = [float(a) for a in v]
    elif t[3] == "f16":
        px = [struct.unpack("<e", struct.pack("<H", int(a)))[0] for a in v]
    else:
        px = [int(a) / (255.0 if t[3] == "u8" else 65535.0) for a in v]
    return W, H, C, t[3], px


def exact(v):
    return (v, v) if math.isfinite(v) else ANY


def wide(lo, hi, rel=4e-6, ab=1e-6):
    """The interval with room for rounding."""
    if not (math.isfinite(lo) and math.isfinite(hi)):
        return ANY
    e = rel * max(abs(lo), abs(hi)) + ab
    return lo - e, hi + e


def add(a, b):
    return wide(a[0] + b[0], a[1] + b[1])


def mul(a, b):
    if ANY in (a, b):
        return ANY
    q = [x * y for x in a for y in b]
    return wide(min(q), max(q))


def scale(a, k, off=0.0):
    return add(mul(a, (k, k)), (off, off))


def power(a, e):
    if a[0] <= 1e-6 or a == ANY:
        return ANY
    try:
        q = a[0] ** e, a[1] ** e
    except OverflowError:
        return ANY
    return wide(min(q), max(q), 1e-5)


JPEG = (".jpg", ".jpeg", ".jpe", ".jif", ".jfif", ".jfi")
COMPRESSION = {1: "none", 2: "rle", 3: "zip", 4: "zips", 5: "piz", 6: "pxr24", 7: "b44", 8: "b44a", 9: "dwaa", 10: "dwab"}
SUBSAMPLING = {1: "4:4:4", 2: "4:2:2", 3: "4:2:0"}


def unassociated(im):
    """What is left of an image whose format keeps colours divided by alpha, in integers."""
    px = list(im.px)
    for i in range(0, len(px), 4):
        a = px[i + 3]
        for k in range(i, i + 3):
            if a == ANY or a[0] < 0.15 or px[k] == ANY or px[k][0] < 0.0:
                px[k] = ANY
            elif a[0] < 0.99999:
                px[k] = (px[k][0] - 4 / 255, px[k][1] + 4 / 255) if px[k][1] < a[0] - 0.02 else ANY
    return im.copy(px=px)


def f32(v):
    try:
        return struct.unpack("f", struct.pack("f", v))[0]
    except OverflowError:
        return math.inf if v > 0 else -math.inf


# --------------------------------------------------------------------------- operations

def read(x):
    """What a read node gives for a file; None: the placeholder."""
    st, im = x
    if im is None or im.ch < 3 or im.t not in TYPE_NO.values():
        return None
    px, ch = im.px, im.ch
    if ch > 4:
        px = [v for i in range(0, len(px), ch) for v in px[i:i + 4]]
        ch = 4
    if ch == 3 and im.t != "f32":
        px = [v for i in range(0, len(px), 3) for v in px[i:i + 3] + [(1.0, 1.0)]]
        ch = 4
    ox, oy = im.fw[0], im.fw[1]
    return Img((im.dw[0] - ox, im.dw[1] - oy, im.dw[2] - ox, im.dw[3] - oy), (0, 0, im.fw[2] - ox, im.fw[3] - oy), ch, im.t, im.cs, px, im.pa, ori=im.ori if 1 <= im.ori <= 8 else 1, g=im.g)


def to_linear(v):
    return v / 12.92 if v <= 0.04045 else ((v + 0.055) / 1.055) ** 2.4


def to_srgb(v):
    return v * 12.92 if v <= 0.0031308 else 1.055 * v ** (1 / 2.4) - 0.055


def convert(im, cs):
    """To another colour space."""
    if im.cs == cs:
        return im
    if (im.cs, cs) in (("sRGB", "Linear"), ("Linear", "sRGB")):
        f = to_linear if cs == "Linear" else to_srgb
        px = list(im.px)
        for i in range(0, len(px), im.ch):
            if ANY not in px[i:i + im.ch]:
                for k in range(3):
                    px[i + k] = wide(f(px[i + k][0]), f(px[i + k][1]), 1e-3, 3e-4)
            else:
                px[i:i + 3] = [ANY] * 3
        return im.copy(cs=cs, px=px)
    if im.cs == "":
        return im
    raise Unknown("colour space %s to %s" % (im.cs, cs))


def ungrade(v, A, B, e, gam):
    """The reversed grade: first the gamma is undone, then the scale and offset."""
    def g(x):
        if gam <= 0.0:
            return 1.0 if x > 0.0 else 0.0
        if gam == 1.0 or x <= 0.0:
            return x
        return x ** gam if x < 1.0 else 1.0 + (x - 1.0) * gam
    if v == ANY:
        return ANY
    v = wide(g(v[0]), g(v[1]), 1e-5)
    if A == 1.0 and B == 0.0:
        return v
    a = 1.0 / A if A != 0.0 else 1.0
    return add(mul(v, (a, a)), mul((-B - e, -B + e), (a, a)))


def grade_op(a, px, ch):
    gi, gf = a
    mix = gf("mix", 1.0)
    out = list(px)
    if ch not in (3, 4):
        raise Unknown("channels")
    for k, c in enumerate("rgba"[:ch]):
        mask = (1.0 if gi("process_" + c, 0 if c == "a" else 1) else 0.0) * mix
        if mask == 0.0:
            continue
        bp, wp = gf("black_point_" + c, 0.0), gf("white_point_" + c, 1.0)
        lift, gain, mult, off, gam = gf("lift_" + c, 0.0), gf("gain_" + c, 1.0), gf("multiply_" + c, 1.0), gf("offset_" + c, 0.0), gf("gamma_" + c, 1.0)
        if wp == bp or gam == 0.0:
            raise Unknown("division")
        A = mult * (gain - lift) / (wp - bp)
        B = off + lift - A * bp
        back = gi("reverse", 0)
        e = 4e-7 * (abs(off) + abs(lift) + abs(A * bp))
        for i in range(k, len(px), ch):
            if back:
                v = ungrade(px[i], A, B, e, gam)
                out[i] = add(scale(v, mask), scale(px[i], 1.0 - mask)) if mask != 1.0 else v
                continue
            v = add(mul(px[i], (A, A)), (B - e, B + e))
            if gam != 1.0:
                v = power(v, 1.0 / gam)
            out[i] = add(scale(v, mask), scale(px[i], 1.0 - mask)) if mask != 1.0 else v
    return out


def store(im, t):
    """Kept as another pixel type."""
    if t == im.t:
        return im
    return im.copy(t=t, px=rounded(t, im.px))


def rounded(t, px):
    if t in ("u8", "u16"):
        e = 1.05 / (255 if t == "u8" else 65535)
        return [(min(1.0, max(0.0, v[0])) - e, min(1.0, max(0.0, v[1])) + e) if v != ANY else ANY for v in px]
    if t == "f16":
        return [wide(v[0], v[1], 6e-4) if max(abs(v[0]), abs(v[1])) < 60000 else ANY for v in px]
    return px


class Transform:
    """Moves, turns and scales about a pivot; the translation is measured in widths of the window."""

    def __init__(self, gi, gf):
        self.invert = gi("invert", 0)
        v = [gf(a, d) for a, d in (("translate_x", 0.0), ("translate_y", 0.0), ("rotate", 0.0), ("scale_x", 1.0), ("scale_y", 1.0), ("pivot_x", 0.5), ("pivot_y", 0.5))]
        self.tx, self.ty, self.rot, self.sx, self.sy, self.px, self.py = v
        self.ok = all(math.isfinite(x) and abs(x) < 1e4 for x in v) and min(abs(self.sx), abs(self.sy)) > 1e-2 and self.invert in (0, 1)

    def window(self, box, win):
        return box

    def apply(self, x, y, win, back):
        W = win[2] - win[0]
        if not self.ok or W <= 0:
            raise Unknown("transform")
        tx, ty = (self.tx - win[0]) / W, (self.ty - win[0]) / W
        c, s = math.cos(math.radians(self.rot)), math.sin(math.radians(self.rot))
        x, y = x - self.px, y - self.py
        if bool(self.invert) == bool(back):
            x, y = x * self.sx, y * self.sy
            x, y = c * x - s * y + tx, s * x + c * y + ty
        else:
            x, y = x - tx, y - ty
            x, y = (c * x + s * y) / self.sx, (c * y - s * x) / self.sy
        return x + self.px, y + self.py


class Lens:
    """The lens of the simulator (sim/ldpk_stub.cpp) in a window's coordinates."""

    def __init__(self, gi, gf):
        g = lambda a, d=0.0: gf(a, d)
        self.dir = gi("direction", 0)
        self.k = 0.05 * g("distortion") + 0.01 * g("quartic_distortion") + 0.003 * g("curvature_x") + 0.002 * g("curvature_y")
        self.a = 1 + 0.1 * (g("anamorphic_squeeze", 1.0) - 1)
        self.ox, self.oy = 0.1 * g("lens_center_offset_x"), 0.1 * g("lens_center_offset_y")
        self.ok = all(math.isfinite(v) and abs(v) < 1e2 for v in (self.k, self.a, self.ox, self.oy)) and self.a > 0.1

    def unit(self, x, y, back):
        cx, cy = x - 0.5 - self.ox, y - 0.5 - self.oy
        if bool(self.dir) == bool(back):
            return 0.5 + self.ox + cx * (1 + self.k * abs(cx)) * self.a, 0.5 + self.oy + cy * (1 + self.k * abs(cy))
        return 0.5 + self.ox + cx * (1 - self.k * abs(cx)) / self.a, 0.5 + self.oy + cy * (1 - self.k * abs(cy))

    def apply(self, x, y, win, back):
        W, H = win[2] - win[0], win[3] - win[1]
        if not self.ok or W <= 0 or H <= 0:
            raise Unknown("lens")
        u, v = self.unit((x - win[0]) / W, (y - win[1]) / H, back)
        return win[0] + u * W, win[1] + v * H

    def window(self, box, win):
        a, b = self.apply(box[0], box[1], win, False), self.apply(box[2], box[3], win, False)
        return a[0] - 2, a[1] - 2, b[0] + 2, b[1] + 2


def deform(im):
    """The pending deformers applied to the pixels."""
    if not im.defs:
        return im
    if im.ch not in (3, 4) or im.w <= 0 or im.h <= 0:
        raise Unknown("deformed")
    box = im.dw
    for d in im.defs:
        box = d.window(box, im.fw)
    if any(isinstance(d, Lens) for d in im.defs) and any(0 < abs(v - round(v)) < 1e-3 for v in box):
        raise Unknown("on the edge of a pixel")
    dw = tuple(math.floor(v) for v in box[:2]) + tuple(math.ceil(v) for v in box[2:])
    if (dw[2] - dw[0]) * (dw[3] - dw[1]) > 4000 or dw[2] <= dw[0] or dw[3] <= dw[1]:
        raise Unknown("size")

    def near(v, lo, n):
        v = (v - lo) / n * (n - 1)
        e = 5e-5 * (1 + abs(v) + abs(lo) + n)
        return sorted({min(n - 1, max(0, math.floor(min(1e9, max(-1e9, t)) + 0.5))) for t in (v - e, v, v + e)})
    px = []
    for y in range(dw[1], dw[3]):
        for x in range(dw[0], dw[2]):
            u, v = x + 0.5, y + 0.5
            for d in reversed(im.defs):
                u, v = d.apply(u, v, im.fw, True)
            c = [im.px[(b * im.w + a) * im.ch:(b * im.w + a + 1) * im.ch] for a in near(u, im.dw[0], im.w) for b in near(v, im.dw[1], im.h)]
            px += c[0] if len(c) == 1 else [(min(q[k][0] for q in c), max(q[k][1] for q in c)) for k in range(im.ch)]
    return im.copy(dw=dw, px=px, defs=())


def points(im):
    """Where the pending deformers move the simulator's five points."""
    out = []
    for i in range(5):
        x, y = 0.3 + 1.7 * i, 2.1 - 0.4 * i
        for d in im.defs:
            x, y = d.apply(x, y, im.dw, False)
        out.append((x, y))
    return out


def bake(im, cs, t, grade=True, all=True):
    t = t or im.t
    im = convert(im, "Linear" if grade else cs).copy(t="f32")
    if grade:
        px = im.px
        for op in im.ops:
            px = grade_op(op, px, im.ch)
        # A value that is not a number may spread to the other channels of its pixel.
        px = [v for i in range(0, len(px), im.ch) for v in (px[i:i + im.ch] if ANY not in px[i:i + im.ch] else [ANY] * im.ch)]
        im = im.copy(px=px, ops=(), cs="Linear")
        im = convert(deform(im) if all else im, cs)
    return store(im, t)


def crop(im, win, reformat, black):
    if win[2] < win[0] or win[3] < win[1]:
        raise Unknown("inverted crop")
    o = 1 if black else 0
    dw = (win[0] - o, win[1] - o, win[2] + o, win[3] + o)
    px = []
    for y in range(dw[1], dw[3]):
        for x in range(dw[0], dw[2]):
            inside = win[0] <= x < win[2] and win[1] <= y < win[3]
            px += im.at(x, y) if inside else [ZERO] * im.ch
    return im.copy(dw=dw, fw=tuple(win) if reformat else im.fw, px=px)


def merge(a, b, mode, mix):
    if a.ch not in (3, 4) or b.ch not in (3, 4):
        raise Unknown("channels")
    dw = (min(a.dw[0], b.dw[0]), min(a.dw[1], b.dw[1]), max(a.dw[2], b.dw[2]), max(a.dw[3], b.dw[3]))
    px = []
    for y in range(dw[1], dw[3]):
        for x in range(dw[0], dw[2]):
            p, q = (a.at(x, y) + [ZERO])[:4], (b.at(x, y) + [ZERO])[:4]
            m = scale(p[3], -mix, mix) if mode == 1 else (mix, mix)
            if mode == 2:
                r = [mul(p[k], mul(q[k], m)) for k in range(4)]
            else:
                r = [add(p[k], mul(q[k], m)) for k in range(4)]
            px += r[:b.ch]
    return Img(dw, b.fw, b.ch, "f32", "Linear", px, b.pa, ori=b.ori, g=b.g)


# --------------------------------------------------------------------------- graphs

class Eval:
    """Evaluates a node of a graph model for one frame; files: path -> decodepx result."""

    def __init__(self, frame, files, default):
        self.frame, self.files, self.default = frame, files, default
        self.memo, self.written, self.reads = {}, [], []

    def attr(self, n):
        return (lambda a, d: int(n.attrs[a][1]) if a in n.attrs else d), (lambda a, d: f32(float(n.attrs[a][1])) if a in n.attrs else d)

    def node(self, n):
        if n not in self.memo:
            self.memo[n] = self.compute(n)
        return self.memo[n]

    def compute(self, n):
        gi, gf = self.attr(n)
        ks = sorted(n.inputs)
        if len(ks) != w.ARITY[n.type] and (ks != list(range(len(ks))) or len(ks) > w.ARITY[n.type]):
            raise Unknown("inputs")
        ins = [self.node(n.inputs[k])[1] for k in ks]
        d = self.default
        on = gi("enable", 1)
        if n.type == "read":
            if on == 0:
                return WARN, d
            p = wr.expand(w.dec(n.attrs.get("file_path", ("s", ""))[1]), self.frame)
            self.reads.append(p)
            if p not in self.files:
                raise Unknown("file not decoded")
            im = read(self.files[p])
            return (VALID, im) if im else (WARN, d)
        if n.type == "null":
            return (VALID, ins[0]) if ins else (WARN, d)
        if n.type == "grade":
            st, im = (VALID, ins[0]) if ins else (WARN, d)
            if on != 1 or not any(gi("process_" + c, 0 if c == "a" else 1) for c in "rgba"):
                return st, im
            return st, im.copy(ops=im.ops + ((gi, gf),))
        if n.type in ("xform", "lens"):
            st, im = (VALID, ins[0]) if ins else (WARN, d)
            if on != 1:
                return st, im
            if n.type == "lens" and gi("direction", 0) not in (0, 1):
                raise Unknown("direction")
            return st, im.copy(defs=im.defs + ((Transform if n.type == "xform" else Lens)(gi, gf),))
        if n.type == "merge":
            if on != 1 or not ins:
                return WARN, d
            a, b = ins[0], ins[1] if len(ins) > 1 else d
            return (VALID if len(ins) > 1 else WARN), merge(bake(a, "Linear", "f32"), bake(b, "Linear", "f32"), gi("mode", 1), gf("mix", 1.0))
        if n.type == "crop":
            if not ins:
                return WARN, d
            if on != 1:
                return VALID, ins[0]
            im = bake(ins[0], "Linear", "f32")
            return VALID, crop(im, [gi("window_min_x", 0), gi("window_min_y", 0), gi("window_max_x", 0), gi("window_max_y", 0)], gi("reformat", 0) == 1, gi("black_outside", 0) == 1)
        if n.type == "viewer":
            im = ins[0] if ins else d
            opt = gi("bake_option", 0)
            if on != 1 or opt == 0:
                return VALID, im
            ctf = gi("crop_to_format", 0) != 0
            if ctf:
                opt = 3
            if opt not in (1, 2, 3):
                raise Unknown("bake option")
            cs = w.dec(n.attrs["bake_color_space"][1]) if "bake_color_space" in n.attrs else "Linear"
            t = gi("bake_pixel_data_type", 1)
            im = bake(im, cs, TYPE_NO.get(t), opt != 1, opt == 3)
            if ctf:
                im = crop(im, im.fw, True, False)
            return VALID, im
        if n.type == "write":
            if on == 0:
                return VALID, d
            if not ins:
                return WARN, d
            if gi("execute", 1) != 0:
                p = wr.expand(w.dec(n.attrs.get("file_path", ("s", ""))[1]), self.frame)
                self.written.append((p, n, ins[0]))
            return VALID, ins[0]
        raise Unknown(n.type)

    def file(self, n, im, path):
        """The image that a write node stores, in the file's coordinates."""
        gi, gf = self.attr(n)
        cs = "sRGB" if path.endswith((".png",) + JPEG) else "Linear"
        c = gi("crop_on_write", 2)
        im = bake(im, cs, TYPE_NO.get(gi("pixel_data_type", 255)))
        if c == 1 or (c == 2 and not path.endswith(".exr")):
            im = crop(im, im.fw, True, False)
        elif c not in (0, 2):
            raise Unknown("crop on write")
        return im


def differ(im, W, H, C, px, more=0.0):
    """What differs between the model's image and numbers that were observed; None: nothing."""
    if (W, H, C) != (im.w, im.h, im.ch):
        return "is %dx%dx%d, not %dx%dx%d" % (W, H, C, im.w, im.h, im.ch)
    for i, (a, b) in enumerate(zip(px, im.px)):
        if b == ANY:
            continue
        if not b[0] - more - 1e-6 <= a <= b[1] + more + 1e-6:
            return "channel %d of the pixel in column %d, row %d is %.7g, not %.7g" % (i % C, i // C % W, i // C // W, a, (b[0] + b[1]) / 2)
    return None
