"""Plans with faults on the read side, shared by C04 and C05."""
import gen as G_, world as w

ERR = ["EIO", "ENOENT", "EACCES", "EMFILE", "ENOMEM", "EINTR", "ESTALE", "ENFILE"]


def read_fault(rng, paths):
    p = rng.choice(["-", "-", w.enc(rng.choice(paths))])
    sticky = "+" if rng.random() < 0.25 else ""
    k = rng.random()
    if k < 0.22:
        e = rng.choice(ERR)
        return "fault open_r %d%s %s 0 %s" % (rng.randint(1, 4), sticky if e != "EINTR" else "", e, p)
    if k < 0.6:
        a = rng.choice(["EIO", "EIO", "eof", "eof", "short", "EINTR", "ESTALE"])
        return "fault read %d%s %s %d %s" % (rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 12]), "", a, rng.choice([0, 1, 7, 16]), p)
    if k < 0.75:
        return "fault stat %d%s %s 0 %s" % (rng.randint(1, 6), sticky, rng.choice(["EIO", "ENOENT", "EACCES", "ESTALE"]), p)
    if k < 0.8:
        return "fault close 1%s EIO 0 %s" % (sticky, p)
    if k < 0.9:
        return "fault any %d jump %d -" % (rng.randint(1, 8), rng.choice([3600 * 10**9, -86400 * 10**9, 10**18]))
    q = rng.choice([x for x in paths if "#" not in x and w.enc(x) == x and "/" not in x] or ["f0.exr"])
    return "fault %s %d env 0 - %s" % (rng.choice(["open_r", "read", "stat", "any"]), rng.randint(1, 6), rng.choice(["rm %s" % q, "mv %s gone_%s" % (q, q)]))


BAD = ["missing", "empty", "garbage", "trunc", "dir", "dangling", "swapped"]


def bad_file(rng, b, path, seed):
    """Makes path something that is no image (yet).  Returns lines that make it good later."""
    how = rng.choice(BAD)
    ext = path.rsplit(".", 1)[-1]
    if how == "trunc" and ext in ("jpg",):
        how = "empty"
    good = w.mkimg("good_" + path, 4, 4, 3 if ext in ("jpg", "dpx") else rng.choice([3, 4]), seed=seed)
    b.add(good)
    if how == "empty":
        b.add("raw %s %s" % (path, ""))
    elif how == "garbage":
        b.add("raw %s %s" % (path, rng.choice(["not%20an%20image", "%89PNG%0D%0A%1A%0Agarbage", "v/1%01xxxxxxxxxxxxxxxxx", "%FF%D8%FF%E0%00%10JFIF"])))
    elif how == "trunc":
        b.add("cptrunc good_%s %s %d" % (path, path, rng.choice([1, 50, 200, 500, 800, 950, 990])))
    elif how == "dir":
        b.add("mkdir " + path)
        return ["rmdir " + path, "cp good_%s %s" % (path, path)], how
    elif how == "dangling":
        b.add("ln nowhere_%s %s" % (path, path))
        return ["cp good_%s nowhere_%s" % (path, path)], how
    return ["rm " + path, "cp good_%s %s" % (path, path)], how


def gen(rng, i, tier, static=0.35, faulty=0.7):
    b = G_.Builder(rng)
    b.add("logio 1")
    exts = ["exr", "exr", "png", "tif", "tga", "jpg", "dpx"]
    paths = G_.files(rng, b.lines, rng.randint(1, 3), exts=exts, seq=rng.random() < 0.5)
    heal = []
    if rng.random() < static:
        for k in range(rng.randint(1, 2)):
            p = "b%d.%s" % (k, rng.choice(exts))
            lines, how = bad_file(rng, b, p, rng.randrange(1000))
            heal.append(lines)
            paths.append(p)
    b.add("cache c %d" % rng.choice([1 << 20, 1 << 20, 1 << 20, 0, 400]))
    b.graph("g")
    if rng.random() < 0.3:
        v = b.node("g", "read")
        b.set("g", v, "file_path", rng.choice(paths))
        pool = [v]
    else:
        types = ["grade", "merge", "crop", "xform", "merge", "null", "viewer"]
        v, pool = b.tree("g", paths, nops=rng.choice([0, 1, 2, 3]), types=types, nreads=rng.randint(1, 3), focus=rng.choice([None, "merge", "merge"]))
    if rng.random() < 0.12:
        b.add("splitreads 1")

    def ex(fault):
        n = v if rng.random() < 0.75 else rng.choice(pool)
        if fault:
            for _ in range(rng.choice([1, 1, 1, 2])):
                b.add(read_fault(rng, paths))
        fr = [1] if rng.random() < 0.7 else [rng.choice([1, 2, 3]) for _ in range(rng.randint(1, 3))]
        b.exec("g", n, "c", fr)
        if rng.random() < 0.3:
            b.add("info g")

    if rng.random() < 0.3:
        ex(False)
    for _ in range(rng.randint(2, 5 if tier == "quick" else 9)):
        ex(rng.random() < faulty)
        if rng.random() < 0.7:
            b.lines.append(b.lines[-1] if b.lines[-1].startswith("exec") else "exec g %s c i 1" % v)
        k = rng.random()
        if k < 0.15:
            n = rng.choice([m for m in pool if b.g["g"]["types"][m] == "read"])
            b.set("g", n, "file_path", rng.choice(paths))
        elif k < 0.3:
            n = rng.choice(pool)
            at = sorted(a for a in w.NODES[b.g["g"]["types"][n]] if a not in ("file_path", "enable"))
            if at:
                b.set("g", n, rng.choice(at))
        elif k < 0.4 and heal:
            b.lines += heal.pop()
            ex(False)
    for h in heal:
        b.lines += h
    b.exec("g", v, "c", [1])
    return b.lines
