"""Talks to the simulator executable: one Zygote per worker, one forked child per simulated run."""
import os, re, shutil, subprocess, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD_DIR", os.path.join(HERE, ".build"))
BIN = os.path.join(BUILD, "ocgsim")
SCRATCH = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
WALL = 40   # seconds; a run that takes longer is reported as hung


class HarnessError(Exception):
    pass


class Result:
    """What one simulated run did: exit code, signal and the event log."""

    def __init__(self, rc, sig, log, err):
        self.rc, self.sig, self.log, self.err = rc, sig, log, err

    @property
    def crashed(self):      # the injected crash
        return self.rc == 77

    @property
    def hung(self):
        # the wall clock watchdog, or the CPU limit of the child
        return self.sig in (-1, 24, 9)

    @property
    def died(self):
        return (self.rc != 0 and self.rc != 77) or self.sig != 0

    def ops(self):
        """The log cut by operation: {line number: [log lines]}, plus key 0 for what lies outside."""
        res, cur = {}, 0
        for line in self.log:
            if line.startswith("B "):
                cur = int(line.split(" ", 2)[1])
                res[cur] = [line]
            else:
                res.setdefault(cur, []).append(line)
        return res

    def results(self):
        """R lines in order, with the number of the script line that made them."""
        cur, out = 0, []
        for line in self.log:
            if line.startswith("B "):
                cur = int(line.split(" ", 2)[1])
            elif line.startswith("R "):
                out.append((cur, line[2:]))
        return out


class Zygote:
    def __init__(self):
        env = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "LC_ALL": "C", "OPENIMAGEIO_THREADS": "1", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}
        self.p = subprocess.Popen([BIN, "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd="/")
        self.base = tempfile.mkdtemp(prefix="ocgsim_", dir=SCRATCH)
        self.runs = 0

    def fresh(self):
        """An empty scratch folder, always at the same place."""
        d = os.path.join(self.base, "w")
        if os.path.exists(d):
            shutil.rmtree(d)
        os.mkdir(d)
        return d

    def run(self, script, keep=False, wall=WALL):
        """Runs a script in a fresh scratch folder; keep: in the folder the previous run left."""
        d = os.path.join(self.base, "w") if keep else self.fresh()
        b = script.encode()
        self.p.stdin.write(b"RUN %s %d %d\n" % (d.encode(), len(b), wall) + b)
        self.p.stdin.flush()
        h = self.p.stdout.readline().split()
        if len(h) != 5 or h[0] != b"DONE":
            raise HarnessError("simulator gave no answer: %r" % (h,))
        log = self.p.stdout.read(int(h[3])).decode("utf-8", "replace").splitlines()
        err = self.p.stdout.read(int(h[4])).decode("utf-8", "replace")
        self.runs += 1
        return Result(int(h[1]), int(h[2]), log, err)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
        shutil.rmtree(self.base, ignore_errors=True)


_DIG = re.compile(r"(\w+)=(\S+)")


def digest(line):
    """The fields of a digest (everything an observer of a stream can see)."""
    return dict(_DIG.findall(line.split("|", 1)[1] if "|" in line else line))
