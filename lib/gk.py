"""Client of the gksim server: scenarios in, results out."""
import os, subprocess, re, json, hashlib
import build

CLS = {"preempt": 1, "next": 2, "stall": 3, "die": 4, "fork": 5, "wait": 6, "malloc": 7, "open": 8, "read": 9, "write": 10, "close": 11,
       "shm": 12, "clock": 13, "tod": 14, "sleep": 15, "reap": 16, "stdout": 17}
CLSN = {v: k for k, v in CLS.items()}


class Hung(Exception):
    pass


class Cmd:
    __slots__ = ("argv", "start", "after")

    def __init__(self, argv, start=0, after=-1):
        self.argv, self.start, self.after = list(argv), start, after


class Scenario:
    """cfg: simulator settings; files: name -> (bytes, mode); cmds; decs: forced decisions (p, cls, ord, val)."""

    def __init__(self, seed=1, cfg=None, files=None, cmds=None, decs=None, want=()):
        self.seed, self.cfg, self.files, self.cmds, self.decs, self.want = seed, dict(cfg or {}), dict(files or {}), list(cmds or []), list(decs or []), list(want)

    def copy(self, **kw):
        s = Scenario(self.seed, self.cfg, self.files, [Cmd(c.argv, c.start, c.after) for c in self.cmds], self.decs, self.want)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def wire(self, trace=False):
        o = [b"SEED %d\n" % self.seed]
        for k, v in sorted(self.cfg.items()):
            o.append(("SET %s %s\n" % (k, v)).encode())
        if trace:
            o.append(b"SET want_trace 1\n")
        for n, f in self.files.items():
            data, mode = f if isinstance(f, tuple) else (f, 0)
            if isinstance(data, str):
                data = data.encode("utf-8", "surrogateescape")
            o.append(b"FILE %s %d %d\n" % (n.encode(), mode, len(data)) + data + b"\n")
        for c in self.cmds:
            o.append(b"CMD %d %d %d\n" % (c.start, c.after, len(c.argv)))
            for a in c.argv:
                a = a.encode("utf-8", "surrogateescape") if isinstance(a, str) else a
                o.append(b"%d\n" % len(a) + a + b"\n")
        for d in self.decs:
            o.append(b"DEC %d %d %d %d\n" % tuple(d))
        for w in self.want:
            o.append(b"WANT %s\n" % w.encode())
        o.append(b"RUN\n")
        return b"".join(o)

    def to_json(self):
        def enc(b):
            return b.encode("utf-8", "surrogateescape").decode("latin1") if isinstance(b, str) else b.decode("latin1")
        return {"seed": self.seed, "cfg": self.cfg, "files": {n: [enc(f[0] if isinstance(f, tuple) else f), f[1] if isinstance(f, tuple) else 0] for n, f in self.files.items()},
                "cmds": [{"argv": c.argv, "start": c.start, "after": c.after} for c in self.cmds], "decs": [list(d) for d in self.decs], "want": self.want}

    @staticmethod
    def from_json(j):
        return Scenario(j["seed"], j["cfg"], {n: (f[0].encode("latin1"), f[1]) for n, f in j["files"].items()},
                        [Cmd(c["argv"], c["start"], c["after"]) for c in j["cmds"]], [tuple(d) for d in j["decs"]], j.get("want", []))


class Res:
    def __init__(self):
        self.procs, self.left, self.faults, self.shm, self.decs, self.outs, self.files, self.trace = [], {}, {}, [], [], [], {}, b""

    def out(self, cmd=0):
        return b"".join(o[3] for o in self.outs if o[1] == cmd).decode("latin1")

    def err(self, cmd=0):
        return b"".join(o[3] for o in self.outs if o[1] == -1 - cmd).decode("latin1")

    def status(self, cmd=0):
        """exit code, or -signal, or None when it did not end"""
        p = self.procs[cmd]
        if not p["ended"]:
            return None
        st = p["status"]
        return -(st & 0x7f) if st & 0x7f else (st >> 8) & 0xff

    def took(self, cmd=0):
        p = self.procs[cmd]
        return (p["t1"] - p["t0"]) / 1e9


class Server:
    def __init__(self, binary):
        self.bin = binary
        self.p = None
        self.covmap = 0

    def start(self):
        self.p = subprocess.Popen([self.bin], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=1 << 16)

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None

    def run(self, sc, trace=False):
        if self.p is None:
            self.start()
        self.p.stdin.write(sc.wire(trace))
        self.p.stdin.flush()
        r = Res()
        rd = self.p.stdout
        while True:
            l = rd.readline()
            if not l:
                self.close()
                raise Hung("server died")
            w = l.split()
            k = w[0]
            if k == b"END":
                return r
            if k == b"HUNG":
                self.close()
                raise Hung("run hung")
            if k == b"RES":
                d = dict(zip(w[1::2], w[2::2]))
                r.now = int(d[b"now"]) / 1e9
                r.bb = int(d[b"bb"])
                r.hash = d[b"hash"].decode()
                r.ilv = d[b"ilv"].decode()
                r.deadlock, r.clipped, r.overflow, r.np, r.switches, r.mallocs = (int(d[x]) for x in (b"deadlock", b"clipped", b"overflow", b"np", b"switches", b"mallocs"))
            elif k == b"PROC":
                v = [int(x) for x in w[1:10]]
                r.procs.append({"id": v[0], "parent": v[1], "cmd": v[2], "ended": v[3], "status": v[4], "t0": v[5], "t1": v[6], "cpu": v[7], "bb": v[8],
                                "pc": int(w[10], 16), "addr": int(w[11], 16), "mallocs": int(w[12])})
            elif k == b"LEFT":
                r.left[int(w[1])] = (int(w[2]), int(w[3]) / 1e9, w[4].decode())
            elif k == b"FAULT":
                r.faults[w[1].decode()] = int(w[2])
            elif k == b"SHM":
                r.shm.append((int(w[1]), int(w[2]), int(w[3])))
            elif k == b"DEC":
                r.decs.append(tuple(int(x) for x in w[1:5]))
            elif k == b"OUT":
                n = int(w[4])
                r.outs.append((int(w[1]), int(w[2]), int(w[3]) / 1e9, rd.read(n)))
                rd.read(1)
            elif k == b"FILE":
                data = None
                if w[3] == b"1":
                    data = rd.read(int(w[2]))
                    rd.read(1)
                r.files[w[1].decode()] = (int(w[2]), data)
            elif k == b"TRACE":
                r.trace = rd.read(int(w[1]))
                rd.read(1)
            elif k == b"ERROR":
                raise Hung(l.decode())

    def coverage(self):
        self.p.stdin.write(b"COV\n")
        self.p.stdin.flush()
        return int(self.p.stdout.readline().split()[1][::-1], 16)


def addr2line(pc):
    try:
        return subprocess.run(["addr2line", "-f", "-s", "-e", os.path.join(build.BUILD, "gksim"), hex(pc)], stdout=subprocess.PIPE, text=True, timeout=20).stdout.replace("\n", " ").strip()
    except Exception:
        return hex(pc)
