"""Driver of harness/samuworld.c: runs of the real samu_main over virtual worlds,
the virtual commands' semantics, and ninja's build rule as a version-based model."""
import functools
import os
import struct

import mv

WRAP = ("run_cmd_argv", "run_cmd_collect", "run_cmd_ctx_destroy")


def exe(variant="rel"):
    return mv.build_harness("samuworld", ["samuworld.c"], variant=variant, wrap=WRAP)


@functools.lru_cache(maxsize=200000)
def fnv(s):
    h = 0xcbf29ce484222325
    for c in s:
        h = ((h ^ c) * 0x100000001b3) & 0xffffffffffffffff
    return h


class World:
    """One samuworld server with a private scratch directory."""

    def __init__(self, variant="rel"):
        self.scr = mv.Scratch("samu")
        self.srv = mv.Server(exe(variant), [self.scr.d])
        self.runs = 0

    def close(self):
        self.srv.stop()
        self.scr.__exit__()

    def run(self, args, files, fails=(), choices=(), crash=-1, mode=1, clock=1000, reads_at=0):
        """files: {path: (mtime, bytes)} -> Result"""
        self.runs += 1
        o = [struct.pack("<H", len(args))]
        for a in args:
            a = a.encode("latin1")
            o.append(struct.pack("<H", len(a)) + a)
        o.append(struct.pack("<H", len(files)))
        for p, (t, c) in files.items():
            pb = p.encode("latin1")
            o.append(struct.pack("<H", len(pb)) + pb + struct.pack("<qI", t, len(c)) + c)
        o.append(struct.pack("<H", len(fails)))
        for n, k in fails:
            n = n.encode()
            o.append(struct.pack("<H", len(n)) + n + bytes([k]))
        o.append(struct.pack("<H", len(choices)) + bytes(choices))
        o.append(struct.pack("<iBqB", crash, mode, clock, reads_at))
        r = self.srv.one("r", b"".join(o))
        if isinstance(r, mv.Crash):
            raise mv.Infra("samuworld died: " + r.what)
        return Result(r[1])


class Result:
    def __init__(self, b):
        st, self.clock, n = struct.unpack_from("<iqI", b, 0)
        i = 16
        self.trace = [tuple(l.split(" ", 1)) for l in b[i:i + n].decode().split("\n")[:-1]]
        i += n
        w, = struct.unpack_from("<H", b, i)
        self.widths = list(b[i + 2:i + 2 + w])
        i += 2 + w
        nf, = struct.unpack_from("<H", b, i)
        i += 2
        self.files = {}
        for _ in range(nf):
            l, = struct.unpack_from("<H", b, i)
            p = b[i + 2:i + 2 + l].decode("latin1")
            i += 2 + l
            t, cl = struct.unpack_from("<qI", b, i)
            i += 12
            self.files[p] = (t, b[i:i + cl])
            i += cl
        el, = struct.unpack_from("<I", b, i)
        self.err = b[i + 4:i + 4 + el].decode("latin1")
        self.signal = st & 0x7f
        self.rc = (st >> 8) & 0xff if not self.signal else -self.signal

    def started(self):
        return [x for k, x in self.trace if k == "start"]


class SchedulePrune(Exception):
    pass


def schedules(run, bound=None):
    """Depth first over every choice sequence: run(prefix) -> Result; yields results."""
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        r = run(prefix)
        n += 1
        yield prefix, r
        ch = list(prefix) + [0] * (len(r.widths) - len(prefix))
        for i in range(len(r.widths) - 1, len(prefix) - 1, -1):
            for alt in range(1, r.widths[i]):
                stack.append(tuple(ch[:i]) + (alt,))
        if bound and n >= bound:
            raise SchedulePrune(n)


# ------------------------------------------------------------------ graphs

class Edge:
    def __init__(self, outs, ins, imp=(), order=(), tag=None, restat=False, pas=False, trunc=False, dep=None, phony=False,
                 pool=None, rsp=None, generator=False, impout=(), noread=()):
        self.outs = list(outs)
        self.impout = list(impout)
        self.ins = list(ins)
        self.imp = list(imp)
        self.order = list(order)
        self.noread = set(noread)  # inputs the command does not read (phony names)
        self.tag = tag or self.outs[0].replace("/", "_")
        self.restat, self.pas, self.trunc = restat, pas, trunc
        # None, "gcc", "file"; gcc-q: lists no inputs, only headers; gcc-n: writes no depfile
        self.depopt = {"gcc-q": "-Q", "gcc-n": "-N"}.get(dep)
        self.dep = "gcc" if self.depopt else dep
        self.phony, self.pool, self.rsp, self.generator = phony, pool, rsp, generator
        self.depfile = self.outs[0] + ".d" if dep else None
        self.rspfile = self.outs[0] + ".rsp" if rsp else None

    @property
    def allouts(self):
        return self.outs + self.impout

    @property
    def name(self):
        return self.outs[0]

    def command(self):
        c = ["mk", self.tag]
        if self.restat:
            c.append("-r")
        if self.pas:
            c.append("-P")
        if self.trunc:
            c.append("-t")
        if self.depopt:
            c.append(self.depopt)
        if self.dep:
            c += ["-d", self.depfile]
        if self.rsp:
            c += ["-R", self.rspfile]
        c += ["-o"] + self.allouts + ["-i"] + [i for i in self.ins + self.imp if i not in self.noread]
        return " ".join(c)

    def cmdkey(self):
        return (self.command(), self.rsp)


class Graph:
    """edges plus the ninja text that describes them"""

    def __init__(self, edges, default=None, pools=()):
        self.edges = edges
        self.default = default
        self.pools = dict(pools)
        self.gen = {}
        for e in edges:
            for o in e.allouts:
                self.gen[o] = e

    def text(self):
        t = ["rule mk", "  command = $cmd", ""]
        for p, d in self.pools.items():
            t += [f"pool {p}", f"  depth = {d}", ""]
        for e in self.edges:
            l = "build " + " ".join(e.outs)
            if e.impout:
                l += " | " + " ".join(e.impout)
            l += ": " + ("phony" if e.phony else "mk") + "".join(" " + i for i in e.ins)
            if e.imp:
                l += " | " + " ".join(e.imp)
            if e.order:
                l += " || " + " ".join(e.order)
            t.append(l)
            if not e.phony:
                t.append("  cmd = " + e.command())
                if e.restat:
                    t.append("  restat = 1")
                if e.generator:
                    t.append("  generator = 1")
                if e.dep:
                    t.append("  depfile = " + e.depfile)
                if e.dep == "gcc":
                    t.append("  deps = gcc")
                if e.rsp:
                    t += ["  rspfile = " + e.rspfile, "  rspfile_content = " + e.rsp]
                if e.pool:
                    t.append("  pool = " + e.pool)
        if self.default:
            t.append("default " + " ".join(self.default))
        return ("\n".join(t) + "\n").encode()

    def targets(self, args):
        if args:
            return list(args)
        if self.default:
            return list(self.default)
        used = {i for e in self.edges for i in e.ins + e.imp + e.order}
        return [o for e in self.edges for o in e.allouts if o not in used]


def compute(e, get):
    """what a command writes: (outputs' contents or None when it fails, headers)"""
    text = e.tag.encode() + b"("
    first = None
    hdrs = []
    seen = []
    for i, p in enumerate(p for p in e.ins + e.imp if p not in e.noread):
        c = get(p)
        if c is None:
            return None, []
        if i == 0:
            first = c
        text += c + b";"
        if e.dep:
            # headers already seen for an earlier input are not listed again
            s, t, ok = includes(c, get, seen)
            if not ok:
                return None, []
            text += t
    hdrs = [] if e.depopt == "-N" else [os.path.normpath(h) for h in seen]
    if e.rsp:
        text += b"@" + e.rsp.encode()
    text += b")"
    outs = []
    for k, _ in enumerate(e.allouts):
        if e.pas:
            outs.append(first or b"")
        elif e.trunc:
            l = (first or b"").split(b"\n")
            outs.append(l[k] if k < len(l) else b"")
        else:
            outs.append(b"%016x.%d" % (fnv(text), k))
    return outs, hdrs


def includes(content, get, seen):
    text = []
    ok = [True]

    def scan(c):
        if not c.startswith(b"#inc:"):
            return
        for n in c[5:].split(b"\n", 1)[0].split(b","):
            n = n.decode()
            if n and n not in seen:
                seen.append(n)
                h = get(os.path.normpath(n))
                if h is None:
                    ok[0] = False
                else:
                    text.append(b"<" + n.encode() + b"=" + h + b">")
                    scan(h)
    scan(content)
    return seen, b"".join(text), ok[0]


# ------------------------------------------------------------------ the model

class Model:
    """What has to be rebuilt, by versions instead of time stamps: an edge is out of
    date when it has no record of a successful run with this command, an output is
    missing, or an input (not order-only) is not the version it was run with."""

    def __init__(self):
        self.ver = {}      # path -> version of the current file (absent: missing)
        self.content = {}
        self.rec = {}      # edge name -> (cmdkey, {input: version}, headers)
        self.n = 0

    def copy(self):
        m = Model()
        m.ver, m.content, m.rec, m.n = dict(self.ver), dict(self.content), dict(self.rec), self.n
        return m

    def write(self, p, c):
        self.n += 1
        self.ver[p] = self.n
        self.content[p] = c

    def remove(self, p):
        self.ver.pop(p, None)
        self.content.pop(p, None)

    def version(self, g, p):
        e = g.gen.get(p)
        if e is not None and e.phony:
            return tuple(self.version(g, i) for i in e.ins + e.imp)
        return self.ver.get(p)

    def expand(self, g, p, seen):
        """the files a phony stands for"""
        e = g.gen.get(p)
        if e is None or not e.phony:
            return [p]
        if p in seen:
            return []
        seen.add(p)
        return [x for i in e.ins + e.imp + e.order for x in self.expand(g, i, seen)]

    def reason(self, g, e):
        r = self.rec.get(e.name)
        if any(o not in self.ver for o in e.allouts):
            return "missing"
        if r is None:
            return None if e.generator else "norecord"
        if r[0] != e.cmdkey() and not e.generator:
            return "command"
        if e.dep == "file" and e.depfile not in self.ver:
            return "depfile"
        for p in e.ins + e.imp + list(r[2]):
            if r[1].get(p, "none") != self.version(g, p):
                return "input"
        return None

    def build(self, g, targets, fails={}, strict=True):
        """-> (ok, [edges that must run], [edges that fail]), the state is updated.
        fails: {edge name: kind}"""
        done = {}
        ran, failed = [], []
        # the log only keeps outputs the manifest knows
        for name in [n for n in self.rec if n not in g.gen]:
            del self.rec[name]

        def visit(p, stack=()):
            """True when p is up to date afterwards"""
            e = g.gen.get(p)
            if e is None:
                return p in self.ver
            if e.name in done:
                return done[e.name]
            if e.name in stack:
                raise RecursionError("cycle")
            st = stack + (e.name,)
            ok = True
            r = self.rec.get(e.name)
            ins = e.ins + e.imp + e.order
            for i in ins:
                ok = visit(i, st) and ok
            if r and not e.phony:
                for i in r[2]:
                    if i in g.gen:
                        ok = visit(i, st) and ok
            if e.phony:
                done[e.name] = ok
                return ok
            if not ok:
                done[e.name] = False
                return False
            why = self.reason(g, e)
            if why is None:
                done[e.name] = True
                return True
            kind = fails.get(e.name)
            outs, hdrs = compute(e, self.content.get)
            if kind in (1, 3) or outs is None:
                failed.append(e.name)
                ran.append(e.name)
                done[e.name] = False
                return False
            if kind == 2:
                for o in e.allouts:
                    self.write(o, b"garbage")
                failed.append(e.name)
                ran.append(e.name)
                done[e.name] = False
                return False
            ran.append(e.name)
            for o, c in zip(e.allouts, outs):
                if e.restat and self.content.get(o) == c:
                    continue
                self.write(o, c)
            if e.dep == "file":
                self.write(e.depfile, b"")
            self.rec[e.name] = (e.cmdkey(), {i: self.version(g, i) for i in e.ins + e.imp + hdrs}, tuple(hdrs))
            done[e.name] = True
            return True

        ok = True
        for t in targets:
            ok = visit(t) and ok
        return ok and not failed, ran, failed

    def key(self):
        out = []
        for name, (cmd, vers, hdrs) in sorted(self.rec.items()):
            out.append((name, cmd, hdrs, tuple((p, v == self.ver.get(p)) if not isinstance(v, tuple) else (p, v == "x")
                                               for p, v in sorted(vers.items()))))
        return tuple(out)


def parse_log(b):
    m = {}
    for l in b.split(b"\n")[1:]:
        f = l.split(b"\t")
        if len(f) == 5:
            m[f[3]] = (int(f[2]), f[4])
    return m


def parse_deps(b):
    nodes, recs = [], {}
    i = 16
    while i + 4 <= len(b):
        sz, = struct.unpack_from("<I", b, i)
        i += 4
        isdep = sz >> 31
        sz &= 0x7fffffff
        rec = b[i:i + sz]
        i += sz
        if isdep:
            v = struct.unpack("<%dI" % (sz // 4), rec)
            recs[nodes[v[0]]] = (v[1] | v[2] << 32, tuple(nodes[x] for x in v[3:]))
        else:
            nodes.append(rec[:-4].rstrip(b"\0"))
    return recs


def canon(files, model):
    """key of a state: contents, the order of all time stamps, the model's record state"""
    BASE = 1000000000000000000
    times = set()
    lg = parse_log(files[".ninja_log"][1]) if ".ninja_log" in files else {}
    dp = parse_deps(files[".ninja_deps"][1]) if ".ninja_deps" in files else {}
    for p, (t, c) in files.items():
        if not p.startswith(".ninja_"):
            times.add(t)
    for t, h in lg.values():
        times.add(t - BASE if t > 0 else t)
    for t, d in dp.values():
        times.add(t - BASE)
    rank = {t: i for i, t in enumerate(sorted(times))}
    fs = tuple(sorted((p, rank[t], c) for p, (t, c) in files.items() if not p.startswith(".ninja_")))
    lk = tuple(sorted((p, rank[t - BASE if t > 0 else t], h) for p, (t, h) in lg.items()))
    dk = tuple(sorted((p, rank[t - BASE], d) for p, (t, d) in dp.items()))
    return hash((fs, lk, dk, model.key()))
