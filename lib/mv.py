"""Shared machinery: building /repo's working tree, talking to mserve,
enumerating case spaces in parallel, reporting verdicts and evidence."""
import fcntl
import hashlib
import json
import multiprocessing as mp
import os
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MV_REPO", "/repo")
CACHE = os.environ.get("MV_CACHE", "/var/tmp/muonverif")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = int(os.environ.get("MV_JOBS", "0")) or os.cpu_count() or 4

ENV = {
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "HOME": "/root",
    "LANG": "C.UTF-8",
    "LC_ALL": "C.UTF-8",
    "CC": "gcc",
    "CXX": "g++",
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:handle_abort=0",
    "UBSAN_OPTIONS": "halt_on_error=0",
}


class Infra(Exception):
    """The check itself could not run (never a verdict)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building

def tree_key(*extra):
    h = hashlib.sha256()
    for e in (REPO,) + extra:
        h.update(e.encode() + b"\0")
    tops = ["meson.build", "meson_options.txt", "meson.options", "src", "include", "tools",
            "subprojects", "tests", "doc"]
    for t in tops:
        p = os.path.join(REPO, t)
        if os.path.isfile(p):
            h.update(t.encode() + b"\0" + open(p, "rb").read())
        for root, dirs, files in os.walk(p):
            dirs.sort()
            if t == "tests" and root != p:
                files = [f for f in files if f == "meson.build"]
                if root.count("/") > p.count("/") + 1:
                    dirs[:] = []
            for f in sorted(files):
                fp = os.path.join(root, f)
                if os.path.islink(fp) or not os.path.isfile(fp):
                    continue
                h.update(os.path.relpath(fp, REPO).encode() + b"\0")
                with open(fp, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:20]


def prune_cache(keep):
    try:
        ents = [os.path.join(CACHE, e) for e in os.listdir(CACHE) if not e.endswith(".lock") and e != "tools"]
        ents.sort(key=lambda p: -os.stat(p).st_mtime)
        for e in ents[6:]:
            if e != keep:
                shutil.rmtree(e, ignore_errors=True)
    except OSError:
        pass


VARIANTS = {
    # address: memory errors are fatal and visible; asserts stay on
    "asan": ["-Db_sanitize=address", "-Doptimization=1"],
    "rel": ["-Doptimization=1"],
}


def build(variant="asan"):
    """Configure and compile /repo's working tree out of tree; returns the build dir."""
    key = tree_key(variant)
    d = os.path.join(CACHE, variant + "-" + key)
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, ".ok")):
            os.utime(d)
            return d
        if os.path.exists(d):
            shutil.rmtree(d)
        t0 = time.time()
        r = subprocess.run(
            ["meson", "setup", d, REPO, "--buildtype=debug", "--wrap-mode=nodownload", "-Dwerror=false",
             "-Dlibcurl=enabled", "-Dlibarchive=enabled", "-Dlibpkgconf=enabled", "-Ddocs=disabled"]
            + VARIANTS[variant], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Infra("meson setup failed:\n" + r.stdout[-3000:])
        r = subprocess.run(["ninja", "-C", d, "muon"], env=ENV, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Infra("build failed:\n" + r.stdout[-3000:])
        open(os.path.join(d, ".ok"), "w").close()
        log(f"[build] {variant} {d} {time.time()-t0:.1f}s")
        prune_cache(d)
    return d


def _ninja_info(d):
    """objects, link args and compile args of the muon target, from build.ninja"""
    objs, link, args = [], [], []
    lines = open(os.path.join(d, "build.ninja")).read().split("\n")
    for i, l in enumerate(lines):
        if l.startswith("build muon:"):
            toks = l.split(":", 1)[1].split("|")[0].split()
            objs = [t for t in toks if t.endswith(".o")]
            for m in lines[i + 1:i + 6]:
                if m.strip().startswith("LINK_ARGS ="):
                    link = m.split("=", 1)[1].split()
        if l.startswith("build muon.p/src_main.c.o:"):
            for m in lines[i + 1:i + 8]:
                if m.strip().startswith("ARGS ="):
                    args = m.split("=", 1)[1].split()
    if not objs or not args:
        raise Infra("cannot read muon's target from build.ninja")
    return objs, link, args


def build_harness(name, sources, variant="asan", wrap=(), with_main=False, extra=()):
    """Compile harness sources and link them with every muon object (minus main)."""
    d = build(variant)
    srcs = [os.path.join(VERIF, "harness", s) for s in sources]
    h = hashlib.sha256()
    for s in srcs:
        h.update(open(s, "rb").read())
    h.update(repr((wrap, with_main, extra)).encode())
    out = os.path.join(d, f"h_{name}_{h.hexdigest()[:12]}")
    with open(os.path.join(CACHE, "build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        objs, link, args = _ninja_info(d)
        args = [a for a in args if not a.startswith("-W") and a != "-std=c99"] + ["-std=gnu99", "-w"]
        hobjs = []
        for s in srcs:
            o = out + "_" + os.path.basename(s) + ".o"
            r = subprocess.run(["gcc"] + args + list(extra) + ["-I" + os.path.join(VERIF, "harness"), "-c", s, "-o", o],
                               cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise Infra(f"harness {s} does not compile:\n" + r.stdout[-4000:])
            hobjs.append(o)
        mobjs = []
        for o in objs:
            if o.endswith("src_main.c.o"):
                if with_main:
                    no = out + "_main.o"
                    subprocess.run(["objcopy", "--redefine-sym", "main=muon_main", o, no], cwd=d, check=True)
                    mobjs.append(no)
                continue
            mobjs.append(o)
        w = ["-Wl,--wrap=" + x for x in wrap]
        r = subprocess.run(["gcc", "-o", out + ".tmp"] + hobjs + mobjs + w + link + ["-lpthread", "-lm"], cwd=d,
                           env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Infra(f"harness {name} does not link:\n" + r.stdout[-4000:])
        os.rename(out + ".tmp", out)
    return out


def tool(name):
    """compile a helper program that needs nothing of muon; returns its path"""
    src = os.path.join(VERIF, "harness", name + ".c")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    d = os.path.join(CACHE, "tools")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, f"{name}-{h}")
    if not os.path.exists(out):
        tmp = f"{out}.{os.getpid()}"
        r = subprocess.run(["gcc", "-O1", "-w", "-o", tmp, src], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Infra(f"{src} does not compile:\n" + r.stdout[-2000:])
        os.rename(tmp, out)
    return out


def muon(variant="rel"):
    return os.path.join(build(variant), "muon")


# ------------------------------------------------------------------ mserve

class Crash(Exception):
    def __init__(self, what):
        self.what = what


class Server:
    """One mserve process; restarted after a crash."""

    def __init__(self, exe, args=(), cwd=None, preexec=None):
        self.exe, self.args, self.cwd, self.preexec = exe, list(args), cwd, preexec
        self.p = None
        self.err = None

    def start(self):
        r, w = os.pipe()
        self.err = tempfile.TemporaryFile()

        def pre():
            os.dup2(w, 3)
            os.set_inheritable(3, True)
            if self.preexec:
                self.preexec()

        self.p = subprocess.Popen([self.exe] + self.args, stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                                  stderr=self.err, preexec_fn=pre, close_fds=False, env=ENV, cwd=self.cwd)
        os.close(w)
        self.r = os.fdopen(r, "rb")

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.stdin.close()
            self.p.wait()
            self.r.close()
            self.err.close()
            self.p = None

    def batch(self, reqs):
        """reqs: [(mode char, bytes)] -> list of (status, bytes) or Crash, one per request."""
        res = []
        i = 0
        while i < len(reqs):
            if not self.p:
                self.start()
            # write in small groups so that neither pipe can fill up
            j = i
            try:
                size = 0
                buf = []
                while j < len(reqs) and (size < 32000 or j == i):
                    m, b = reqs[j]
                    buf.append(m.encode() + struct.pack("<I", len(b)) + b)
                    size += len(b) + 5
                    j += 1
                data = b"".join(buf)
                if size < 60000:
                    self.p.stdin.write(data)
                    self.p.stdin.flush()
                else:
                    self.p.stdin.write(data)
                    self.p.stdin.flush()
            except (BrokenPipeError, OSError):
                pass
            while i < j:
                h = self.r.read(5)
                if len(h) < 5:
                    self.p.stdin.close()
                    rc = self.p.wait()
                    self.err.seek(0)
                    e = self.err.read()[-6000:].decode("latin1")
                    self.p = None
                    self.r.close()
                    if rc == -signal.SIGALRM:
                        what = "no answer within 10 s (hang)"
                    else:
                        lines = [l for l in e.split("\n") if "ERROR" in l or "Assert" in l or "SUMMARY" in l or "assert" in l]
                        what = f"process ended rc={rc}: " + " | ".join(lines[:3])[:400]
                    res.append(Crash(what))
                    i += 1
                    break
                st, n = struct.unpack("<BI", h)
                b = self.r.read(n)
                res.append((st, b))
                i += 1
        return res

    def one(self, mode, b):
        return self.batch([(mode, b)])[0]


# ------------------------------------------------------------------ verdicts

def load_known():
    """known_findings.txt: 'property=<id> key=<key> :: text' and 'fixed: ...' lines"""
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            l = l.rstrip("\n")
            if l.startswith("property="):
                head, text = l.split(" :: ", 1)
                prop, key = head.split(" key=", 1)
                known[(prop[len("property="):], key)] = text
    return known


class Check:
    """Collects the verdict of one property's check."""

    def __init__(self, prop, level, technique=None):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        elif "--quick" in sys.argv:
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.viol = []
        self.known = load_known()
        self.knownhit = {}
        self.samples = []
        self.coverage = {"evaluations": 0}
        self.outcomes = {}

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.coverage[k] = self.coverage.get(k, 0) + v
            else:
                self.coverage[k] = v

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s if isinstance(s, str) else repr(s))

    def violation(self, what, case, key=None):
        """case: JSON-able description that replays the failure"""
        if key is not None and (self.prop, key) in self.known:
            self.knownhit.setdefault(key, what)
            return
        self.viol.append((what, case))

    def budget_left(self, total):
        return total - (time.time() - self.t0)

    def finish(self):
        ev_dir = os.path.join(VERIF, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        rep_dir = os.path.join(VERIF, "evidence", "replay")
        for key, what in sorted(self.knownhit.items()):
            print(f"KNOWN-FINDING: property={self.prop} {key}: {self.known[(self.prop, key)]}")
        rc = 0
        if self.viol:
            os.makedirs(rep_dir, exist_ok=True)
            self.viol.sort(key=lambda v: len(json.dumps(v[1], default=repr)))
            path = os.path.join(rep_dir, f"{self.prop}.json")
            with open(path, "w") as f:
                json.dump([{"what": w, "case": c} for w, c in self.viol[:400]], f, indent=1, default=repr)
            for w, c in self.viol[:5]:
                log(f"  violation: {w}\n    case: {json.dumps(c, default=repr)[:1500]}")
            log(f"  ({len(self.viol)} violating cases)")
            print(f"VIOLATION property={self.prop} replay={path}")
            rc = 1
        elif os.path.exists(os.path.join(rep_dir, f"{self.prop}.json")):
            os.remove(os.path.join(rep_dir, f"{self.prop}.json"))
        cov = dict(self.coverage)
        cov["samples"] = self.samples or ["(none)"]
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        if self.viol:
            ev["violations"] = len(self.viol)
        with open(os.path.join(ev_dir, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        log(f"[{self.prop}] {self.tier}: {json.dumps({k: v for k, v in cov.items() if k != 'samples'}, default=repr)[:600]} "
            f"{ev['wall_s']}s rc={rc}")
        return rc


def main(fn):
    """Run a check function; infrastructure failures exit 2 (never a verdict)."""
    try:
        rc = fn()
    except Infra as e:
        log("INFRA:", e)
        sys.exit(2)
    sys.exit(rc)


# ------------------------------------------------------------------ parallel enumeration

_SRV = {}


def server(exe, args=()):
    k = (exe, tuple(args), os.getpid())
    if k not in _SRV:
        _SRV[k] = Server(exe, args)
    return _SRV[k]


def _runner(a):
    fn, chunk = a
    try:
        return fn(chunk)
    except Infra as e:
        return ("infra", str(e))


def pmap(fn, chunks, nproc=None):
    """Yield fn(chunk) for every chunk, unordered, on nproc processes."""
    nproc = nproc or NPROC
    with mp.Pool(nproc) as pool:
        for r in pool.imap_unordered(_runner, ((fn, c) for c in chunks), 1):
            if isinstance(r, tuple) and len(r) == 2 and r[0] == "infra":
                raise Infra(r[1])
            yield r


def chunked(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) >= n:
            yield buf
            buf = []
    if buf:
        yield buf


class Scratch:
    """A scratch directory, removed at exit."""

    def __init__(self, tag="mv", base=None):
        base = base or ("/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp")
        self.d = tempfile.mkdtemp(prefix=tag + "-", dir=base)

    def __enter__(self):
        return self.d

    def __exit__(self, *a):
        for root, dirs, files in os.walk(self.d):
            for x in dirs:
                try:
                    os.chmod(os.path.join(root, x), 0o755)
                except OSError:
                    pass
        shutil.rmtree(self.d, ignore_errors=True)
