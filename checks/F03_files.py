#!/usr/bin/env python3
"""F03: the fs module reports and changes the file system truthfully, over all short histories of operations."""
import hashlib
import itertools
import json
import os
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import langcheck
import mv

NAMES = ["a", "b", "d", "d/x", "l"]
BIG = bytes(range(1, 256)) * 20
DATA = {"''": b"", "'v1'": b"v1"}
STARTS = [
    {},
    {"a": ("f", b"A\n", 0o644), "d": ("d",)},
    {"a": ("f", b"A\0B\xff", 0o755), "d": ("d",), "d/x": ("f", BIG, 0o600), "l": ("l", "a")},
    {"a": ("l", "d/x"), "d": ("d",), "l": ("l", "d")},
    {"a": ("l", "b"), "b": ("l", "a"), "d": ("d",), "d/x": ("f", b"", 0o644), "l": ("l", "missing")},
    {"d": ("f", b"not a dir", 0o640), "a": ("d",), "b": ("f", b"\r\n\r\n", 0o644), "l": ("l", "l")},
    {"d": ("d",), "d/x": ("l", "../a"), "a": ("f", b"1", 0o755), "l": ("l", "d/x"), "b": ("l", "d")},
]


# ------------------------------------------------------------ the model
def resolve(t, p, last=True, depth=0):
    """the tree's name for p with symlinks followed, None if it cannot exist"""
    if depth > 20:
        return None
    cur = []
    parts = p.split("/")
    for i, c in enumerate(parts):
        if c == "..":
            if not cur:
                return None
            cur.pop()
            continue
        cur.append(c)
        q = "/".join(cur)
        e = t.get(q)
        end = i == len(parts) - 1
        if e and e[0] == "l" and (not end or last):
            base = "/".join(cur[:-1])
            nxt = (base + "/" if base else "") + e[1]
            return resolve(t, "/".join([nxt] + parts[i + 1:]), last, depth + 1)
        if not end and (not e or e[0] != "d"):
            return None
    return "/".join(cur)


def stat(t, p):
    q = resolve(t, p)
    return t.get(q) if q is not None else None


def lstat(t, p):
    q = resolve(t, p, False)
    return t.get(q) if q is not None else None


def op_write(t, p, data):
    q = resolve(t, p)
    if q is None or (q in t and t[q][0] == "d"):
        return False
    t[q] = ("f", data, t[q][2] if q in t else 0o644)
    return True


def op_mkdir(t, p):
    q = resolve(t, p, False)
    if q is None or q in t:
        return False
    t[q] = ("d",)
    return True


def op_copy(t, a, b):
    s = lstat(t, a)
    q = resolve(t, b, False)
    if s is None or s[0] == "d" or q is None:
        return False
    if q in t and t[q][0] == "d":
        return None if s[0] == "l" else False
    t[q] = s if s[0] == "l" else ("f", s[1], s[2] & ~0o022)
    return True


def tree(root):
    t = {}
    for d, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(d, n)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                t[r] = ("l", os.readlink(p))
            elif os.path.isdir(p):
                t[r] = ("d",)
            else:
                with open(p, "rb") as f:
                    t[r] = ("f", f.read(), os.stat(p).st_mode & 0o7777)
    return t


def make(root, t):
    for p in sorted(t):
        e, f = t[p], os.path.join(root, p)
        if e[0] == "d":
            os.mkdir(f)
            os.chown(f, UID, UID)
        elif e[0] == "l":
            os.symlink(e[1], f)
        else:
            with open(f, "wb") as o:
                o.write(e[1])
            os.chmod(f, e[2])
            os.chown(f, UID, UID)


def clear(root):
    for d, dirs, files in os.walk(root, topdown=False):
        for n in files:
            os.unlink(os.path.join(d, n))
        for n in dirs:
            p = os.path.join(d, n)
            os.unlink(p) if os.path.islink(p) else os.rmdir(p)


# ------------------------------------------------------------ operations and queries
def ops():
    for p in NAMES:
        for d in DATA:
            yield (f"fs.write(r / '{p}', {d})", lambda t, p=p, d=d: op_write(t, p, DATA[d]))
        yield (f"fs.mkdir(r / '{p}')", lambda t, p=p: op_mkdir(t, p))
        for q in NAMES:
            yield (f"fs.copy(r / '{p}', r / '{q}')", lambda t, p=p, q=q: op_copy(t, p, q))


OPS = list(ops())


def queries(t):
    for p in NAMES + ["d/y", "l/x", "b/x", "a/x", "missing"]:
        forms = [f"r / '{p}'", f"r / './/{p}/.'"]
        if stat(t, "d") == ("d",):
            forms.append(f"r + '/d/../{p}'")
        s, ls = stat(t, p), lstat(t, p)
        for x in forms:
            yield f"fs.exists({x})", s is not None
            yield f"fs.is_file({x})", s is not None and s[0] == "f"
            yield f"fs.is_dir({x})", s is not None and s[0] == "d"
            yield f"fs.is_symlink({x})", ls is not None and ls[0] == "l"
        if s and s[0] == "f":
            yield f"fs.size({forms[0]})", len(s[1])
            yield f"fs.hash({forms[0]}, 'sha256')", hashlib.sha256(s[1]).hexdigest()
            yield f"fs.read({forms[0]}) == fs.read({forms[-1]})", True
            yield f"fs.read({forms[0]})", s[1].decode("latin1") if max(s[1], default=0) < 128 else None


SRV = ROOT = None
UID = 64123


def drop():
    os.setgroups([])
    os.setgid(UID)
    os.setuid(UID)


def run(body):
    got = SRV.one("e", f"ir\nfs = import('fs')\nr = '{ROOT}'\n{body}\n".encode("latin1"))
    if isinstance(got, mv.Crash):
        return got.what, None
    if got[0] != 0:
        return "", got[1]
    return None, langcheck.decode(json.loads(got[1])["v"]["r"])


def show(t):
    return {k: (v[0],) + tuple(x[:20] if isinstance(x, bytes) else x if isinstance(x, str) else oct(x) for x in v[1:]) for k, v in sorted(t.items())}


def history(case):
    """-> violation or None"""
    si, seq = case
    clear(ROOT)
    t = dict(STARTS[si])
    make(ROOT, t)
    for k in seq:
        src, fn = OPS[k]
        want = fn(t)
        if want is None:
            return None  # unspecified
        err, _ = run(src + "\nr = 0")
        if err:
            return f"{err} in {src}"
        if (err is None) != want:
            return f"{src} {'succeeded' if err is None else 'failed'}, it should {'succeed' if want else 'fail'}"
        now = tree(ROOT)
        if now != t:
            return f"after {src} the tree is {show(now)}, it should be {show(t)}"
    return ask(t)


def ask(t):
    Q = list(queries(t))
    err, v = run("r = [\n" + ",\n".join(e for e, _ in Q) + "\n]")
    if err is not None or len(v) != len(Q):
        return f"the queries failed: {err or v}"
    for (e, w), x in zip(Q, v):
        if w is not None and not langcheck.same(x, w):
            return f"{e} is {x!r}, it should be {w!r} in {show(t)}"
    return None


def errors(case):
    """what is not a file cannot be read"""
    clear(ROOT)
    t = STARTS[case]
    make(ROOT, t)
    for p in NAMES + ["missing", "a/x"]:
        s = stat(t, p)
        for f in ("fs.read(r / '%s')", "fs.hash(r / '%s', 'sha256')"):
            err, v = run("r = " + f % p)
            if err or (err is None) != (s is not None and s[0] == "f"):
                return f"{f % p} {'succeeded' if err is None else 'failed'} {err} in {show(t)}"
    return None


def sizes(n):
    """content of n bytes survives every function"""
    clear(ROOT)
    b = bytes((i * 7 + n) % 256 for i in range(n))
    make(ROOT, {"a": ("f", b, 0o644), "e": ("f", b"old", 0o600)})
    text = "".join(chr(32 + (i * 7 + n) % 95) for i in range(n)).replace("'", "x").replace("\\", "y").replace("@", "z")
    err, v = run(f"fs.copy(r / 'a', r / 'c')\nfs.write(r / 'd', fs.read(r / 'a'))\nfs.write(r / 'e', '{text}')\nfs.copy(r / 'd', r / 'd')\n"
                 "r = [fs.hash(r / 'a', 'sha256'), fs.size(r / 'd'), fs.read(r / 'd') == fs.read(r / 'c'), fs.read(r / 'e')]")
    if err is not None:
        return f"{n} bytes: {err or v}"
    want = {"a": ("f", b, 0o644), "c": ("f", b, 0o644), "d": ("f", b, 0o644), "e": ("f", text.encode(), 0o600)}
    if tree(ROOT) != want:
        return f"{n} bytes: wrong content in {[k for k in want if tree(ROOT).get(k) != want[k]]}"
    if v != [hashlib.sha256(b).hexdigest(), n, True, text]:
        return f"{n} bytes: got {v}"
    return None


def work(cs):
    return [(c, {"history": history, "errors": errors, "sizes": sizes}[c[0]](c[1])) for c in cs]


def init(exe, base):
    global SRV, ROOT
    ROOT = os.path.join(base, str(os.getpid()))
    os.mkdir(ROOT)
    os.umask(0o022)
    os.chmod(base, 0o755)
    os.chown(ROOT, UID, UID)
    # unprivileged: whatever the code under test does, it can reach nothing but the scratch tree
    SRV = mv.Server(exe, args=("u",), cwd=ROOT, preexec=drop)


def main():
    import multiprocessing as mp
    ck = mv.Check("F03", "exploration")
    exe = mv.build_harness("mserve", ["mserve.c", "mserve_ext0.c"], "asan")
    N = list(range(0, 300 if not ck.thorough else 1100)) + [4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537]
    depth = 3 if ck.thorough else 2

    def cases():
        for n in N:
            yield "sizes", n
        for i in range(len(STARTS)):
            yield "errors", i
        for i in range(len(STARTS)):
            for k in range(0, depth + 1):
                for s in itertools.product(range(len(OPS)), repeat=k):
                    yield "history", (i, s)
    seen = set()
    with mv.Scratch("f03", base="/dev/shm" if os.path.isdir("/dev/shm") else None) as sc:
        with mp.Pool(mv.NPROC, initializer=init, initargs=(exe, str(sc))) as pool:
            for out in pool.imap_unordered(work, mv.chunked(cases(), 100)):
                for c, bad in out:
                    ck.coverage["evaluations"] += 1
                    if c[0] == "history":
                        ck.add(operations=len(c[1][1]))
                    if bad:
                        d = c
                        if c[0] == "history":
                            d = {"start": show(STARTS[c[1][0]]), "operations": [OPS[k][0] for k in c[1][1]]}
                        ck.violation(bad, d)
                if len(ck.viol) > 200:
                    break
    ck.add(distinct_nontrivial=ck.coverage["evaluations"], exhaustive=True, starts=len(STARTS), alphabet=len(OPS), depth=depth,
           rule="every sequence of operations up to the depth from every start; after each, the whole tree and 140 queries; every size of content")
    ck.sample("start {a -> b, b -> a}: fs.copy(a, b) replaces the link b, fs.write(a) fails")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
