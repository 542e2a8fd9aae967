#!/usr/bin/env python3
"""F01: joining, splitting and relating paths agrees with the meaning of paths, for every short path."""
import itertools
import json
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import langcheck
import mv
from langcheck import CFG


def comps(p):
    return [c for c in p.split("/") if c not in ("", ".")]


def norm(p):
    """without empty and . components; .. stays"""
    if not p:
        return p
    return ("/" if p[0] == "/" else "") + "/".join(comps(p)) or "."


def canon(p):
    """(absolute?, components) with .. resolved, as far as it can be"""
    r, ab = [], p.startswith("/")
    for c in comps(p):
        if c == ".." and r and r[-1] != "..":
            r.pop()
        elif c != ".." or not ab:
            r.append(c)
    return ab, r


def norm2(p):
    """.. resolved, where something precedes it"""
    if not p:
        return p
    r = []
    for c in comps(p):
        if c == ".." and r and r[-1] != "..":
            r.pop()
        else:
            r.append(c)
    return ("/" if p[0] == "/" else "") + "/".join(r) or "."


def join(a, b):
    if b.startswith("/") or not a:
        return norm(b)
    if not b:
        return norm(a) + ("" if norm(a) == "/" else "/")
    return norm(a + "/" + b)


def joinn(l):
    r = ""
    for i, x in enumerate(l):
        r = join(r, x) if i else norm(x)
    return r


def rel(base, p):
    """the acceptable relative paths"""
    b, q = canon(base)[1], canon(p)[1]
    i = 0
    while i < len(b) and i < len(q) and b[i] == q[i]:
        i += 1
    r = ["/".join([".."] * (len(b) - i) + q[i:]) or "."]
    if not i:
        r.append("/" + "/".join(q))  # nothing in common: the absolute path
    return Any(r)


class Any(list):
    pass


def agrees(got, want):
    if isinstance(want, Any):
        return any(langcheck.same(got, w) for w in want)
    return langcheck.same(got, want)


def split(p):
    """(directory, name) of a normalized path"""
    if "/" not in p:
        return ".", p
    d, n = p.rsplit("/", 1)
    return d or "/", n


def suffix(n):
    """position of the suffix of a name, len(n) if there is none"""
    i = n.rfind(".")
    return i if i > 0 and n[:i].strip(".") else len(n)


def without_ext(p):
    p = norm(p)
    d, n = split(p)
    k = suffix(n)
    return norm(p[:len(p) - (len(n) - k)])


def replace_suffix(p, s):
    p = norm2(p)
    n = split(p)[1]
    return p[:len(p) - (len(n) - suffix(n))] + s


CWD = "/src"


def absn(p):
    return norm2(p if p.startswith("/") else CWD + "/" + p)


def subpath(b, p):
    if not b:
        return False
    (x, bc), (y, pc) = canon(b), canon(p)
    return x == y and pc[:len(bc)] == bc


UNARY = {
    "fs.without_ext": without_ext,
    "fs.parent": lambda p: split(norm2(p))[0],
    "fs.name": lambda p: split(absn(p))[1],
    "fs.stem": lambda p: (lambda n: n[:suffix(n)])(split(absn(p))[1]),
    "fs.executable": lambda p: norm(p) if "/" in p else "./" + p,
    "fs.is_basename": lambda p: "/" not in p,
    "fs.is_absolute": lambda p: p.startswith("/"),
    "fs.as_posix": lambda p: p,
}
EMPTY_ERR = {"fs.parent", "fs.name", "fs.stem"}


def q(s):
    return "'" + s.replace("\\", "\\\\") + "'"


def above_root(p):
    d = 0
    for c in comps(p):
        d += -1 if c == ".." else 1
        if d < 0:
            return True
    return False


def strs(alpha, n, lo=0):
    for k in range(lo, n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t)


def cases(deep):
    """(expression, expected value)"""
    for p in strs("ab./", 8 if deep else 7, 1):
        for f, g in UNARY.items():
            # the suffix of ..a and a. is a matter of taste
            n = split(absn(p) if f == "fs.stem" else norm(p))[1]
            if f in ("fs.stem", "fs.without_ext") and (n.endswith(".") or n.startswith("..")):
                continue
            yield f"{f}({q(p)})", g(p)
        n = split(norm2(p))[1]
        if n and not n.endswith(".") and not n.startswith(".."):
            for s in (".x", ""):
                yield f"fs.replace_suffix({q(p)}, {q(s)})", replace_suffix(p, s)
        yield f"fs.add_suffix({q(p)}, '.x')", norm(p) + ".x"
        yield f"join_paths({q(p)})", norm(p)
    for p in strs("a\\/", 6):
        yield f"fs.as_posix({q(p)})", p.replace("\\\\", "/").replace("\\", "/")
    S = list(strs("a./", 5 if deep else 4)) + ["a/b", "..", "../..", "a/../b", "/a/", "//", "/.", "a/b/", "./a", "/a/b/c"]
    for a in S:
        for b in S:
            yield f"{q(a)} / {q(b)}", join(a, b)
            yield f"join_paths({q(a)}, {q(b)})", join(a, b)
            yield f"join_paths([{q(a)}, {q(b)}])", join(a, b)
    T = ["", "a", "/a", "a/", ".", "..", "/", "b/c", "//d", "./", "a/./b"]
    for n in (3, 4):
        for t in itertools.product(T, repeat=n):
            yield f"join_paths({', '.join(map(q, t))})", joinn(t)
            if n == 3:
                yield " / ".join(map(q, t)), joinn(t)
    C = ["a", "b", "ab", "..", ".", ""]
    A = ["/" + "/".join(t) for n in range(0, (4 if deep else 3) + 1) for t in itertools.product(C if n < 4 else ["a", "b", "ab"], repeat=n)]
    A = [a for a in A if not above_root(a)]
    for a in A:
        for b in A:
            yield f"fs.relative_to({q(a)}, {q(b)})", rel(a, b)
    P = list(strs("ab/", 5 if deep else 4)) + ["/a/../b", "a/../b", "/a/b/../../c", "/a/..", "a/./b", "/a/b/..", "/ab/../a"]
    for a in P:
        for b in P:
            yield f"fs.is_subpath({q(a)}, {q(b)})", subpath(a, b)
    for p in strs("a./", 4, 1):
        for r in strs("a./", 3, 1):
            yield f"fs.is_samepath({q(p)}, {q(r)})", absn(p) == absn(r)
    for n in (1, 2, 1000, 2040, 2047, 2048, 2049, 4095, 4096, 5000):
        x = "x" * n
        yield f"{q(x)} / 'y'", x + "/y"
        yield f"{q('/' + x)} / {q(x)}", "/" + x + "/" + x
        yield f"fs.relative_to({q('/a/' + x)}, {q('/a/' + x + 'y')})", "../" + x + "y"
        yield f"fs.without_ext({q('b/' + x + '.c')})", "b/" + x
        yield f"fs.parent({q('b/' + x + '/.c')})", "b/" + x


def work(chunk):
    prog = "fs = import('fs')\nr = [\n" + ",\n".join(e for e, _ in chunk) + "\n]\n"
    got = WORK.one("e", ("ir\n" + prog).encode())
    if not isinstance(got, mv.Crash) and got[0] == 0:
        v = langcheck.decode(json.loads(got[1])["v"]["r"])
        if len(v) == len(chunk):
            return len(chunk), [(e, w, repr(x)) for (e, w), x in zip(chunk, v) if not agrees(x, w)], {repr(x)[:200] for x in v}
    if len(chunk) == 1:
        e, w = chunk[0]
        return 1, [(e, w, got.what if isinstance(got, mv.Crash) else "an error: " + got[1][:300].decode("latin1"))], set()
    n, bad, seen = 0, [], set()
    for i in range(0, len(chunk), max(1, len(chunk) // 8)):
        m, b, s = work(chunk[i:i + max(1, len(chunk) // 8)])
        n += m
        bad += b
        seen |= s
        if len(bad) > 20:
            break
    return n, bad, seen


WORK = None


def init(exe):
    global WORK
    WORK = mv.Server(exe, cwd="/")


def main():
    import multiprocessing as mp
    ck = mv.Check("F01", "exploration")
    exe = mv.build_harness("mserve", ["mserve.c", "mserve_ext0.c"], "asan")
    init(exe)
    r = WORK.one("e", b"er\nr = meson.current_source_dir()\n")
    global CWD
    CWD = langcheck.decode(json.loads(r[1])["v"]["r"])
    WORK.stop()
    seen = set()
    L = cases(ck.thorough)
    with mp.Pool(mv.NPROC, initializer=init, initargs=(exe,)) as pool:
        for n, bad, s in pool.imap_unordered(work, mv.chunked(L, 400)):
            ck.coverage["evaluations"] += n
            seen |= s
            for e, w, g in bad:
                ck.violation(f"{e}: got {g}, expected {w!r}", e)
            if len(ck.viol) > 200:
                break
    ck.add(distinct_nontrivial=len(seen), exhaustive=True, rule="every path over {a, b, ., /} up to length 7 (8) for functions of one path, every pair of shorter paths for functions of two, every triple and quadruple of 11 for joins")
    ck.sample("fs.relative_to('/a/../b', '/ab') -> '../ab'")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
