#!/usr/bin/env python3
"""B05: the files a depfile names are exactly the implicit inputs of its target, from then on and across runs."""
import itertools
import re
import struct
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import clicheck
import mv

# ---- the log
HEAD = b"# ninjadeps\n" + struct.pack("<I", 4)


def read_log(b):
    """-> {output: [inputs]}, checking the format as ninja describes it"""
    if not b.startswith(HEAD):
        raise ValueError("no header")
    i, nodes, deps = len(HEAD), [], {}
    while i < len(b):
        n, = struct.unpack_from("<I", b, i)
        i += 4
        isdeps, n = n >> 31, n & 0x7fffffff
        r = b[i:i + n]
        i += n
        if len(r) != n or n % 4:
            raise ValueError("a record is cut short")
        if isdeps:
            v = struct.unpack(f"<{n // 4}I", r)
            deps[nodes[v[0]]] = [nodes[k] for k in v[3:]]
        else:
            if struct.unpack("<I", r[-4:])[0] != (~len(nodes) & 0xffffffff):
                raise ValueError("a checksum is wrong")
            nodes.append(r[:-4].rstrip(b"\0").decode("utf-8", "surrogateescape"))
    return deps


# ---- documents
def canon(p):
    out = []
    ab = p.startswith("/")
    for x in p.split("/"):
        if x in ("", "."):
            continue
        if x == ".." and out and out[-1] != "..":
            out.pop()
        elif x == ".." and ab:
            pass
        else:
            out.append(x)
    return ("/" if ab else "") + "/".join(out) or "."


def parse(doc):
    """-> (targets, inputs) as make and ninja read them, or None: not judged"""
    targets, inputs = [], []
    cur, word, side, i = targets, None, 0, 0

    def end():
        nonlocal word
        if word is not None:
            (inputs if side else targets).append(word)
        word = None
    while i < len(doc):
        c = doc[i]
        if c == "\\":
            j = i
            while j < len(doc) and doc[j] == "\\":
                j += 1
            n = j - i
            nx = doc[j] if j < len(doc) else None
            if nx is None:
                return None
            if nx == "\n":
                if n > 1:
                    return None     # a name that ends in a backslash
                end()
                i = j + 1
                continue
            word = word or ""
            if nx in " \t":
                if n % 2:
                    word += "\\" * (n // 2) + nx
                    i = j + 1
                else:
                    return None     # likewise
            elif nx == "#":
                word += "\\" * (n - 1) + "#"
                i = j + 1
            else:
                word += "\\" * n
                i = j
            continue
        if c == "$":
            if doc[i + 1:i + 2] != "$":
                return None
            word = (word or "") + "$"
            i += 2
            continue
        if c in " \t":
            end()
        elif c == "\n":
            end()
            if not side and i and doc[:i].split("\n")[-1].strip():
                return None
            side = 0
        elif c == ":" and not side:
            end()
            side = 1
        elif c == "#":
            return None
        else:
            word = (word or "") + c
        i += 1
    end()
    return targets, inputs


TOK = ["a", "b", " ", "\t", "\\", "\\\n", "\\#", "$$", "../a", "./", " \\\n "]


def docs(deep):
    for n in range(0, 6 if deep else 5):
        for t in itertools.product(TOK, repeat=n):
            yield "o: " + "".join(t) + "\n"
    body = ["", " a", " a b", " \\\n a", " \\\n  a \\\n  b", "\ta", "a"]
    for head in ("o:", "o :", "o\t :", "\\\no:", " o:"):
        if head[0] in "\\ ":
            continue
        for b in body:
            for endl in ("", "\n", "\n\n", "\n\n\n", " ", " \n", "\\\n", " \\\n\n"):
                yield head + b + endl
    rules = ["o: a\n", "o: b c\n", "o:\n", "o: a \\\n d\n", "o: b\n\n", "o : a\n"]
    for n in (2, 3, 4) if deep else (2, 3):
        for t in itertools.product(rules, repeat=n):
            yield "".join(t)
            yield "".join(t).rstrip("\n")
    for n in (1, 31, 32, 33, 64, 65, 1000, 5000):
        yield "o: " + " \\\n ".join(f"f{i}" for i in range(n)) + "\n"
    for n in range(1, 40):
        yield "o: " + "x" * n + " y\n"
    for n in (63, 64, 127, 128, 200, 254):
        yield "o: " + "y" * n + "/z b\n"
    yield "o: caf\u00e9 \u65e5\n"


BUILD = """rule d
 command = cp $in $out.d; : > $out
 depfile = $out.d
 deps = gcc
"""


def run_docs(c, case):
    _, ds = case
    ops, want = [], {}
    nin = BUILD
    for i, d in enumerate(ds):
        p = parse(d)
        if p is None or set(p[0]) - {"o"} or any(not x for x in p[1]):
            continue
        want[i] = {canon(x) for x in p[1]}
        nin += f"build o{i}: d d{i}\n"
        ops.append(("w", f"b/d{i}", re.sub(r"(^|\n)o", rf"\1o{i}", d)))
    if not want:
        return None, 0
    r, log, again, log2 = c.go(ops + [("w", "b/build.ninja", nin), ("r", ["-C", "b", "samu"], None, None, 100), ("f", "b/.ninja_deps"),
                                      ("r", ["-C", "b", "samu", "-n"], None, None, 100), ("f", "b/.ninja_deps")])
    if r.rc:
        return "the build fails: " + r.out[-300:], "fails"
    try:
        got, got2 = read_log(log), read_log(log2)
    except (ValueError, IndexError, struct.error) as e:
        return f"the log is broken: {e!r}", "log"
    if again.rc:
        return "the second run fails: " + again.out[-200:], "again"
    for i, w in want.items():
        g = got.get(f"o{i}")
        if g is None:
            return f"{ds[i]!r}: nothing is recorded, expected {sorted(w)}: {r.out[-200:]}", "missing"
        if set(g) != w:
            return f"{ds[i]!r}: records {sorted(set(g))[:6]}, expected {sorted(w)[:6]}", "deps"
        if set(got2.get(f"o{i}", ["lost"])) != w:
            return f"{ds[i]!r}: after another run the log has {got2.get(f'o{i}')}", "kept"
    return None, ds[0]


# ---- names of headers, as the compilers write them
def names(deep, cc):
    S = [ch for ch in " !#$%&'()*+,-.:;<=>?@[\\]^_`{|}~\t"] + ["\u00e9"]
    out = []
    for ch in S:
        out += [f"x{ch}y.h", f"{ch}y.h", f"x{ch}", f"x{ch}{ch}y.h", f"d{ch}e/z.h"]
    for a, b in itertools.product(S, repeat=2):
        if deep or a in " #$\\:\t" and b in " #$\\:\t'*a":
            out.append(f"x{a}{b}y.h")
    if deep:
        for t in itertools.product(" #$\\:a", repeat=3):
            out.append("x" + "".join(t) + "y.h")
            out.append("".join(t) + "y.h")
    if cc == "clang":
        out = [n for n in out if "\\" not in n and "\t" not in n]     # written as slashes, tabs are not escaped
    seen = set()
    for n in out:
        # a trailing backslash cannot be told from a continued line, whatever the compiler; //: a comment or an absolute name
        if n in seen or n.endswith("\\") or n in (".", "..") or "//" in n:
            continue
        seen.add(n)
        yield n


def run_names(c, case):
    """objects that include one header each: touching a header rebuilds its object and no other"""
    _, cc, mode, ns = case
    ops = [("w", "s/meson.build", "")]
    nin = f"rule cc\n command = {cc} -MD -MF $out.d -c $in -o $out\n depfile = $out.d\n" + (" deps = gcc\n" if mode == "log" else "")
    # headers in the build directory's include path; the decoy's name differs
    for i, n in enumerate(ns):
        ops.append(("w", f"b/h{i}/{n}", f"int v{i} = 1;\n"))
        ops.append(("w", f"b/s{i}.c", f'#include "h{i}/{n}"\n'))
        nin += f"build o{i}.o: cc s{i}.c\n"
    ops += [("w", "b/build.ninja", nin), ("r", ["-C", "b", "samu"], None, None, 200), ("r", ["-C", "b", "samu", "-v"], None, None, 60)]
    for i, n in enumerate(ns):
        ops += [("u", f"b/h{i}/{n}", (4000000000 + i) * 10**9), ("r", ["-C", "b", "samu", "-n", "-v"], None, None, 60)]
    # the last header disappears
    ops += [("x", f"b/h0/{ns[0]}"), ("r", ["-C", "b", "samu", "-n", "-v"], None, None, 60)]
    R = c.go(ops)
    if R[0].rc:
        return "the build fails: " + R[0].out[-300:], "fails"
    if "-c " in R[1].out:
        return f"a second build compiles again: {R[1].out[-200:]}", "again"
    dirty = set()
    for i, n in enumerate(ns):
        r = R[2 + i]
        dirty.add(i)
        got = {int(x) for x in re.findall(r"-o o(\d+)\.o", r.out)}
        if got != dirty:
            d = sorted(got ^ dirty)
            return f"{cc}, {mode}: after a change of {ns[d[0]]!r} the object {'is not rebuilt' if d[0] in dirty else 'of another is rebuilt'}: {R[0].out[-200:]}", "stale"
    return None, (cc, mode, ns[0])


# ---- histories: what a target depends on changes from build to build
HIST = [("edit", i, d) for i in (0, 1) for d in ("", "a", "b c")] + [("touch", x) for x in "abc"]


def run_hist(c, case):
    _, mode, seqs = case
    nin = "rule d\n command = cp $in $out.d; : > $out\n depfile = $out.d\n" + (" deps = gcc\n" if mode == "log" else "")
    for k, seq in enumerate(seqs):
        ops = [("w", f"{k}/{x}", "") for x in "abc"] + [("w", f"{k}/d{i}", f"o{i}: a\n") for i in (0, 1)]
        ops += [("w", f"{k}/build.ninja", nin + "build o0: d d0\nbuild o1: d d1\n"), ("r", ["-C", str(k), "samu"], None, None, 60)]
        deps, want = {0: {"a"}, 1: {"a"}}, [{0, 1}]
        for st in seq:
            ops.append(("e", ["sleep", "0.01"]))
            if st[0] == "edit":
                ops.append(("w", f"{k}/d{st[1]}", f"o{st[1]}: {st[2]}\n"))
                deps[st[1]] = set(st[2].split())
                want.append({st[1]})
            else:
                ops.append(("w", f"{k}/{st[1]}", "x"))
                want.append({i for i in deps if st[1] in deps[i]})
            ops.append(("e", ["sleep", "0.01"]))
            ops.append(("r", ["-C", str(k), "samu", "-v"], None, None, 60))
        R = c.go(ops)
        runs = R[:1] + R[3::3]
        for j, (r, w) in enumerate(zip(runs, want)):
            got = {int(x) for x in re.findall(r"cp d(\d) ", r.out)}
            if r.rc or got != w:
                return f"history: {seq}, {mode}: step {j} runs {sorted(got)}, expected {sorted(w)}: {r.out[-200:]}", "hist"
    return None, (mode, str(seqs[0]))


def cases(deep):
    for part in mv.chunked(docs(deep), 250):
        yield ("docs", list(part))
    for mode in ("log", "file"):
        for part in mv.chunked(itertools.product(HIST, repeat=4 if deep else 3), 27):
            yield ("hist", mode, list(part))
    for cc in ("gcc", "clang"):
        for mode in ("log", "file"):
            for part in mv.chunked(names(deep, cc), 25):
                yield ("names", cc, mode, list(part))


def one(c, case):
    return {"docs": run_docs, "hist": run_hist, "names": run_names}[case[0]](c, case)


def main():
    ck = mv.Check("B05", "exploration")
    cs = list(cases(ck.thorough))
    ck.add(documents=sum(len(x[1]) for x in cs if x[0] == "docs"), names=sum(len(x[3]) for x in cs if x[0] == "names"))
    clicheck.run(ck, cs, one, chunk=1, limit=60)
    ck.add(exhaustive=True, rule="every depfile of up to 4 (thorough: 5) of 11 tokens, every rule head x body x end, every sequence of up to 3 (thorough: 4) rules, and lists and names at every buffer size, "
           "against a reference reader, through the log's own format; every header name with one of 32 characters in 5 places and pairs of them, as gcc and clang write it, with and without the log: "
           "one header changes, exactly its object is rebuilt; every history of up to 3 (thorough: 4) edits of what two targets depend on and of the files they depend on, a build after each")
    ck.sample("o: a\\\\ b $$x \\\n c")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
