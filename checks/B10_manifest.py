#!/usr/bin/env python3
"""B10: a ninja file means what ninja's manual says: scopes, evaluation, escapes, paths, includes, defaults, and what the tools (-t) say about it."""
import collections
import itertools
import json
import os
import re
import struct
import subprocess
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import mv

_C = {}


class Bad(Exception):
    pass


# ---- the reference: ninja's manual
class Env:
    def __init__(self, parent=None):
        self.vars, self.rules, self.parent = {}, {}, parent

    def get(self, v):
        return self.vars[v] if v in self.vars else self.parent.get(v) if self.parent else ""

    def rule(self, r):
        return self.rules[r] if r in self.rules else self.parent.rule(r) if self.parent else None


class Edge:
    def var(self, v, esc=True, seen=()):
        q = quote if esc else str
        if v == "in":
            return " ".join(map(q, self.ins))
        if v == "in_newline":
            return "\n".join(map(q, self.ins))
        if v == "out":
            return " ".join(map(q, self.outs))
        if v in self.vars:
            return self.vars[v]
        if v in self.rule[1]:
            if v in seen:
                raise Bad("cycle in " + v)
            return "".join(self.var(x, esc, seen + (v,)) if k else x for k, x in self.rule[1][v])
        return self.env.get(v)


def quote(p):
    return p if re.fullmatch(r"[A-Za-z0-9_+./-]+", p) else "'" + p.replace("'", "'\\''") + "'"


def canon(p):
    if not p:
        raise Bad("empty path")
    out = []
    for c in p.split("/"):
        if c in ("", "."):
            continue
        if c == ".." and out and out[-1] != "..":
            out.pop()
        else:
            out.append(c)
    return ("/" if p[0] == "/" else "") + "/".join(out) or "."


class Ninja:
    def __init__(self, files, main="build.ninja"):
        self.files, self.edges, self.gen, self.use, self.pools, self.defaults = files, [], {}, collections.defaultdict(list), {"": 0, "console": 1}, []
        self.root = Env()
        self.root.rules["phony"] = ("phony", {})
        self.file(main, self.root)
        for e in self.edges:  # what is looked up when the file is read
            if e.pool not in self.pools:
                raise Bad("unknown pool")

    def file(self, name, env):
        if name not in self.files:
            raise Bad("no file " + name)
        t = self.files[name]
        pos = 0

        def sp():
            nonlocal pos
            pos = re.compile(r"(?: |\$\r?\n)*").match(t, pos).end()

        def name_():
            nonlocal pos
            m = re.compile(r"[A-Za-z0-9_.-]+").match(t, pos)
            if not m:
                raise Bad("name")
            pos = m.end()
            sp()
            return m[0]

        def lit(s):
            nonlocal pos
            if not t.startswith(s, pos):
                raise Bad("expected " + s)
            pos += len(s)
            sp()

        def nl():
            nonlocal pos
            m = re.compile(r"\r?\n").match(t, pos)
            if not m:
                raise Bad("newline")
            pos = m.end()

        def string(path):
            nonlocal pos
            out = []
            while pos < len(t):
                c = t[pos]
                if c in "\r\n" or (path and c in " :|"):
                    break
                m = re.compile(r"\$(?:([$ :])|\{([A-Za-z0-9_.-]+)\}|([A-Za-z0-9_-]+)|\r?\n *)").match(t, pos) if c == "$" else None
                if c == "$" and not m:
                    raise Bad("escape")
                if not m:
                    out.append((0, c))
                    pos += 1
                else:
                    out.append((0, m[1]) if m[1] else (1, m[2] or m[3]) if m[2] or m[3] else (0, ""))
                    pos = m.end()
            if path:
                sp()
            return out

        def paths():
            out = []
            while True:
                p0 = pos
                s = string(True)
                if pos == p0 or not s:
                    return out
                out.append(s)

        def ev(s, get):
            return "".join(get(x) if k else x for k, x in s)

        def block():
            nonlocal pos
            out = []
            while True:
                m = re.compile(r"(?: (?: |\$\r?\n)*)?#[^\n]*(\n|$)").match(t, pos)
                if m and pos < len(t):
                    pos = m.end()
                    continue
                p0 = pos
                sp()
                if pos == p0:
                    return out
                if re.compile(r"\r?\n").match(t, pos):
                    nl()
                    return out
                v = name_()
                lit("=")
                out.append((v, string(False)))
                nl()

        while True:
            m = re.compile(r"(?: (?: |\$\r?\n)*)?(#[^\n]*(\n|$)|\r?\n)").match(t, pos)
            if m and pos < len(t):
                pos = m.end()
                continue
            if pos >= len(t):
                return
            if t[pos] == " ":
                raise Bad("indent")
            k = name_()
            if k == "rule":
                r = name_()
                nl()
                b = dict(block())
                if not b.get("command") or ("rspfile" in b and bool(b["rspfile"])) != ("rspfile_content" in b and bool(b["rspfile_content"])):
                    raise Bad("rule")
                if r in env.rules:
                    raise Bad("rule twice")
                env.rules[r] = (r, b)
            elif k == "pool":
                p = name_()
                nl()
                b = [(v, ev(s, env.get)) for v, s in block()]
                if p in self.pools or any(v != "depth" for v, _ in b) or not b or not re.fullmatch("[1-9][0-9]*", b[-1][1]):
                    raise Bad("pool")
                self.pools[p] = int(b[-1][1])
            elif k in ("include", "subninja"):
                s = string(True)
                if not s:
                    raise Bad("include")
                nl()
                self.file(ev(s, env.get), env if k == "include" else Env(env))
            elif k == "default":
                ps = [canon(ev(s, env.get)) for s in paths()]
                nl()
                for p in ps:
                    if p not in self.gen and not self.use.get(p):
                        raise Bad("unknown default")
                self.defaults += ps
            elif k == "build":
                outs, iouts = paths(), []
                if t.startswith("|", pos):
                    lit("|")
                    iouts = paths()
                if not outs + iouts:
                    raise Bad("no output")
                lit(":")
                r = env.rule(name_())
                if not r:
                    raise Bad("no rule")
                ins = [paths(), [], []]
                if t.startswith("|", pos) and not t.startswith("||", pos):
                    lit("|")
                    ins[1] = paths()
                if t.startswith("||", pos):
                    lit("||")
                    ins[2] = paths()
                nl()
                e = Edge()
                e.env, e.rule, e.vars = env, r, {}
                for v, s in block():
                    e.vars[v] = ev(s, env.get)

                def get(v):
                    return e.vars[v] if v in e.vars else env.get(v)
                e.outs = [canon(ev(s, get)) for s in outs]
                e.allouts = e.outs + [canon(ev(s, get)) for s in iouts]
                ii = [[canon(ev(s, get)) for s in x] for x in ins]
                e.ins, e.allins = ii[0], sum(ii, [])
                for o in e.allouts:
                    if o in self.gen:
                        raise Bad("output twice")
                    self.gen[o] = e
                for i in e.allins:
                    self.use[i].append(e)
                e.pool = e.var("pool")
                if e.pool and e.pool not in self.pools:
                    raise Bad("unknown pool")
                self.edges.append(e)
            else:
                lit("=")
                v = ev(string(False), env.get)
                nl()
                if k == "ninja_required_version":
                    m = re.match(r"\d+(?:\.(\d+))?", v)
                    if not m or (int(v.split(".")[0]), int(m[1] or 0)) > (1, 9):
                        raise Bad("version")
                env.vars[k] = v

    def roots(self):
        return self.defaults or [o for e in self.edges for o in e.allouts if not self.use.get(o)]

    def closure(self, ps):
        out, todo = [], list(ps)
        seen = set()

        def go(p):
            e = self.gen.get(p)
            if not e or e in seen:
                return
            seen.add(e)
            for i in e.allins:
                go(i)
            out.append(e)
        for p in todo:
            go(p)
        return out

    def cyclic(self):
        state = {}

        def go(e):
            if state.get(e) == 1:
                return True
            if state.get(e) == 2:
                return False
            state[e] = 1
            r = any(go(self.gen[i]) for i in e.allins if i in self.gen)
            state[e] = 2
            return r
        return any(go(e) for e in self.edges)


# ---- the real one
def samu(d, *args):
    srv = _C.get("srv")
    if srv is None:
        srv = _C["srv"] = subprocess.Popen([_C["srvexe"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    m = b"".join(a.encode() + b"\0" for a in (d, "muon", "samu") + args)
    srv.stdin.write(struct.pack("<I", len(m)) + m)
    srv.stdin.flush()
    h = srv.stdout.read(12)
    if len(h) < 12:
        raise mv.Infra("the server of B10 ended")
    st, no, ne = struct.unpack("<iII", h)
    out, err = srv.stdout.read(no), srv.stdout.read(ne)
    return os.waitstatus_to_exitcode(st), out.decode("utf8", "replace"), err.decode("utf8", "replace")


def judge(d, files, tools):
    for f, t in files.items():
        with open(os.path.join(d, f), "w", newline="") as h:
            h.write(t)
    try:
        n = Ninja(files)
        cmds = [(e, e.var("command")) for e in n.closure(n.roots())]
        error = None
    except Bad as x:
        error = str(x)
    rc, out, err = samu(d, "-t", "commands")
    if rc not in (0, 1):
        return f"ends with {rc}: {err[-300:]}"
    if error is not None:
        if rc == 0:
            return f"accepts what is wrong ({error}): {out!r}"
        return None if err.strip() else "fails without a message"
    if rc:
        return f"refuses it: {err.strip()}"
    want = collections.Counter(c for e, c in cmds if e.rule[0] != "phony" and c)
    text = "".join(c + "\n" for c in sorted(want.elements()))
    if sorted(text) != sorted(out) or any(c not in out for c in want):
        return f"-t commands prints {out!r} for {text!r}"
    if not n.cyclic() and len(want) == len([1 for e, c in cmds if c]) and all(out.count(c) == 1 for c in want):
        at = {e: out.index(c) for e, c in cmds if c}
        for e in at:
            for i in e.allins:
                x = n.gen.get(i)
                if x in at and at[x] > at[e]:
                    return f"-t commands prints the command of {e.outs} before that of {i}: {out!r}"
    if not tools:
        return None
    for p in sorted(set(n.gen) | {p for p, u in n.use.items() if u}):
        rc, out, err = samu(d, "-t", "query", p)
        e = n.gen.get(p)
        w = f"{p}:\n" + (f"  input: {e.rule[0]}\n" + "".join(f"    {i}\n" for i in e.allins) if e else "") + "  outputs:\n"
        us = sorted({f"    {o}" for x in n.use.get(p, ()) for o in x.allouts})
        if rc or not out.startswith(w) or sorted(set(out[len(w):].splitlines())) != us:
            return f"-t query {p!r} says {out!r} ({rc} {err}); in order: {w!r}, then {us}"
    rc, out, err = samu(d, "-t", "targets", "all")
    w = sorted(f"{o}: {e.rule[0]}" for e in n.edges for o in e.allouts)
    if rc or sorted(out.splitlines()) != w:
        return f"-t targets all says {out!r}, not {w}"
    for r in sorted({e.rule[0] for e in n.edges}):
        rc, out, err = samu(d, "-t", "targets", "rule", r)
        w = sorted(o for e in n.edges if e.rule[0] == r for o in e.allouts)
        if rc or sorted(out.splitlines()) != w:
            return f"-t targets rule {r} says {out!r}, not {w}"
    rc, out, err = samu(d, "-t", "compdb", "-a")
    w = sorted((e.var("command"), e.allins[0], e.allouts[0]) for e in n.edges if e.allins and e.rule[0] != "phony")
    try:
        j = json.loads(out)
    except ValueError:
        return f"-t compdb is not JSON: {out!r}"
    if rc or sorted((x["command"], x["file"], x["output"]) for x in j) != w:
        return f"-t compdb says {out!r}, not {w}"
    # cleaning
    ever = sorted((set(n.gen) | {p for p, u in n.use.items() if u} | {e.var(v, False) for e in n.edges for v in ("rspfile", "depfile")}) - {"", "."})
    if any(p.startswith(("/", "..")) or q.startswith(p + "/") for p in ever for q in ever) or set(files) & set(ever) or "." in n.gen or "." in n.use:
        return None

    def built(e):
        return set(e.allouts) | {e.var("rspfile", False), e.var("depfile", False)} - {""}
    runs = [([], [e for e in n.edges if e.rule[0] != "phony" and not e.var("generator")]), (["-g"], [e for e in n.edges if e.rule[0] != "phony"])]
    runs += [(["-r", r], [e for e in n.edges if e.rule[0] == r]) for r in sorted({e.rule[0] for e in n.edges} & set(n.root.rules)) if r != "phony"]
    runs += [([p], [e for e in n.closure([p]) if e.rule[0] != "phony"]) for p in sorted(n.gen)]
    for args, es in runs:
        w = os.path.join(d, "w")
        os.makedirs(w, exist_ok=True)
        for f, t in files.items():
            with open(os.path.join(w, f), "w", newline="") as h:
                h.write(t)
        for p in ever:
            os.makedirs(os.path.dirname(os.path.join(w, p)) or w, exist_ok=True)
            open(os.path.join(w, p), "a").close()
        rc, out, err = samu(w, "-t", "clean", *args)
        left = {p for p in ever if os.path.exists(os.path.join(w, p))}
        gone = set().union(*map(built, es)) if es else set()
        if len(args) == 1 and args[0] != "-g":
            # other outputs of the same command may stay
            must = {o for e in es for o in built(e) if o == args[0] or o in {i for x in es for i in x.allins}}
        else:
            must = gone
        if rc or left & must or (set(ever) - gone) - left:
            return f"-t clean {args} ends with {rc} {err.strip()!r} and leaves {sorted(left)}; it should remove {sorted(must)} and nothing but {sorted(gone)}"
    return None


# ---- what is enumerated
RULE = "rule r\n  command = c $in > $out\n"
PIECES = ["a", "$$", "$ ", "$:", "$v", "${v}", "$v.w", "${v.w}", "$undef", "$-", "$\n", "$\n   ", "$\r\n ", ":", "|", " ", "#", "'", '"', "\\", "\t", "/", ".", "..", "$in", "${out}", "$", "${", "${}", "$\r", "\r", "=", "\u00e9"]


def lexical(deep):
    V = "v = V$ V\nv.w = W\n"
    n = 3 if deep else 2
    texts = ["".join(t) for k in range(n + 1) for t in itertools.product(PIECES, repeat=k)]
    if not deep:
        small = ["a", "$v", "$\n  ", " ", "$ ", ":", "|", "#", "$$", "/", ".."]
        texts += ["".join(t) for t in itertools.product(small, repeat=3)]
    for t in dict.fromkeys(texts):
        for k, f in enumerate((V + RULE + "x = %s\nbuild o: r i\n  command = e $x\n", V + "rule r\n  command = c%s\nbuild o: r i\n", V + "rule r\n  command = c $y\nbuild o: r i\n  y = %s\n",
                               V + RULE + "build o: r %s\n", V + RULE + "build %s: r i\n", V + RULE + "build o: r i\ndefault %s\n", V + RULE + "build o: r i\nbuild oa: r i\ndefault o%s\n")):
            yield {"build.ninja": f % t}
            if k in (0, 2) and len(t) <= 4:
                yield {"build.ninja": (f % t).replace("\n", "\r\n")}
    for end in ("", " ", "$", " $", "#", " #", "\r", "\r\n", "$\n", " \n", "  #c\n", "\n\n"):
        for t in (V, RULE, RULE + "build o: r i", RULE + "build o: r", RULE + "build o: r i\n  x = 1", "x =", "x = 1", "include s", "rule", "build", "default", RULE + "build o: r i\ndefault o", "pool p\n  depth = 1", "pool p"):
            yield {"build.ninja": t + end, "s": "y = 1\n"}


def structure():
    parts = [["", "a", "a b"], ["", " |", " | c"], ["", " d", " d e", " a"], ["", " |", " | f", " | d"], ["", " ||", " || g", " || d f"]]
    for o, io, i, ii, oo in itertools.product(*parts):
        yield {"build.ninja": RULE + f"build {o}{io}: r{i}{ii}{oo}\n"}
        yield {"build.ninja": RULE + f"build {o}{io}: phony{i}{ii}{oo}\nbuild z: r {o}\n"}
    ps = ["a", "./a", "a/", "a//b", "a/./b", "a/../b", "../a", "../../a", "a/..", ".", "..", "./..", "a/b/../..", "a/../..", "/a/../b", "/a//b/.", "...", "a/...", ".a", "..a", "a..", "a/.b/..c", "a/b/c/../../d/../e", "../a/../b", "a.b/c", "./.././a"]
    for p, q in itertools.product(ps, repeat=2):
        yield {"build.ninja": RULE + f"build {p}: r {q}\nbuild zz: r {p} {q}\n"}


SUBS = ["v = S\n", "rule q\n  command = Q $v\n", "build so: r si\n", "build so: r si\n  v = E\n", "v = S\nbuild so: r si\n", "w = $v\n", "rule r\n  command = R2 $v $in\nbuild so: r si\n", "subninja s2\n", "include s2\nbuild so: r si\n",
        "default $o\n", "pool p\n  depth = 1\n"]
STATES = ["v = 1\n", "v = $v.2\n", "w = x$v\n", "rule r\n  command = C $v $w $in\n", "rule r\n  command = $d\n  d = D $v $w\n  v = rv\n", "build o: r i\n", "build o2: r o\n  v = e$v\n  w = f$v\n", "include s\n", "subninja s\n",
          "build $v: r $w\n  w = i\n", "build o3: q i\n", "default o\n", "pool p\n  depth = 2\n", "build o4: r i\n  pool = p\n"]


def scopes(deep):
    for k in range(1, 5 if deep else 4):
        for t in itertools.product(STATES, repeat=k):
            text = "".join(t)
            if "s\n" not in (x[-2:] for x in t if x.startswith(("inc", "sub"))):
                yield {"build.ninja": text}
            elif k < 4:
                for s in SUBS:
                    yield {"build.ninja": text, "s": s, "s2": "v = 2\n"}
    # inclusion between rule and use
    for a, b, s in itertools.product(STATES[:3] + ["", "o = i\n"], ["build o: r i\n", "build o: r i\n  v = e$v\n", "build o: q i\n", "build o: r so\n", "build o$v: r i\n"], SUBS):
        for kind in ("include", "subninja"):
            yield {"build.ninja": a + STATES[3] + f"{kind} s\n" + b, "s": s, "s2": "v = 2\nw = 3\n"}
            yield {"build.ninja": a + STATES[4] + f"f = s\n{kind} $f\n" + b + STATES[1] + "build last: r $v\n", "s": s, "s2": "v = 2\nw = 3\n"}


def rules():
    vs = {"description": "d $in", "depfile": "$out.d", "rspfile": "$out.rsp", "rspfile_content": "$in_newline", "generator": "1", "restat": "1", "pool": "console", "command": "z $out"}
    for t in itertools.product(("", "1"), repeat=len(vs)):
        b = "".join(f"  {k} = {v}\n" for (k, v), on in zip(vs.items(), t) if on)
        yield {"build.ninja": "rule r\n  command = c $in $rspfile $depfile\n" + b + "build o p: r i j\nbuild x | y: r o\n  generator =\nbuild all: phony x o\n"}
    for c in ("$command", "$a", "$in $b", "$b$b"):
        for a in ("$b", "1", "$a"):
            for b in ("$a", "2", "$command", "$c"):
                yield {"build.ninja": f"c = $b\nrule r\n  command = x {c}\n  a = {a}\n  b = {b}\nbuild o: r i\n"}
                yield {"build.ninja": f"c = $b\nrule r\n  command = x {c}\n  a = {a}\n  b = {b}\nbuild o: r i\n  a = q$a\n"}
    for v in ("1", "1.0", "1.8", "1.9", "1.10", "1.99", "2", "2.0", "0.9", "x", "", "1.8.2", "1.x"):
        yield {"build.ninja": f"ninja_required_version = {v}\n" + RULE + "build o: r i\n"}
    for v in ("1", "0", "-1", "x", "1x", "", "$v", " 2", "999999999"):
        yield {"build.ninja": f"v = 3\npool p\n  depth = {v}\n" + RULE + "build o: r i\n  pool = p\n"}


def graphs():
    nodes = ["a", "b", "c"]
    ins = [[], ["a"], ["b"], ["c"], ["s"], ["a", "b"], ["b", "c"], ["s", "c"]]
    forms = [("r", " "), ("phony", " "), ("r", " | "), ("r", " || ")]
    for (x, y, z) in itertools.product(ins, ins, ins[::2]):
        for f1, f2 in itertools.product(forms, forms[:2]):
            t = RULE + "rule q\n  command = q $out\n  depfile = $out.d\n  generator = 1\n"
            for n_, i, f in zip(nodes, (x, y, z), (f1, f2, ("q", " "))):
                t += f"build {n_}{' | k' if n_ == 'b' else ''}: {f[0]}{f[1] if i else ''}{' '.join(i)}\n"
            yield {"build.ninja": t}
            yield {"build.ninja": t + "default a b\n"}


def programs(deep):
    """(files, whether the tools are asked too)"""
    for f in lexical(deep):
        yield f, "build %s" not in f and f["build.ninja"].endswith("i\n") and len(f["build.ninja"]) < 62
    for k, f in enumerate(structure()):
        yield f, deep or k % 4 == 0
    for f in scopes(deep):
        yield f, False
    for f in rules():
        yield f, True
    for k, f in enumerate(graphs()):
        yield f, deep or k % 16 == 0


def work(ps):
    bad = []
    with mv.Scratch("b10") as d:
        for k, (files, tools) in enumerate(ps):
            dd = os.path.join(d, str(k)) if tools else d
            os.makedirs(dd, exist_ok=True)
            for f in ("s", "s2"):
                if f not in files and os.path.isfile(os.path.join(dd, f)):
                    os.remove(os.path.join(dd, f))
            w = judge(dd, files, tools)
            if w:
                bad.append((f"samu with {files!r}: {w}", repr(files)))
    srv = _C.pop("srv")
    srv.stdin.close()
    srv.wait()
    return len(ps), sum(1 for _, t in ps if t), bad


def main():
    ck = mv.Check("B10", "exploration")
    _C["srvexe"] = mv.build_harness("forksrv", ["forksrv.c"], "rel", with_main=True)
    ps = list({repr(f): (f, t) for f, t in programs(ck.thorough)}.values())
    jobs = [ps[i:i + 150] for i in range(0, len(ps), 150)]
    seen, tools = collections.Counter(), 0
    for n, t, bad in mv.pmap(work, jobs):
        ck.add(evaluations=n)
        tools += t
        for what, key in bad:
            c = re.sub(r"'[^']*'", "_", what.split("}: ")[-1])[:50]
            if seen[c] < int(os.environ.get("B10_SEEN") or 5):
                ck.violation(what, key, key=key)
            seen[c] += 1
    ck.add(distinct_nontrivial=len(ps), asked_by_tools=tools, exhaustive=True,
           rule="escapes and separators in every place; structures of build statements; pairs of paths; sequences of scopes, rules, includes; rule variables; graphs with the tools")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
