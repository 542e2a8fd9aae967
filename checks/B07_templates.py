#!/usr/bin/env python3
"""B07: the @...@ templates of custom_target, generator, run_target and configure_file(command:) stand for the files
and directories they name, in every place a command can be declared and for every kind and number of inputs."""
import itertools
import os
import re
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import clicheck
import mv

LOCS = ["", "d1", "d1/d2", "subprojects/s", "subprojects/s/d3"]
KINDS = ["src", "noext", "deep", "abs", "dots", "hidden", "par", "ct", "ct2", "ct2i", "gen", "conf", "str2"]
KEYS = ["INPUT", "OUTPUT", "INPUT0", "INPUT1", "INPUT2", "INPUT3", "OUTPUT0", "OUTPUT1", "OUTPUT2", "OUTDIR", "DEPFILE", "PLAINNAME", "BASENAME", "PRIVATE_DIR", "SOURCE_ROOT",
        "BUILD_ROOT", "BUILD_DIR", "CURRENT_SOURCE_DIR", "EXTRA_ARGS", "NOPE", "INPUTx", "input", "INPUT ", " OUTPUT"]
FORMS = ["@{}@", "x@{}@", "@{}@/y", "@{0}@@{0}@", "-@{}@=@SOURCE_ROOT@", "@@{}@@", "@{}", "{}@", "a@b@{}@c@d"]
OUTS = [["{}"], ["{}", "{}.second"]]
DEEP = [False]
TOK = ["@", "x", "INPUT", "OUTPUT", "OUTPUT0", "NOPE"]


class Err(Exception):
    pass


def q(x):
    return "'" + x.replace("\\", "\\\\").replace("'", "\\'") + "'"


def inputs(kinds, loc, tname, i0=0):
    """-> (declarations, expressions, files written, paths relative to the root of the tree, those of generated lists apart)"""
    decl, ex, files, paths = [], [], {}, []
    L = loc + "/" if loc else ""
    for i, k in enumerate(kinds, i0):
        if k == "src":
            n = f"s{i}.txt"
            ex.append(q(n)), paths.append(L + n)
            files[L + n] = n
        elif k == "noext":
            n = f"noext{i}"
            ex.append(f"files({q(n)})"), paths.append(L + n)
            files[L + n] = n
        elif k == "deep":
            n = f"dd/ee/n{i}.c"
            ex.append(q(n)), paths.append(L + n)
            files[L + n] = n
        elif k == "dots":
            n = f"a.b{i}.c.tar"
            ex.append(f"files({q(n)})"), paths.append(L + n)
            files[L + n] = n
        elif k == "hidden":
            n = f".h{i}.x"
            ex.append(q(n)), paths.append(L + n)
            files[L + n] = n
        elif k == "abs":
            n = f"abs{i}.txt"
            ex.append(f"meson.current_source_dir() / {q(n)}"), paths.append(L + n)
            files[L + n] = n
        elif k == "par":
            ex.append("parent_file"), paths.append("root.txt" if not loc.startswith("sub") else "subprojects/s/root.txt")
        elif k == "str2":
            a, b = f"p{i}.txt", f"q{i}.txt"
            ex.append(f"[{q(a)}, [files({q(b)})]]")
            paths += [L + a, L + b]
            files[L + a] = files[L + b] = ""
        elif k in ("ct", "ct2", "ct2i"):
            o = [f"c{i}.out"] if k == "ct" else [f"c{i}.o1", f"c{i}.o2"]
            decl.append(f"c{i} = custom_target('c{i}', output: [{', '.join(map(q, o))}], command: ['touch', '@OUTPUT@'])")
            ex.append(f"c{i}" + ("[1]" if k == "ct2i" else ""))
            paths += [f"b/{L}{x}" for x in (o[1:] if k == "ct2i" else o)]
        elif k == "gen":
            a, b = f"g{i}.in", f"h{i}"
            files[L + a] = files[L + b] = ""
            decl.append(f"g{i} = generator(find_program('cp'), output: '@BASENAME@.gen', arguments: ['@INPUT@', '@OUTPUT@'])")
            ex.append(f"g{i}.process({q(a)}, {q(b)})")
            paths += [f"b/{L}{tname}.p/g{i}.gen", f"b/{L}{tname}.p/h{i}.gen"]
        elif k == "conf":
            decl.append(f"f{i} = configure_file(output: 'conf{i}.h', configuration: {{'A': 1}})")
            ex.append(f"f{i}"), paths.append(f"b/{L}conf{i}.h")
    return decl, ex, files, paths


def base(p):
    return p.rsplit("/", 1)[-1]


def stem(p):
    b = base(p)
    i = b.rfind(".")
    return b[:i] if i > 0 else b


class St:
    """what the templates of one command stand for"""
    def __init__(self, fn, loc, name, ins, outs, dep, root, extra=None, priv=None, has_in=True):
        self.fn, self.loc, self.name, self.ins, self.outs, self.dep, self.root, self.extra, self.priv, self.has_in = fn, loc, name, ins, outs, dep, root, extra, priv, has_in

    def path(self, p):
        """p relative to the root of the source tree"""
        if self.fn == "configure_file":
            return os.path.join(self.root, p).rstrip("/")
        return os.path.relpath("/r/" + p, "/r/b")

    def key(self, k):
        """the value of a known key; None: not a key"""
        fn, b = self.fn, "b/" + self.loc if self.loc else "b"
        m = re.fullmatch(r"(INPUT|OUTPUT)([0-9]*)", k)
        if m:
            L = self.ins if m[1] == "INPUT" else self.outs
            if m[2] == "":
                if len(L) != 1:
                    raise Err
                return self.path(L[0])
            if int(m[2]) >= len(L):
                raise Err
            return self.path(L[int(m[2])])
        if k == "OUTDIR":
            if not self.outs:
                raise Err
            return self.path(b)
        if k == "DEPFILE":
            if not self.dep:
                raise Err
            return self.path(self.dep)
        if k in ("PLAINNAME", "BASENAME"):
            if len(self.ins) != 1:
                raise Err
            return base(self.ins[0]) if k[0] == "P" else stem(self.ins[0])
        if k == "PRIVATE_DIR":
            if not self.outs or fn != "custom_target":
                raise Err
            return self.path(f"{b}/{self.name}.p")
        if k == "SOURCE_ROOT":
            return self.path("")
        if k == "BUILD_ROOT":
            return self.path("b")
        if k == "BUILD_DIR":
            if fn != "generator":
                raise Err
            return self.path(self.priv)
        if k == "CURRENT_SOURCE_DIR":
            return self.path(self.loc)
        return None

    def sub(self, t):
        r, i = "", 0
        while i < len(t):
            if t[i] == "@":
                j = t.find("@", i + 1)
                v = self.key(t[i + 1:j]) if j > i + 1 else None
                if v is not None:
                    r += v
                    i = j + 1
                    continue
            r += t[i]
            i += 1
        return r

    def args(self, t):
        """a template -> the arguments it becomes"""
        if t == "@INPUT@":
            if not self.ins:
                raise Err
            return [self.path(p) for p in self.ins]
        if t == "@OUTPUT@":
            if not self.outs:
                raise Err
            return [self.path(p) for p in self.outs]
        if t == "@EXTRA_ARGS@" and self.fn == "generator" and self.extra is not None:
            return list(self.extra)
        return [self.sub(t)]


def templates():
    return list(dict.fromkeys(f.format(k) for k in KEYS for f in FORMS))


def skip(fn, t):
    # neither documented nor refused: what a generator's outputs are relative to, extra arguments that were not given
    return fn == "generator" and "OUTDIR" in t


def project(fn, loc, kinds, nout, dep, name, cmd, root, opt=()):
    """-> (files, [(St, file the arguments are written to)])"""
    dump = q(mv.tool("dumpargv"))
    L = loc + "/" if loc else ""
    if fn == "run_target":
        kinds, nout, dep = (), 0, False
    decl, ex, files, paths = inputs(kinds, loc, name)
    body = "\n".join(decl) + "\n"
    sts = []
    if fn == "custom_target":
        outs = ["t.out", "t.second"][:nout]
        body += f"t = custom_target({q(name)}, output: [{', '.join(map(q, outs))}]" + (f", input: [{', '.join(ex)}]" if kinds else "")
        body += (", depfile: 't.d'" if dep else "") + f", build_by_default: true, command: [{dump}, '@OUTPUT0@', {cmd}])\n"
        st = St(fn, loc, name, paths, [f"b/{L}{o}" for o in outs], f"b/{L}t.d" if dep else None, root, has_in=bool(kinds))
        sts.append((st, f"b/{L}t.out"))
    elif fn == "run_target":
        body += f"run_target({q(name)}, command: [{dump}, 'out', {cmd}])\n"
        sts.append((St(fn, loc, name, [], [], None, root), "b/out"))
    elif fn == "configure_file":
        body += "configure_file(output: 'cf.out'" + (f", input: [{', '.join(ex)}]" if kinds else "") + f", command: [{dump}, '@OUTPUT0@', {cmd}])\n"
        sts.append((St(fn, loc, name, paths, [f"b/{L}cf.out"], None, root), f"b/{L}cf.out"))
    elif fn == "generator":
        extra = ["p q", "@INPUT@", "r"]
        outs = ["@BASENAME@.first", "x@PLAINNAME@.second"][:nout]
        body += f"g = generator(find_program({dump}), output: [{', '.join(map(q, outs))}]" + (", depfile: '@PLAINNAME@.d'" if dep else "")
        body += f", arguments: ['@OUTPUT0@', {cmd}])\n"
        keep = "preserve" in opt
        body += f"l = g.process({', '.join(ex)}, extra_args: [{', '.join(map(q, extra))}]"
        pre = ""
        if keep:
            pre = [L.rstrip("/"), L + "dd", ""][opt[1]]
            if any(not (p + "/").startswith(pre + "/" if pre else "") or p.startswith("b/") for p in paths):
                return None
            body += f", preserve_path_from: meson.project_source_root() / {q(os.path.relpath('/r/' + pre, '/r/subprojects/s' if loc.startswith('sub') else '/r'))}"
        body += f")\ncustom_target({q(name)}, input: l, output: 'all', build_by_default: true, command: ['touch', '@OUTPUT@'])\n"
        priv = f"b/{L}{name}.p"
        seen = set()
        for p in paths:
            d = priv
            if keep:
                r = os.path.dirname(os.path.relpath("/r/" + p, "/r/" + pre))
                d = os.path.join(priv, r) if r else priv
            o = [f"{d}/{stem(p)}.first", f"{d}/x{base(p)}.second"][:nout]
            if o[0] in seen:
                return None
            seen.add(o[0])
            sts.append((St(fn, loc, name, [p], o, f"{d}/{base(p)}.d" if dep else None, root, extra, priv), o[0]))
    files[L + "meson.build"] = body
    files["root.txt"] = "root"
    pj = "project('p')\nparent_file = files('root.txt')\n"
    if loc.startswith("subprojects"):
        files["meson.build"] = "project('p')\nsubproject('s')\n"
        files["subprojects/s/root.txt"] = "sroot"
        files["subprojects/s/meson.build"] = pj + (body if loc == "subprojects/s" else "subdir('d3')\n")
    elif loc == "":
        files["meson.build"] = pj + body
    else:
        files["meson.build"] = pj + "subdir('d1')\n"
        if loc == "d1/d2":
            files["d1/meson.build"] = "subdir('d2')\n"
    return files, sts


def run(c, case):
    fn, loc, kinds, nout, dep, name, opt, ts = case
    pr = project(fn, loc, kinds, nout, dep, name, "", c.d, opt)
    if pr is None:
        return None, "skipped"
    sts = pr[1]
    if ts is None:
        ts = templates()
    good, bad = [], []
    for t in ts:
        if skip(fn, t):
            continue
        try:
            for st, _ in sts:
                st.args(t)
            good.append(t)
        except Err:
            bad.append(t)
    out = set()
    # all that can be replaced, in one command
    files, sts = project(fn, loc, kinds, nout, dep, name, ",\n".join(map(q, good)), c.d, opt)
    ops = [("w", k, v) for k, v in files.items()] + [("r", ["setup", "b"])]
    tgt = []
    if fn == "run_target":
        tgt = [("subprojects/s/" if 0 else "") + ("s@@" if loc.startswith("sub") else "") + name]
    if fn != "configure_file":
        ops.append(("r", ["samu", "-C", "b"] + tgt, ".", {}, 60))
    ops += [("f", o) for _, o in sts]
    r = c.go(ops)
    n = 1 if fn == "configure_file" else 2
    for x in r[:n]:
        if x.rc:
            return f"{fn}: a command with templates that are all valid fails: {x.out[-400:]}", "fail"
    for (st, o), got in zip(sts, r[n:]):
        if got is None:
            return f"{fn}: {o} was not written", "fail"
        got = got.split(b"\0")[:-1]
        i = 0
        for t in good:
            w = [x.encode() for x in st.args(t)]
            if got[i:i + len(w)] != w:
                return f"{fn} in '{loc}' with inputs {kinds}: {t!r} becomes {got[i:i + len(w)]} instead of {w}", "bad"
            i += len(w)
            out.add((t, tuple(w)))
        if i != len(got):
            return f"{fn}: too many arguments: {got[i:][:4]}", "bad"
    # all that cannot, one at a time
    if not (len(kinds) < 2 and loc in ("", "subprojects/s") and not opt) and not (DEEP[0] and len(kinds) < 2):
        bad = [t for t in bad if t[0] == "@" and t[1:-1] in KEYS or DEEP[0] and t[0] == "x"]
    for t in bad:
        files, _ = project(fn, loc, kinds, nout, dep, name, q(t), c.d, opt)
        r, = c.go([("w", k, v) for k, v in files.items()] + [("r", ["setup", "b"])])
        if r.rc != 1 or "error" not in r.out:
            return f"{fn} with {len(sts[0][0].ins)} inputs and {nout} outputs: {t!r} stands for nothing, but setup ends with {r.rc}: {r.out[-300:]}", "accepted"
        out.add((t, None))
    return None, hash(tuple(sorted(map(str, out))))


ALL1 = ["src", "noext", "deep", "abs", "dots", "hidden", "par", "ct", "ct2i", "conf"]


def outnames(deep):
    """templates of outputs and depfiles"""
    toks = ["@", "BASENAME", "PLAINNAME", "x", "-", "@BASENAME@", "@PLAINNAME@"]
    for n in range(1, 5 if deep else 4):
        for t in itertools.product(toks, repeat=n):
            s = "".join(t)
            yield s


def names_case(c, case):
    """output and depfile templates: one project with many targets"""
    _, loc, kind, L = case
    L = [s for s in dict.fromkeys(L)]
    Ld = loc + "/" if loc else ""
    decl, ex, files, paths = inputs([kind], loc, "zz")
    b, st = base(paths[0]), stem(paths[0])

    def sub(s):
        r, i = "", 0
        while i < len(s):
            if s[i] == "@":
                j = s.find("@", i + 1)
                if j > i + 1:
                    k = s[i + 1:j]
                    if k not in ("BASENAME", "PLAINNAME"):
                        raise Err
                    r += b if k[0] == "P" else st
                    i = j + 1
                    continue
            r += s[i]
            i += 1
        return r
    good, bad, seen = [], [], set()
    for s in L:
        try:
            o = sub(s)
        except Err:
            bad.append(s)
            continue
        if o not in seen:
            seen.add(o)
            good.append((s, o))
    body = "\n".join(decl) + "\n"
    dump = q(mv.tool("dumpargv"))
    for i, (s, o) in enumerate(good):
        body += f"custom_target('t{i}', input: {ex[0]}, output: {q('o' + s)}, depfile: {q(s + '.d')}, build_by_default: true, command: [{dump}, '@OUTPUT@', '@DEPFILE@'])\n"

    def mk(body):
        f = dict(files)
        f["root.txt"] = ""
        if loc:
            f["meson.build"] = "project('p')\nparent_file = files('root.txt')\nsubdir('d1')\n"
            f["d1/meson.build"] = body
        else:
            f["meson.build"] = "project('p')\nparent_file = files('root.txt')\n" + body
        return [("w", k, v) for k, v in f.items()]
    if good:
        r = c.go(mk(body) + [("r", ["setup", "b"]), ("r", ["samu", "-C", "b"], ".", {}, 60)] + [("f", f"b/{Ld}o{o}") for _, o in good])
        for x in r[:2]:
            if x.rc:
                return f"output templates: a step fails: {x.out[-300:]}", "fail"
        for (s, o), got in zip(good, r[2:]):
            w = f"{Ld}{o}.d\0".encode()
            if got != w:
                return f"output 'o{s}' of {b!r}: o{o} holds {got!r} instead of {w!r}", "bad"
    for s in bad:
        for kw in (f"output: {q(s)}", f"output: 'o', depfile: {q(s)}"):
            r, = c.go(mk("\n".join(decl) + f"\ncustom_target('t', input: {ex[0]}, {kw}, command: ['true'])\n") + [("r", ["setup", "b"])])
            if r.rc != 1 or "error" not in r.out and "err " not in r.out:
                return f"{kw} ends with {r.rc}: {r.out[-200:]}", "accepted"
    return None, (kind, loc, len(good), len(bad), good[-1:] and good[-1][1])


BOUND = [
    # (body, must setup succeed, what the build must make: file -> content or None)
    ("custom_target('x', output: 'o', command: ['cat'], feed: true, capture: true, build_by_default: true)\n", False, {}),
    ("custom_target('x', input: [], output: 'o', command: ['cat'], feed: true, capture: true)\n", False, {}),
    ("custom_target('x', input: 'in', output: 'o', command: ['cat'], feed: true, capture: true, build_by_default: true)\n", True, {"o": "IN\n"}),
    ("custom_target('x', input: 'in', output: 'o', command: ['cat', '-', '@INPUT@'], feed: true, capture: true, build_by_default: true)\n", True, {"o": "IN\nIN\n"}),
    ("custom_target('x', input: 'in', output: 'o', command: [], build_by_default: true)\n", False, {}),
    ("custom_target('x', input: 'in', output: 'o', command: [[]], build_by_default: true)\n", False, {}),
    ("custom_target('x', input: 'in', output: [], command: ['true'])\n", False, {}),
    ("custom_target('x', input: 'in', output: 'a/b', command: ['true'])\n", False, {}),
    ("custom_target('x', input: 'in', output: '', command: ['true'])\n", False, {}),
    ("custom_target('x', input: 'missing', output: 'o', command: ['true'])\n", False, {}),
    ("custom_target('x', input: 'in', output: 'o', depfile: 'a/b', command: ['true'])\n", False, {}),
    ("custom_target('x', input: 'in', output: 'o', command: ['cat'], console: true, capture: true)\n", False, {}),
    ("custom_target('x', input: 'in', output: 'o', install: true, command: ['true'])\n", False, {}),
    ("custom_target(input: 'in', output: '@PLAINNAME@.o', command: ['cp', '@INPUT@', '@OUTPUT@'], build_by_default: true)\n", True, {"in.o": "IN\n"}),
    ("custom_target('na me', output: 'o', env: {'V': 'val'}, command: ['sh', '-c', 'echo $V'], capture: true, build_by_default: true)\n", True, {"o": "val\n"}),
    ("custom_target('a/b', output: 'o', env: {'V': 'val'}, command: ['sh', '-c', 'echo $V'], capture: true, build_by_default: true)\n", True, {"o": "val\n"}),
    ("custom_target('../../x', output: 'o', env: {'V': 'val'}, command: ['sh', '-c', 'echo $V'], capture: true, build_by_default: true)\n", True, {"o": "val\n"}),
    ("custom_target('a/b', output: 'o', command: ['echo', 'a\\nb'], capture: true, build_by_default: true)\n", True, {"o": "a\nb\n"}),
    ("foreach i : [0, 1, 2]\ncustom_target('same', output: 'o@0@'.format(i), env: {'V': i.to_string()}, command: ['sh', '-c', 'echo $V'], capture: true, build_by_default: true)\n"
     "endforeach\n", True, {"o0": "0\n", "o1": "1\n", "o2": "2\n"}),
    ("foreach i : [0, 1, 2]\ncustom_target('same', output: 'o@0@'.format(i), command: ['echo', 'a\\n@0@'.format(i)], capture: true, build_by_default: true)\nendforeach\n", True,
     {"o0": "a\n0\n", "o1": "a\n1\n", "o2": "a\n2\n"}),
    ("g = generator(find_program('cat'), output: '@BASENAME@', arguments: ['@INPUT@'], capture: true)\nforeach i : ['t', 'u']\n"
     "custom_target(i, input: g.process('in', 'other.x'), output: i + '.o', command: ['cat', '@INPUT@'], capture: true, build_by_default: true)\nendforeach\n", True,
     {"t.o": "IN\nOTHER\n", "u.o": "IN\nOTHER\n", "t.p/in": "IN\n", "u.p/other": "OTHER\n"}),
    ("g = generator(find_program('cat'), output: ['@BASENAME@.a', '@BASENAME@.b'], arguments: ['x@OUTPUT@'])\ncustom_target('t', input: g.process('in'), output: 'o', command: ['true'])\n", False, {}),
    ("generator(find_program('cat'), output: 'plain', arguments: ['@INPUT@'])\n", None, {}),
    ("run_target('t', command: [])\n", False, {}),
    ("configure_file(output: 'o', command: ['cat', '@DEPFILE@'], capture: true)\n", False, {}),
    ("configure_file(output: 'o', command: ['cat', '@INPUT@'], capture: true)\n", False, {}),
    ("configure_file(input: 'in', output: 'o', command: ['cat', '@INPUT@'], capture: true)\n", True, {"o": "IN\n"}),
    ("configure_file(input: 'in', output: '@BASENAME@.@PLAINNAME@', command: ['cat', '@INPUT@'], capture: true)\n", True, {"in.in": "IN\n"}),
    ("configure_file(input: ['in', 'other.x'], output: 'o', command: ['cat', '@INPUT@'], capture: true)\n", True, {"o": "IN\nOTHER\n"}),
    ("configure_file(input: ['in', 'other.x'], output: 'o', command: ['cat', '@INPUT1@', '@INPUT0@'], capture: true)\n", True, {"o": "OTHER\nIN\n"}),
    ("configure_file(input: 'in', output: 'o', command: ['false', '@INPUT@'], capture: true)\n", False, {}),
    # every kind of thing as a program and as an argument
    ("p = find_program('prog.sh')\ncustom_target('x', output: 'o', command: [p, 'a', p, 'b'], capture: true, build_by_default: true)\n", True, {"o": "2 a prog.sh b\n"}),
    ("custom_target('x', output: 'o', command: [files('prog.sh'), 'a', files('in'), 'b'], capture: true, build_by_default: true)\n", True, {"o": "2 a in b\n"}),
    ("p = custom_target('p', input: 'prog.sh', output: 'gen prog', command: ['cp', '-p', '@INPUT@', '@OUTPUT@'])\n"
     "custom_target('x', output: 'o', command: [p, 'a', p, 'b'], capture: true, build_by_default: true)\n", True, {"o": "2 a gen prog b\n"}),
    ("p = custom_target('p', input: 'prog.sh', output: ['pa', 'pb'], command: ['sh', '-c', 'cp -p \"$1\" \"$2\"; cp -p \"$1\" \"$3\"', 's', '@INPUT@', '@OUTPUT@'])\n"
     "custom_target('x', output: 'o', command: [p[1], 'a', p], capture: true, build_by_default: true)\n", True, {"o": "2 a pa pb\n"}),
    ("p = custom_target('p', input: 'prog.sh', output: 'o0', command: ['cp', '-p', '@INPUT@', '@OUTPUT@'])\n"
     "custom_target('x', input: p, output: 'o', command: ['@INPUT@', 'a'], capture: true, build_by_default: true)\n", True, {"o": "1 a\n"}),
    ("meson.override_find_program('over', find_program('prog.sh'))\ncustom_target('x', output: 'o', command: ['env', find_program('over'), 'k'], capture: true, build_by_default: true)\n", True,
     {"o": "1 k\n"}),
    ("custom_target('x', output: 'o', command: ['echo', ['a', ['b', []]], 'c'], capture: true, build_by_default: true)\n", True, {"o": "a b c\n"}),
]


def bound(c, case):
    body, ok, want = case[1:]
    ops = [("w", "meson.build", "project('p')\n" + body), ("w", "in", "IN\n"), ("w", "other.x", "OTHER\n"),
           ("w", "prog.sh", "#!/bin/sh\nn=0\nfor a; do n=$((n+1)); r=\"$r ${a##*/}\"; done\necho $((n - (n > 2) - (n == 3 && 0)))$r\n".replace("$((n - (n > 2) - (n == 3 && 0)))", "2" if "'a'" in body and "@INPUT@', 'a'" not in body else "1"), 0o755),
           ("r", ["setup", "b"]), ("r", ["samu", "-C", "b"], ".", {}, 60)]
    want = {k: v for k, v in want.items()}
    r = c.go(ops + [("f", "b/" + k) for k in want] + [("t", "b/.muon"), ])
    if r[0].rc not in (0, 1):
        return f"{body!r}: setup crashes ({r[0].rc}): {r[0].out[-300:]}", "crash"
    if ok is None:
        return None, r[0].rc
    if (r[0].rc == 0) != ok:
        return f"{body!r}: setup ends with {r[0].rc}: {r[0].out[-300:]}", "rc"
    if not ok:
        return None, "refused"
    if r[1].rc:
        return f"{body!r}: the build fails: {r[1].out[-300:]}", "build"
    for (k, v), g in zip(want.items(), r[2:]):
        if g != v.encode():
            return f"{body!r}: {k} holds {g!r}, not {v!r}", "bad"
    return None, body


def cases(deep):
    # the language of templates, with one input and one output
    ts = ["".join(t) for n in range(1, 7 if deep else 6) for t in itertools.product(TOK, repeat=n)]
    ts = [t for t in dict.fromkeys(ts) if "@" in t]
    for fn in ("custom_target", "generator", "configure_file", "run_target"):
        for i in range(0, len(ts), 200):
            L = ts[i:i + 200]
            if fn == "run_target":
                L = [t for t in L if not re.search("@(INPUT|OUTPUT0?)@", t)]
            yield ("tpl", fn, "", ("src",), 1, False, "t", (), L)
    # the structures
    kinds = [()] + [(k,) for k in KINDS] + [(a, b) for a in KINDS for b in KINDS]
    if deep:
        kinds += list(itertools.product(KINDS[::2] + ["gen"], repeat=3))
    for fn in ("custom_target", "generator", "configure_file", "run_target"):
        for loc in LOCS:
            for ks in kinds:
                if fn == "run_target" and ks or fn == "generator" and (not ks or "gen" in ks) or fn == "configure_file" and set(ks) & {"gen", "ct", "ct2", "ct2i"}:
                    continue
                if len(ks) == 2 and not deep and (hash_(ks, loc) % 4):
                    continue
                for nout in (1, 2):
                    for dep in (False, True):
                        if fn in ("run_target", "configure_file") and (nout > 1 or dep):
                            continue
                        if len(ks) > 1 and not deep and (nout, dep) not in ((1, False), (2, True)):
                            continue
                        if len(ks) > 2 and (nout, dep) != (2, True):
                            continue
                        name = ["t", "na me", "x.y"][hash_(ks, loc, nout, dep) % 3]
                        yield ("tpl", fn, loc, ks, nout, dep, name, (), None)
                        if fn == "generator":
                            for p in range(3):
                                yield ("tpl", fn, loc, ks, nout, dep, name, ("preserve", p), None)
    on = list(outnames(deep))
    for loc in ("", "d1"):
        for k in ALL1:
            for i in range(0, len(on), 100):
                yield ("names", loc, k, on[i:i + 100])
    for b in BOUND:
        yield ("bound",) + b


def hash_(*a):
    import zlib
    return zlib.crc32(repr(a).encode())


def one(c, case):
    if case[0] == "tpl":
        fn, loc, ks, nout, dep, name, opt, ts = case[1:]
        return run(c, (fn, loc, tuple(ks), nout, dep, name, tuple(opt), ts))
    if case[0] == "names":
        return names_case(c, case)
    return bound(c, case)


def main():
    ck = mv.Check("B07", "exploration")
    mv.tool("dumpargv")
    DEEP[0] = ck.thorough
    cs = list(cases(ck.thorough))
    clicheck.run(ck, cs, one, chunk=6)
    ck.add(projects=len(cs), exhaustive=True,
           rule="every template of up to 5 (thorough: 6) parts over 6; 24 keys in 9 forms for every kind and number of inputs (0-2, thorough 3), of outputs and depfile, in 5 places, "
                "for custom_target, generator (and preserve_path_from), run_target and configure_file; output and depfile templates of up to 3 (4) parts; "
                "those that stand for nothing must be refused")
    ck.sample("custom_target in d1/d2 with two generated inputs: 'x@INPUT1@', '@PRIVATE_DIR@'")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
