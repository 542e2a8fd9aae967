#!/usr/bin/env python3
"""C01: configure_file writes exactly the text the template and the configuration data define, configuration data holds
what was last set, and outputs are rewritten exactly when their text changes."""
import itertools
import re
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import clicheck
import mv

NAME = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-"


class Bad(Exception):
    pass


class Skip(Exception):
    pass


def tobytes(v):
    if v is True:
        return b"true"
    if v is False:
        return b"false"
    return str(v).encode()


def name_at(s, i):
    j = i
    while j < len(s) and s[j] in NAME:
        j += 1
    return s[i:j]


def define(line, conf, cm):
    """the text for a #mesondefine / #cmakedefine line, without its newline"""
    kw = b"#cmakedefine" if cm else b"#mesondefine"
    rest = line[len(kw):]
    body = rest.lstrip(b" \t")
    n = name_at(body, 0)
    tail = body[len(n):].lstrip(b" \t")
    if not n:
        if cm and tail:
            raise Skip("cmakedefine of something that is not a name")
        raise Bad("no name")
    if tail and not cm:
        raise Bad("more than one token")
    if tail and tail.rstrip(b" \t") != b"@" + n + b"@":
        raise Skip("other cmakedefine values")
    if body[len(n):len(n) + 1] not in (b"", b" ", b"\t"):
        raise Bad("bad name") if not cm else Skip("cmake name")
    if n not in conf:
        return b"/* undef " + n + b" */"
    v = conf[n]
    if v is False:
        return b"#undef " + n
    if v is True:
        return b"#define " + n
    return b"#define " + n + b" " + tobytes(v)


def vars_(s, conf, fmt):
    start, end = (b"${", b"}") if fmt == "cmake" else (b"@", b"@")
    out = b""
    i = 0
    while i < len(s):
        m = re.compile(rb"\\+").match(s, i)
        if m:
            k = len(m.group())
            i += k
            if s.startswith(start, i):
                out += b"\\" * (k // 2)
                if k % 2:
                    out += start
                    i += len(start)
            else:
                out += b"\\" * k
            continue
        if s.startswith(start, i):
            n = name_at(s, i + len(start))
            if s[i + len(start) + len(n):][:1] == end:
                if not n:
                    raise Bad("empty name")
                if n not in conf:
                    raise Bad("undefined")
                out += tobytes(conf[n])
                i += len(start) + len(n) + 1
            else:
                out += start
                i += len(start)
            continue
        out += s[i:i + 1]
        i += 1
    return out


def render(t, conf, fmt):
    cm = fmt != "meson"
    kw = b"#cmakedefine " if cm else b"#mesondefine "
    lines = t.split(b"\n")
    return b"\n".join(define(l, conf, cm) if l.startswith(kw) else vars_(l, conf, fmt) for l in lines)


# ---- templates
CONF = {b"A": "va@A@\\", b"T": True, b"F": False, b"N": -7, b"E": "", b"A-_1": "long", b"B": "x y", b"D": "${A}@B@"}


def mlit(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, list):
        return "[" + ", ".join(mlit(x) for x in v) + "]"
    return "'" + v.replace("\\", "\\\\").replace("'", "\\'").replace("\n", "\\n") + "'"


def conf_lit(conf):
    return "{" + ", ".join(f"{mlit(k.decode())}: {mlit(v)}" for k, v in conf.items()) + "}"


ALPH = {
    "meson": [b"@", b"\\", b"A", b"U", b"\n", b" ", b"#mesondefine ", b"-", b"T"],
    "cmake": [b"${", b"}", b"\\", b"A", b"U", b"\n", b"@", b"#cmakedefine ", b"$"],
    "cmake@": [b"@", b"\\", b"A", b"U", b"\n", b" ", b"#cmakedefine ", b"#mesondefine ", b"${A}"],
}


def special():
    kw = {"meson": b"#mesondefine ", "cmake": b"#cmakedefine ", "cmake@": b"#cmakedefine "}
    for fmt in ALPH:
        st, en = (b"${", b"}") if fmt == "cmake" else (b"@", b"@")
        for n in list(CONF) + [b"U"]:
            for tail in (b"", b"\n", b" \n", b"\t\n", b"\nx", b" @" + n + b"@", b" @" + n + b"@ \n", b" x\n", b"x\n"):
                for lead in (b"", b" ", b"\t", b"x\n", b"\n\n"):
                    yield fmt, lead + kw[fmt] + n + tail
                    yield fmt, lead + kw[fmt] + b" \t" + n + tail
            for pre in (b"", b"x", b"\\", b"\\\\", b"\\\\\\", b"\\\\\\\\", b"@", b"$", b"@ ", b"\n"):
                for post in (b"", b"y", b"@", b"\\", b"}", b"\n"):
                    yield fmt, pre + st + n + en + post
                    yield fmt, pre + st + n + post
        for b in range(1, 256):
            if b not in (10, 13):
                c = bytes([b])
                yield fmt, c
                yield fmt, st + c + en
                yield fmt, st + b"A" + c + en
                yield fmt, st + c + b"A" + en
                yield fmt, b"\\" + c
                yield fmt, kw[fmt] + b"A" + c + b"\n"
        for n in (0, 1, 1023, 1024, 1025, 4096, 70000):
            yield fmt, b"x" * n + st + b"A" + en
            yield fmt, (b"x" * 61 + b"\n") * (n // 62) + st + b"A" + en + b"\n"


def run_templates(c, case):
    """a list of templates, together when all are valid, alone otherwise"""
    _, fmt, ts = case
    good, bad = [], []
    for t in ts:
        t = t.encode("latin1")
        try:
            good.append((t, render(t, CONF, fmt)))
        except Bad as e:
            bad.append((t, str(e)))
        except Skip:
            pass

    def conf(L):
        ops = []
        b = ["project('x')", "c = " + conf_lit(CONF)]
        for i, t in enumerate(L):
            ops.append(("w", f"src/i{i}", t))
            b.append(f"configure_file(input: 'i{i}', output: 'o{i}', configuration: c, format: '{fmt}')")
        return ops + [("w", "src/meson.build", "\n".join(b) + "\n"), ("r", ["-C", "src", "setup", "../b"])]

    def check(L):
        r, t = c.go(conf([x for x, _ in L]) + [("t", "b")])
        if r.rc:
            return f"rejected: {r.out[-300:]}"
        for i, (x, w) in enumerate(L):
            g = t[f"b/o{i}"].data
            if g != w:
                return f"{x!r} becomes {g!r}, expected {w!r}"
        return None

    if good:
        w = check(good)
        if w:
            for g in good:
                w = check([g]) or w
            return w, "differs"
    for t, why in bad:
        r, = c.go(conf([t]))
        if r.rc == 0:
            return f"{t!r} accepted ({why})", "accepted"
        if r.rc < 0:
            return f"{t!r}: dies", "died"
        if "/src/i0:" not in r.out:
            return f"{t!r}: the error does not name the template: {r.out[-200:]}", "noloc"
    return None, (fmt, tuple(ts))


# ---- configuration data
VALS = ["x", "", '"q"', '"', 'a"b', 1, 0, -3, True, False, "x y", '""']


def data_ops():
    L = []
    for k in "AB":
        for v in ("s", '"s"', 2, True, False):
            L.append(("set", k, v))
        L += [("set10", k, True), ("set10", k, False), ("set_quoted", k, 'a"b')]
    L += [("merge",), ("self",), ("copy",), ("dict",)]
    return L


def run_data(c, case):
    """operation sequences on two configuration_data objects; then everything that can be asked, and a header of each"""
    _, seqs = case
    body, want, wfiles = ["project('x')"], [], {}
    for i, seq in enumerate(seqs):
        c1, c2 = {}, {"B": 7, "C": "z"}
        body += [f"c{i} = configuration_data()", f"d{i} = configuration_data({{'B': 7, 'C': 'z'}})"]
        for op in seq:
            if op[0] == "set":
                c1[op[1]] = op[2]
                body.append(f"c{i}.set('{op[1]}', {mlit(op[2])})")
            elif op[0] == "set10":
                c1[op[1]] = int(op[2])
                body.append(f"c{i}.set10('{op[1]}', {mlit(op[2])})")
            elif op[0] == "set_quoted":
                c1[op[1]] = '"' + op[2].replace('"', '\\"') + '"'
                body.append(f"c{i}.set_quoted('{op[1]}', {mlit(op[2])})")
            elif op[0] == "merge":
                for k, v in c2.items():
                    c1[k] = v
                body.append(f"c{i}.merge_from(d{i})")
            elif op[0] == "self":
                body.append(f"c{i}.merge_from(c{i})")
            elif op[0] == "copy":
                # a copy is not changed by later changes of the original
                c2 = dict(c1)
                body.append(f"d{i} = c{i}")
            elif op[0] == "dict":
                c1 = {"A": "s", "D": 1}
                body += [f"e{i} = {{'A': 's', 'D': 1}}", f"c{i} = configuration_data(e{i})", f"c{i}.set('E', 1)", f"message(e{i} == {{'A': 's', 'D': 1}})"]
                c1["E"] = 1
                want.append("true")
        for v, d in (("c", c1), ("d", c2)):
            for k in "ABCD":
                body.append(f"message({v}{i}.has('{k}'))")
                want.append("true" if k in d else "false")
                body.append(f"x = {v}{i}.get('{k}', 'none')\nmessage(x)")
                x = d.get(k, "none")
                want.append(show(x))
                body.append(f"x = {v}{i}.get_unquoted('{k}', '\"none\"')\nmessage(x)")
                x = d.get(k, '"none"')
                if isinstance(x, str) and len(x) >= 2 and x[0] == '"' and x[-1] == '"':
                    x = x[1:-1]
                want.append(show(x))
            body.append(f"k = {v}{i}.keys()\nforeach z : ['A', 'B', 'C', 'D', 'E']\nmessage(z in k)\nendforeach\nmessage(k.length())")
            want += ["true" if z in d else "false" for z in "ABCDE"] + [str(len(d))]
            for f, p in (("c", "#"), ("nasm", "%")):
                body.append(f"configure_file(output: '{v}{i}.{f}', configuration: {v}{i}, output_format: '{f}')")
                wfiles[f"{v}{i}.{f}"] = sorted(f"{p}undef {k}" if x is False else f"{p}define {k}" if x is True else f"{p}define {k} {x}" for k, x in d.items())
    r, t = c.go([("w", "src/meson.build", "\n".join(body) + "\n"), ("r", ["-C", "src", "setup", "../b"]), ("t", "b")])
    if r.rc:
        return f"rejected: {r.out[-300:]}", "fail"
    got = [m.strip() for m in r.messages()]
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        return f"answer {i} is {got[i:i + 1]}, expected {want[i:i + 1]}", "differs"
    for f, w in wfiles.items():
        g = t["b/" + f].data.decode()
        g2 = sorted(l for l in g.split("\n") if l[:2] in ("#d", "#u", "%d", "%u"))
        if g2 != w:
            return f"{f} holds {g!r}, expected {w}", "header"
    return None, tuple(sorted(want[-40:]))


def show(x):
    return "true" if x is True else "false" if x is False else str(x)


# ---- output names, modes, copy, install, and what is rejected
NAMES = [("a.in", "@BASENAME@", "a"), ("a.in", "@PLAINNAME@", "a.in"), ("a.in", "x@BASENAME@.h", "xa.h"), ("a.b.in", "@BASENAME@", "a.b"), ("d/a.in", "@BASENAME@.@PLAINNAME@", "a.a.in"),
         ("noext", "@BASENAME@.o", "noext.o"), ("a.in", "@BASENAME", "@BASENAME"), ("a.in", "@@BASENAME@@", "@a@"), ("d/s p.in", "@PLAINNAME@", "s p.in"),
         ("a.in", "@BASENAME@@BASENAME@", "aa"), ("a.in", "@basename@", "@basename@"), ("d.x/f", "@BASENAME@.y", "f.y")]
WAYS = {"conf": "configuration: {}", "copy": "copy: true", "cmd": "command: ['cp', '@INPUT@', '@OUTPUT@']", "cap": "command: ['cat', '@INPUT@'], capture: true"}


def run_name(c, case):
    _, (src, out, want), way, scope = case
    pre = {"": "", "sub": "s/", "proj": "subprojects/p/"}[scope]
    main = {"": "", "sub": "subdir('s')\n", "proj": "subproject('p')\n"}[scope]
    text = f"x = configure_file(input: '{src}', output: '{out}', {WAYS[way]})\n"
    ops = [("w", "src/meson.build", "project('x')\n" + main + (text if not scope else "")), ("w", f"src/{pre}{src}", "text\n")]
    if scope:
        ops.append(("w", f"src/{pre}meson.build", ("project('p')\n" if scope == "proj" else "") + text))
    r, t = c.go(ops + [("r", ["-C", "src", "setup", "../b"]), ("t", "b")])
    if r.rc:
        return f"rejected: {r.out[-300:]}", "fail"
    made = sorted(p for p, e in t.items() if e.type == "f" and ".muon" not in p and p not in ("b/build.ninja", "b/compile_commands.json") and not p.rsplit("/", 1)[-1].startswith((".git", ".hg")))
    if made != [f"b/{pre}{want}"] or t[made[0]].data != b"text\n":
        return f"makes {made}, expected b/{pre}{want}", "name"
    return None, (src, out, way, scope)


BAD = ["configure_file(output: 'o')", "configure_file(input: 'i', output: 'o')", "configure_file(input: 'i', output: 'o', copy: true, configuration: {})",
       "configure_file(input: 'i', output: 'o', copy: true, command: ['true'])", "configure_file(input: 'i', output: 'o', configuration: {}, command: ['true'])",
       "configure_file(input: 'i', configuration: {})", "configure_file(input: 'i', output: 'd/o', configuration: {})", "configure_file(input: 'i', output: '../o', configuration: {})",
       "configure_file(input: 'i', output: '/o', configuration: {})", "configure_file(input: 'nofile', output: 'o', configuration: {})", "configure_file(input: 'nofile', output: 'o', copy: true)",
       "configure_file(input: ['i', 'j'], output: 'o', configuration: {})", "configure_file(input: ['i', 'j'], output: 'o', copy: true)", "configure_file(output: 'o', copy: true)",
       "configure_file(input: 'i', output: 'o', configuration: {}, format: 'x')", "configure_file(output: 'o', configuration: {}, output_format: 'x')",
       "configure_file(input: ['i', 'j'], output: '@BASENAME@', configuration: {})", "configure_file(output: '@BASENAME@', configuration: {})",
       "configure_file(output: 'o', configuration: {'A': []})", "configure_file(output: 'o', configuration: {'A': {}})", "configure_file(output: 'o', configuration: 'x')",
       "configure_file(output: 'o', command: ['false'])", "configure_file(output: 'o', command: ['sh', '-c', 'kill -9 $$'], capture: true)", "configure_file(output: 'o', command: ['no-such-program'])",
       "configure_file(output: 'o', command: [])", "configure_file(input: 'i', output: 'o', copy: false)", "configure_file(output: 'o', configuration: {}, command: ['true'])",
       "configure_file(input: 'i', output: 'o', configuration: {}, install: true)", "configure_file(input: 'tpl', output: 'o', configuration: {'A': []})",
       "configure_file(input: 'tpl2', output: 'o', configuration: {'A': []})", "configure_file('i', output: 'o', configuration: {})", "configure_file(output: 'o', configuration: {}, nokw: 1)",
       "c = configuration_data()\nc.set('A', [])", "c = configuration_data()\nc.set('A')", "c = configuration_data()\nc.set('A', {})", "c = configuration_data()\nc.set(1, 'x')", "c = configuration_data()\nc.set10('A', 1)",
       "c = configuration_data()\nc.set10('A', 'true')", "c = configuration_data()\nc.set_quoted('A', 1)", "c = configuration_data()\nc.get('A')", "c = configuration_data()\nc.get_unquoted('A')",
       "c = configuration_data()\nc.merge_from({})", "c = configuration_data()\nc.nomethod()", "c = configuration_data('x')", "c = configuration_data()\nc.has()"]
OK = ["configure_file(input: 'i', output: 'o', copy: false, configuration: {})", "configure_file(input: 'i', output: 'o', configuration: {}, install: false)",
      "configure_file(output: 'o', configuration: configuration_data())", "configure_file(input: files('i'), output: 'o', configuration: {})", "configure_file(input: ['i'], output: 'o', copy: true)",
      "x = configure_file(input: 'i', output: 'o1', configuration: {})\nconfigure_file(input: x, output: 'o', copy: true)", "configure_file(input: ['i', 'j'], output: 'o', command: ['true'])",
      "c = configuration_data({'A': 1})\nassert(c.get_unquoted('A') == 1)", "c = configuration_data()\nassert(c.get_unquoted('A', 3) == 3)", "c = configuration_data({'A': true})\nassert(c.get_unquoted('A') == true)"]


def run_text(c, case):
    _, text, ok = case
    r, = c.go([("w", "src/meson.build", "project('x')\n" + text + "\n"), ("w", "src/i", "I"), ("w", "src/j", "J"), ("w", "src/tpl", "#mesondefine A\n"), ("w", "src/tpl2", "@A@\n" if 0 else "@B@\n"),
               ("r", ["-C", "src", "setup", "../b"])])
    if r.rc < 0:
        return f"dies: {r.out[-200:]}", "died"
    if (r.rc == 0) != ok:
        return (f"rejected: {r.out[-200:]}" if ok else "accepted"), "wrong"
    return None, text


# ---- histories
def run_history(c, case):
    """configure; then edits of template, value, mode and output, each followed by a regenerating build: outputs are what a
    fresh configuration gives, and are rewritten exactly when they change"""
    _, way, hist, mode0 = case
    body = {"conf": "configure_file(input: 'i', output: 'o', configuration: {'A': get_option('a')})", "gen": "configure_file(output: 'o', configuration: {'A': get_option('a')})",
            "copy": "configure_file(input: 'i', output: 'o', copy: true)", "cmd": "configure_file(input: 'i', output: 'o', command: ['cp', '@INPUT@', '@OUTPUT@'])",
            "cap": "configure_file(input: ['i'], output: 'o', command: ['sed', 's/x/' + get_option('a') + '/', '@INPUT@'], capture: true)"}[way]
    ops = [("w", "src/meson.build", "project('x')\n" + body + "\n"), ("w", "src/meson_options.txt", "option('a', type: 'string', value: 'v0')\n"), ("w", "src/i", "x0 @A@\n", mode0),
           ("r", ["-C", "src", "setup", "../b"]), ("t", "b"), ("u", "b/o", 1000000000)]
    tpl, a, want = "x0 @A@\n", "v0", []
    n = 0

    def text():
        if way == "conf":
            return tpl.replace("@A@", a)
        if way == "gen":
            return f"#define A {a}\n"
        if way == "cap":
            return tpl.replace("x", a)
        return tpl
    prev = text()
    marks = []
    for h in hist:
        n += 1
        oldtpl, olda = tpl, a
        if h == "tpl":
            tpl = f"x{n} @A@\n"
            ops += [("x", "src/i"), ("w", "src/i", tpl, mode0)]
        elif h == "grow":
            tpl += f"m{n}\n"
            ops += [("x", "src/i"), ("w", "src/i", tpl, mode0)]
        elif h == "cut":
            tpl = tpl[:-2] if len(tpl) > 6 else ""
            ops += [("x", "src/i"), ("w", "src/i", tpl, mode0)]
        elif h == "touch":
            ops += [("x", "src/i"), ("w", "src/i", tpl, mode0)]
        elif h == "val":
            a = f"w{n}"
        elif h == "same":
            pass
        elif h == "del":
            ops.append(("x", "b/o"))
        if h in ("val", "same", "del"):
            ops += [("r", ["-C", "src", "setup", "-Da=" + a, "../b"])]
        else:
            # as if the last configuration was long ago
            ops += [("u", "b/build.ninja", 1000000000), ("r", ["-C", "b", "samu"])]
        ops += [("t", "b"), ("u", "b/o", 1000000000 + n)]
        marks.append((h, text(), text() != prev or h == "del", n))
        prev = text()
    R = c.go(ops)
    runs, trees = R[::2], R[1::2]
    for r, t, (h, w, changed, k) in zip(runs, trees, [("setup", None, None, 0)] + marks):
        if r.rc:
            return f"{h}: fails: {r.out[-300:]}", "fail"
        if h == "setup":
            w = {"conf": "x0 v0\n", "gen": "#define A v0\n", "cap": "v00 @A@\n"}.get(way, "x0 @A@\n")
            changed = True
        e = t.get("b/o")
        if not e:
            return f"{h}: no output", "none"
        g = e.data.decode()
        if way == "gen":
            g = "".join(l + "\n" for l in g.split("\n") if l.startswith("#d"))
        if g != w:
            return f"after {h} the output holds {g!r}, expected {w!r}", "stale"
        if way not in ("cmd",):
            if not changed and e.mtime // 10**9 > 1100000000:
                return f"{h}: the unchanged output was rewritten", "rewritten"
        if way in ("conf", "copy") and (e.mode & 0o7777) != mode0:
            return f"{h}: the output has mode {e.mode:o}, the input {mode0:o}", "mode"
    return None, (way, hist)


def cases(deep):
    for fmt, al in ALPH.items():
        n = (5 if fmt == "cmake@" else 6) if deep else 4
        buf = []
        for k in range(0, n + 1):
            for t in itertools.product(al, repeat=k):
                buf.append(b"".join(t).decode("latin1"))
                if len(buf) == 60:
                    yield ("tpl", fmt, buf)
                    buf = []
        for f, t in special():
            if f == fmt:
                buf.append(t.decode("latin1"))
                if len(buf) == 60:
                    yield ("tpl", fmt, buf)
                    buf = []
        yield ("tpl", fmt, buf)
    buf = []
    ops = data_ops()
    for k in range(0, 4 if deep else 3):
        for s in itertools.product(ops, repeat=k):
            buf.append(s)
            if len(buf) == 10:
                yield ("data", buf)
                buf = []
    for v in VALS:
        buf.append((("set", "A", v),))
        if isinstance(v, str):
            buf.append((("set_quoted", "A", v),))
    yield ("data", buf)
    for n in NAMES:
        for w in WAYS:
            for s in ("", "sub", "proj"):
                yield ("name", n, w, s)
    for t in BAD:
        yield ("text", t, False)
    for t in OK:
        yield ("text", t, True)
    for way in ("conf", "gen", "copy", "cmd", "cap"):
        H = ["tpl", "grow", "cut", "touch", "val", "same", "del"]
        if way == "gen":
            H = ["val", "same", "del"]
        for k in range(1, 4 if deep else 3):
            for h in itertools.product(H, repeat=k):
                for m in (0o644, 0o755, 0o444) if way != "cmd" else (0o644, 0o755):
                    yield ("hist", way, h, m)


RUN = {"tpl": run_templates, "data": run_data, "name": run_name, "text": run_text, "hist": run_history}


def one(c, case):
    return RUN[case[0]](c, case)


def main():
    ck = mv.Check("C01", "exploration")
    clicheck.run(ck, list(cases(ck.thorough)), one, chunk=8)
    ck.add(exhaustive=True, rule="every template of up to 4 (5) tokens over nine tokens per format, all bytes in every place of a variable, sizes around the buffers; every sequence of up to 2 (3) "
           "operations on configuration data; every name x way x scope; every sequence of up to 2 (3) edits per way and mode")
    ck.sample(r"\\@A@ #mesondefine A")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
