#!/usr/bin/env python3
"""C04: every command gets exactly the environment its description gives, built upon the one muon runs in."""
import itertools
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import clicheck
import mv

VARS = ["A", "B", "C"]
OPS = [("set", "A", ("1",), None), ("set", "A", ("1", "2"), None), ("set", "A", ("1", "2"), ";"), ("append", "A", ("3",), None), ("append", "A", ("3", "4"), ","),
       ("append", "A", ("",), None), ("prepend", "A", ("5",), None), ("prepend", "A", ("5", "6"), ""), ("set", "B", ("b",), None), ("append", "B", ("7",), "::"), ("set", "A", ("",), None)]
EXT = [(None, None, None), ("", "", ""), ("S", "B", "T"), (None, "B", ""), ("S", None, None)]


def q(s):
    return "'" + "".join({"\\": "\\\\", "'": "\\'", "\n": "\\n", "\t": "\\t"}.get(c, c) for c in s) + "'"


def model(spec, base):
    """spec -> the environment"""
    env = dict(base)
    kind, init, ops = spec
    for k, v in init:
        env[k] = v
    for m, k, vals, sep in ops:
        sep = ":" if sep is None else sep
        cur = env.get(k)
        if m == "set" or cur is None:
            env[k] = sep.join(vals)
        elif m == "append":
            env[k] = sep.join([cur, *vals])
        else:
            env[k] = sep.join([*vals, cur])
    return env


def text(spec, name):
    """-> statements, expression"""
    kind, init, ops = spec
    d = "{" + ", ".join(f"{q(k)}: {q(v)}" for k, v in init) + "}"
    if kind == "dict":
        return "", d
    if kind == "list":
        return "", "[" + ", ".join(q(f"{k}={v}") for k, v in init) + "]"
    if kind == "nlist":
        return "", "[[" + "], [".join(q(f"{k}={v}") for k, v in init) + "]]"
    if kind == "str":
        return "", q(f"{init[0][0]}={init[0][1]}")
    if kind == "dictvar":
        return f"{name} = {d}\n", name
    o = f"{name} = environment({d if init else ''})\n"

    def op(n, x):
        m, k, vals, sep = x
        return f"{n}.{m}({q(k)}, {', '.join(map(q, vals))}{'' if sep is None else ', separator: ' + q(sep)})\n"
    if kind == "obj":
        return o + "".join(op(name, x) for x in ops), name
    if kind == "copy":
        # changes to a copy, and to what it was copied from, after the copy
        return (o + "".join(op(name + "z", x).replace(name + "z", name) for x in ops) + f"{name}c = {name}\n{name}c.set('A', 'COPY')\n{name}c.append('B', 'COPY')\n"
                f"run_command(c, 'v', env: {name}c)\n"), name
    if kind == "copied":
        return o + "".join(op(name, x) for x in ops) + f"{name}c = {name}\n{name}.set('A', 'ORIG')\n{name}.prepend('B', 'ORIG')\n", name + "c"
    if kind == "used":
        # used before by others, elsewhere, in between the changes
        s = o
        for x in ops:
            s += op(name, x) + f"run_command(c, 'v', env: {name})\n"
        return s, name
    if kind == "loop":
        return o + f"foreach i : [1]\n{''.join(op(name, x) for x in ops)}endforeach\n", name
    raise ValueError(kind)


def one(c, case):
    if case[0] == "setup":
        return setups(c, case)
    ext, specs = case
    ch, da = mv.tool("child"), mv.tool("dumpargv")
    names = ", ".join(q(v) for v in VARS + ["MESON_SUBDIR", "MESON_SOURCE_ROOT", "MESON_BUILD_ROOT"])
    mb = ["project('p')", f"c = find_program({q(ch)})", f"da = find_program({q(da)})", "names = [" + names + "]", "out = meson.current_build_dir()",
          "custom_target('plain', output: 'plain.ct', command: [c, 'v', names], capture: true, build_by_default: true)"]
    sub = []
    for i, s in enumerate(specs):
        st, ex = text(s, f"e{i}")
        mb.append(st)
        mb.append(f"message('R {i} ' + run_command(c, 'v', names, env: {ex}, check: true).stdout().replace('\\n', '\\\\n'))")
        sub.append(f"message('S {i} ' + run_command(c, 'v', names, env: {ex}, check: true).stdout().replace('\\n', '\\\\n'))")
    mb.append("subdir('sub')")
    for i, s in enumerate(specs):
        st, ex = text(s, f"e{i}")
        mb.append(f"message('T {i} ' + run_command(c, 'v', names, env: {ex}, check: true).stdout().replace('\\n', '\\\\n'))")
        mb.append(f"custom_target('c{i}', output: '{i}.ct', command: [c, 'v', names], capture: true, env: {ex}, build_by_default: true)")
        mb.append(f"run_target('r{i}', command: [da, '-e', out / '{i}.rt', names], env: {ex})")
        mb.append(f"test('t{i}', da, args: ['-e', out / '{i}.t', names], env: {ex})")
        mb.append(f"custom_target('g{i}', output: '{i}.ctx', command: [da, '-e', '@OUTPUT@', names], env: {ex}, build_by_default: true)")
    envs = [{} if v is None else {"A": v} for v in ext]
    n = len(specs)
    ops = [("w", "meson.build", "\n".join(mb) + "\n"), ("w", "sub/meson.build", "\n".join(sub) + "\n"), ("r", ["setup", "b"], ".", envs[0], 60),
           ("r", ["samu", "-C", "b", "-j4"], ".", envs[1], 60), ("r", ["samu", "-C", "b", "-j1"] + [f"r{i}" for i in range(n)], ".", envs[1], 60),
           ("r", ["-C", "b", "test"], ".", envs[2], 60), ("t", "b")]
    r, b, rt, t, tree = c.go(ops)
    where = f"environment {ext}: {specs if len(specs) < 3 else str(len(specs)) + ' descriptions'}"
    for what, x in (("setup", r), ("build", b), ("run targets", rt), ("tests", t)):
        if x.rc:
            return f"{where}: {what}: {x.out[-400:]}", ()
    got = {}
    for m in r.messages():
        k, i, v = m.split(" ", 2)
        got[k, int(i)] = v.rstrip().replace("\\n", "\n").split("|")
    plain = tree["b/plain.ct"].data.decode().split("|") if "b/plain.ct" in tree else tree["plain.ct"].data.decode().split("|")
    for i, s in enumerate(specs):
        for k, e in (("ct", 1), ("ctx", 1), ("rt", 1), ("t", 2)):
            f = tree.get(f"b/{i}.{k}") or tree.get(f"{i}.{k}")
            if not f:
                return f"{where}: {i}.{k} missing", ()
            d = f.data.decode("utf-8", "surrogateescape")
            got[k, i] = d.split("|") if k == "ct" else d.split("\0")
        for k, e in (("R", 0), ("S", 0), ("T", 0), ("ct", 1), ("ctx", 1), ("rt", 1), ("t", 2)):
            env = model(s, envs[e])
            want = [env.get(v, "(unset)") for v in VARS]
            site = {"R": "run_command", "S": "run_command in a subdir", "T": "run_command after the subdir", "ct": "captured custom_target", "ctx": "custom_target", "rt": "run_target", "t": "test"}[k]
            g = got.get((k, i))
            if not g or g[:3] != want:
                return f"{site}, {s}, muon's own environment {envs[e]}: {g and g[:3]} instead of {want}", ()
            over = any(x[0].startswith("MESON_") for x in s[1]) or any(x[1].startswith("MESON_") for x in s[2])
            if over:
                continue
            wm = {"R": "", "S": "sub", "T": "", "rt": ""}.get(k)
            if wm is not None and g[3].replace(".", "") != wm:
                return f"{site}, {s}: MESON_SUBDIR is {g[3]!r}", ()
            if k in "RSTrt" and k != "t" and (g[4].rstrip("/") != c.d.rstrip("/") and not g[4].endswith(c.d.rsplit("/", 1)[1]) or g[5] != g[4] + "/b"):
                return f"{site}, {s}: MESON_SOURCE_ROOT {g[4]!r}, MESON_BUILD_ROOT {g[5]!r}", ()
            if k in ("ct", "ctx") and g[3:6] != plain[3:6]:
                return f"{site}, {s}: MESON_ variables {g[3:6]}, without env {plain[3:6]}", ()
    return None, repr(case)


def setups(c, case):
    """a test's environment is built upon that of the test setup"""
    _, ext, setup, tests = case
    da = mv.tool("dumpargv")
    st, ex = text(setup, "es")
    mb = ["project('p')", f"da = find_program({q(da)})", st, f"add_test_setup('s', env: {ex})"]
    for i, t in enumerate(tests):
        ts, tx = text(t, f"e{i}")
        mb += [ts, f"test('t{i}', da, args: ['-e', meson.current_build_dir() / '{i}.t', 'A', 'B', 'C'], env: {tx})"]
    r, t, tree = c.go([("w", "meson.build", "\n".join(mb) + "\n"), ("r", ["setup", "b"], ".", {}, 60), ("r", ["-C", "b", "test", "-e", "s"], ".", {} if ext is None else {"A": ext}, 60), ("t", "b")])
    if r.rc or t.rc:
        return f"test setups: {(r.out + t.out)[-300:]}", ()
    for i, t in enumerate(tests):
        f = tree.get(f"b/{i}.t") or tree.get(f"{i}.t")
        got = f and f.data.decode().split("\0")[:3]
        env = model(t, model(setup, {} if ext is None else {"A": ext}))
        want = [env.get(v, "(unset)") for v in "ABC"]
        if got != want:
            return f"setup {brief(setup)} test {brief(t)} (A={ext}): {got} instead of {want}", (ext,)
    return None, repr(case)


def brief(spec):
    return " ".join([f"{k}={v}" for k, v in spec[1]] + [f"{m}({k},{'+'.join(v)})" for m, k, v, _ in spec[2]]) or "nothing"


SETUPS = [("dict", (("A", "s"),), ()), ("obj", (), (("append", "A", ("s",), None),)), ("dict", (("C", "s"),), ())]
TESTS = [("dict", (("A", "t"),), ()), ("obj", (), (("append", "A", ("t",), None),)), ("obj", (), (("prepend", "A", ("t",), None),)), ("dict", (("B", "t"),), ()), ("obj", (), ()),
         ("obj", (), (("append", "B", ("t",), None),))]


VALUES = ["", " ", "a b", "=", "a=b", "==", "'", '"', "\\", "\\\\", "$A", "$", "`x`", "*", "a\nb", "é", "日本", "x" * 5000, ":", ";", "a:b:", "@0@", "%", "\t", "-", "#", "@INPUT@"]


def cases(deep):
    specs = []
    for n in range(0, 4 if deep else 3):
        for p in itertools.product(OPS, repeat=n):
            specs.append(("obj", (), p))
            if n < 3:
                specs.append(("obj", (("A", "i"),), p))
                if n < 2 or deep:
                    specs.append(("obj", (("B", "i"), ("A", "")), p))
            if 0 < n < 3:
                for k in ("copy", "copied", "used", "loop"):
                    specs.append((k, (), p))
                    if n == 1 or deep:
                        specs.append((k, (("A", "i"), ("C", "c")), p))
    lit = []
    for v in VALUES:
        for k in ("dict", "list", "nlist", "str", "dictvar", "obj"):
            lit.append((k, (("A", v),), ()))
        for k in ("dict", "list", "nlist", "dictvar", "obj"):
            for w in ("", "w", v):
                lit.append((k, (("A", v), ("B", w)), ()))
                lit.append((k, (("B", w), ("A", v), ("C", v + w)), ()))
    for k in ("list", "nlist"):
        lit.append((k, (("A", "1"), ("A", "2")), ()))
        lit.append((k, (("A", "1"), ("B", "x"), ("A", "")), ()))
    for i, ext in enumerate(EXT):
        for x in mv.chunked(specs if deep or ext == ("S", "B", "T") else specs[i % 4::4], 40):
            yield (ext, list(x))
    for ext in EXT[:1] + EXT[2:3]:
        for x in mv.chunked(lit, 40):
            yield (ext, list(x))
    for ext in (None, "T"):
        for st in SETUPS:
            for t in TESTS:
                yield ("setup", ext, st, [t])


def main():
    ck = mv.Check("C04", "exploration")
    mv.tool("child")
    mv.tool("dumpargv")
    clicheck.run(ck, list(cases(ck.thorough)), one, chunk=1, keyfn=lambda what, case: what if case[0] == "setup" else None)
    ck.add(exhaustive=True, operations=len(OPS),
           rule="every sequence of up to 2 (thorough: 3) of 11 operations on an environment object, fresh, initialized, copied, used between the operations; dicts, lists and strings with 27 values; "
                "5 environments of muon at setup, build and test; observed through run_command in three places, custom targets, run targets and tests")
    ck.sample("e = environment(); e.append('A', '3', '4', separator: ','); custom_target(env: e) with A=B when building, A unset when configuring: the command sees B,3,4")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
