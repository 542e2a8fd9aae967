#!/usr/bin/env python3
"""T01: muon test runs exactly the tests asked for, as they are described, and its verdict is theirs."""
import fnmatch
import itertools
import re
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import clicheck
import mv


def q(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'") + "'"


def lst(l):
    return "[" + ", ".join(map(q, l)) + "]"


RESULT = re.compile(r"^(ok\*?|fail\*?|skip|timeout) +[0-9.]+s +(?:\d+/ *\d+ subtests, )?(\S+?)(?= - passing|:? |:?$)", re.M)


def results(out):
    return {m[2].rsplit(":", 1)[-1]: m[1] for m in RESULT.finditer(out)}


def ran(tree):
    f = tree.get("log")
    ev = f.data.decode().split("\n")[:-1] if f else []
    return ev


# ------------------------------------------------------------------ verdicts

STATUS = [0, 1, 2, 76, 77, 78, 98, 99, 100, 127, 128, 255, -6, -9, -11, -15]
TAPDOC = {"good": "1..1\nok 1\n", "bad": "1..1\nnot ok 1\n", "skip": "1..0 # SKIP\n"}


def verdict(proto, doc, st, sf):
    """-> (set of acceptable labels, counts as an error)"""
    if proto == "tap":
        ok = doc != "bad"
        if st:
            if sf:
                return None     # Meson: an error; not judged
            return False
        return ok != sf if doc != "skip" else (True if not sf else None)
    if st == 77:
        return True
    if st == 99:
        return False
    return (st == 0) != sf


def verdicts(c, case):
    _, tests = case
    tk = mv.tool("tick")
    mb = ["project('p')", f"t = find_program({q(tk)})", f"sh = find_program('sh')"]
    for i, (proto, doc, st, sf) in enumerate(tests):
        kw = ("" if proto is None else f", protocol: {q(proto)}") + (", should_fail: true" if sf else "")
        if proto == "tap":
            s = f"printf '{TAPDOC[doc]}'".replace("\n", "\\n")
            s += f"; exit {st}" if st >= 0 else f"; kill {st} $$"
            mb.append(f"test('t{i}', sh, args: ['-c', '''{s}''']{kw})")
        else:
            mb.append(f"test('t{i}', t, args: [meson.current_source_dir() / 'log', 't{i}', '0', '{st}']{kw})")
    ops = [("w", "meson.build", "\n".join(mb) + "\n"), ("r", ["setup", "b"], ".", {}, 60), ("r", ["-C", "b", "test", "-S", "-j8"], ".", {}, 60)]
    ops += [("r", ["-C", "b", "test", f"t{i}"], ".", {}, 60) for i in range(len(tests))]
    r, t, *each = c.go(ops)
    if r.rc:
        return f"setup: {r.out[-300:]}", ()
    res = results(t.out)
    want = [verdict(*x) for x in tests]
    anybad = False
    for i, (x, w) in enumerate(zip(tests, want)):
        name = f"{x[0] or 'default'}{' ' + x[1] if x[1] else ''} {'exit ' + str(x[2]) if x[2] >= 0 else 'signal ' + str(-x[2])}{' should_fail' if x[3] else ''}"
        if each[i].rc not in (0, 1):
            return f"{name}: muon test exits with {each[i].rc}: {each[i].out[-200:]}", ()
        if w is not None and (each[i].rc == 0) != w:
            return f"verdict: {name} {'passes' if each[i].rc == 0 else 'fails'}", (x,)
        if f"t{i}" not in res:
            return f"{name}: no result: {t.out[-300:]}", ()
        lab = res[f"t{i}"]
        if (lab in ("fail", "ok*", "timeout")) != (each[i].rc != 0):
            return f"{name}: {lab!r} but exit code {each[i].rc}", ()
        if (lab == "skip") != (x[0] != "tap" and x[2] == 77):
            return f"{name}: labelled {lab}", ()
        anybad |= each[i].rc != 0
    if (t.rc != 0) != anybad:
        return f"all: exit code {t.rc}", ()
    return None, repr((case, tuple(res.items())))


# ------------------------------------------------------------------ selection

MAIN = [("a", ()), ("ab", ("x",)), ("b", ("x", "y")), ("a.b", ("y",))]
SUBT = [("a", ("x",)), ("c", ()), ("ab", ("y",))]


def selected(world, names, suites, setup, cat):
    """-> list of (project, test), or None: must be refused"""
    projs = world["projects"]
    excl = []
    if setup is not None:
        proj, _, name = setup.rpartition(":")
        proj = proj or "p"
        found = [s for s in world["setups"] if s[0] == proj and s[1] == name]
        if not found:
            return None
        excl = found[0][2]
    else:
        d = [s for s in world["setups"] if s[3]]
        if d:
            excl = d[0][2]

    def suite_is(spec, proj, s):
        sp, _, sn = spec.rpartition(":")
        return sn == s and (sp or "p") == proj
    out = []
    for proj, tests in projs:
        for name, ss, tcat in tests:
            if tcat != cat:
                continue
            if names:
                for n in names:
                    np, _, nn = n.rpartition(":")
                    if (not np or np == proj) and (not nn or fnmatch.fnmatchcase(name, nn)):
                        break
                else:
                    continue
            if suites:
                if not any(suite_is(x, proj, s) for x in suites for s in ss):
                    continue
            elif any(suite_is(x, proj, s) for x in excl for s in ss):
                continue
            out.append((proj, name))
    return out


def project(world, proj, tests):
    tk = mv.tool("tick")
    mb = [f"t = find_program({q(tk)})"]
    for p, n, ex, df in world["setups"]:
        if p == proj:
            mb.append(f"add_test_setup({q(n)}" + (f", exclude_suites: {lst(ex)}" if ex else "") + (", is_default: true" if df else "") + ")")
    for n, ss, cat in tests:
        suite = f", suite: {lst(ss)}" if len(ss) != 1 else f", suite: {q(ss[0])}"
        mb.append(f"{cat}({q(n)}, t, args: [{q(world['dir'] + '/log')}, {q(proj + ':' + n)}, '0']{suite if ss else ''})")
    return "\n".join(mb) + "\n"


def selection(c, case):
    _, world, sels = case
    world = dict(world, dir=c.d)
    projs = world["projects"]
    subs = [p for p, _ in projs[1:]]
    ops = [("w", "meson.build", "project('p')\n" + "".join(f"subproject({q(s)})\n" for s in subs) + project(world, *projs[0]))]
    for p, t in projs[1:]:
        ops.append(("w", f"subprojects/{p}/meson.build", f"project({q(p)})\n" + project(world, p, t)))
    ops.append(("r", ["setup", "b"], ".", {}, 60))
    for names, suites, setup, cat in sels:
        o = [x for s in suites for x in ("-s", s)] + (["-e", setup] if setup else [])
        ops += [("x", "log"), ("r", ["-C", "b", cat, "-R", "-j4", *o, *names], ".", {}, 60), ("t", "."), ("r", ["-C", "b", cat, "-l", *o, *names], ".", {}, 60)]
    r, *rest = c.go(ops)
    if r.rc:
        return f"setup: {r.out[-300:]}", ()
    for i, (names, suites, setup, cat) in enumerate(sels):
        t, tree, l = rest[3 * i: 3 * i + 3]
        what = f"projects {' '.join(p + '(' + ','.join(x[0] for x in ts) + ')' for p, ts in projs)}: muon {cat} {' '.join(['-s ' + s for s in suites] + (['-e ' + setup] if setup else []) + list(names))}".rstrip()
        want = selected(world, names, suites, setup, cat)
        ev = ran(tree)
        got = sorted(x[1:] for x in ev if x[0] == "+")
        if want is None:
            if t.rc == 0 or got:
                return f"{what}: exit code {t.rc}, runs {got}; there is no such setup", (names, suites, setup, cat)
            continue
        if got != sorted(":".join(x) for x in want):
            return f"{what}: runs {' '.join(got)} instead of {' '.join(sorted(':'.join(x) for x in want))}", (names, suites, setup, cat)
        if t.rc:
            return f"{what}: exit code {t.rc}: {t.out[-200:]}", ()
        listed = sorted(m[1] + ":" + m[2] for m in re.finditer(r"^([^:\n]*?)(?::\[.*\])? - (.*)$", l.out, re.M))
        if listed != got:
            return f"{what}: -l shows {' '.join(listed)} instead of {' '.join(got)}", (names, suites, setup, cat)
    return None, repr(case)


def globs(c, case):
    """which names a pattern selects"""
    _, names, pats = case
    mb = "project('p')\nt = find_program('true')\n" + "".join(f"test({q(n)}, t)\n" for n in names)
    r, *rs = c.go([("w", "meson.build", mb), ("r", ["setup", "b"], ".", {}, 60)] + [("r", ["-C", "b", "test", "-R", "-l", p], ".", {}, 60) for p in pats])
    for p, l in zip(pats, rs):
        got = sorted(m[1] for m in re.finditer(r"^p - (.*)$", l.out, re.M))
        want = sorted(n for n in names if re.fullmatch(".*".join(map(re.escape, p.split("*"))), n))
        if got != want:
            return f"muon test -l {p!r} of {' '.join(names)}: {' '.join(got)}", ()
    return None, repr(pats)


# ------------------------------------------------------------------ schedule

def schedule(c, case):
    _, tests, jobs, nproj, order = case
    tk = mv.tool("tick")
    ops = []
    for p in range(nproj):
        mb = ["project('%s')" % ("p" if p == 0 else f"s{p}"), f"t = find_program({q(tk)})"]
        if p == 0:
            mb += [f"subproject('s{i}')" for i in range(1, nproj)]
        for i, (par, pri, ms, st) in enumerate(tests):
            mb.append(f"test('t{i}', t, args: [{q(c.d)} / 'log', '{p}.{i}', '{ms}', '{st}']" + ("" if par is None else f", is_parallel: {'true' if par else 'false'}") +
                      ("" if pri is None else f", priority: {pri}") + ")")
        ops.append(("w", ("" if p == 0 else f"subprojects/s{p}/") + "meson.build", "\n".join(mb) + "\n"))
    ops += [("r", ["setup", "b"], ".", {}, 60), ("r", ["-C", "b", "test", f"-j{jobs}"] + (["-f"] if order == "fail" else []), ".", {}, 60), ("t", ".")]
    r, t, tree = c.go(ops)
    what = f"tests {tests} in {nproj} projects with -j{jobs}{' -f' if order == 'fail' else ''}"
    if r.rc:
        return f"{what}: setup: {r.out[-300:]}", ()
    ev = ran(tree)
    started = [x[1:] for x in ev if x[0] == "+"]
    fails = any(x[3] for x in tests)
    if (t.rc != 0) != fails:
        return f"{what}: exit code {t.rc}", ()
    if len(set(started)) != len(started):
        return f"{what}: run more than once: {ev}", ()
    if not fails or order != "fail":
        if len(started) != len(tests) * nproj:
            return f"{what}: not all were run: {ev}", ()
    elif not any(tests[int(x.split(".")[1])][3] for x in started):
        return f"{what}: none failed: {ev}", ()
    running = []
    for x in ev:
        n = x[1:]
        if x[0] == "+":
            par = tests[int(n.split(".")[1])][0] is not False
            if running and not par or any(tests[int(y.split(".")[1])][0] is False for y in running):
                return f"{what}: {n} starts while {running} run: {ev}", ()
            running.append(n)
            if len(running) > jobs:
                return f"{what}: {len(running)} at once: {ev}", ()
        else:
            running.remove(n)
    if jobs == 1:
        for a, b in zip(started, started[1:]):
            if a.split(".")[0] == b.split(".")[0] and (tests[int(a.split(".")[1])][1] or 0) < (tests[int(b.split(".")[1])][1] or 0):
                return f"{what}: order {started}", ()
        if fails and order == "fail":
            i = next(i for i, x in enumerate(started) if tests[int(x.split(".")[1])][3])
            if len(started) > i + 2:
                return f"{what}: goes on after the first failure: {ev}", ()
    return None, repr((case, len(started)))


# ------------------------------------------------------------------ what a test needs, and its surroundings

def needs(c, case):
    """the programs and files a test needs are up to date when it runs"""
    _, kind = case
    pre = "project('p', 'c')\n"
    world = {"e.c": "#include \"v.h\"\n#include <stdio.h>\nint main(int c, char **v) { FILE *f = fopen(v[1], \"a\"); fprintf(f, \"%d\\n\", V); return 0; }\n", "v.h": "#define V 1\n", "in": "1\n",
             "lib.c": "#include \"v.h\"\nint v(void) { return V; }\n", "le.c": "#include <stdio.h>\nint v(void);\nint main(int c, char **v_) { FILE *f = fopen(v_[1], \"a\"); fprintf(f, \"%d\\n\", v()); return 0; }\n"}
    log = q(c.d + "/log")
    cp = "ct = custom_target('ct', input: 'in', output: ['o1', 'o2'], command: ['sh', '-c', 'cp $0 $1; cp $0 $2', '@INPUT@', '@OUTPUT0@', '@OUTPUT1@'])\n"
    body = {
        "exe": f"e = executable('e', 'e.c', build_by_default: false)\ntest('t', e, args: [{log}])\n",
        "exe in a subdir": None,
        "exe as argument": f"e = executable('e', 'e.c', build_by_default: false)\ntest('t', find_program('sh'), args: ['-c', '$0 {c.d}/log', e])\n",
        "exe in depends": f"e = executable('e', 'e.c', build_by_default: false)\ntest('t', find_program('sh'), args: ['-c', '{c.d}/b/e {c.d}/log'], depends: e)\n",
        "shared library": f"l = shared_library('l', 'lib.c', build_by_default: false)\ne = executable('e', 'le.c', link_with: l, build_by_default: false)\ntest('t', e, args: [{log}])\n",
        "shared library in depends": f"l = shared_library('l', 'lib.c', build_by_default: false)\ntest('t', find_program('sh'), args: ['-c', 'test -e {c.d}/b/libl.so && cat {c.d}/v.h | cut -c11 >>{c.d}/log'], depends: [l])\n",
        "both libraries in depends": f"l = both_libraries('l', 'lib.c', build_by_default: false)\ntest('t', find_program('sh'), args: ['-c', 'test -e {c.d}/b/libl.so && cat {c.d}/v.h | cut -c11 >>{c.d}/log'], depends: l)\n",
        "custom target as argument": cp + f"test('t', find_program('sh'), args: ['-c', 'cmp $0 $1 && cat $1 >>{c.d}/log', ct])\n",
        "output as argument": cp + f"test('t', find_program('sh'), args: ['-c', 'cat $0 >>{c.d}/log', ct[1]])\n",
        "custom target in depends": cp + f"test('t', find_program('sh'), args: ['-c', 'cat {c.d}/b/o1 >>{c.d}/log'], depends: ct)\n",
        "output as the program": "ct = custom_target('ct', input: 'in', output: 'run.sh', command: ['sh', '-c', '{ echo \"#!/bin/sh\"; printf \"echo %s >>" + c.d + "/log\" `cat $0`; } >$1; chmod +x $1', "
                                 "'@INPUT@', '@OUTPUT@'])\ntest('t', find_program('sh'), args: [ct[0]])\n",
        "several": cp + f"e = executable('e', 'e.c', build_by_default: false)\ntest('t', e, args: [{log}, ct], depends: ct)\n",
        "two tests": cp + f"e = executable('e', 'e.c', build_by_default: false)\ntest('u', find_program('cat'), args: [ct])\ntest('t', e, args: [{log}])\n",
    }[kind]
    if kind == "exe in a subdir":
        body = "subdir('d')\n"
        world["d/meson.build"] = f"e = executable('e', '../e.c', build_by_default: false)\ntest('t', e, args: [{log}])\n"
    ops = [("w", n, t) for n, t in world.items()] + [("w", "meson.build", pre + body), ("r", ["setup", "b"], ".", {}, 60)]
    T = ["-C", "b", "test", "-j2"]
    ops += [("r", T, ".", {}, 60), ("r", T, ".", {}, 60), ("w", "v.h", "#define V 2\n"), ("w", "in", "2\n"), ("r", T + ["t"], ".", {}, 60), ("t", ".")]
    rs = c.go(ops)
    tree = rs.pop()
    for r in rs:
        if r.rc:
            return f"{kind}: {r.out[-400:]}", ()
    got = tree["log"].data.decode().split() if "log" in tree else []
    if got != ["1", "1", "2"]:
        return f"{kind}: the test saw {got} instead of 1, 1 and, after a change, 2", ()
    return None, kind


def around(c, case):
    _, kind = case
    tk = mv.tool("tick")
    da = mv.tool("dumpargv")
    ops = []
    if kind == "workdir":
        mb = ["project('p')", f"t = find_program({q(tk)})", "test('a', t, args: ['log', 'a', '0'], workdir: meson.current_source_dir() / 'w')", "subdir('d')"]
        ops = [("w", "w/x", ""), ("w", "d/meson.build", "test('b', t, args: ['log', 'b', '0'], workdir: meson.current_source_dir())\n")]
    elif kind == "wrapper":
        mb = ["project('p')", f"da = find_program({q(da)})", f"add_test_setup('w', exe_wrapper: [da, {q(c.d + '/args')}, 'w'])", f"add_test_setup('w2', exe_wrapper: da)",
              f"test('a', find_program('sh'), args: ['-c', 'false', 'x y', ''])", f"test('b', da, args: [{q(c.d + '/args')}])"]
    elif kind == "timeout":
        mb = ["project('p')", f"t = find_program({q(tk)})", "sh = find_program('sh')", "l = meson.current_source_dir() / 'log'", "add_test_setup('m3', timeout_multiplier: 30)", "add_test_setup('m0', timeout_multiplier: 0)",
              "test('short', t, args: [l, 'short', '20000'], timeout: 1)", "test('long', t, args: [l, 'long', '1500'], timeout: 100)", "test('none', t, args: [l, 'none', '1500'], timeout: 0)",
              "test('sf', t, args: [l, 'sf', '20000', '1'], timeout: 1, should_fail: true)", "test('mid', t, args: [l, 'mid', '1500'], timeout: 1)", "test('midsf', t, args: [l, 'midsf', '1500', '1'], timeout: 1, should_fail: true)", "test('neg', t, args: [l, 'neg', '1500'], timeout: -1)",
              "test('stubborn', sh, args: ['-c', 'trap \"\" TERM; echo +stubborn >>$0; for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20; do sleep 1; done; echo -stubborn >>$0', l], timeout: 1)"]
    elif kind == "script":
        mb = ["project('p')", "s = find_program('s.sh')", "test('a', s, args: ['1', 'x y'])", "test('b', s)", "test('c', s, args: ['2'])", "test('d', files('s.sh'), args: ['3'])", "meson.override_find_program('zz', s)",
              "test('e', find_program('zz'), args: ['4'])", "benchmark('f', s, args: ['5'])"]
        ops = [("w", "s.sh", f"#!/bin/sh\necho \"$#:$*\" >>{c.d}/log\n", 0o755)]
    elif kind == "failed build":
        mb = ["project('p')", f"ct = custom_target('ct', output: 'o', command: ['false'])", f"test('a', find_program('true'), depends: ct)", f"test('b', find_program('true'))"]
    elif kind == "samename":
        # two subprojects that call themselves the same
        mb = ["project('p')", "subproject('x')", "subproject('y')"]
        for s in "xy":
            ops.append(("w", f"subprojects/{s}/meson.build", f"project('same')\nadd_test_setup('e{s}')\ntest('t{s}', find_program({q(tk)}), args: [{q(c.d + '/log')}, '{s}', '0'])\n"))
    elif kind == "setup only":
        # the project with the setup has no tests of its own
        mb = ["project('p')", "add_test_setup('e', env: {'A': 'x'})", "subproject('x')"]
        ops.append(("w", "subprojects/x/meson.build", f"project('x')\ntest('tx', find_program('sh'), args: ['-c', 'echo $A >>{c.d}/log'])\n"))
    ops += [("w", "meson.build", "\n".join(mb) + "\n"), ("r", ["setup", "b"], ".", {}, 60)]

    def t(*a):
        return ("r", ["-C", "b", "test", *a], ".", {}, 60)
    if kind == "workdir":
        r, x, tree = c.go([*ops, t(), ("t", ".")])
        return (None if r.rc == x.rc == 0 and {"w/log", "d/log"} <= set(tree) and "log" not in tree else f"workdir: {x.out[-300:]} {sorted(tree)[:20]}"), kind
    if kind == "wrapper":
        r, x, t1, y, t2 = c.go([*ops, t("-e", "w", "a"), ("t", "."), ("x", "args"), t("-e", "w2", "b"), ("t", ".")])
        a1 = t1["args"].data.split(b"\0")[:-1] if "args" in t1 else None
        sh = t1 and a1 and a1[1:2]
        if r.rc or x.rc or not a1 or a1[0] != b"w" or not sh[0].endswith(b"/sh") or a1[2:] != [b"-c", b"false", b"x y", b""]:
            return f"wrapper: {a1} {x.out[-200:]}", ()
        return None, kind
    if kind == "timeout":
        r, x, tree, y, z = c.go([*ops, t("-S", "-j8", "short", "long", "none", "sf", "neg", "stubborn"), ("t", "."), t("-S", "-j8", "-e", "m3", "mid"), t("-S", "-j8", "-e", "m0", "mid", "midsf")])
        res = results(x.out)
        want = {"short": "timeout", "long": "ok", "none": "ok", "sf": "timeout", "neg": "ok", "stubborn": "timeout"}
        if res != want or x.rc == 0:
            return f"timeouts: {res}, exit code {x.rc}", ()
        ev = ran(tree)
        if {"-short", "-sf", "-stubborn"} & set(ev):
            return f"timeouts: not stopped: {ev}", ()
        if y.rc or results(y.out) != {"mid": "ok"} or z.rc or results(z.out).get("mid") != "ok":
            return f"timeout_multiplier: {results(y.out)} {results(z.out)}", ()
        return None, kind
    if kind == "script":
        r, x, tree, y, t2 = c.go([*ops, t("-j1"), ("t", "."), ("r", ["-C", "b", "benchmark"], ".", {}, 60), ("t", ".")])
        got = sorted(tree["log"].data.decode().split("\n")[:-1]) if "log" in tree else []
        g2 = sorted(t2["log"].data.decode().split("\n")[:-1]) if "log" in t2 else []
        if r.rc or x.rc or y.rc or got != sorted(["2:1 x y", "0:", "1:2", "1:3", "1:4"]) or g2 != sorted(got + ["1:5"]):
            return f"scripts: {got} {g2} {r.out[-300:]} {x.out[-300:]}", ()
        return None, kind
    if kind == "failed build":
        r, x, y = c.go([*ops, t(), t("b")])
        return (None if r.rc == 0 and y.rc == 0 else f"failed build: {r.rc} {y.rc}"), kind
    if kind == "samename":
        r, x, tree, y, t2 = c.go([*ops, t(), ("t", "."), t("-e", "same:ey"), ("t", ".")])
        ev, ev2 = sorted(ran(tree)), sorted(ran(t2))
        return (None if r.rc == x.rc == y.rc == 0 and ev == ["+x", "+y", "-x", "-y"] and len(ev2) == 8 else f"two projects of one name: {r.rc} {x.rc} {y.rc} {ev} {ev2} {r.out[-300:]}"), kind
    if kind == "setup only":
        r, x, tree = c.go([*ops, t("-e", "e"), ("t", ".")])
        got = tree["log"].data.decode() if "log" in tree else None
        return (None if r.rc == x.rc == 0 and got == "x\n" else f"setup of a project without tests: {r.rc} {x.rc} {got!r} {x.out[-300:]}"), kind
    raise ValueError(kind)


def one(c, case):
    return globals()[case[0]](c, case)


NAMES = ["a", "ab", "a*", "*", "*b", "a.b", "nope", ":a", ""]
QNAMES = ["p:a", "p:*", "p:", "s:a", "s:a*", "s:", "u:a", "p:nope"]
SUITES = ["x", "y", "p:x", "s:x", "s:y", "nope", "x*"]


def cases(deep):
    v = [(p, None, st, sf) for p in (None, "exitcode", "gtest", "rust") for st in STATUS for sf in (False, True)]
    v += [("tap", d, st, sf) for d in TAPDOC for st in (0, 1, 77, 99, -9) for sf in (False, True)]
    for x in v:
        yield ("verdicts", [x])
    for ch in mv.chunked([x for x in v if x[0] in (None, "tap") and not x[3] and not (x[0] == "tap" and x[2])], 12):
        yield ("verdicts", ch)

    def T(l, cat="test"):
        return [(n, s, cat) for n, s in l]
    one_p = {"projects": [("p", T(MAIN) + [("a", ("x",), "benchmark"), ("z", (), "benchmark")])], "setups": [("p", "e", [], False)]}
    one_s = {"projects": [("p", T(MAIN[1:] + [("c", ("z",)), ("d", ("x", "z"))]))], "setups": [("p", "e", [], False), ("p", "ex", ["x"], False), ("p", "ey", ["p:y", "nope"], False), ("p", "es", ["s:x"], False)]}
    dflt = dict(one_s, setups=[("p", "e", [], False), ("p", "ex", ["x"], True)])
    names1 = [()] + [(n,) for n in NAMES + QNAMES] + [p for p in itertools.permutations(["a", "*b", "p:a", "s:a", "nope", "b"], 2)]
    suites1 = [()] + [(s,) for s in SUITES] + list(itertools.permutations(SUITES[:5], 2))
    for w in (one_p, one_s, dflt):
        sels = [(n, s, None, "test") for n in names1 for s in suites1[:8]] + [((), s, e, "test") for s in suites1 for e in ("e", "p:e", "s:e", "nope", None)]
        if w is one_p:
            sels += [(n, s, None, "benchmark") for n in names1 for s in ((), ("x",))]
        else:
            sels += [(n, s, e, "test") for n in [(), ("*b",)] for s in suites1 for e in ("ex", "p:ex", "s:ex") + (() if w is dflt else ("ey", "es"))]
        for ch in mv.chunked(sels if deep or w is one_p else sels[::3], 20):
            yield ("selection", w, ch)
    gn = ["".join(x) for n in (1, 2, 3) for x in itertools.product("ab", repeat=n)] + ["abab", "aabaab", "a.b", "A", "a?", "[a]"]
    gp = ["".join(x) for n in (1, 2, 3, 4, 5 if deep else 4) for x in itertools.product("ab*", repeat=n)] + ["a?", "[a]", "?", "a.*", "A", "*.b", "**ab**", "*a*b*a*"]
    for ch in mv.chunked(gp, 40):
        yield ("globs", gn, ch)
    # a setup that excludes suites, and tests without any
    yield ("selection", {"projects": [("p", T(MAIN))], "setups": [("p", "ex", ["x"], False)]}, [((), (), "ex", "test")])
    # what a project's name in an argument means when there are several projects
    two = {"projects": [("p", T(MAIN[:2])), ("s", T(SUBT))], "setups": [("p", "e", ["x"], False), ("s", "e", ["s:x"], False), ("s", "f", ["s:y"], False)]}
    gap = {"projects": [("p", T(MAIN[:2])), ("s", [("z", (), "benchmark")]), ("u", T(SUBT))], "setups": []}
    for w in (two, gap):
        for n in [()] + [(x,) for x in NAMES]:
            yield ("selection", w, [(n, (), None, "test")])
        for n in QNAMES + ["u:", "s:c"]:
            yield ("selection", w, [((n,), (), None, "test")])
        for s in SUITES[:6] + ["u:x"]:
            yield ("selection", w, [((), (s,), None, "test")])
        for e in sorted({x[0] + ":" + x[1] for x in w["setups"]} | {x[1] for x in w["setups"] if x[0] == "p"}):
            yield ("selection", w, [((), (), e, "test")])
    # the order and overlap of tests
    kinds = [(None, None), (False, None), (True, 5), (False, 5), (True, -1), (False, -3)]
    for n in (1, 2, 3) if not deep else (1, 2, 3, 4):
        for k in itertools.product(kinds, repeat=n):
            if n == 4 and k != tuple(sorted(k, key=repr)):
                continue
            ms = 20
            for j in (1, 2) if n < 3 or deep else ((1, 3)[sum(kinds.index(x) for x in k) % 2],):
                yield ("schedule", [(*x, ms + 15 * i, 0) for i, x in enumerate(k)], j, 1, "run")
    for j in (1, 2, 3, 8):
        for n in (5, 9):
            yield ("schedule", [(i % 3 != 0, i % 2, 10, 0) for i in range(n)], j, 1, "run")
            yield ("schedule", [(i % 4 != 2, None, 10, 0) for i in range(n)], j, 3, "run")
        for i in range(4):
            yield ("schedule", [(None, None, 5, int(k == i)) for k in range(4)], j, 1, "fail")
            yield ("schedule", [(None, None, 5, int(k == i)) for k in range(4)], j, 1, "run")
            yield ("schedule", [(k != 1, -k, 5, int(k == i)) for k in range(4)], j, 2, "fail")
    for k in ("exe", "exe in a subdir", "exe as argument", "exe in depends", "shared library", "shared library in depends", "both libraries in depends", "custom target as argument", "output as argument", "custom target in depends",
              "output as the program", "several", "two tests"):
        yield ("needs", k)
    for k in ("timeout", "workdir", "wrapper", "script", "failed build", "samename", "setup only"):
        yield ("around", k)


def main():
    ck = mv.Check("T01", "exploration")
    mv.tool("tick")
    mv.tool("dumpargv")
    cs = sorted(cases(ck.thorough), key=lambda x: x[:2] != ("around", "timeout"))
    clicheck.run(ck, cs, one, chunk=2, keyfn=lambda what, case: what if case[0] in ("verdicts", "selection") else None)
    ck.add(exhaustive=True, rule="every exit status of 16 x protocol x should_fail x 3 TAP documents, alone and together; every combination of test name patterns, suites and setups over 1 to 3 projects; every list of "
           "up to 3 (thorough: 4) tests of 6 kinds of priority and is_parallel with 1 to 3 workers; every way a test can need a target; distinct_nontrivial: different cases with their outcomes")
    ck.sample("test('t', e, should_fail: true) whose program exits with 1: passes; 77: skipped; 99: fails")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
