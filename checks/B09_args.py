#!/usr/bin/env python3
"""B09: arguments, include directories and link arguments reach exactly the targets they are for, for every combination of where they come from."""
import itertools
import json
import os
import shlex
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import clicheck
import mv

SETUP = ["-C", "src", "setup"]


def tok(args, pre):
    return [a[len(pre):] for a in args if a.startswith(pre)]


def commands(text):
    """{output: argv} of `samu -t commands`-like output, one command per line"""
    res = {}
    for line in text.splitlines():
        try:
            a = shlex.split(line)
        except ValueError:
            continue
        if "-o" in a:
            res[a[a.index("-o") + 1]] = a
    return res


def below(seq, order):
    """the first pair of order that seq has the wrong way round"""
    for a, b in order:
        if a in seq and b in seq and seq.index(a) > seq.index(b):
            return a, b
    return None


# ---- compile and link arguments
# where arguments can come from: a subset of these
SRC = ["G", "P", "T", "L", "D1", "D2", "DN", "SP", "SD", "C1"]


def kwl(name, *vals):
    v = [f"'{x}'" for x in vals if x]
    return f", {name}: [{', '.join(v)}]" if v else ""


def run_args(c, case):
    _, what, on, opt, part = case
    on = set(on)
    link = what == "link"
    pre = "-LX" if link else "-DX"

    def t(k):
        return pre + k if k in on else ""
    akw = "link_args" if link else "c_args"
    dkw = "link_args" if link else "compile_args"
    fn = "link_arguments" if link else "arguments"
    mb = ["project('x', 'c', default_options: ['buildtype=plain'])"]
    if "G" in on:
        mb.append(f"add_global_{fn}('{t('G')}', language: 'c')")
    if "P" in on:
        mb.append(f"add_project_{fn}('{t('P')}', language: 'c')")
    mb += [f"dn = declare_dependency(compile_args: []{kwl(dkw, t('DN')) if link else ''})" if link else "dn = declare_dependency(" + kwl(dkw, t("DN"))[2:] + ")",
           f"a = static_library('a', 'a.c', dependencies: dn{kwl(akw, t('L'))})",
           "d2 = declare_dependency(" + kwl(dkw, t("D2"))[2:] + ")",
           f"d1 = declare_dependency(dependencies: d2{kwl(dkw, t('D1'))})",
           f"c1 = declare_dependency(link_with: a{kwl(dkw, t('C1'))})"]
    if part is not None:
        mb.append(f"d1 = d1.partial_dependency({part})")
    mb += ["sd = subproject('s').get_variable('sd')",
           f"executable('m', 'm.c', dependencies: [d1, sd], link_with: a{kwl(akw, t('T'))})",
           "executable('n', 'n.c')",
           "executable('k', 'k.c', dependencies: c1)"]
    sub = ["project('s', 'c')"]
    if "SP" in on:
        sub.append(f"add_project_{fn}('{t('SP')}', language: 'c')")
    sub += ["sl = static_library('sl', 'sl.c')", f"sd = declare_dependency(link_with: sl{kwl(dkw, t('SD'))})", "executable('se', 'sl.c')"]
    oname = "c_link_args" if link else "c_args"
    env, args = {}, list(SETUP)
    if opt == "O":
        args.append(f"-D{oname}={pre}O")
    elif opt == "E":
        env["LDFLAGS" if link else "CFLAGS"] = pre + "O"
    elif opt == "default":
        mb[0] = mb[0].replace("plain'", f"plain', '{oname}={pre}O'")
    args.append("../b")
    ops = [("w", "src/meson.build", "\n".join(mb) + "\n"), ("w", "src/subprojects/s/meson.build", "\n".join(sub) + "\n")]
    ops += [("w", "src/" + f, "") for f in ("a.c", "m.c", "n.c", "k.c", "subprojects/s/sl.c")]
    ops += [("r", args, None, env), ("r", ["-C", "b", "samu", "-t", "commands"]), ("f", "b/compile_commands.json")]
    s, cmds, cc = c.go(ops)
    if s.rc or cmds.rc:
        return "fails: " + (s.out + cmds.out)[-400:], "fails"
    cmds = commands(cmds.out)
    # the option of the top project is also the subproject's
    om = {"O"} if opt in ("O", "E", "default") else set()
    p_args = part is None or f"{dkw}: true" in part
    want = {}
    if link:
        want["m"] = om | {"G", "P", "T", "SD", "DN"} | ({"D1", "D2"} if p_args else set())
        want["n"] = om | {"G", "P"}
        want["k"] = om | {"G", "P", "C1", "DN"}
        want["se"] = om | {"G", "SP"}
        obj = {"m": "m", "n": "n", "k": "k", "se": "subprojects/s/se"}
    else:
        want["m"] = om | {"G", "P", "T", "SD"} | ({"D1", "D2"} if p_args else set())
        want["n"] = om | {"G", "P"}
        want["k"] = om | {"G", "P", "C1"}
        want["a"] = om | {"G", "P", "L", "DN"}
        want["sl"] = om | {"G", "SP"}
        want["se"] = om | {"G", "SP"}
        obj = {"m": "m.p/m.c.o", "n": "n.p/n.c.o", "k": "k.p/k.c.o", "a": "liba.a.p/a.c.o", "sl": "subprojects/s/libsl.a.p/sl.c.o", "se": "subprojects/s/se.p/sl.c.o"}
    sig = []
    for k, w in want.items():
        if obj[k] not in cmds:
            return f"no command makes {obj[k]}, there are {sorted(cmds)}", "missing"
        got = tok(cmds[obj[k]], pre)
        w &= on | {"O"}
        if set(got) != w or len(got) != len(w):
            return f"{k} gets {got}, expected {sorted(w)}", f"set {k}"
        bad = below(got, [("G", "P"), ("P", "T"), ("G", "T"), ("O", "T"), ("P", "L"), ("G", "SP"), ("D1", "T"), ("D2", "T"), ("DN", "L")] if not link else
                    [("G", "P"), ("G", "SP")])
        if bad:
            return f"{k} gets {got}: {bad[0]} must be before {bad[1]}", "order"
        sig.append(tuple(got))
    return check_cc(c, cc, cmds) or (None, tuple(sig))


def check_cc(c, cc, cmds):
    """compile_commands.json has exactly the commands that compile"""
    cc = json.loads(cc)
    seen = {}
    for e in cc:
        a = shlex.split(e["command"])
        o = a[a.index("-o") + 1]
        if o in seen:
            return f"compile_commands.json has {o} twice", "cc"
        seen[o] = a
        if "-c" not in a:
            return f"compile_commands.json has {a}", "cc"
        if os.path.realpath(e["directory"]) != os.path.realpath(c.d + "/b"):
            return f"compile_commands.json: directory {e['directory']}", "cc"
        if os.path.realpath(os.path.join(e["directory"], e["file"])) != os.path.realpath(c.d + "/b/" + a[a.index("-c") + 1]):
            return f"compile_commands.json: file {e['file']} for {a}", "cc"
    want = {o: a for o, a in cmds.items() if "-c" in a}
    if seen != want:
        return f"compile_commands.json has {seen}, the build runs {want}", "cc"
    return None


# ---- languages
def run_lang(c, case):
    _, on = case
    mb = ["project('x', 'c', 'cpp', default_options: ['buildtype=plain'])"]
    for k, code in LANG:
        if k in on and code.startswith("add"):
            mb.append(code)
    kw = "".join(", " + code for k, code in LANG if k in on and not code.startswith("add"))
    mb.append(f"executable('m', 'm.c', 'n.cpp'{kw})")
    args = [*SETUP] + (["-Dc_args=-DXoc"] if "oc" in on else []) + (["-Dcpp_args=-DXop"] if "op" in on else []) + (["-Dc_link_args=-LXolc"] if "olc" in on else []) + (["-Dcpp_link_args=-LXolp"] if "olp" in on else []) + ["../b"]
    ops = [("w", "src/meson.build", "\n".join(mb) + "\n"), ("w", "src/m.c", ""), ("w", "src/n.cpp", ""), ("r", args), ("r", ["-C", "b", "samu", "-t", "commands"]), ("f", "b/compile_commands.json")]
    s, cmds, cc = c.go(ops)
    if s.rc or cmds.rc:
        return "fails: " + (s.out + cmds.out)[-400:], "fails"
    cmds = commands(cmds.out)
    sig = []
    for o, pre, w in (("m.p/m.c.o", "-DX", {"gc", "pc", "pb", "tc", "oc"}), ("m.p/n.cpp.o", "-DX", {"gp", "pp", "pb", "tp", "op"}), ("m", "-LX", {"lp", "olp", "glp"})):
        got = tok(cmds[o], pre)
        if sorted(got) != sorted(w & set(on)):
            return f"{o} gets {got}, expected {sorted(w & set(on))}", "lang"
        sig.append(tuple(got))
    return check_cc(c, cc, cmds) or (None, tuple(sig))


LANG = [("gc", "add_global_arguments('-DXgc', language: 'c')"), ("gp", "add_global_arguments('-DXgp', language: 'cpp')"),
        ("pc", "add_project_arguments('-DXpc', language: 'c')"), ("pp", "add_project_arguments('-DXpp', language: ['cpp'])"),
        ("pb", "add_project_arguments('-DXpb', language: ['c', 'cpp'])"), ("tc", "c_args: '-DXtc'"), ("tp", "cpp_args: ['-DXtp']"),
        ("lc", "add_project_link_arguments('-LXlc', language: 'c')"), ("lp", "add_project_link_arguments('-LXlp', language: 'cpp')"),
        ("glp", "add_global_link_arguments('-LXglp', language: 'cpp')"), ("oc", "add"), ("op", "add"), ("olc", "add"), ("olp", "add")]
LANG = [(k, code if code != "add" else "add_project_arguments(language: 'c')") for k, code in LANG]


# ---- repeated arguments keep their place
def run_repeat(c, case):
    _, where, seq = case
    seq = list(seq)
    lst = "[" + ", ".join(f"'{x}'" for x in seq) + "]"
    mb = ["project('x', 'c', default_options: ['buildtype=plain'])"]
    kw = ""
    if where in ("global", "project"):
        mb.append(f"add_{where}_arguments({lst}, language: 'c')")
    elif where in ("global_link", "project_link"):
        mb.append(f"add_{where}_arguments({lst}, language: 'c')")
    elif where in ("c_args", "link_args"):
        kw = f", {where}: {lst}"
    elif where in ("dep", "dep_link"):
        mb.append(f"d = declare_dependency({'compile_args' if where == 'dep' else 'link_args'}: {lst})")
        kw = ", dependencies: d"
    elif where in ("depdep", "depdep_link"):
        h = len(seq) // 2
        k = "compile_args" if where == "depdep" else "link_args"
        one = "[" + ", ".join(f"'{x}'" for x in seq[:h]) + "]"
        two = "[" + ", ".join(f"'{x}'" for x in seq[h:]) + "]"
        mb.append(f"d = declare_dependency({k}: {one}, dependencies: declare_dependency({k}: {two}))")
        kw = ", dependencies: d"
    elif where == "depobj":
        mb.append(f"d = declare_dependency(compile_args: {lst})")
        mb.append("d = d.partial_dependency(compile_args: true)")
        kw = ", dependencies: [d, d]"
    mb.append(f"executable('m', 'm.c'{kw})")
    args = [*SETUP]
    if where == "option":
        args.append("-Dc_args=" + ",".join(seq))
    args.append("../b")
    s, cmds, cc = c.go([("w", "src/meson.build", "\n".join(mb) + "\n"), ("w", "src/m.c", ""), ("r", args), ("r", ["-C", "b", "samu", "-t", "commands"]), ("f", "b/compile_commands.json")])
    if s.rc or cmds.rc:
        return "fails: " + (s.out + cmds.out)[-400:], "fails"
    cmds = commands(cmds.out)
    a = cmds["m" if "link" in where else "m.p/m.c.o"]
    got = [x for x in a if x in REP]
    if got != seq:
        return f"{where}: {seq} becomes {got}", where
    return check_cc(c, cc, cmds) or (None, (where, tuple(got)))


REP = ["-Xa", "-Xb", "-u"]


# ---- include directories
INC = {"T": "i/t", "T2": "i/u", "D1": "i/d1", "D2": "i/d2", "DN": "i/dn", "SY": "i/sy", "DS": "i/ds", "SD": "subprojects/s/i", "DU": "j/i", "PI": "i/pi"}


def run_inc(c, case):
    _, on, part, implicit = case
    on = set(on)

    def inc(k, system=False):
        return (f", include_directories: include_directories('{INC[k]}'" + (", is_system: true" if system else "") + ")") if k in on else ""
    mb = ["project('x', 'c', default_options: ['buildtype=plain'])",
          f"dn = declare_dependency({inc('DN')[2:]})", "a = static_library('a', 'a.c', dependencies: dn, implicit_include_directories: false)",
          f"d2 = declare_dependency({inc('D2')[2:]})", f"d1 = declare_dependency(dependencies: d2{inc('D1')})",
          f"ds = declare_dependency({inc('DS')[2:]}).as_system()", f"sy = declare_dependency({inc('SY', True)[2:]})", "subdir('j')"]
    if part:
        mb.append(f"d1 = d1.partial_dependency({part})")
    mb.append("sd = subproject('s').get_variable('sd')")
    t = [f"'{INC[k]}'" for k in ("T", "T2") if k in on]
    mb.append(f"executable('m', 'm.c', dependencies: [d1, ds, sy, sd, du], link_with: a{', include_directories: [' + ', '.join(t) + ']' if t else ''}{'' if implicit else ', implicit_include_directories: false'})")
    mb.append("executable('n', 'n.c', implicit_include_directories: false)")
    sub = ["project('s', 'c')", "sd = declare_dependency(" + ("include_directories: 'i'" if "SD" in on else "") + ")"]
    ops = [("w", "src/meson.build", "\n".join(mb) + "\n"), ("w", "src/subprojects/s/meson.build", "\n".join(sub) + "\n"),
           ("w", "src/j/meson.build", "du = declare_dependency(" + ("include_directories: 'i'" if "DU" in on else "") + ")\n")]
    ops += [("w", f"src/{d}/h.h", "") for d in INC.values()] + [("w", "src/" + f, "") for f in ("a.c", "m.c", "n.c")]
    ops += [("r", SETUP + ["../b"]), ("r", ["-C", "b", "samu", "-t", "commands"]), ("f", "b/compile_commands.json")]
    s, cmds, cc = c.go(ops)
    if s.rc or cmds.rc:
        return "fails: " + (s.out + cmds.out)[-400:], "fails"
    cmds = commands(cmds.out)

    def incs(o):
        a = cmds[o]
        r, i = [], 0
        while i < len(a):
            for p in ("-I", "-isystem"):
                if a[i] == p:
                    r.append((p, a[i + 1]))
                elif a[i].startswith(p) and a[i] != p and a[i] != "-isystem":
                    r.append((p, a[i][len(p):]))
            i += 1
        return [(p, os.path.relpath(os.path.join(c.d, "b", x), c.d)) for p, x in r]
    p_inc = not part or "includes: true" in part
    sysd = {"SY", "DS"}
    w = [k for k in ("T", "T2", "D1", "D2", "DS", "SY", "SD", "DU") if k in on and (p_inc or k not in ("D1", "D2"))]
    want = {("-isystem" if k in sysd else "-I", "src/" + INC[k]) for k in w} | ({("-I", "src"), ("-I", "b")} if implicit else set())
    got = incs("m.p/m.c.o")
    # the directory of the same name in the build directory is only there when something made it
    got = [x for x in got if not (x[1].startswith("b/") and x[1] != "b")]
    if set(got) != want or len(got) != len(set(got)):
        return f"m gets {got}, expected {sorted(want)}", "inc"
    order = [x[1][4:] for x in got]
    bad = below(order, [(INC[a], INC[b]) for a, b in (("T", "T2"), ("T", "D1"), ("T", "D2"), ("T2", "D1"), ("T", "DS"), ("T", "SD"), ("T2", "SD"), ("T2", "DU"), ("D1", "SD"), ("D1", "DU"), ("SD", "DU"), ("D2", "SD"))])
    if bad:
        return f"m gets {got}: {bad[0]} must be before {bad[1]}", "incorder"
    if incs("n.p/n.c.o"):
        return f"n gets {incs('n.p/n.c.o')}", "n"
    if set(incs("liba.a.p/a.c.o")) != ({("-I", "src/" + INC["DN"])} if "DN" in on else set()):
        return f"a gets {incs('liba.a.p/a.c.o')}", "a"
    return check_cc(c, cc, cmds) or (None, tuple(got))


RUN = {"args": run_args, "lang": run_lang, "repeat": run_repeat, "inc": run_inc}


def run(c, case):
    return RUN[case[0]](c, case)


def subsets(s, deep, k):
    for r in range(len(s) + 1):
        if deep or r <= k or r >= len(s) - 1:
            yield from itertools.combinations(s, r)


def cases(deep):
    for where in ("global", "project", "global_link", "project_link", "c_args", "link_args", "dep", "dep_link", "depdep", "depdep_link", "depobj", "option"):
        for n in range(1, 5 if deep else 4):
            for seq in itertools.product(REP, repeat=n):
                if where == "depobj" and n > 0:
                    continue
                yield "repeat", where, seq
    for what in ("compile", "link"):
        dk = "link_args" if what == "link" else "compile_args"
        other = "compile_args" if what == "link" else "link_args"
        for on in subsets(SRC, deep, 2):
            for opt in ("", "O", "E", "default"):
                for part in (None, "", f"{dk}: true", f"{dk}: false", f"includes: true, links: true, sources: true, {other}: true"):
                    if not deep and len(on) > 1 and len(on) < len(SRC) - 1 and (part is not None and opt):
                        continue
                    if deep and part in ("", f"{dk}: false") and (opt == "default" or len(on) > 3):
                        continue
                    yield "args", what, on, opt, part
    for on in subsets([k for k, _ in LANG], False, 3 if deep else 1):
        yield "lang", on
    for on in subsets([k for k in INC if k != "PI"], deep, 2):
        for part in (None, "includes: true", "includes: false", "compile_args: true, links: true, sources: true, link_args: true"):
            for implicit in (True, False):
                if part and part != "includes: true" and not implicit and (not deep or len(on) > 2):
                    continue
                yield "inc", on, part, implicit


def main():
    ck = mv.Check("B09", "exploration")
    clicheck.run(ck, cases(ck.thorough), run, chunk=20)
    ck.add(exhaustive=True, rule="every subset (quick: of size <= 2, and of size >= n-1) of ten sources of compile or link arguments, option sources and partial dependencies; every subset of nine sources of include directories; every sequence of up to 3 (4) repeated arguments in twelve places; languages")
    ck.sample("link args from G, DN, SD; option by LDFLAGS; partial_dependency(link_args: true)")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
