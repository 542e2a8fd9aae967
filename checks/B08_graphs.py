#!/usr/bin/env python3
"""B08: programs link what their build description says, for every small graph of targets, and stay up to date."""
import itertools
import os
import re
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import clicheck
import mv

FN = {"st": "static_library", "sh": "shared_library", "bo": "both_libraries"}
WAYS = ["none", "with", "whole", "dep", "depw", "deps"]
SETUP = ["-C", "src", "setup", "../b"]
SAMU = ["-C", "b", "samu"]


def steps(r):
    """the lines with which the build reports what it runs"""
    return re.findall(r"^\[\d+/\d+\].*", r.out, re.M)


def use(edges):
    """the keywords with which a target uses libraries: {library: way}"""
    kw = {"link_with": [], "link_whole": [], "dependencies": []}
    for j, w in sorted(edges.items()):
        if w == "with":
            kw["link_with"].append(f"l{j}")
        elif w == "whole":
            kw["link_whole"].append(f"l{j}")
        elif w == "dep":
            kw["dependencies"].append(f"declare_dependency(link_with: l{j})")
        elif w == "depw":
            kw["dependencies"].append(f"declare_dependency(link_whole: l{j})")
        elif w == "deps":
            kw["dependencies"].append(f"declare_dependency(dependencies: declare_dependency(link_with: l{j}))")
    return "".join(f", {k}: [{', '.join(v)}]" for k, v in kw.items() if v)


def csrc(name, val, calls):
    return "".join(f"int f{j}(void);\n" for j in calls) + f"int {name}(void) {{ return {val}" + "".join(f" + f{j}()" for j in calls) + "; }\n"


def main_c(calls):
    return "#include <stdio.h>\n" + "".join(f"int f{j}(void);\n" for j in calls) + 'int main(void) { printf("=%d\\n", 0' + "".join(f" + f{j}()" for j in calls) + "); return 0; }\n"


def value(n, edges, vals):
    v = {}
    for i in range(1, n + 1):
        v[i] = vals[i] + sum(v[j] for j, w in edges[i].items() if w != "none")
    return sum(v[j] for j, w in edges[0].items() if w != "none")


def valid(kinds, edges):
    return all(not (w in ("whole", "depw") and kinds[j - 1] == "sh") for e in edges.values() for j, w in e.items())


def outputs(kind, i):
    return {"st": [f"libl{i}.a"], "sh": [f"libl{i}.so"], "bo": [f"libl{i}.a", f"libl{i}.so"]}[kind]


def reach(edges, i):
    r, todo = set(), [i]
    while todo:
        k = todo.pop()
        for j, w in edges[k].items():
            if w != "none" and j not in r:
                r.add(j)
                todo.append(j)
    return r


def run_graph(c, case):
    """edges: {consumer (0: the program): {library: way}}"""
    _, kinds, E = case
    n = len(kinds)
    edges = {i: dict(e) for i, e in E}
    vals = {i: 10 ** i for i in range(1, n + 1)}
    calls = {i: [j for j, w in sorted(e.items()) if w != "none"] for i, e in edges.items()}
    mb = ["project('x', 'c', default_options: ['buildtype=plain'])"]
    ops = []
    for i in range(1, n + 1):
        mb.append(f"l{i} = {FN[kinds[i - 1]]}('l{i}', 'l{i}.c', install: true{use(edges[i])})")
        ops.append(("w", f"src/l{i}.c", csrc(f"f{i}", vals[i], calls[i])))
    mb.append(f"executable('m', 'm.c', install: true{use(edges[0])})")
    ops += [("w", "src/m.c", main_c(calls[0])), ("w", "src/meson.build", "\n".join(mb) + "\n"), ("r", SETUP), ("r", SAMU, None, None, 60), ("e", ["b/m"]), ("t", "b"), ("r", SAMU)]
    for i in range(1, n + 1):
        vals[i] *= 2
        ops += [("w", f"src/l{i}.c", csrc(f"f{i}", vals[i], calls[i])), ("r", SAMU, None, None, 60), ("e", ["b/m"]), ("t", "b")]
    ops += [("r", ["-C", "b", "install"], None, {"DESTDIR": c.d + "/i"}), ("e", ["i/usr/local/bin/m"], None, {"LD_LIBRARY_PATH": c.d + "/i/usr/local/lib"}), ("t", "i"), ("t", "b")]
    R = c.go(ops)
    s, b, m, t, again = R[:5]
    if s.rc:
        return "setup fails: " + s.out[-300:], "setup"
    if b.rc:
        return "the build fails: " + b.out[-600:], "build"
    vals = {i: 10 ** i for i in range(1, n + 1)}
    if m.out.strip() != f"={value(n, edges, vals)}":
        return f"the program prints {m.out[-200:]!r}, expected {value(n, edges, vals)}", "value"
    if again.rc or steps(again):
        return "a second build does something: " + again.out[-200:], "again"
    for i in range(1, n + 1):
        b, m, t2 = R[2 + 3 * i:5 + 3 * i]
        vals[i] *= 2
        if b.rc:
            return f"the build after editing l{i}.c fails: " + b.out[-300:], "build2"
        if m.out.strip() != f"={value(n, edges, vals)}":
            return f"after editing l{i}.c the program prints {m.out!r}, expected {value(n, edges, vals)}", "value2"
        for j in range(0, n + 1):
            if j == i or i in reach(edges, j):
                continue
            for f in outputs(kinds[j - 1], j) if j else ["m"]:
                if t["b/" + f].mtime != t2["b/" + f].mtime:
                    return f"editing l{i}.c rebuilds {f}", "toomuch"
        for p, e in t2.items():
            if p.endswith(".o") and (t[p].mtime != e.mtime) != (os.path.basename(p) == f"l{i}.c.o"):
                return f"editing l{i}.c {'rebuilds' if t[p].mtime != e.mtime else 'does not rebuild'} {p}", "objects"
        t = t2
    ins, m, it, bt = R[-4:]
    if ins.rc:
        return "the installation fails: " + ins.out[-300:], "install"
    if m.out.strip() != f"={value(n, edges, vals)}":
        return f"the installed program prints {m.out[-200:]!r}, expected {value(n, edges, vals)}", "value3"
    want = {"i/usr/local/bin/m"} | {f"i/usr/local/lib/{f}" for i in range(1, n + 1) for f in outputs(kinds[i - 1], i)}
    got = {p for p, e in it.items() if e.type != "d"}
    if got != want:
        return f"installed {sorted(got)}, expected {sorted(want)}", "files"
    for p in want:
        if p.endswith((".so", "/m")) and (c.d + "/b").encode() in it[p].data:
            return f"{p} refers to the build directory", "rpath"
    return None, (kinds, value(n, edges, vals))


# ---- names
def run_names(c, case):
    _, kind, kw = case
    kw = dict(kw)
    text = "".join(f", {k}: {v}" for k, v in kw.items())
    ops = [("w", "src/meson.build", f"project('x', 'c')\nl = {FN[kind]}('n', 'a.c', install: true{text})\nexecutable('m', 'm.c', link_with: l)\n"),
           ("w", "src/a.c", csrc("f1", 5, [])), ("w", "src/m.c", main_c([1])), ("r", SETUP), ("r", SAMU, None, None, 60), ("e", ["b/m"]), ("t", "b"),
           ("r", ["-C", "b", "install"], None, {"DESTDIR": c.d + "/i"}), ("t", "i"), ("r", SAMU),
           ("e", ["sh", "-c", "readelf -d b/*n.* 2>/dev/null | grep SONAME | sort -u"])]
    s, b, m, t, ins, it, again, so = c.go(ops)
    if s.rc or b.rc or ins.rc:
        return "fails: " + (s if s.rc else b if b.rc else ins).out[-400:], "fails"
    if m.out.strip() != "=5":
        return f"the program prints {m.out!r}", "value"
    if steps(again):
        return "a build after the installation does something", "again"

    def lit(k, d):
        v = kw.get(k)
        return d if v is None or v == "[]" else v.strip("'")
    pre = lit("name_prefix", "lib")
    want = set()
    if kind in ("st", "bo"):
        want.add(f"{pre}n.{lit('name_suffix', 'a')}")
    soname = None
    if kind in ("sh", "bo"):
        base = f"{pre}n.{lit('name_suffix', 'so')}"
        ver = lit("version", None)
        sov = lit("soversion", None)
        if sov is None and ver:
            sov = ver.split(".")[0]
        want.add(base)
        if sov is not None:
            want.add(base + "." + sov)
        if ver:
            want.add(base + "." + ver)
        soname = base + ("." + sov if sov is not None else "")
    got = {p.rsplit("/", 1)[1] for p, e in it.items() if e.type != "d"}
    if got != want:
        return f"installs {sorted(got)}, expected {sorted(want)}", "files"
    top = {p[2:] for p, e in t.items() if p.count("/") == 1 and e.type != "d" and p[2:].startswith(pre + "n.") and not p.endswith(".p")}
    if top != want:
        return f"builds {sorted(top)}, expected {sorted(want)}", "built"
    for p, e in it.items():
        if e.type == "l" and (os.path.dirname(p) + "/" + e.data.decode() not in it or "/" in e.data.decode()):
            return f"{p} points to {e.data}", "link"
    real = [p for p, e in it.items() if e.type == "f"]
    if len(real) != (2 if kind == "bo" else 1):
        return f"installs the files {real}", "copies"
    if soname and f"[{soname}]" not in so.out:
        return f"the soname is {so.out!r}, expected {soname}", "soname"
    return None, tuple(sorted(want))


# ---- objects and generated sources
PY = "python3"
GEN = ["sh", "-c"]


def gen_cases():
    """(id, meson.build after project(), sources, edit, value before, value after)"""
    G = "g = custom_target('g', input: 'g.in', output: 'g.h', command: ['cp', '@INPUT@', '@OUTPUT@'])\n"
    GC = "gc = custom_target('gc', input: 'gc.in', output: 'gc.c', command: ['cp', '@INPUT@', '@OUTPUT@'])\n"
    inc = '#include "g.h"\n'
    S = {"src/g.in": "#define V 3\n", "src/m.c": inc + '#include <stdio.h>\nint main(void) { printf("=%d\\n", V); return 0; }\n'}
    edit = ("src/g.in", "#define V 4\n")
    L = {"src/l1.c": inc + "int f1(void) { return V; }\n", "src/g.in": "#define V 3\n", "src/m.c": main_c([1])}
    GCS = {"src/gc.in": "int f1(void) { return 3; }\n", "src/m.c": main_c([1])}
    gce = ("src/gc.in", "int f1(void) { return 4; }\n")
    yield "exe", G + "executable('m', 'm.c', g)", S, edit
    yield "exe[0]", G + "executable('m', 'm.c', g[0])", S, edit
    yield "exe-list", G + "executable('m', ['m.c', [g]])", S, edit
    yield "exe-sources", G + "executable('m', 'm.c', sources: g)", S, edit
    yield "dep", G + "d = declare_dependency(sources: g)\nexecutable('m', 'm.c', dependencies: d)", S, edit
    yield "depdep", G + "d = declare_dependency(dependencies: declare_dependency(sources: g))\nexecutable('m', 'm.c', dependencies: d)", S, edit
    yield "partial", G + "d = declare_dependency(sources: g).partial_dependency(sources: true)\nexecutable('m', 'm.c', dependencies: d)", S, edit
    for k in FN.values():
        yield "lib-" + k, G + f"l = {k}('l1', 'l1.c', g)\nexecutable('m', 'm.c', link_with: l)", L, edit
        yield "libdep-" + k, G + f"d = declare_dependency(sources: g)\nl = {k}('l1', 'l1.c', dependencies: d)\nexecutable('m', 'm.c', link_with: l)", L, edit
        yield "gc-" + k, GC + f"l = {k}('l1', gc)\nexecutable('m', 'm.c', link_with: l)", GCS, gce
        yield "ext-" + k, f"l = {k}('l1', 'l1.c')\nexecutable('m', 'm.c', objects: l.extract_all_objects(recursive: true))", {"src/l1.c": csrc("f1", 3, []), "src/m.c": main_c([1])}, ("src/l1.c", csrc("f1", 4, []))
        yield "ext1-" + k, f"l = {k}('l1', 'l1.c', 'l2.c')\nexecutable('m', 'm.c', objects: l.extract_objects('l1.c'))", {"src/l1.c": csrc("f1", 3, []), "src/l2.c": "int main(void) { return 7; }\n", "src/m.c": main_c([1])}, ("src/l1.c", csrc("f1", 4, []))
        yield "extf-" + k, f"l = {k}('l1', 'l1.c', 'l2.c')\nexecutable('m', 'm.c', objects: l.extract_objects(files('l1.c')))", {"src/l1.c": csrc("f1", 3, []), "src/l2.c": "int main(void) { return 7; }\n", "src/m.c": main_c([1])}, ("src/l1.c", csrc("f1", 4, []))
        yield "extg-" + k, GC + f"l = {k}('l1', gc)\nexecutable('m', 'm.c', objects: l.extract_all_objects(recursive: true))", GCS, gce
    yield "gc", GC + "executable('m', 'm.c', gc)", GCS, gce
    yield "gc+g", G + GC + "executable('m', 'm.c', gc, g)", {"src/g.in": "#define V 3\n", "src/gc.in": inc + "int f1(void) { return V; }\n", "src/m.c": main_c([1])}, edit
    yield "gc-chain", "a = custom_target('a', input: 'gc.in', output: 'a.x', command: ['cp', '@INPUT@', '@OUTPUT@'])\ngc = custom_target('gc', input: a, output: 'gc.c', command: ['cp', '@INPUT@', '@OUTPUT@'])\nexecutable('m', 'm.c', gc)", GCS, gce
    yield "depends", "a = custom_target('a', input: 'gc.in', output: 'a.x', command: ['cp', '@INPUT@', '@OUTPUT@'])\ngc = custom_target('gc', output: 'gc.c', depends: a, command: ['cp', meson.current_build_dir() / 'a.x', '@OUTPUT@'])\nexecutable('m', 'm.c', gc)", GCS, gce
    yield "depend_files", "gc = custom_target('gc', output: 'gc.c', depend_files: 'gc.in', command: ['cp', meson.current_source_dir() / 'gc.in', '@OUTPUT@'])\nexecutable('m', 'm.c', gc)", GCS, gce
    yield "capture", "gc = custom_target('gc', input: 'gc.in', output: 'gc.c', capture: true, command: ['cat', '@INPUT@'])\nexecutable('m', 'm.c', gc)", GCS, gce
    yield "feed", "gc = custom_target('gc', input: 'gc.in', output: 'gc.c', capture: true, feed: true, command: ['cat'])\nexecutable('m', 'm.c', gc)", GCS, gce
    yield "generator", "gn = generator(find_program('cp'), output: '@BASENAME@.c', arguments: ['@INPUT@', '@OUTPUT@'])\nexecutable('m', 'm.c', gn.process('gc.in'))", GCS, gce
    yield "generator-h", "gn = generator(find_program('cp'), output: '@BASENAME@.h', arguments: ['@INPUT@', '@OUTPUT@'])\nexecutable('m', 'm.c', gn.process('g.in'))", S, edit
    yield "generator-dep", "gn = generator(find_program('cp'), output: '@BASENAME@.h', arguments: ['@INPUT@', '@OUTPUT@'])\nd = declare_dependency(sources: gn.process('g.in'))\nexecutable('m', 'm.c', dependencies: d)", S, edit
    yield "generator-ct", "a = custom_target('a', input: 'gc.in', output: 'gc.x', command: ['cp', '@INPUT@', '@OUTPUT@'])\ngn = generator(find_program('cp'), output: '@BASENAME@.c', arguments: ['@INPUT@', '@OUTPUT@'])\nexecutable('m', 'm.c', gn.process(a))", GCS, gce
    yield "two", "g = custom_target('g', input: 'g.in', output: ['g.h', 'h.h'], command: ['sh', '-c', 'cp $0 $1; cp $0 $2', '@INPUT@', '@OUTPUT0@', '@OUTPUT1@'])\nexecutable('m', 'm.c', g)", S, edit
    yield "tool", "t = executable('t', 't.c')\ng = custom_target('g', input: 'g.in', output: 'g.h', command: [t, '@INPUT@', '@OUTPUT@'])\nexecutable('m', 'm.c', g)", {**S, "src/t.c": TOOL}, edit
    yield "tool-src", "t = executable('t', 't.c')\ng = custom_target('g', output: 'g.h', command: [t, files('g.in'), '@OUTPUT@'])\nexecutable('m', 'm.c', g)", {**S, "src/t.c": TOOL}, edit
    yield "tool-gen", "t = executable('t', 't.c')\ngn = generator(t, output: '@BASENAME@.h', arguments: ['@INPUT@', '@OUTPUT@'])\nexecutable('m', 'm.c', gn.process('g.in'))", {**S, "src/t.c": TOOL}, edit
    yield "tool-edit", "t = executable('t', 't.c')\ng = custom_target('g', output: 'g.h', command: [t, '@OUTPUT@'])\nexecutable('m', 'm.c', g)", \
        {"src/m.c": S["src/m.c"], "src/t.c": TOOL2.replace("VALUE", "3")}, ("src/t.c", TOOL2.replace("VALUE", "4"))
    yield "tool-libedit", "l = static_library('tl', 'tl.c')\nt = executable('t', 't.c', link_with: l)\ng = custom_target('g', output: 'g.h', command: [t, '@OUTPUT@'])\nexecutable('m', 'm.c', g)", \
        {"src/m.c": S["src/m.c"], "src/t.c": "int v(void);\n" + TOOL2.replace("VALUE", "v()"), "src/tl.c": "int v(void) { return 3; }\n"}, ("src/tl.c", "int v(void) { return 4; }\n")
    yield "header", "executable('m', 'm.c')", {"src/m.c": '#include "i/k.h"\n#include <stdio.h>\nint main(void) { printf("=%d\\n", V); return 0; }\n', "src/i/k.h": '#include "l.h"\n', "src/i/l.h": "#define V 3\n"}, ("src/i/l.h", "#define V 4\n")
    yield "incdir", "executable('m', 'm.c', include_directories: 'i')", {"src/m.c": '#include <k.h>\n#include <stdio.h>\nint main(void) { printf("=%d\\n", V); return 0; }\n', "src/i/k.h": "#define V 3\n"}, ("src/i/k.h", "#define V 4\n")
    yield "conf", "configure_file(input: 'g.in', output: 'g.h', copy: true)\nexecutable('m', 'm.c')", S, edit
    yield "sub-header", "subdir('s')\nexecutable('m', 'm.c', g)", {"src/s/meson.build": "g = custom_target('g', input: 'g.in', output: 'g.h', command: ['cp', '@INPUT@', '@OUTPUT@'])\n", "src/s/g.in": "#define V 3\n",
        "src/m.c": '#include "s/g.h"\n#include <stdio.h>\nint main(void) { printf("=%d\\n", V); return 0; }\n'}, ("src/s/g.in", "#define V 4\n")
    yield "sub-inc", "subdir('s')\nexecutable('m', 'm.c', g, include_directories: 's')", {"src/s/meson.build": "g = custom_target('g', input: 'g.in', output: 'g.h', command: ['cp', '@INPUT@', '@OUTPUT@'])\n", "src/s/g.in": "#define V 3\n",
        "src/m.c": '#include <g.h>\n#include <stdio.h>\nint main(void) { printf("=%d\\n", V); return 0; }\n'}, ("src/s/g.in", "#define V 4\n")
    yield "subproj", "d = subproject('s').get_variable('d')\nexecutable('m', 'm.c', dependencies: d)", {"src/subprojects/s/meson.build": "project('s', 'c')\ng = custom_target('g', input: 'g.in', output: 'g.h', command: ['cp', '@INPUT@', '@OUTPUT@'])\nl = library('sl', 'l.c', g)\n"
        "d = declare_dependency(sources: g, link_with: l, include_directories: '.')\n", "src/subprojects/s/g.in": "#define V 3\n", "src/subprojects/s/l.c": '#include "g.h"\nint f1(void) { return V; }\n',
        "src/m.c": '#include <g.h>\n#include <stdio.h>\nint f1(void);\nint main(void) { printf("=%d\\n", V == f1() ? V : 99); return 0; }\n'}, ("src/subprojects/s/g.in", "#define V 4\n")
    yield "both-objects", "s = static_library('l3', 'l3.c')\no = s.extract_all_objects(recursive: true)\nl = both_libraries('l1', 'l1.c', objects: o)\nexecutable('m', 'm.c', 'l2.c', objects: o)\nexecutable('m2', 'm.c', link_with: l)", \
        {"src/l1.c": csrc("f1", 7, [3]), "src/l2.c": csrc("f1", 0, [3]), "src/l3.c": csrc("f3", 3, []), "src/m.c": main_c([1])}, ("src/l3.c", csrc("f3", 4, []))
    yield "asneeded", "l = static_library('l1', 'l1.c')\nk = static_library('l2', 'l2.c', link_with: l)\nexecutable('m', 'm.c', link_with: [l, k])", {"src/l1.c": csrc("f1", 3, []), "src/l2.c": csrc("f2", 0, [1]), "src/m.c": main_c([2])}, ("src/l1.c", csrc("f1", 4, []))
    yield "cycle", "l = static_library('l1', 'l1.c', 'l3.c')\nk = static_library('l2', 'l2.c')\nexecutable('m', 'm.c', link_with: [l, k])", {"src/l1.c": csrc("f1", 0, [2]), "src/l2.c": csrc("f2", 0, [3]), "src/l3.c": csrc("f3", 3, []), "src/m.c": main_c([1])}, ("src/l3.c", csrc("f3", 4, []))


TOOL = "#include <stdio.h>\nint main(int n, char **v) { FILE *i = fopen(v[1], \"r\"), *o = fopen(v[2], \"w\"); int c; while ((c = getc(i)) != EOF) putc(c, o); return 0; }\n"
TOOL2 = "#include <stdio.h>\nint main(int n, char **a) { FILE *o = fopen(a[1], \"w\"); fprintf(o, \"%cdefine V %d\\n\", 35, VALUE); return 0; }\n"


def run_gen(c, case):
    _, name, mb, src, edit, unity = case
    ops = [("w", "src/meson.build", "project('x', 'c', default_options: ['buildtype=plain'])\n" + mb + "\n")] + [("w", p, x) for p, x in src.items()]
    ops += [("r", SETUP), ("r", ["-C", "b", "samu", "-j8"], None, None, 60), ("e", ["b/m"]), ("r", SAMU), ("t", "b"), ("w",) + edit, ("r", SAMU, None, None, 60), ("e", ["b/m"]), ("r", SAMU), ("f", "b/build.ninja")]
    s, b, m, again, t, b2, m2, again2, nin = c.go(ops, keep=False)
    for what, r in (("setup", s), ("the build", b), ("the build after an edit", b2)):
        if r.rc:
            return f"{what} fails: " + r.out[-400:], "fails"
    if m.out.strip() != "=3":
        return f"the program prints {m.out[-200:]!r}, expected 3", "value"
    if m2.out.strip() != "=4":
        return f"after an edit the program prints {m2.out[-200:]!r}, expected 4", "stale"
    if steps(again) or steps(again2):
        return "another build does something: " + (again.out + again2.out)[-300:], "again"
    # every file can be built alone, from nothing: no order is missing
    outs = sorted(p[2:] for p, e in t.items() if e.type in "fl" and (".p/" in p or p.count("/") == 1) and not p.endswith(".d"))
    outs = [o for o in outs if f"build {o}" in nin.decode() or f" {o}:" in nin.decode()]
    for o in outs:
        if o == "build.ninja":
            continue
        r = c.go(ops[:-10 + 1] + [("r", ["-C", "b", "samu", o], None, None, 60), ("t", "b")])
        if r[-2].rc:
            return f"building {o} alone fails: " + r[-2].out[-300:], "alone"
        if "b/" + o not in r[-1]:
            return f"building {o} alone does not make it", "alone2"
    return None, (name, len(outs))


# ---- what a command uses
LOGSH = """#!/bin/sh
log=$1; shift
for a; do case "$a" in *.out) echo x >"$a"; n=$a;; esac; done
echo "${n:-$ME}" >>"$log"
"""
# element of a command: the files it makes the target depend on
ELEMS = {"'@INPUT@'": (), "'@OUTPUT@'": (), "'x@INPUT0@'": (), "'@INPUT1@'": (), "files('fa')": ("fa",), "ct": ("ca",), "ct2[1]": ("cb",), "exe": ("e.c",), "prog": ("p.sh",), "cf": ("cf",), "'fb'": (),
         "['fb', files('fc')]": ("fc",), "sub_f": ("d/fd",)}
CKW = ["", ", depend_files: 'da'", ", depends: dt", ", depend_files: files('da'), depends: [dt, ct2]"]
CKWD = [(), ("da",), ("db",), ("da", "db", "cb")]
CEDIT = ["in0", "in1", "fa", "ca", "cb", "e.c", "p.sh", "cf", "fc", "d/fd", "da", "db", "t.sh", "none"]


def cmd_cases(deep):
    for n in range(0, 4 if deep else 3):
        for t in itertools.permutations(ELEMS, n):
            for k in range(len(CKW)):
                for inp in (True, False):
                    if not inp and any("INPUT" in x for x in t) or n > 2 and (k + len(repr(t))) % 4:
                        continue
                    yield t, k, inp
    if not deep:
        for i, t in enumerate(itertools.permutations(list(ELEMS)[:8], 3)):
            yield t, i % 4, True


def run_cmd(c, case):
    _, ts = case
    mb = ["project('x', 'c', default_options: ['buildtype=plain'])", "l = meson.current_source_dir() / 'log'", "t = find_program('t.sh')", "subdir('d')", "prog = find_program('p.sh')",
          "exe = executable('exe', 'e.c')", "cf = configure_file(input: 'cf', output: 'cf.o', copy: true)",
          "ct = custom_target('ct', input: 'ca', output: 'ca.o', command: ['cp', '@INPUT@', '@OUTPUT@'])", "dt = custom_target('dt', input: 'db', output: 'db.o', command: ['cp', '@INPUT@', '@OUTPUT@'])",
          "ct2 = custom_target('ct2', input: 'cb', output: ['cb.1', 'cb.2'], command: ['sh', '-c', 'cp $0 $1; cp $0 $2', '@INPUT@', '@OUTPUT@'])"]
    want = []
    for i, (t, k, inp) in enumerate(ts):
        t = list(t)
        e = ", ".join(t if "'@OUTPUT@'" in t else t + ["'@OUTPUT@'"])
        mb.append(f"custom_target('t{i}', output: 't{i}.out'{', input: [' + repr('in0') + ', ' + repr('in1') + ']' if inp else ''}, command: [t, l, {e}]{CKW[k]}, build_by_default: true)")
        want.append({x for y in t for x in ELEMS[y]} | set(CKWD[k]) | {"t.sh"} | ({"in0", "in1"} if inp else set()))
    ops = [("w", f"src/{f}", f"{f}\n") for f in CEDIT + ["fb"] if f not in ("e.c", "p.sh", "t.sh")]
    ops += [("w", "src/e.c", "int main(void) { return 0; }\n"), ("w", "src/p.sh", "#!/bin/sh\n", 0o755), ("w", "src/t.sh", LOGSH, 0o755), ("w", "src/d/meson.build", "sub_f = files('fd')\n"),
            ("w", "src/meson.build", "\n".join(mb) + "\n"), ("r", SETUP), ("r", SAMU, None, None, 100), ("f", "src/log"), ("r", SAMU)]
    for f in CEDIT:
        new = {"e.c": "int main(void) { return 1; }\n", "t.sh": LOGSH + "#\n"}.get(f, "#!/bin/sh\n# new\n")
        ops += [("x", "src/log"), ("e", ["sleep", "0.01"]), ("w", f"src/{f}", new) + ((0o755,) if f.endswith(".sh") else ()), ("e", ["sleep", "0.01"]), ("r", SAMU, None, None, 100), ("f", "src/log"), ("r", SAMU)]
    R = c.go(ops)
    s, b, log, again = R[:4]
    if s.rc or b.rc:
        return "setup or the build fails: " + (s.out + b.out)[-400:], "fails"
    if sorted((log or b"").decode().split()) != sorted(f"t{i}.out" for i in range(len(ts))) or steps(again):
        return f"not every command ran once: {log} {again.out[-200:]}", "once"
    for f, (_, _, b, log, again) in zip(CEDIT, mv.chunked(R[4:], 5)):
        got = sorted((log or b"").decode().split())
        exp = sorted(f"t{i}.out" for i in range(len(ts)) if f in want[i])
        if b.rc or steps(again):
            return f"the build after an edit of {f} fails or never ends: {b.out[-200:]} {again.out[-200:]}", "edit"
        if got != exp:
            d = (set(got) ^ set(exp) or {got[0]}).pop()
            i = int(d[1:-4])
            return f"after an edit of {f} the command {ts[i]} runs {got.count(d)} times, expected {exp.count(d)}", "edit"
    return None, (ts[0],)


def run(c, case):
    return {"cmd": run_cmd, "graph": run_graph, "names": run_names, "gen": run_gen}[case[0]](c, case)


def cases(deep):
    for part in mv.chunked(cmd_cases(deep), 40):
        yield ("cmd", list(part))
    for g in gen_cases():
        yield ("gen",) + g + (False,)
    for kind in FN:
        for p in ([], [("name_prefix", "''")], [("name_prefix", "'x'")], [("name_prefix", "[]")]):
            for s in ([], [("name_suffix", "'z'")], [("name_suffix", "[]")]):
                for v in ([], [("version", "'1.2.3'")], [("soversion", "'9'")], [("soversion", "7")], [("version", "'4.5'"), ("soversion", "'0'")], [("version", "'3'")]):
                    if v and kind == "st":
                        continue
                    if kind == "bo" and s and s[0][1] == "'z'":
                        continue
                    yield "names", kind, tuple(p + s + v)
    K = ["st", "sh", "bo"]
    # one library, every way
    for k in K:
        for w in WAYS[1:]:
            e = {0: {1: w}, 1: {}}
            if valid((k,), e):
                yield "graph", (k,), tuple((i, tuple(x.items())) for i, x in e.items())
    # two libraries
    W2 = WAYS if deep else ["none", "with", "whole", "dep"]
    for ks in itertools.product(K if deep else K[:2], repeat=2):
        for a, b, d in itertools.product(W2, repeat=3):
            e = {0: {1: a, 2: b}, 1: {}, 2: {1: d}}
            if b == "none" or not valid(ks, e) or a == d == "none":
                continue
            yield "graph", ks, tuple((i, tuple(x.items())) for i, x in e.items())
    # three libraries: chains and diamonds
    W3 = ["with", "whole", "dep"] if deep else ["with", "whole"]
    for ks in itertools.product(K if deep else K[:2], repeat=3):
        for a, b, d in itertools.product(W3, repeat=3):
            for e in ({0: {3: a}, 1: {}, 2: {1: b}, 3: {2: d}},
                      {0: {3: a, 2: b}, 1: {}, 2: {1: d}, 3: {1: "with"}},
                      {0: {3: "with"}, 1: {}, 2: {1: a}, 3: {2: b, 1: d}}):
                if valid(ks, e):
                    yield "graph", ks, tuple((i, tuple(x.items())) for i, x in e.items())


def main():
    ck = mv.Check("B08", "exploration")
    clicheck.run(ck, cases(ck.thorough), run, chunk=4)
    ck.add(exhaustive=True, rule="every graph of up to two libraries and every chain and diamond of three, by kind of library and way of linking, built, edited, rebuilt and installed; every name keyword; every way of using generated files, each output built alone; every command of up to 2 (thorough: 3) of 13 elements that name files, targets and programs, every file edited")
    ck.sample("m -with-> l2 (shared) -whole-> l1 (static)")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
