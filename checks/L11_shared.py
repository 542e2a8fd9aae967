#!/usr/bin/env python3
"""L11: a call never changes what it was given, and what one declaration is given later or elsewhere never changes
another: declarations that share lists, dictionaries, dependencies, targets and files build what each builds alone."""
import itertools
import re
import struct
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import clicheck
import mv

# the shared values, and what += adds to them
VARS = {
    "srcs": ("['m1.c', 'm2.c']", "'m3.c'"),
    "fsrcs": ("files('f1.c', 'f2.c')", "files('f3.c')"),
    "mixed": ("['m1.c', files('f1.c'), [gs[0], ['m2.c']], gl]", "'m3.c'"),
    "names": ("['d1.txt', 'd2.txt']", "'d3.txt'"),
    "nested": ("['d1.txt', ['d2.txt', ['l1.txt']]]", "['d3.txt']"),
    "cargs": ("['-DA', '-DB=\"x y\"']", "'-DC'"),
    "largs": ("['-Wl,-z,now', '-lm']", "'-lz'"),
    "incs": ("[inc, include_directories('i3')]", "include_directories('i4')"),
    "incnames": ("['i1', 'i2']", "'i3'"),
    "libs": ("[sl, sh]", "st"),
    "wholes": ("[sw]", "sl"),
    "deps": ("[depA, depB]", "depC"),
    "objs": ("[sl.extract_objects('sl.c')]", "st.extract_all_objects(recursive: false)"),
    "ldeps": ("['l1.txt', files('l2.txt')]", "'l3.txt'"),
    "datas": ("files('d1.txt', 'd2.txt')", "files('d3.txt')"),
    "cmd": ("[prog, 'a', ['b', files('l1.txt')]]", "'c'"),
    "ocmd": ("[prog, '@INPUT@', '@OUTPUT@']", "'c'"),
    "envl": ("['E1=1', 'E2=2']", "'E3=3'"),
    "envd": ("{'E1': '1', 'E2': '2'}", "{'E3': '3'}"),
    "opts": ("['warning_level=3', 'optimization=0']", "'debug=true'"),
    "suites": ("['s1', 's2']", "'s3'"),
    "dct": ("{'K': '1', 'L': '2'}", "{'M': '3'}"),
    "outs": ("['@0@.o1', '@0@.o2']", "'@0@.o3'"),
    "vers": ("['>=1', '<99999']", "'!=0'"),
    "ldct": ("{'k': ['p', 'q'], 'l': {'x': ['y']}}", "{'m': ['n']}"),
    "gensrc": ("[gs, gl]", "[gs2]"),
    "flags": ("['-DA', '-pthread', '-include', 'x.h']", "'-DZ'"),
}
PRE = """project('p', 'c', version: '1.2', default_options: ['buildtype=plain'])
cc = meson.get_compiler('c')
fs = import('fs')
pkg = import('pkgconfig')
prog = find_program('prog.sh')
gs = custom_target('gs', output: ['gs.c', 'gs.h'], command: [prog, '@OUTPUT@'])
gs2 = custom_target('gs2', output: ['gs2.c', 'gs2.h'], command: [prog, '@OUTPUT@'])
gen = generator(prog, output: '@BASENAME@.gc.c', arguments: ['@INPUT@', '@OUTPUT@', '@EXTRA_ARGS@'])
gl = gen.process('g1.in', 'g2.in', extra_args: ['e1'])
inc = include_directories('i1', 'i2')
sw = static_library('sw', 'sw.c')
sl = static_library('sl', 'sl.c')
st = static_library('st', 'st.c')
sh = shared_library('sh', 'sh.c')
bl = both_libraries('bl', 'bl.c')
ex = executable('ex', 'ex.c')
depC = declare_dependency(compile_args: '-DDC', link_with: st)
depA = declare_dependency(compile_args: ['-DDA', '-DDA2'], link_with: sl, include_directories: inc, sources: gs[1], link_args: ['-LA'], variables: {'v': 'w'})
depB = declare_dependency(compile_args: '-DDB', link_with: [sh], dependencies: depC, link_whole: sw)
envo = environment({'O1': '1', 'O2': '2'})
cdata = configuration_data({'A': 1, 'B': 'two'})
str = 'd1.txt'
"""
# name -> (call, variables it uses); N: a name of its own
CALLS = {
    "exe": "rN = executable('N', srcs, c_args: cargs, link_args: largs, include_directories: incs, dependencies: deps, link_with: libs, link_whole: wholes, objects: objs, link_depends: ldeps, override_options: opts, sources: fsrcs, install: true)",
    "exe-mixed": "rN = executable('N', mixed, srcs, dependencies: depA, c_args: [cargs, cargs], extra_files: names)",
    "exe-nested": "rN = executable('N', [srcs, [fsrcs]], dependencies: [deps, depC], link_with: [libs, [st]], include_directories: [incs, 'i4'])",
    "static": "rN = static_library('N', srcs, c_args: cargs, include_directories: incs, dependencies: deps, link_with: libs, objects: objs, install: true)",
    "static-whole": "rN = static_library('N', fsrcs, link_whole: wholes, dependencies: depB, c_args: flags)",
    "shared": "rN = shared_library('N', srcs, link_args: largs, dependencies: deps, link_with: libs, link_whole: wholes, link_depends: ldeps, version: '1.2.3', install: true)",
    "both": "rN = both_libraries('N', mixed, c_args: cargs, link_args: largs, dependencies: deps, link_with: libs, objects: objs)",
    "module": "rN = shared_module('N', fsrcs, gensrc, c_args: cargs, link_args: largs, dependencies: deps)",
    "library": "rN = library('N', fsrcs, c_args: cargs, link_with: bl, dependencies: deps)",
    "btarget": "rN = build_target('N', srcs, target_type: 'executable', c_args: cargs, dependencies: deps)",
    "dep-exe": "rN = declare_dependency(compile_args: cargs, link_args: largs, include_directories: incs, dependencies: deps, link_with: libs, link_whole: wholes, sources: gensrc, objects: objs, variables: dct)\nxN = executable('N', 'ex.c', dependencies: rN)",
    "dep-dep": "rN = declare_dependency(dependencies: [deps, depC], sources: mixed)\nxN = static_library('N', 'ex.c', dependencies: [rN, depA])",
    "partial": "rN = depA.partial_dependency(compile_args: true, includes: true)\nxN = executable('N', 'ex.c', dependencies: [rN, deps])",
    "partial-link": "rN = depB.partial_dependency(links: true, link_args: true)\nxN = executable('N', 'ex.c', dependencies: [rN])",
    "system": "rN = depA.as_system()\nxN = executable('N', 'ex.c', dependencies: [rN, depC])",
    "depexe": "xN = executable('N', 'ex.c', dependencies: depA)",
    "depbexe": "xN = shared_library('N', 'ex.c', dependencies: depB, install: true)",
    "depvar": "message('N', depA.get_variable('v'), depA.get_variable(internal: 'v', default_value: 'q'))",
    "over-dep": "meson.override_dependency('N', depA)\nxN = executable('N', 'ex.c', dependencies: dependency('N'))",
    "objs": "xN = executable('N', 'ex.c', objects: [objs, st.extract_objects('st.c')])",
    "linkexe": "xN = executable('N', 'ex.c', link_with: [libs, bl])",
    "linkstatic": "xN = shared_library('N', 'ex.c', link_with: bl.get_static_lib(), link_whole: [wholes, st])",
    "extract": "rN = bl.get_static_lib().extract_all_objects(recursive: true)\nxN = static_library('N', objects: [rN, objs])",
    "custom": "rN = custom_target('N', input: mixed, output: 'N.out', command: ocmd, depends: libs, depend_files: ldeps, env: envl, install: true, install_dir: 'cN')",
    "custom-envd": "rN = custom_target('N', input: names, output: ['N.out', 'N.out2'], command: cmd, env: envd, install: true, install_dir: ['dA', false])",
    "custom-envo": "rN = custom_target('N', input: nested, output: 'N.out', command: [ocmd, cargs], env: envo, build_by_default: true)",
    "custom-outs": "rN = custom_target('N', input: [gs, ldeps], output: ['NaN.a', 'NaN.b'], command: [ocmd, ex, '@OUTPUT1@'], depends: [ex, libs])",
    "custom-gen": "rN = custom_target('N', input: gl, output: 'N.out', command: [cmd, '@INPUT@', '@OUTPUT@'])",
    "custom-depfile": "rN = custom_target('N', input: gs, output: 'N.out', depfile: 'N.d', command: ocmd, capture: true)",
    "gen": "gN = generator(prog, output: ['@BASENAME@.N.c', '@BASENAME@.N.h'], arguments: [cargs, '@INPUT@', '@OUTPUT0@', '@EXTRA_ARGS@'], depends: libs)\nxN = executable('N', 'ex.c', gN.process(['d1.txt', 'd2.txt'], extra_args: cargs))",
    "gen-shared": "xN = executable('N', 'ex.c', gen.process(nested, extra_args: names), gl)",
    "gen-twice": "lN = gen.process(names, preserve_path_from: meson.current_source_dir())\nxN = static_library('N', lN)\nyN = shared_library('N2', lN, gl)",
    "run": "rN = run_target('N', command: [cmd, ex, rx], depends: libs, env: envd)".replace(", rx", ""),
    "alias": "rN = alias_target('N', libs, gs, ex)",
    "test": "test('N', prog, args: [names, ex], env: envl, depends: libs, suite: suites)",
    "test-d": "test('N', ex, args: cargs, env: envd, suite: ['z'], should_fail: true)",
    "test-o": "test('N', prog, args: [names, nested], env: envo, priority: 5)",
    "bench": "benchmark('N', prog, args: [cargs, libs], env: envl, suite: suites)",
    "data": "install_data(datas, install_dir: 'data/N', install_mode: 'rw-r--r--')",
    "data-ren": "install_data(names, install_dir: 'data/N', rename: ['x', 'y'])",
    "headers": "install_headers(names, subdir: 'N')",
    "headers-p": "install_headers(nested, subdir: 'N', preserve_path: true)",
    "man": "install_man(['N.1'])",
    "subdir": "install_subdir('tree', install_dir: 'N', exclude_files: names, exclude_directories: incnames)",
    "emptydir": "install_emptydir('e/N', install_mode: 'rwxr-x---')",
    "symlink": "install_symlink('N', pointing_to: 'x', install_dir: 'sym')",
    "script": "meson.add_install_script(prog, 'N', cargs)",
    "cfg-cmd": "rN = configure_file(input: ldeps, output: 'N.cfg', command: [prog, '-o', '@OUTPUT@', '@INPUT@', cargs])",
    "cfg": "rN = configure_file(output: 'N.h', configuration: cdata)",
    "cfg-dict": "rN = configure_file(output: 'N.h', configuration: dct)",
    "cfg-merge": "cN = configuration_data(dct)\ncN.merge_from(cdata)\ncN.set('Z', 'N')\nrN = configure_file(output: 'N.h', configuration: cN)",
    "files": "rN = files(names)\ninstall_data(rN, install_dir: 'fN')",
    "files-nested": "rN = files(nested)\nmessage('N', rN.length())",
    "incdirs": "rN = include_directories(incnames)\nxN = executable('N', 'ex.c', include_directories: [incs, rN])",
    "incsys": "rN = include_directories(incnames, is_system: true)\nxN = executable('N', 'ex.c', include_directories: rN)",
    "runcmd": "rN = run_command(prog, '-p', cmd, cargs, env: envl, check: true)\nmessage('N', rN.stdout())",
    "runcmd-d": "rN = run_command(prog, '-e', names, env: envd, check: true)\nmessage('N', rN.stdout())",
    "join": "message('N', ';'.join(names), '/'.join(cargs), join_paths(names), '-'.join('x', names))",
    "format": "message('N', '@0@ @1@'.format(names[0], cargs[1]))",
    "lists": "rN = names + cargs\nrN += 'q'\nmessage('N', rN, names.length(), names.contains('d1.txt'), names[0], names.get(7, cargs))",
    "dicts": "rN = dct + envd\nrN += {'Q': 'q'}\nmessage('N', rN, dct.keys(), dct.has_key('K'), dct['K'], ldct['k'])",
    "foreach": "rN = []\nforeach v : names\n  rN += v + 'N'\nendforeach\nforeach k, v : dct\n  rN += [k, v]\nendforeach\nmessage('N', rN)",
    "inner": "rN = ldct['k']\nrN += 'N'\nqN = ldct['l']\nqN += {'N': 'N'}\nmessage('N', rN, qN, ldct)",
    "copy": "rN = names\nrN += 'N'\nqN = dct\nqN += {'N': 'N'}\nsN = [names, rN]\nsN += [names]\nmessage('N', rN, qN, sN)",
    "nestcopy": "rN = [names, nested]\ntN = rN[1]\ntN += 'N'\nuN = tN[1]\nuN += ['N']\nmessage('N', rN, tN, uN)",
    "loopappend": "rN = []\nforeach v : [names, cargs]\n  v += 'N'\n  rN += [v]\nendforeach\nmessage('N', rN)",
    "setvar": "set_variable('vN', names)\nvN += 'N'\nrN = get_variable('vN')\nrN += 'M'\nmessage('N', vN, rN, get_variable('nope', names))",
    "getdefault": "rN = get_variable('nopeN', cargs)\nrN += 'N'\ntN = dct.get('nope', names)\ntN += 'N'\nwN = nested.get(9, names)\nwN += 'N'\nmessage('N', rN, tN, wN)",
    "ternary": "rN = true ? names : cargs\nrN += 'N'\nmessage('N', rN)",
    "split": "rN = 'a,b,N'.split(',')\nrN += names\nmessage('N', rN)",
    "env": "eN = environment(dct)\neN.set('X', 'a', 'b')\neN.append('X', names[0])\nrN = custom_target('N', output: 'N.out', command: [prog, '@OUTPUT@'], env: eN)",
    "envtest": "eN = environment(envd)\neN.prepend('E1', 'N')\ntest('N', prog, args: ['z'], env: eN)",
    "findprog": "rN = find_program(['prog-nope', 'prog.sh'], version: [])\nmessage('N', rN.found())",
    "findprog-l": "rN = find_program(names, required: false, dirs: incnames)\nmessage('N', rN.found())",
    "over-prog": "meson.override_find_program('prN', ex)\nrN = custom_target('N', output: 'N.out', command: [find_program('prN'), cargs, '@OUTPUT@'])",
    "cc-args": "message('N', cc.get_supported_arguments(flags), cc.first_supported_argument(cargs), cc.has_multi_arguments(cargs))",
    "cc-links": "message('N', cc.get_supported_link_arguments(largs))",
    "cc-compiles": "message('N', cc.compiles('int a;', args: cargs, include_directories: incs, dependencies: depC, name: 'N'))",
    "cc-prefix": "message('N', cc.sizeof('int', prefix: ['#include <stdio.h>', '#include <stddef.h>'], args: cargs), cc.has_header_symbol('stdio.h', 'puts', args: cargs))",
    "cc-lib": "rN = cc.find_library('m', dirs: [meson.current_source_dir()], required: false, has_headers: ['math.h'])\nxN = executable('N', 'ex.c', dependencies: [rN, deps])",
    "cc-hdr": "message('N', cc.has_members('struct tm', ['tm_sec', 'tm_min'], prefix: '#include <time.h>', args: cargs), cc.cmd_array())",
    "threads": "xN = executable('N', 'ex.c', dependencies: [dependency('threads'), deps])",
    "dep-none": "rN = dependency('nope-N', required: false, version: vers)\nmessage('N', rN.found())",
    "vercmp": "message('N', '2'.version_compare('>=1'))",
    "summary": "summary({'N': names})\nsummary('N2', cargs, section: 'S', list_sep: ', ')",
    "summary-d": "summary(dct, section: 'N')",
    "pkg": "pkg.generate(name: 'N', description: 'N', version: '1', libraries: [st], libraries_private: ['-lq', cargs], requires: ['a', 'b'], requires_private: suites, extra_cflags: cargs, variables: ['v=w'], subdirs: incnames)",
    "pkg-lib": "pkg.generate(st, filebase: 'N', name: 'N', description: 'N', variables: dct, uninstalled_variables: dct)",
    "fs": "message('N', fs.is_samepath(names[0], datas[0]), fs.name(datas[0]), fs.replace_suffix(datas[1], '.N'), fs.hash(names[0], 'sha256'))",
    "fscopy": "rN = fs.copyfile(datas[0], 'N.copy', install: true, install_dir: 'N')",
    "range": "rN = []\nforeach i : range(3)\n  rN += i.to_string() + 'N'\nendforeach\nmessage('N', rN)",
    "vcs": "rN = vcs_tag(input: 'd1.txt', output: 'N.vcs', command: [prog, cargs], fallback: 'f')",
    "configdict": "rN = configuration_data(dct)\nrN.set('K', 'changed')\nmessage('N', rN.get('K'), dct['K'], rN.keys())",
    "structured": "rN = {'N': names, 'dct': dct}\ntN = rN['dct']\ntN += {'N': 'N'}\nmessage('N', rN, tN)",
    "subproject": "rN = subproject('s', default_options: ['o=x'])\nmessage('N', rN.get_variable('lst'))\ntN = rN.get_variable('lst')\ntN += 'N'\nmessage('N', tN, rN.get_variable('lst'))",
    "is": "message('N', is_variable('names'), is_disabler(names), names == names, names != cargs, 'd1.txt' in names)",
    "stress": "rN = names\nforeach i : range(70)\n  rN += i.to_string()\nendforeach\nmessage('N', rN.length(), rN[69])",
}
STATE = {
    # these are meant to act on what follows
    "global": "add_project_arguments(cargs, language: 'c')",
    "globallink": "add_project_link_arguments(largs, language: 'c')",
    "projdep": "add_project_dependencies(deps, language: 'c')",
    "glob2": "add_global_arguments(cargs, flags, language: ['c'])",
    "testsetup": "add_test_setup('N', env: envl, exclude_suites: suites, exe_wrapper: cmd)",
}
FILES = {"prog.sh": ("#!/bin/sh\ncase \"$1\" in -e) env | grep '^[A-Z][0-9A-Z]*=' | sort ;; -p) echo \"$@\" \"E1=$E1 E2=$E2 E3=$E3\" ;; -o) : > \"$2\" ;; *) [ -z \"$OUT\" ] || echo \"$0 $* E1=$E1 E2=$E2 E3=$E3 O1=$O1 X=$X\" >> \"$OUT\" ;; esac\n", 0o755),
         "subprojects/s/meson.build": ("project('s')\nlst = ['u', 'v']\n", 0o644), "subprojects/s/meson_options.txt": ("option('o', type: 'string', value: 'd')\n", 0o644)}
for n in ["m1.c", "m2.c", "m3.c", "f1.c", "f2.c", "f3.c", "sw.c", "sl.c", "st.c", "sh.c", "bl.c", "ex.c", "d1.txt", "d2.txt", "d3.txt", "l1.txt", "l2.txt", "l3.txt", "g1.in", "g2.in", "A.1", "B.1", "C.1",
          "i1/x", "i2/x", "i3/x", "i4/x", "tree/a", "tree/d1.txt"]:
    FILES[n] = (n, 0o644)
FILES["x.h"] = ("", 0o644)


def show(pos):
    s = ""
    for v in VARS:
        s += f"message('VAR {v} {pos}', {v})\n"
    return s + "message('VAR cdata', cdata.keys(), cdata.get('A'), cdata.get('B'))\nmessage('END')\n"


def stanzas(text):
    """build.ninja -> {first line up to the rule: contents}"""
    res = {}
    for st in text.split("\n\n"):
        st = st.strip("\n")
        if not st:
            continue
        st = re.sub(r"[0-9]+\.dat\b", "#.dat", st)
        for line in re.split(r"\n(?=build |default |rule |pool |[a-z_]+ *=)", st):
            k = line.split(":", 1)[0] if line.startswith("build ") else line.split("\n")[0]
            res.setdefault(k, []).append(line)
    return {k: "\n".join(sorted(v)) for k, v in res.items()}


AGG = re.compile(r"^(build all|build build\.ninja|default|build .*build_always_stale)")


class State:
    """everything observable of a configured project"""
    def __init__(self, r, tree, inst, tests):
        self.rc = r.rc
        self.out = r.out
        m = [x for x in r.out.split("message: ")[1:]]
        self.tail = m.pop() if m else ""
        self.vars = [x for x in m if x.startswith("VAR ")]
        self.msgs = [x for x in m if not x.startswith(("VAR ", "END"))]
        self.summary = [] if r.rc else [x for x in self.tail.split("\n")[1:] if x.strip() and not x.startswith("setup complete")]
        self.ninja = {}
        self.files = {}
        if tree is not None:
            for k, e in tree.items():
                k = k[2:] if k.startswith("b/") else k
                if k == "build.ninja":
                    self.ninja = stanzas(e.data.decode("utf-8", "replace"))
                elif e.type == "f" and k.endswith(".dat") and "/custom_tgt_" in k:
                    n, = struct.unpack_from("<I", e.data, 20)
                    self.files[re.sub(r"[0-9]+\.dat", ".dat", k)] = e.data[24:24 + n]
                elif e.type == "f" and k.startswith(".muon/") and k.endswith(".pc") or e.type == "f" and not k.startswith((".muon", ".ninja")) and k != "compile_commands.json":
                    self.files[k] = e.data
        self.inst = sorted(x for x in inst.out.split("\n") if x.strip() and not x.startswith(("install", "not running")))
        self.tests = sorted(set((tests or b"").decode("utf-8", "replace").split("\n")))


CACHE = {}


def observe(c, body):
    key = body
    if key in CACHE:
        return CACHE[key]
    decl = "".join(f"{v} = {a}\n" for v, (a, _) in VARS.items())
    ops = [("w", k, v[0], v[1]) for k, v in FILES.items()]
    ops += [("w", "meson.build", PRE + decl + body), ("r", ["setup", "b"], ".", {}, 60), ("t", "b"), ("r", ["-C", "b", "install", "-n", "-d", "/nowhere"]), ("r", ["-C", "b", "test", "-R"], ".", {"OUT": c.d + "/tests.out"}), ("f", "tests.out")]
    r, tree, inst, _, tests = c.go(ops)
    s = State(r, tree, inst, tests)
    if len(CACHE) < 20000:
        CACHE[key] = s
    return s


def names(call, n):
    return re.sub(r"(?<![A-Z])N(?![A-Z])", n, call) + "\nmessage('END')"


def union(a, b):
    r = dict(a)
    for k, v in b.items():
        r.setdefault(k, v)
    return r


def cmp_union(c1, c2, both, what, base):
    """both must be c1 and c2 together"""
    for attr in ("ninja", "files"):
        A, B, C = getattr(c1, attr), getattr(c2, attr), getattr(both, attr)
        for k in set(A) | set(B) | set(C):
            if AGG.match(k) if isinstance(k, str) else False:
                w = lambda X: set(X.get(k, "").split())
                if w(C) != w(A) | w(B):
                    d = (w(C) ^ (w(A) | w(B)))
                    return f"{what}: {k!r} differs by {sorted(d)[:4]}"
                continue
            if k in A and k in B and A[k] != B[k]:
                continue        # the same thing declared in two ways
            w = A.get(k, B.get(k))
            if C.get(k) != w:
                return f"{what}: {attr} {k!r} is\n{C.get(k)!r}\ninstead of\n{w!r}"
    for attr in ("msgs", "inst", "tests", "summary"):
        A, B, C = getattr(c1, attr), getattr(c2, attr), getattr(both, attr)
        w = {x for x in A} | {x for x in B}
        if set(C) != w:
            return f"{what}: {attr} differ by {sorted(set(C) ^ w)[:4]}"
    return None


def run(c, case):
    kind, names_, add = case
    CALL = dict(CALLS, **STATE)
    base = observe(c, show("") * 1)
    if base.rc:
        return f"the values themselves fail: {base.out[-600:]}", "fail"
    calls = [names(CALL[n], "ABC"[i]) for i, n in enumerate(names_)]
    body = "\n".join(calls) + "\n"
    whole = observe(c, body + show(""))
    alone = [observe(c, x + "\n" + show("")) for x in calls]
    for n, a in zip(names_, alone):
        if a.rc:
            return f"{n} alone fails: {a.out[-500:]}", "fail"
    label = "; ".join(names_)
    if whole.rc:
        return f"{label}: fails together: {whole.out[-500:]}", "fail"
    if whole.vars != base.vars:
        d = [(a, b) for a, b in zip(base.vars, whole.vars) if a != b]
        return f"{label}: changed a variable: {d[:2]}", "var"
    if not set(names_) & set(STATE) and not ("pkg-lib" in names_ and names_.count("pkg-lib") + names_.count("pkg") > 1):      # a library described once is then required by name
        acc = alone[0]
        for i, a in enumerate(alone[1:], 1):
            w = whole if len(alone) == 2 else observe(c, "\n".join(calls[:i + 1]) + "\n" + show(""))
            e = cmp_union(acc, a, w, "; ".join(names_[:i + 1]), base)
            if e:
                return e, "differs"
            acc = w
    if add:
        # the variables change afterwards: nothing declared before does
        plus = "".join(f"{v} += {x}\n" for v, (_, x) in VARS.items())
        late = observe(c, body + plus + show(""))
        ref = observe(c, plus + show(""))
        if late.rc:
            return f"{label}; +=: fails: {late.out[-400:]}", "fail"
        if late.vars != ref.vars:
            d = [(a, b) for a, b in zip(ref.vars, late.vars) if a != b]
            return f"{label}; then +=: {d[:2]}", "var"
        e = cmp_union(whole, ref, late, f"{label}; then +=", base)
        if e:
            return e, "differs"
    return None, label


def one(c, case):
    return run(c, (case[0], tuple(case[1]), case[2]))


def cases(deep):
    A = list(CALLS) + list(STATE)
    for a in A:
        yield ("calls", (a,), True)
    for a in A:
        for b in CALLS if a in CALLS else A:
            yield ("calls", (a, b), deep)
    if deep:
        T = ["exe", "static-whole", "shared", "dep-exe", "partial", "custom", "custom-envo", "gen", "test", "pkg-lib", "inner", "copy", "configdict", "cc-args", "headers-p"]
        for t in itertools.product(T, repeat=3):
            yield ("calls", t, False)


def main():
    ck = mv.Check("L11", "exploration")
    cs = list(cases(ck.thorough))
    clicheck.run(ck, cs, one, chunk=20)
    ck.add(calls=len(CALLS) + len(STATE), shared_values=len(VARS), exhaustive=True,
           rule="every call, and every ordered pair of calls (thorough: followed by += on every value, and triples of 16), sharing 27 values: no value changes, and every build rule, file, "
                "installed file, test and message is that of the call alone")
    ck.sample("executable('A', srcs, ...); declare_dependency(sources: gensrc, ...); srcs += 'm3.c'")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
