#!/usr/bin/env python3
"""C10: a subproject and its main project affect each other only through what is meant to be shared, and an optional
subproject that fails leaves nothing behind."""
import itertools
import re
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import clicheck
import mv
from L11_shared import State

# statements either project may contain; all leave the project valid
STMTS = {
    "var": "v = 'changed'\nsrcs += 'more.c'",
    "unset": "w = [1]\nw += [2]\nunset_variable('v')",
    "pargs": "add_project_arguments('-DPROJ', language: 'c')",
    "plink": "add_project_link_arguments('-Wl,-z,now', language: 'c')",
    "lang": "add_languages('c', native: false)\nfoo = meson.get_compiler('c')",
    "exe": "executable('same', srcs, c_args: '-DSAME')",
    "lib": "l2 = static_library('l2', 'm.c')",
    "custom": "ct = custom_target('ct', output: 'ct.txt', command: ['touch', '@OUTPUT@'], install: true, install_dir: 'share', build_by_default: true)",
    "gen": "g = generator(find_program('touch'), output: '@BASENAME@.c', arguments: ['@OUTPUT@'])\nexecutable('gx', g.process('g.in'))",
    "data": "install_data('d.txt', install_dir: 'share/x')",
    "headers": "install_headers('d.txt')",
    "symlink": "install_symlink('ln', pointing_to: 'd.txt', install_dir: 'share')",
    "emptydir": "install_emptydir('share/e')",
    "subdirinst": "install_subdir('sd', install_dir: 'share')",
    "script": "meson.add_install_script(find_program('true'), 'x')",
    "postconf": "meson.add_postconf_script(find_program('true'), 'x')",
    "test": "test('t', find_program('true'), suite: 'su')\nbenchmark('bm', find_program('true'))",
    "setup": "add_test_setup('ts', env: {'A': 'b'})",
    "overdep": "meson.override_dependency('od', declare_dependency(compile_args: '-DOD', version: '3'))",
    "overprog": "meson.override_find_program('oprog', files('d.txt'))",
    "subdir": "subdir('sd')",
    "conf": "configure_file(output: 'c.h', configuration: {'V': 1})",
    "pkg": "import('pkgconfig').generate(name: 'pk', description: 'd', version: '1')",
    "summary": "summary({'K': 'V'})",
    "nested": "nest = subproject('n')\nnv = nest.get_variable('nv')",
    "dep": "dd = declare_dependency(compile_args: '-DDD', sources: files('m.c'))\nexecutable('de', 'm.c', dependencies: dd)",
    "opt": "o = get_option('o')\nmessage(meson.project_name(), 'option', o)",
    "dirs": "message(meson.project_name(), meson.current_source_dir().split('/')[-1], meson.project_version())",
    "assign": "foreach i : [1, 2]\n  v = i\nendforeach",
    "runtarget": "run_target('rt', command: 'true')\nalias_target('al', custom_target('alc', output: 'alc.txt', command: ['touch', '@OUTPUT@']))\n"
                 "rt3 = run_target('rt3', command: 'true')\nal1 = alias_target('al1', rt3)\nalias_target('al2', al1, rt3)",
    "incdir": "inc = include_directories('sd')\nexecutable('ie', 'm.c', include_directories: inc)",
    "distscript": "meson.add_dist_script('true')",
}
FAIL = {
    "error()": "error('no')",
    "assert": "foreach i : [1, 2, 3]\n  if i == 2\n    assert(false, 'no')\n  endif\nendforeach",
    "syntax": "x = = 1",
    "undefined": "message(nosuchvariable)",
    "function": "nosuchfunction()",
    "method": "message('a'.nosuchmethod())",
    "type": "x = 1 + 'a'",
    "kwarg": "executable('k', 'm.c', nosuch: 1)",
    "dependency": "dependency('nosuchdep')",
    "program": "find_program('nosuchprogram')",
    "subdir": "subdir('bad')",
    "nested": "subproject('badsub')",
    "missing file": "executable('k', 'missing.c')",
    "run_command": "run_command('false', check: true)",
    "in function call": "message('a', [error('deep')])",
    "option": "get_option('nosuch')",
    "in a subdir's loop": "foreach i : [1, 2]\n  subdir('bad' + i.to_string())\nendforeach",
}
OPTF = "option('o', type: 'string', value: 'default')\n"
BASE = "v = 'v'\nw = 'w'\nsrcs = ['m.c']\n"
END = "message(meson.project_name(), 'END', is_variable('v') ? v : 'unset', w, srcs, meson.current_source_dir().split('/')[-1], meson.current_build_dir().split('/')[-1], get_option('o'))\nexecutable('last', srcs)\n"


def tree(prefix, body, deflt="", head=True):
    w = [("w", prefix + "meson.build", (f"project('{'s' if prefix else 'main'}', 'c', version: '{'2' if prefix else '1'}'{deflt})\n" + BASE if head else "") + body),
         ("w", prefix + "meson_options.txt", OPTF if not prefix else OPTF.replace("default", "sdefault"))]
    for n in ("m.c", "more.c", "d.txt", "g.in", "sd/f.txt"):
        w.append(("w", prefix + n, ""))
    w.append(("w", prefix + "sd/meson.build", "executable('insd', '../m.c')\nmessage(meson.project_name(), 'in', meson.current_source_dir().split('/')[-1])\nv = 'fromsd'\n"))
    w.append(("w", prefix + "bad/meson.build", "executable('inbad', '../m.c')\nerror('bad')\n"))
    w.append(("w", prefix + "bad1/meson.build", "executable('inbad', '../m.c')\n"))
    w.append(("w", prefix + "bad2/meson.build", "foreach i : [1]\n  assert(false)\nendforeach\n"))
    w.append(("w", prefix + "subprojects/n/meson.build", "project('n', 'c')\nnv = 'nested'\nexecutable('innested', 'm.c', install: true)\ninstall_data('m.c', install_dir: 'share/n')\ntest('nt', find_program('true'))\n"))
    w.append(("w", prefix + "subprojects/n/m.c", ""))
    w.append(("w", prefix + "subprojects/badsub/meson.build", "project('badsub', 'c')\nexecutable('inbadsub', 'm.c', install: true)\nsubproject('n')\nerror('badsub')\n"))
    w.append(("w", prefix + "subprojects/badsub/m.c", ""))
    w.append(("w", prefix + "subprojects/badsub/subprojects/n/meson.build", "project('n2', 'c')\nexecutable('innested2', 'm.c', install: true)\n"))
    w.append(("w", prefix + "subprojects/badsub/subprojects/n/m.c", ""))
    return w


CACHE = {}


def observe(c, mainbody, subbody, maindef="", subdef="", setup=(), subraw=None):
    key = (mainbody, subbody, maindef, subdef, tuple(setup), subraw)
    if key in CACHE:
        return CACHE[key]
    ops = tree("", mainbody, maindef)
    if subraw is not None:
        ops += [("w", "subprojects/s/" + k, v) for k, v in subraw]
    else:
        ops += tree("subprojects/s/", subbody, subdef)
    ops += [("r", ["setup", *setup, "b"], ".", {}, 60), ("t", "b"), ("r", ["-C", "b", "install", "-n", "-d", "/nowhere"]), ("r", ["-C", "b", "test", "-l"]), ]
    if subraw is None:
        ops.append(("r", ["samu", "-C", "b", "-n", "first" if "'first'" in mainbody else "build.ninja"] + ALIAS * ("al2" in mainbody) + ["s@@" + x for x in ALIAS] * ("al2" in subbody), ".", {}, 60))
    r, t, inst, tests, *dry = c.go(ops)
    s = State(r, t, inst, tests.out.encode())
    s.dry = dry and not r.rc and dry[0].rc and dry[0].out
    s.inst = inst.out.split("\n")
    lines = r.out.split("\n")
    # one message per line here; [s] and [n] are those of subprojects
    s.mainmsg = [l for l in lines if l.startswith("message: main ")]
    s.submsg = [l for l in lines if re.match(r"message: s ", l)]
    s.summary = lines[next((i for i, l in enumerate(lines) if l.startswith(("main ", "s ")) and l.strip()), len(lines)):] if False else []
    s.setup_out = r.out
    if len(CACHE) < 4000:
        CACHE[key] = s
    return s


def edges(s, which):
    """the edges of the main project or of the subproject"""
    res = {}
    for k, v in s.ninja.items():
        if k.startswith(("build build.ninja", "build all", "default", "build build_always")) or k.startswith("rule REGENERATE") or "DEPS" in k:
            continue
        if k.startswith(("rule n_", "build subprojects/n")):
            continue
        sub = "subprojects/s" in k or k.startswith(("rule s_", "build s@@"))
        if not k.startswith(("rule", "build")):
            continue
        if (which == "sub") == sub:
            res[k] = v
    return res


def same(a, b, what):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return f"{what}: {k!r} is {b.get(k)!r} instead of {a.get(k)!r}"
    return None


CALL = "s = subproject('s', required: false)\nmessage('main', 'found', s.found())\n"


def failing(c, case):
    """the build is as if the subproject had failed at once"""
    _, stmts, fail, where = case
    body = "\n".join(STMTS[x] for x in stmts) + "\n" + (FAIL[fail] if fail else "") + "\n"
    mainpre = "executable('first', srcs)\ntest('mt', find_program('true'))\ninstall_data('d.txt', install_dir: 'share/m')\nmeson.override_find_program('oprog', files('g.in'))\n"
    mainpost = ("dod = dependency('od', required: false)\nmessage('main', 'od', dod.found())\nmessage('main', find_program('oprog').full_path().split('/')[-1])\nn = subproject('n')\nmessage('main', n.found())\nsummary('M', 'x')\n") + END
    call = CALL
    if where == "loop":
        call = "foreach i : [1, 2]\n" + CALL + "endforeach\n"
    elif where == "dep":
        call = "message('main', 'found', dependency('s', required: false, allow_fallback: true).found())\n"
    elif where == "version":
        call = CALL.replace("required: false", "required: false, version: '>=9'")
    elif where == "cond":
        call = "if true\n" + CALL + "endif\n"
    main = mainpre + call + mainpost
    got = observe(c, main, body)
    if where == "version":
        ref = observe(c, main, "", subraw=(("meson.build", "project('s', 'c', version: '1')\n"),))
    else:
        ref = observe(c, main, "", subraw=(("meson.build", "project('s', 'c')\nerror('at once')\n"),))
    label = f"{'; '.join(stmts)}; then {fail} ({where})"
    if ref.rc:
        return f"a subproject that fails at once: {ref.out[-300:]}", ()
    if got.rc:
        return f"{label}: setup fails: {got.out[-400:]}", ()
    if "message: main found false" not in got.out:
        return f"{label}: the subproject is found", ()
    for what, a, b in (("edges", ref.ninja, got.ninja), ("files", ref.files, got.files)):
        a, b = dict(a), dict(b)
        if what == "edges":
            a, b = [{k: v for k, v in x.items() if not k.startswith("build build.ninja")} for x in (a, b)]
        else:
            a, b = [{k: v for k, v in x.items() if not k.startswith(("subprojects/", ".muon/"))} for x in (a, b)]
        e = same(a, b, f"{label}: {what}")
        if e:
            return e, ()
    for what in ("inst", "tests", "mainmsg"):
        if getattr(ref, what) != getattr(got, what):
            return f"{label}: {what} {sorted(set(getattr(ref, what)) ^ set(getattr(got, what)))}", ()
    if "\nmain" in ref.out and got.out[got.out.rindex("\nmain"):] != ref.out[ref.out.rindex("\nmain"):]:
        return f"{label}: summary {got.out[got.out.rindex(chr(10) + 'main'):]!r}", ()
    return None, label


ALIAS = ["al2", "rt", "rt3"]


def both(c, case):
    """either project is the same whether or not the other contains the same statement"""
    _, x, order = case
    stm = STMTS[x] + "\n"
    call = "s = subproject('s')\n"
    main = call + stm + END if order == "first" else stm + call + END
    got = observe(c, main, stm + END)
    m = observe(c, main, "")
    s = observe(c, call, stm + END)
    label = f"both projects: {x} ({order})"
    for n, o in ((label, got), (label + ", main alone", m), (label + ", sub alone", s)):
        if o.rc:
            return f"{n}: setup fails: {o.out[-400:]}", ()
        if o.dry:
            return f"{n}: build: {o.dry[-300:]}", ()
    e = same(edges(m, "main"), edges(got, "main"), label) or same(edges(s, "sub"), edges(got, "sub"), label)
    if not e and m.mainmsg != got.mainmsg or s.submsg != got.submsg:
        e = f"{label}: messages {got.mainmsg} {got.submsg} instead of {m.mainmsg} {s.submsg}"
    return e, label


DEFS = {"": "", "wl": ", default_options: ['warning_level=3']", "std": ", default_options: ['c_std=c99', 'werror=true']", "args": ", default_options: ['c_args=-DDEF']",
        "o": ", default_options: ['o=fromdef']", "bt": ", default_options: ['buildtype=release']", "opt": ", default_options: ['optimization=3', 'debug=false']",
        "lib": ", default_options: ['default_library=shared']", "prefix": ", default_options: ['b_staticpic=false', 'b_ndebug=true']"}


def leaking(c, case):
    """what a subproject does changes nothing of the main project; and the other way round"""
    _, which, stmts, deflt, order = case
    body = "\n".join(STMTS[x] for x in stmts) + "\n" + END
    subopts = DEFS[deflt]
    call = "s = subproject('s')\n"
    label = f"{which}: {'; '.join(stmts)} {deflt} ({order})"
    if which == "sub":
        main = {"first": call + "executable('first', srcs)\nlibrary('lb', 'm.c')\n" + END,
                "last": "executable('first', srcs)\nlibrary('lb', 'm.c')\n" + END + call + "message('main', is_variable('v') ? v : 'unset', w, srcs)\n",
                "mid": "executable('first', srcs)\nforeach i : ['lb']\n" + call + "library(i, 'm.c')\nendforeach\n" + END}[order]
        ref, got = observe(c, main, ""), observe(c, main, body, "", subopts)
        side = "main"
    else:
        stm = "\n".join(STMTS[x] for x in stmts) + "\n"
        sub = "library('lb', 'm.c')\nexecutable('sx', srcs)\n" + END
        main = {"first": call + stm + END, "last": stm + call + END}[order]
        if order == "first" or "nested" not in stmts:
            pass
        ref, got = observe(c, call, sub), observe(c, main, sub, subopts)
        side = "sub"
    for n, x in (("reference", ref), (label, got)):
        if x.rc:
            return f"{n}: setup fails: {x.out[-400:]}", ()
    e = same(edges(ref, side), edges(got, side), label)
    if e and not (which == "main" and deflt in ("bt", "opt", "lib", "wl", "std", "args", "prefix")):
        return e, ()
    msg = "mainmsg" if side == "main" else "submsg"
    a, b = getattr(ref, msg), getattr(got, msg)
    if side == "sub":
        pass
    if a != b:
        return f"{label}: messages {b} instead of {a}", ()
    return None, label


def one(c, case):
    return {"fail": failing, "leak": leaking, "both": both}[case[0]](c, case)


def cases(deep):
    S = list(STMTS)
    for f in FAIL:
        for x in S:
            yield ("fail", (x,), f, "plain")
        for where in ("loop", "dep", "cond"):
            for x in S[::3] if not deep else S:
                yield ("fail", (x,), f, where)
        yield ("fail", tuple(S), f, "plain") if False else ("fail", (), f, "plain")
    for x in S:
        yield ("fail", (x,), None, "version")
    ok = [x for x in S if x not in ("unset", "var", "assign", "subdir")]
    for n in range(1, len(ok) + 1):
        yield ("fail", tuple(ok[:n]), "error()", "plain")
        yield ("fail", tuple(ok[-n:]), "assert", "plain")
    for order in ("first", "last", "mid"):
        for x in S:
            yield ("leak", "sub", (x,), "", order)
        for d in DEFS:
            yield ("leak", "sub", ("opt",), d, order)
    for order in ("first", "last"):
        for x in S:
            yield ("leak", "main", (x,), "", order)
        for d in DEFS:
            yield ("leak", "main", ("opt",), d, order)
    for x in S:
        if x not in ("overdep", "overprog", "setup", "nested"):     # one name for the whole build: an error in Meson
            for order in ("first", "last"):
                yield ("both", x, order)
    if deep:
        for a, b in itertools.permutations([x for x in S if x != "unset"], 2):
            if {a, b} == {"var", "assign"}:
                continue
            yield ("fail", (a, b), "assert", "plain")
            yield ("leak", "sub", (a, b), "wl", "mid")
            yield ("leak", "main", (a, b), "", "last")


def main():
    ck = mv.Check("C10", "exploration")
    clicheck.run(ck, list(cases(ck.thorough)), one, chunk=12)
    ck.add(exhaustive=True, statements=len(STMTS), failures=len(FAIL),
           rule="every statement (thorough: ordered pair) x every way to fail: as if the subproject had failed at once; every statement in either project: edges and messages of the other stay the same")
    ck.sample("install_data(...); subproject('n'); then assert(false) in a loop in a subdir: build files, installation, tests and messages are those without the subproject")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
