#!/usr/bin/env python3
"""C03: regenerating gives what configuring afresh gives, for every history of edits."""
import itertools
import os
import re
import shutil
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import clicheck
import mv

SAMU = ["-C", "b", "samu", "-n"]
MAIN = """project('x', 'c', version: files('VERSION'), default_options: ['buildtype=plain', 's:so=frommain'])
fs = import('fs')
cc = meson.get_compiler('c')
c = configuration_data({'o': get_option('o'), 'so': 'x', 'n': get_option('n'), 'a': ','.join(get_option('a')), 'bt': get_option('buildtype'), 'pre': get_option('prefix')})
configure_file(input: 'c.in', output: 'c.h', configuration: c)
configure_file(output: 'd.h', configuration: c)
configure_file(input: 'cp.in', output: 'cp.h', copy: true)
configure_file(input: 'cc.in', output: 'cc.h', command: ['cp', '@INPUT@', '@OUTPUT@'])
message('read', fs.read('f.txt').strip())
message('key', import('keyval').load('k.txt'))
message('run', run_command('cat', files('r.txt'), check: true).stdout().strip())
message('run2', run_command('cat', 'q.txt', check: true).stdout().strip())
message('version', meson.project_version())
subdir('d')
s = subproject('s')
executable('m', 'm.c', c_args: '-DV=' + v + s.get_variable('so'))
CHECKS
"""
CHECKS = """message([cc.has_header('stdio.h'), cc.has_header('no/such.h'), cc.sizeof('int'), cc.sizeof('nosuch_t'), cc.alignment('double'), cc.compiles('int x;', name: 'a'), cc.compiles('int x', name: 'b'), cc.links('int main(void){return 0;}'), cc.get_define('__INT_MAX__'), cc.get_define('NOSUCH'), cc.has_function('printf'), cc.has_function('no_such_function'), cc.has_type('int'), cc.has_member('struct { int a; }', 'a'), cc.has_members('struct { int a; }', 'a', 'b'), cc.has_argument('-Wall'), cc.has_argument('-Wno-such-warning-xx'), cc.get_supported_arguments('-Wall', '-Wextra', '-Wnosuchy'), cc.first_supported_argument('-Wnosuchy', '-Wextra'), cc.has_link_argument('-lc'), cc.has_link_argument('-lno_such'), cc.has_multi_arguments('-Wall', '-Wextra'), cc.has_header_symbol('stdio.h', 'printf'), cc.has_header_symbol('stdio.h', 'nosuch'), cc.compute_int('40 + 2'), cc.has_function_attribute('unused'), cc.check_header('string.h'), cc.find_library('m').found(), cc.find_library('nosuch', required: false).found()])
r = cc.run('#include <stdio.h>\\nint main(void) { printf("hi\\\\n"); fprintf(stderr, "err"); return 7; }')
message(r.compiled(), r.returncode(), r.stdout(), r.stderr())
r = cc.run('int main(void)')
message(r.compiled())
r = cc.run('int main(void) { return 0; }', args: '-DQ')
message(r.compiled(), r.returncode(), r.stdout(), r.stderr())
"""
OPTS = "option('o', type: 'string', value: 'o1')\noption('n', type: 'integer', value: 3, min: 0, max: 9)\noption('a', type: 'array', value: ['p', 'q'])\n"
MAIN, PLAIN = MAIN.replace("CHECKS", CHECKS), MAIN.replace("CHECKS\n", "")
FILES = {
    "meson.build": PLAIN,
    "VERSION": "1.0\n",
    "meson_options.txt": OPTS,
    "d/meson.build": "v = '1'\nsubdir('e')\n",
    "d/e/meson.build": "w = '2'\n",
    "subprojects/s/meson.build": "project('s')\nso = get_option('so')\nmessage('so', so, get_option('b_ndebug'))\nsubdir('t')\n",
    "subprojects/s/meson_options.txt": "option('so', type: 'string', value: 'so1')\n",
    "subprojects/s/t/meson.build": "configure_file(input: 'u.in', output: 'u.h', configuration: {'A': so})\n",
    "subprojects/s/t/u.in": "@A@ 1\n",
    "c.in": "@o@ @n@ @a@ @bt@\n", "cp.in": "one\n", "cc.in": "one\n", "f.txt": "one\n", "k.txt": "CONFIG_A=1\n", "r.txt": "one\n", "q.txt": "one\n", "m.c": "",
}
EDITS = {
    "conf input": ("c.in", "@o@ edited\n"),
    "copied": ("cp.in", "two\n"),
    "command input": ("cc.in", "two\n"),
    "fs.read": ("f.txt", "two\n"),
    "keyval": ("k.txt", "CONFIG_B=1\n"),
    "run_command file": ("r.txt", "two\n"),
    "run_command name": ("q.txt", "two\n"),
    "version file": ("VERSION", "2.0\n"),
    "subdir": ("d/meson.build", "v = '3'\n"),
    "subsubdir": ("d/e/meson.build", "v = '4'\n"),
    "new target": ("meson.build", PLAIN + "executable('n', 'm.c')\n"),
    "checks": ("meson.build", MAIN),
    "no subdir": ("meson.build", PLAIN.replace("subdir('d')", "v = '5'")),
    "syntax error": ("meson.build", PLAIN + "x = = 1\n"),
    "error": ("d/meson.build", "v = '3'\nerror('no')\n"),
    "sub error": ("subprojects/s/t/meson.build", "error('no')\n"),
    "buildtype": ("meson.build", PLAIN.replace("plain", "release")),
    "sub default": ("meson.build", PLAIN.replace(", 's:so=frommain'", "")),
    "option default": ("meson_options.txt", OPTS.replace("o1", "o2")),
    "option added": ("meson_options.txt", OPTS + "option('z', type: 'boolean')\n"),
    "option range": ("meson_options.txt", OPTS.replace("max: 9", "max: 5")),
    "option type": ("meson_options.txt", OPTS.replace("'integer', value: 3, min: 0, max: 9", "'string', value: '8'")),
    "sub option": ("subprojects/s/meson_options.txt", "option('so', type: 'string', value: 'so2')\n"),
    "sub file": ("subprojects/s/meson.build", "project('s')\nso = get_option('so') + '!'\nsubdir('t')\n"),
    "sub input": ("subprojects/s/t/u.in", "@A@ 2\n"),
    "none": None,
}
# how it was set up: arguments and environment
SETUPS = [
    ([], {}),
    (["-Do=cmd", "-Dn=7"], {}),
    (["-Da=x,y", "-Ds:so=cmd"], {}),
    (["-Da=['x,y', 'z']", "-Do=a b'c$d"], {}),
    (["-Dbuildtype=debugoptimized", "-Dprefix=/opt/x", "-Ddefault_library=static"], {}),
    (["-Db_ndebug=true", "-Dc_args=-DA='b c',-DE"], {}),
    ([], {"CFLAGS": "-DA='\\\\q'\\'' -D$B -D@C@", "LDFLAGS": "-Wl,-a,-b", "PKG_CONFIG_PATH": "/a:b c"}),
    ([], {"CFLAGS": "-DENV -DE2='a b'", "LDFLAGS": "-LE"}),
    (["-Dc_args=-DCMD"], {"CFLAGS": "-DENV"}),
]
VOLATILE = re.compile(r"meson-private|muon-private|\.ninja_log|\.ninja_deps|meson-logs|muon-logs")
# sources are older than the build, which is newer than the programs it ran
MID = (int(max(os.stat(os.path.realpath(shutil.which(p))).st_mtime for p in ("cat", "cp", "cc"))) + 20) * 10**9
OLD = MID - 10**10


def tree(t):
    """what is compared: all but logs and caches"""
    return {p: (e.type, e.mode, e.data) for p, e in t.items() if e.type == "f" and not re.search(r"\.ninja_|\.log$|\.txt$|compiler_check_cache|\.c$|\.o$|summary|/option_info", p)}


def msgs(r):
    return [m for m in r.messages()]


def run(c, case):
    _, (args, env), seq, inside = case
    cur = dict(FILES)
    if seq and seq[0] == "checks":
        cur["meson.build"] = MAIN
        seq = seq[1:]
    b = "src/b" if inside else "b"
    samu = ["-C", b, "samu", "-n", "build.ninja"]
    setup = ["-C", "src", "setup", *args, "b" if inside else "../b"]
    ops = [("w", "src/" + p, x) for p, x in cur.items()]
    ops += [("u", "src/" + p, OLD) for p in cur]
    ops += [("r", setup, None, env)]
    R = c.go(ops, keep=False)
    if R[0].rc:
        return "setup fails: " + R[0].out[-400:], "setup"
    sig = []
    for i, name in enumerate(seq):
        e = EDITS[name]
        ops = [("u", b + "/build.ninja", MID)]
        ops += [("u", "src/" + p, OLD) for p in cur]
        if e:
            # an edit made twice is undone the second time
            new = FILES[e[0]] if cur[e[0]] == e[1] else e[1]
            cur[e[0]] = new
            ops.append(("w", "src/" + e[0], new))
        ops += [("r", ["-C", b, "samu", "-d", "explain", "build.ninja"], None, {}, 30), ("t", b), ("f", b + "/build.ninja"),
                ("m", b, "old"), ("r", setup, None, env), ("t", b)]
        ops += [("x", b), ("m", "old", b)]
        r, t, nin, fresh, tf = c.go(ops, keep=True)
        regen = "regenerat" in r.out or "configuring" in r.out
        if not e:
            if regen:
                return f"after {seq[:i + 1]}: nothing changed and the build is regenerated: {r.out[-200:]}", "none"
        if (r.rc != 0) != (fresh.rc != 0) and e:
            return f"after {seq[:i + 1]}: regenerating {'fails' if r.rc else 'succeeds'}, a fresh setup {'fails' if fresh.rc else 'succeeds'}: {(r if r.rc else fresh).out[-400:]}", "rc"
        if fresh.rc:
            sig.append("error")
            continue
        a, f = tree(t), tree(tf)
        for p in sorted(set(a) | set(f)):
            if p not in a:
                return f"after {seq[:i + 1]}: regenerating does not make {p}", "missing"
            if p in f and a[p] != f[p]:
                d = [(x, y) for x, y in itertools.zip_longest(a[p][2].decode("utf8", "replace").split("\n"), f[p][2].decode("utf8", "replace").split("\n")) if x != y][:2]
                return f"after {seq[:i + 1]}: {p} differs from a fresh setup: {d}", "differs"
        if regen and msgs(r) != msgs(fresh):
            return f"after {seq[:i + 1]}: regenerating says {msgs(r)}, a fresh setup {msgs(fresh)}", "msgs"
        sig.append(hash(tuple(sorted(a.items()))))
    return None, (tuple(args), tuple(env), tuple(sig))


def cases(deep):
    E = list(EDITS)
    for s in SETUPS:
        for n in range(1, 2 if not deep else 3):
            for seq in itertools.product(E, repeat=n):
                # nothing links with these flags
                if "checks" in seq and s[1].get("LDFLAGS"):
                    continue
                yield "regen", s, seq, False
    for seq in itertools.product(E, repeat=2):
        if deep:
            break
        yield "regen", SETUPS[1 if "option" in seq[0] else 2], seq, False
    for e in E:
        yield "regen", SETUPS[3], (e,), True
        yield "regen", SETUPS[0], ("checks", e, "none", e), False
    if deep:
        for seq in itertools.product(E, repeat=3):
            if seq[0] != "none" and seq[1] != "none" and len(set(seq)) < 3:
                yield "regen", SETUPS[2], seq, False


def main():
    ck = mv.Check("C03", "exploration")
    clicheck.run(ck, cases(ck.thorough), run, chunk=4)
    ck.add(exhaustive=True, edits=len(EDITS), setups=len(SETUPS), rule="every sequence of up to 2 edits out of 26, from 8 ways of setting up (quick: single edits from each, pairs from one), regenerated by the build and compared with a fresh setup")
    ck.sample("setup -Do=cmd; edit meson_options.txt; samu")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
