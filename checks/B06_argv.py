#!/usr/bin/env python3
"""B06: every string a build description passes to a command arrives at that command unchanged, through every way
of running one (and every quoting layer in between): the build file, the shell, data files, the environment."""
import itertools
import re
import shlex
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import clicheck
import mv

PAIR = " !\"#$%&'()*+,-./0:;<=>?@A[\\]^_`{|}~\n\t\r\x01\x7f"
TRIP = "$'\"\\ \na:@(;`"
WORDS = ["--", "-e", "-c", "-a", "-f", "-R", "$in", "${out}", "$out $in", "$$", "%s%n", "~", "~root", "*", "?", "[a-z]", "a*", "$HOME", "${HOME}", "$(id)", "`id`", "a b  c",
         " lead", "trail ", "a\\\nb", "\\n", "\\\\", "'", "''", "\"", "\"\"", "'\"'", "a=b", "=", "!x", "#c", "a #c", "a;b", "a&&b", "a|b", ">f", "<f", "2>&1", "(a)", "{a,b}", "{}",
         "@", "@@", "@@@", "@NOPE@", "@ OUTPUT@", "@output@", "x@y@z", "-", "", "\u00e9", "\u4e2d\u6587", "$ ", "$:", "$\n", "a$", "^", "%PATH%", "a\tb", "x" * 3000, "y'" * 500]


def strings(deep):
    """bytes, each a command line argument"""
    L = [b""] + [bytes([i]) for i in range(1, 256)]
    L += [(a + b).encode() for a in PAIR for b in PAIR]
    T = PAIR if deep else TRIP
    L += ["".join(t).encode() for t in itertools.product(T, repeat=3)]
    L += [w.encode() for w in WORDS]
    if deep:
        L += [bytes([a, b]) for a in range(1, 256) for b in range(1, 256)]
        L += ["".join(t).encode() for t in itertools.product("$'\\ \n;", repeat=4)]
    return list(dict.fromkeys(L))


def q(b):
    """a Meson string literal for the bytes"""
    return b"'" + b.replace(b"\\", b"\\\\").replace(b"'", b"\\'").replace(b"\n", b"\\n") + b"'"


def subst_safe(b):
    """not touched by @...@ substitution (and not containing its escape)"""
    if b"\\@" in b:
        return False
    return not re.search(rb"@(INPUT|OUTPUT|OUTDIR|DEPFILE|PLAINNAME|BASENAME|PRIVATE_DIR|SOURCE_ROOT|BUILD_ROOT|BUILD_DIR|CURRENT_SOURCE_DIR|EXTRA_ARGS)\d*@", b)


NL = b"\n"
# name -> (may contain a newline, goes through @...@ substitution)
CHANNELS = {
    "custom_target": (False, True), "custom_target-data": (True, True), "custom_target-env": (True, False), "custom_target-capture": (False, True),
    "generator": (False, True), "generator-extra": (False, False), "run_target": (False, True), "run_target-data": (True, True),
    "run_command": (True, False), "run_command-env": (True, False), "configure_file": (True, True), "test": (True, False), "test-env": (True, False),
    "install_script": (True, False), "option": (False, False), "option-again": (False, False), "environment-object": (True, False),
    "nested-samu-rsp": (False, True),
}
del CHANNELS["nested-samu-rsp"]


def cases(deep):
    S = strings(deep)
    for ch, (nl, sub) in CHANNELS.items():
        L = [s for s in S if (nl or NL not in s and b"\r" not in s) and (not sub or subst_safe(s))]
        if ch.startswith("option") and not deep:
            L = [s for s in L if len(s) < 1000]
        if ch.startswith("test") or ch == "install_script":
            pass
        n = 120
        for i in range(0, len(L), n):
            yield ("argv", ch, L[i:i + n])
        # each string alone at every position of a short list
        for s in [w.encode() for w in WORDS]:
            if s in L and len(s) < 100:
                yield ("argv", ch, [s])
                yield ("argv", ch, [s, b"x"])
                yield ("argv", ch, [b"", s, b""])
    C = [s for s in S if NL not in s and b"\r" not in s]     # neither can be written in a build file
    for ch in ("project_args", "target_args", "link_args", "dep_args", "compdb"):
        for i in range(0, len(C), 150):
            yield ("compile", ch, C[i:i + 150])
    names = [bytes([i]) for i in range(1, 256) if chr(i) not in "/\n"] + [(a + b).encode() for a in PAIR for b in PAIR if "/" not in a + b and "\n" not in a + b]
    names += [w.encode() for w in WORDS if w and "/" not in w and "\n" not in w and len(w) < 200]
    # a ninja manifest cannot name a file with a | or a carriage return, nor a ninja log one with a tab
    # (and @KEY@ with an unknown key is refused there)
    names = [n for n in dict.fromkeys(names) if not re.search(rb"@[^@]+@|\\@", n) and b"|" not in n and b"\t" not in n and b"\r" not in n]
    for i in range(0, len(names), 40):
        yield ("files", "custom_target", names[i:i + 40])
    for d in ["a b", "a'b", "a\"b", "a$b", "a:b", "a&b", "a;b", "a(b)", "a#b", "a*b", "a[b]", "a`b", "a~b", "a!b", "a%b", "a@b", "a=b", "a,b", "-a", "~a", "#a", "a\\b", "a{b}", "a?b",
              "\u00e9", "a\tb", "a<b", "a>b", "a^b", "$", "a b c", "'", "@0@", "@OUTPUT@", "a+b"]:
        yield ("dir", d, [])


DUMP = "@DUMP@"


def split(b):
    if b is None:
        return None
    if b == b"":
        return []
    return b.split(b"\0")[:-1]


def diff(ch, want, got):
    if got == want:
        return None
    if got is None:
        return f"{ch}: the command did not run"
    for i, w in enumerate(want):
        if i >= len(got) or got[i] != w:
            return f"{ch}: argument {w!r} arrives as {got[i] if i < len(got) else '(missing)'!r}"
    return f"{ch}: extra arguments {got[len(want):][:3]!r}"


def run_argv(c, case):
    _, ch, L = case
    L = [x if isinstance(x, bytes) else x.encode("latin1") for x in L]
    dump = mv.tool("dumpargv").encode()
    d = q(dump)
    args = b", ".join(q(x) for x in L)
    j = (b", " + args) if L else b""
    env = b"{" + b", ".join(b"'V%d': %s" % (i, q(x)) for i, x in enumerate(L)) + b"}"
    names = b", ".join(b"'V%d'" % i for i in range(len(L)))
    out = "b/out"
    steps = [("r", ["setup", "b"])]
    samu = ("r", ["samu", "-C", "b"])
    body = b"project('m')\n"
    files = {"in": b"content\n"}
    if ch in ("custom_target", "custom_target-data"):
        if ch.endswith("data") and not any(NL in x for x in L):
            L = L + [b"\n"]
            j += b", '\\n'"
        body += b"custom_target('t', output: 'out', build_by_default: true, command: [%s, '@OUTPUT@'%s])\n" % (d, j)
        steps.append(samu)
    elif ch == "custom_target-capture":
        body += b"custom_target('t', input: 'in', output: 'out', capture: true, feed: true, build_by_default: true, command: [%s, '-'%s])\n" % (d, j)
        steps.append(samu)
    elif ch == "custom_target-env":
        body += b"custom_target('t', output: 'out', env: %s, build_by_default: true, command: [%s, '-e', '@OUTPUT@', %s])\n" % (env, d, names)
        steps.append(samu)
    elif ch == "environment-object":
        body += b"e = environment()\n" + b"".join(b"e.set('V%d', %s)\n" % (i, q(x)) for i, x in enumerate(L))
        body += b"custom_target('t', output: 'out', env: e, build_by_default: true, command: [%s, '-e', '@OUTPUT@', %s])\n" % (d, names)
        steps.append(samu)
    elif ch in ("generator", "generator-extra"):
        if ch == "generator":
            body += b"g = generator(find_program(%s), output: '@PLAINNAME@.out', arguments: ['@OUTPUT@'%s])\nl = g.process('in')\n" % (d, j)
        else:
            body += b"g = generator(find_program(%s), output: '@PLAINNAME@.out', arguments: ['@OUTPUT@', '@EXTRA_ARGS@'])\nl = g.process('in', extra_args: [%s])\n" % (d, args)
        body += b"custom_target('t', input: l, output: 'out', build_by_default: true, command: ['cp', '@INPUT@', '@OUTPUT@'])\n"
        steps.append(samu)
    elif ch in ("run_target", "run_target-data"):
        if ch.endswith("data") and not any(NL in x for x in L):
            L = L + [b"\n"]
            j += b", '\\n'"
        body += b"run_target('t', command: [%s, 'out'%s])\n" % (d, j)
        steps.append(("r", ["samu", "-C", "b", "t"]))
    elif ch == "run_command":
        body += b"run_command(%s, meson.current_build_dir() / 'out'%s, check: true)\n" % (d, j)
    elif ch == "run_command-env":
        body += b"run_command(%s, '-e', meson.current_build_dir() / 'out', %s, env: %s, check: true)\n" % (d, names, env)
    elif ch == "configure_file":
        body += b"configure_file(output: 'out', command: [%s, '@OUTPUT@'%s])\n" % (d, j)
    elif ch == "test":
        body += b"test('t', find_program(%s), args: ['out'%s])\n" % (d, j)
        steps.append(("r", ["-C", "b", "test"]))
    elif ch == "test-env":
        body += b"test('t', find_program(%s), args: ['-e', 'out', %s], env: %s)\n" % (d, names, env)
        steps.append(("r", ["-C", "b", "test"]))
    elif ch == "install_script":
        body += b"meson.add_install_script(%s, meson.current_build_dir() / 'out'%s)\n" % (d, j)
        steps.append(("r", ["-C", "b", "install"]))
    elif ch in ("option", "option-again"):
        body += b"run_command(%s, meson.current_build_dir() / 'out', %s, check: true)\n" % (d, b", ".join(b"get_option('o%d')" % i for i in range(len(L))))
        files["meson_options.txt"] = b"".join(b"option('o%d', type: 'string', value: 'dflt')\n" % i for i in range(len(L)))
        argv = ["setup"]
        for i, x in enumerate(L):
            argv.append("-Do%d=" % i + x.decode("utf-8", "surrogateescape"))
        steps = [("r", argv + ["b"])]
        if ch == "option-again":
            steps += [("x", "b/out"), ("w", "meson_options.txt", files["meson_options.txt"] + b"# changed\n"), ("u", "b/build.ninja", 1000000000), samu]
    files["meson.build"] = body
    ops = [("w", k, v) for k, v in files.items()] + steps + [("f", out)]
    r = c.go(ops)
    for x in r[:-1]:
        if x.rc:
            return f"{ch}: a step fails ({x.rc}): {x.out[-300:]}", "fail"
    w = diff(ch, L, split(r[-1]))
    return w, (ch, tuple(L))


FAKECC = """#!/bin/sh
# a compiler that records its arguments and otherwise is gcc
case "$*" in *marker.c*|*marker_ex*)
	printf '%s\\000' "$@" > '@LOG@'
	for a; do o=$p; p=$a; [ "$o" = -o ] && : > "$a"; done
	exit 0;;
esac
exec gcc "$@"
"""


def run_compile(c, case):
    _, ch, L = case
    L = [x if isinstance(x, bytes) else x.encode("latin1") for x in L]
    pre = b"-DM" if ch != "link_args" else b"-Wl,"
    A = [pre + b"%d=" % i + x for i, x in enumerate(L)]
    args = b", ".join(q(x) for x in A)
    log = "log"
    body = b"project('m', 'c')\n"
    kw = b""
    if ch in ("project_args", "compdb"):
        body += b"add_project_arguments(%s, language: 'c')\n" % args
    elif ch == "target_args":
        kw = b", c_args: [%s]" % args
    elif ch == "dep_args":
        body += b"d = declare_dependency(compile_args: [%s])\n" % args
        kw = b", dependencies: d"
    elif ch == "link_args":
        kw = b", link_args: [%s]" % args
    body += b"executable('marker_ex', 'marker.c'%s)\n" % kw
    cc = FAKECC.replace("@LOG@", "../" + log)
    ops = [("w", "meson.build", body), ("w", "marker.c", "int x;\n"), ("w", "cc", cc, 0o755), ("r", ["setup", "b"], ".", {"CC": c.d + "/cc"}, 60),
           ("r", ["samu", "-C", "b"] + ([] if ch == "link_args" else ["marker_ex.p/marker.c.o"]), ".", {}, 60), ("f", log), ("f", "b/compile_commands.json")]
    r1, r2, out, db = c.go(ops)
    if r1.rc or r2.rc:
        return f"{ch}: a step fails: {(r1.out if r1.rc else r2.out)[-400:]}", "fail"
    if ch == "compdb":
        import json
        if any(ord(ch2) < 32 or ord(ch2) > 126 for x in L for ch2 in x.decode("latin1")):
            return None, "control characters are not checked here"
        cmd = json.loads(db)[0]["command"]
        got = [x.encode() for x in shlex.split(cmd)]
    else:
        got = split(out)
    got = [x for x in got or [] if x.startswith(pre) and x[len(pre):len(pre) + 1].isdigit()]
    return diff(ch, A, got), (ch, tuple(L))


def run_files(c, case):
    """input and output files with these names"""
    _, ch, L = case
    L = [x if isinstance(x, bytes) else x.encode("latin1") for x in L]
    body = b"project('m')\n"
    ops = []
    for i, n in enumerate(L):
        body += b"custom_target('t%d', input: %s, output: %s, build_by_default: true, command: ['cp', '@INPUT@', '@OUTPUT@'])\n" % (i, q(b"i" + n), q(b"o" + n))
        ops.append(("w", (b"i" + n).decode("utf-8", "surrogateescape"), b"<" + n + b">"))
    ops += [("w", "meson.build", body), ("r", ["setup", "b"]), ("r", ["samu", "-C", "b"], ".", {}, 60), ("r", ["samu", "-C", "b", "-n"])]
    ops += [("f", "b/" + (b"o" + n).decode("utf-8", "surrogateescape")) for n in L]
    r = c.go(ops)
    if (r[0].rc or r[1].rc) and len(L) > 1:
        # find the name
        for n in L:
            w, _ = run_files(c, ("files", ch, [n]))
            if w:
                return w, "fail"
        return f"building files named {L!r} fails: {(r[0].out + r[1].out)[-300:]}", "fail"
    if r[0].rc or r[1].rc:
        return f"building a file named {L[0]!r} fails: {(r[0].out + r[1].out)[-300:]}", "fail"
    for n, got in zip(L, r[3:]):
        if got != b"<" + n + b">":
            return f"the file built from {b'i' + n!r} holds {got!r}", "bad"
    if "[1/" in r[2].out:
        return f"a second build is not idle: {r[2].out[-200:]}", "bad"
    return None, tuple(L)


def run_dir(c, case):
    """source and build directories with this name"""
    _, d, _ = case
    n = len(c.d)
    dump = mv.tool("dumpargv")
    files = {
        "meson.build": f"project('m', 'c')\ncustom_target('t', input: 'in', output: 'out', build_by_default: true, command: ['cp', '@INPUT@', '@OUTPUT@'])\n"
                       f"l = static_library('l', 'l.c')\ne = executable('e', 'e.c', link_with: l)\nsubdir('sub')\ntest('t', e)\ninstall_data('in', install_dir: '/data')\n"
                       "configure_file(input: 'in', output: 'conf', copy: true)\n",
        "sub/meson.build": "h = custom_target('h', output: 'gen.h', command: ['sh', '-c', 'echo \"#define G 0\" > \"$1\"', 'sh', '@OUTPUT@'])\nexecutable('f', 'f.c', h)\n",
        "sub/f.c": "#include \"gen.h\"\nint main(void) { return G; }\n",
        "in": "content", "l.c": "int l(void) { return 0; }\n", "e.c": "int l(void);\nint main(void) { return l(); }\n"}
    ops = [("w", f"{d}/{k}", v) for k, v in files.items()]
    b = "./" + d + "/" + d
    ops += [("r", ["-C", "./" + d, "setup", "./" + d], ".", {}, 60), ("r", ["-C", b, "samu"], ".", {}, 60), ("r", ["-C", b, "samu"], ".", {}, 60), ("r", ["-C", b, "test"], ".", {}, 60),
            ("r", ["-C", b, "install", "-d", c.d + "/dest"], ".", {}, 60), ("f", b + "/out"), ("f", "dest/data/in"), ("f", b + "/sub/f"),
            ("u", b + "/build.ninja", 1000000000), ("r", ["-C", b, "samu", "build.ninja"], ".", {}, 60)]
    r = c.go(ops)
    for i, x in enumerate([r[0], r[1], r[2], r[3], r[4], r[8]]):
        if x.rc:
            return f"in a directory named {d!r}: step {i} fails: {x.out[-400:]}", "fail"
    if "[1/" in r[2].out:
        return f"in a directory named {d!r}: the second build is not idle: {r[2].out[-300:]}", "bad"
    if r[5] != b"content" or r[6] != b"content" or r[7] is None:
        return f"in a directory named {d!r}: wrong results {r[5]!r} {r[6]!r} {r[7] is not None}", "bad"
    return None, d


RUN = {"argv": run_argv, "compile": run_compile, "files": run_files, "dir": run_dir}


def one(c, case):
    return RUN[case[0]](c, case)


def main():
    ck = mv.Check("B06", "exploration")
    mv.tool("dumpargv")
    cs = sorted(cases(ck.thorough), key=lambda x: {"dir": 0, "compile": 1}.get(x[0], 2))
    n = sum(len(x[2]) or 1 for x in cs)
    clicheck.run(ck, cs, one, chunk=4)
    ck.add(strings_sent=n, channels=len(CHANNELS) + 5, exhaustive=True,
           rule="every byte, every pair over 40 characters and every triple over 12 (thorough: all byte pairs, triples over all 40), through every channel; every such file name; "
                "35 directory names; compared byte for byte")
    ck.sample("custom_target(command: [prog, '$(id)', '*', ';'])")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
