#!/usr/bin/env python3
"""F02: commands muon runs get exactly the arguments and input given, and their output and exit status are reported exactly."""
import itertools
import json
import os
import subprocess
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import clicheck
import mv

WRAP = ("pipe", "pipe2", "fcntl", "fcntl64", "close", "fork", "read", "waitpid", "nanosleep", "usleep", "poll")
ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
_PAT = {}


def pattern(fd, n):
    if len(_PAT.get(fd, "")) < n:
        _PAT[fd] = "".join("\n" if j % 61 == 60 else ALPHA[(j + j // 61 + fd) % 62] for j in range(max(n, 600000)))
    return _PAT[fd][:n]


def expect(script):
    """-> stdout, stderr, exit status (negative: signal)"""
    out, at, op_ = {1: "", 2: ""}, {1: 0, 2: 0}, {1: True, 2: True}
    code = None
    for s in script.split(","):
        k, n = s[0], int(s[1:] or 0)
        if k in "oe":
            fd = 1 if k == "o" else 2
            if op_[fd]:
                out[fd] += pattern(fd, at[fd] + n)[at[fd]:]
            at[fd] += n
        elif k in "Nn":
            fd = 1 if k == "N" else 2
            if op_[fd]:
                out[fd] += "\0"
        elif k in "OE":
            op_[1 if k == "O" else 2] = False
        elif k == "f":
            code = n
        elif k == "x":
            if code is None:
                code = n
            break
        elif k == "k":
            if code is None:
                code = -n
            break
    return out[1], out[2], code or 0


def q(s):
    r = []
    for c in s:
        r.append({"\\": "\\\\", "'": "\\'", "\n": "\\n", "\r": "\\r"}.get(c, c if c >= " " or c == "\t" else f"\\x{ord(c):02x}"))
    return "'" + "".join(r) + "'"


def batch_rc(c, scripts):
    """run_command: stdout(), stderr(), returncode()"""
    mb = ["project('p')", "fs = import('fs')", f"c = find_program({q(mv.tool('child'))})"]
    ops = []
    for i, s in enumerate(scripts):
        o, e, code = expect(s)
        ops += [("w", f"e/{i}.o", o), ("w", f"e/{i}.e", e)]
        mb += [f"r = run_command(c, {q(s)}, check: false)",
               f"if r.stdout() != fs.read('e/{i}.o')\n message('BAD {i} stdout', r.stdout())\nendif",
               f"if r.stderr() != fs.read('e/{i}.e')\n message('BAD {i} stderr', r.stderr())\nendif",
               f"if r.returncode() != {code}\n message('BAD {i} returncode', r.returncode())\nendif"]
    r, = c.go(ops + [("w", "meson.build", "\n".join(mb) + "\n"), ("r", ["setup", "b"], ".", {}, 60)])
    if r.rc:
        return f"run_command({scripts}): setup fails: {r.out[-300:]}"
    for m in r.messages():
        if m.startswith("BAD"):
            w = m.split(" ", 3)
            x = expect(scripts[int(w[1])])
            return f"run_command(child, {scripts[int(w[1])]!r}): {w[2]} is {w[3][:80]!r} ({len(x[0])}, {len(x[1])} characters, exit {x[2]} expected)"
    return None


def batch_exe(c, scripts):
    """internal exe -c: the output goes to the file when the command succeeds, which is what its status says"""
    ops = [("w", "old", "before")]
    for i, s in enumerate(scripts):
        ops += [("r", ["internal", "exe", "-c", f"o{i}", "--", mv.tool("child"), s]), ("f", f"o{i}")]
    res = c.go(ops)
    for i, s in enumerate(scripts):
        r, f = res[2 * i:2 * i + 2]
        o, e, code = expect(s)
        if (r.rc == 0) != (code == 0) or r.rc < 0:
            return f"internal exe -c: {s!r} ends with {code}, reported {r.rc}"
        if code == 0 and f != o.encode():
            return f"internal exe -c: {s!r}: captured {None if f is None else (len(f), f[:60])} of {len(o)} bytes"
        if code and f is not None:
            return f"internal exe -c: {s!r} fails and leaves {len(f)} bytes of output"
    return None


def batch_raw(c, scripts):
    """internal exe without capture: output and status pass through"""
    ops = []
    for s in scripts:
        ops.append(("r", ["internal", "exe", mv.tool("child"), s]))
    for s, r in zip(scripts, c.go(ops)):
        o, e, code = expect(s)
        if (r.rc == 0) != (code == 0):
            return f"internal exe: {s!r} ends with {code}, reported {r.rc}"
        if not e and code == 0 and r.out.replace("\r\n", "\n") != o:
            return f"internal exe: {s!r}: {len(r.out)} characters of {len(o)}"
    return None


def batch_cf(c, scripts):
    """configure_file(command:, capture: true)"""
    mb = ["project('p')", f"c = find_program({q(mv.tool('child'))})"]
    fine = [s for s in scripts if expect(s)[2] == 0]
    ops, gets = [], []
    for i, s in enumerate(fine):
        mb.append(f"configure_file(command: [c, {q(s)}], output: 'o{i}', capture: true)")
        gets.append(("f", f"b/o{i}"))
    r, *fs = c.go([("w", "meson.build", "\n".join(mb) + "\n"), ("r", ["setup", "b"], ".", {}, 60)] + gets)
    if r.rc:
        return f"configure_file({fine}): {r.out[-300:]}"
    for s, f in zip(fine, fs):
        if f != expect(s)[0].encode():
            return f"configure_file(command: {s!r}): {None if f is None else (len(f), f[:60])} of {len(expect(s)[0])} bytes"
    for s in scripts:
        if expect(s)[2] == 0:
            continue
        r, f = c.go([("w", "meson.build", f"project('p')\nc = find_program({q(mv.tool('child'))})\nconfigure_file(command: [c, {q(s)}], output: 'o', capture: true)\n"),
                     ("r", ["setup", "b"], ".", {}, 60), ("f", "b/o")])
        if r.rc == 0:
            return f"configure_file(command: {s!r}): the command fails, setup succeeds"
    return None


def batch_check(c, scripts):
    """check: true fails exactly when the command does; a command that is killed is no success"""
    for s in scripts:
        o, e, code = expect(s)
        for check in ("true", "false"):
            if code >= 0 and check == "false":
                continue
            r, = c.go([("w", "meson.build", f"project('p')\nr = run_command({q(mv.tool('child'))}, {q(s)}, check: {check})\nmessage('code', r.returncode(), r.stdout() == '')\n"),
                       ("r", ["setup", "b"], ".", {}, 60)])
            if check == "true" and (r.rc == 0) != (code == 0):
                return f"run_command({s!r}, check: true): ends with {code}, setup with {r.rc}"
            if code < 0 and r.rc == 0 and any(m.startswith("code 0") for m in r.messages()):
                return f"run_command({s!r}) is killed, returncode() is 0"
            if r.rc < 0:
                return f"run_command({s!r}): muon is killed by {-r.rc}"
    return None


def batch_ccrun(c, scripts):
    mb = ["project('p', 'c')", "fs = import('fs')", "cc = meson.get_compiler('c')"]
    ops = []
    for i, s in enumerate(scripts):
        o, e, code = expect(s)
        ops += [("w", f"e/{i}.o", o), ("w", f"e/{i}.e", e)]
        src = f'#include <unistd.h>\nint main(void) {{ execl("{mv.tool("child")}", "child", "{s}", (char *)0); return 99; }}'
        mb += [f"r = cc.run('''{src}''')",
               f"if not r.compiled()\n message('BAD {i} compiled', false)\nendif",
               f"if r.stdout() != fs.read('e/{i}.o')\n message('BAD {i} stdout', r.stdout())\nendif",
               f"if r.stderr() != fs.read('e/{i}.e')\n message('BAD {i} stderr', r.stderr())\nendif",
               f"if r.returncode() != {code}\n message('BAD {i} returncode', r.returncode())\nendif"]
    r, = c.go(ops + [("w", "meson.build", "\n".join(mb) + "\n"), ("r", ["setup", "b"], ".", {}, 60)])
    if r.rc:
        return f"cc.run({scripts}): setup fails: {r.out[-300:]}"
    for m in r.messages():
        if m.startswith("BAD"):
            w = m.split(" ", 3)
            return f"cc.run({scripts[int(w[1])]!r}): {w[2]} is {w[3][:80]!r}, expected {expect(scripts[int(w[1])])[2]}"
    return None


def batch_argv(c, argvs):
    """the arguments arrive as given"""
    ch = mv.tool("child")
    mb = ["project('p')", f"c = find_program({q(ch)})"]
    for i, a in enumerate(argvs):
        want = q("".join(x + "|" for x in a))
        forms = {"list": "c, 'a', " + ", ".join(q(x) for x in a), "array": "c, ['a', [" + ", ".join(q(x) for x in a) + "]]",
                 "string": q(ch) + ", 'a', " + ", ".join(q(x) for x in a)}
        for k, f in forms.items():
            mb.append(f"r = run_command({f}, check: true)\nif r.stdout() != {want}\n message('BAD {i} {k}', r.stdout())\nendif")
    ops = [("w", "meson.build", "\n".join(mb) + "\n"), ("r", ["setup", "b"], ".", {}, 60)]
    direct = [a for a in argvs if len(a) < 100 and sum(map(len, a)) < 60000]
    for a in direct:
        ops += [("r", ["internal", "exe", "-c", "o", ch, "a", *a]), ("f", "o"), ("r", ["internal", "exe", "-c", "o", "--", ch, "a", *a]), ("f", "o"),
                ("r", ["internal", "exe", ch, "a", *a])]
    res = c.go(ops)
    r = res.pop(0)
    if r.rc:
        return f"run_command with {argvs}: {r.out[-300:]}"
    for m in r.messages():
        if m.startswith("BAD"):
            w = m.split(" ", 3)
            return f"run_command ({w[2]}) with {argvs[int(w[1])]!r}: the command got {w[3][:200]!r}"
    for i, a in enumerate(direct):
        want = "".join(x + "|" for x in a)
        r1, f1, r2, f2, r3 = res[5 * i:5 * i + 5]
        for r, f in ((r1, f1), (r2, f2)):
            if r.rc or f != want.encode("utf-8", "surrogateescape"):
                return f"internal exe -c with {a!r}: {r.rc}, {f!r}"
        if r3.rc or r3.out.replace("\r\n", "\n") != want.replace("\r\n", "\n"):
            return f"internal exe with {a!r}: {r3.rc}, {r3.out[:200]!r}"
    return None


def batch_feed(c, sizes):
    """internal exe -f"""
    ch = mv.tool("child")
    for n, after in sizes:
        data = pattern(1, n) + after
        r, f, r2 = c.go([("w", "in", data), ("r", ["internal", "exe", "-f", "in", "-c", "o", ch, "i"]), ("f", "o"), ("r", ["internal", "exe", "-f", "in", ch, "i,x4"])])
        if r.rc or f != data.encode():
            return f"internal exe -f of {len(data)} bytes: {r.rc}, {None if f is None else len(f)} bytes"
        if r2.rc == 0 or (data.isascii() and "\0" not in data and not r2.out.startswith(data)):
            return f"internal exe -f of {len(data)} bytes without -c: {r2.rc}, {len(r2.out)} characters"
    r, f = c.go([("r", ["internal", "exe", "-f", "missing", "-c", "o", ch, "i"]), ("f", "o")])
    if r.rc == 0 or f is not None:
        return "internal exe -f of a missing file succeeds"
    r, f, g = c.go([("w", "old", "x"), ("w", "out", "old"), ("r", ["internal", "exe", "-R", "old", "-c", "out", ch, "o3"]), ("f", "old"), ("f", "out")])
    if r.rc or f is not None or g != pattern(1, 3).encode():
        return f"internal exe -R: {r.rc} {f} {g}"
    return None


def batch_script(c, cases):
    """a script that may not be executed is run by the interpreter it names as the kernel would run it"""
    ch = mv.tool("child")
    for line, body, name, how in cases:
        text = line.replace("CHILD", ch) + body
        call = {"name": f"find_program({q(name)})", "files": f"files({q(name)})", "path": f"meson.current_source_dir() / {q(name)}"}[how]
        mb = f"project('p')\nr = run_command({call}, 'x y', '', 'z', check: false)\nmessage(r.returncode().to_string() + '[' + r.stdout() + ']' + (r.stderr() == '' ? '' : 'err'))\n"
        got = []
        for mode in (0o755, 0o644):
            r, = c.go([("w", "meson.build", mb), ("w", name, text, mode), ("r", ["setup", "b"], ".", {}, 60)])
            m = r.messages()
            got.append((r.rc, m[0] if m else r.out[-200:]))
            r, f = c.go([("w", name, text, mode), ("r", ["internal", "exe", "-c", "o", "--", "./" + name, "x y", "", "z"]), ("f", "o")])
            got.append((r.rc, f))
        got[1], got[3] = [(x[0], x[1] and x[1].replace(c.d.encode() + b"/", b"").replace(b"./", b"")) for x in (got[1], got[3])]
        if got[0] != got[2] or got[1] != got[3]:
            return f"script {line!r} {name} ({how}): {got[2:]} not executable, {got[:2]} executable"
        if got[0][0] or not got[0][1].startswith("0["):
            return f"script {line!r} {name} ({how}): {got[0]}"
    return None


def batch_version(c, scripts):
    """version() of a program and of the compiler, whatever they print"""
    ch = mv.tool("child")
    for s in scripts:
        o, e, code = expect(s)
        prog = f"#!/bin/sh\nexec {ch} {s}\n"
        r, = c.go([("w", "prog", prog, 0o755), ("w", "meson.build", "project('p')\nmessage('version', find_program('./prog').version())\n"), ("r", ["setup", "b"], ".", {}, 60)])
        if r.rc < 0:
            return f"version() of a program that does {s!r}: setup ends with {r.rc}: {r.out[-200:]}"
        for var in ("CC", "AR"):
            r, = c.go([("w", "prog", prog, 0o755), ("w", "meson.build", "project('p', 'c')\n"), ("r", ["setup", "b"], ".", {var: c.d + "/prog"}, 60)])
            if r.rc < 0:
                return f"{var} that does {s!r}: setup is killed by {-r.rc}: {r.out[-200:]}"
    return None


SITES = {"version": batch_version, "rc": batch_rc, "exe": batch_exe, "raw": batch_raw, "cf": batch_cf, "check": batch_check, "ccrun": batch_ccrun, "argv": batch_argv, "feed": batch_feed,
         "script": batch_script}


def one(c, case):
    site, items = case
    w = SITES[site](c, items)
    return w, repr(case)[:4000]


STEPS = ["o1", "o4096", "o65537", "e1", "e4096", "e65537", "z3", "O", "E", "N", "n"]
VALS = ["", " ", "a b", "'", '"', "\\", "\\\\", "$", "$$", "$HOME", "`", "*", "?", "~", "#", ";", "&", "|x", "<", ">", "(", "{a,b}", "!", "%", "\t", "\n", "\x01", "\x7f", "é", "日本",
        "-", "--", "-c", "-f", "-e", "-x", "--help", "=", "a=b", "@", "@@", "@0@", "@INPUT@", "@OUTPUT@", "\\n", "\\x41", "a\\", "x" * 5000, "\xa0", ","]


def cases(deep):
    def sp(site, items, n=20):
        for x in mv.chunked(list(items), n):
            yield (site, list(x))
    depth = 4 if deep else 3
    scripts = [",".join(p) + e for n in range(1, depth + 1) for p in itertools.product(STEPS, repeat=n) for e in ("", ",x3")[:1 if n == depth else 2]
               if not (n == 4 and len([x for x in p if "65537" in x]) > 1)]
    yield from sp("rc", scripts)
    forks = [f"{a},f{n},{b}" for n in (0, 7) for a in ("o1", "e5", "o70000", "O") for b in ("o1", "e1", "o70000,e70000", "x9", "O,e3", "z1", "k9")]
    yield from sp("rc", forks)
    yield from sp("rc", [f"o2,x{n}" for n in range(256)], 32)
    yield from sp("rc", [f"o{n},e{m}" for n in (0, 1, 1023, 1024, 1025, 4095, 4097, 8192, 65535, 65536, 200000, 500000) for m in (0, 1, 4095, 4096, 65536, 300000)], 12)
    short = [",".join(p) + e for n in (1, 2) for p in itertools.product(STEPS, repeat=n) for e in ("", ",x3", ",k9", ",k15")]
    yield from sp("exe", short)
    yield from sp("exe", [f"o2,x{n}" for n in range(256)], 32)
    yield from sp("exe", [x for x in forks if not x.startswith("O")], 14)
    yield from sp("raw", [x for x in short if "65537" not in x and "N" not in x and "n" not in x and "z" not in x])
    yield from sp("cf", short, 44)
    yield from sp("check", [f"o1,x{n}" for n in (0, 1, 2, 126, 127, 128, 255)] + [f"{a}k{n}" for a in ("", "o1,", "e5000,") for n in (1, 2, 6, 9, 11, 13, 15)], 7)
    yield from sp("ccrun", [f"{a},x{n}" for a in ("o1", "e1", "o65537,e65537", "O,e2", "N,n") for n in (0, 1, 3, 255)], 5)
    vals = VALS
    yield from sp("argv", [[v] for v in vals] + [list(p) for p in itertools.product(vals, repeat=2) if len(p[0]) < 99 or len(p[1]) < 99], 25)
    yield from sp("argv", [["a"] * n for n in (1, 2, 15, 16, 17, 63, 64, 65, 255, 256, 1000)] + [[""] * n for n in (1, 2, 3, 64)] + [[str(i) for i in range(200)], ["x" * 100000]], 5)
    if deep:
        t = [v for v in vals if len(v) < 5]
        yield from sp("argv", [list(p) for p in itertools.product(t, repeat=3) if len(set(p)) == 3][::3], 40)
    yield from sp("feed", [(n, a) for n in (0, 1, 4095, 4096, 4097, 65536, 65537, 300000) for a in ("", "\n", "\0", "é")], 8)
    yield from sp("version", [",".join(p) + e for n in (1, 2) for p in itertools.product(["o5", "e5", "O", "E", "N", "n", "z1"], repeat=n) for e in ("", ",x1", ",k9")], 14)
    scr = []
    for line in ("#!CHILD a", "#! CHILD a", "#!\tCHILD a", "#!CHILD\ta", "#!CHILD  a", "#!CHILD a ", "#!CHILD a\t", "#!CHILD a \t ", "#!CHILD a,a", "#!CHILD a b", "#!CHILD a#b"):
        for body in ("", "\n", "\nrest\n", "\n#!/bin/false\n"):
            for name, how in (("s.sh", "name"), ("s", "files"), ("d/s.py", "name"), ("d/s x", "files"), ("s.sh", "path")):
                scr.append((line, body, name, how))
    for line in ("#!/bin/sh", "#!/bin/sh ", "#! /bin/sh", "#!/bin/sh -e", "#!/bin/sh -e ", "#!/bin/sh\t-u\t", "#!/usr/bin/env sh", "#!/usr/bin/env sh "):
        for body in ("\nfor i in \"$@\"; do echo \"<$i>\"; done\n", "\ncat <<X\n$#\nX\n", "\necho ok", "\n\n\necho 1 $2 3\n"):
            for name, how in (("s.sh", "name"), ("s", "files"), ("d/s", "path")):
                scr.append((line, body, name, how))
    yield from sp("script", scr, 10)


def explore(a):
    exe, length, mode, part, parts = a
    r = subprocess.run([exe, str(length), mode, str(part), str(parts)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return r.returncode, r.stdout


def main():
    ck = mv.Check("F02", "exploration")
    mv.tool("child")
    exe = mv.build_harness("runcmd_mc", ["runcmd_mc.c"], variant="rel", wrap=WRAP)
    parts = 64 if ck.thorough else 16
    length = 4 if ck.thorough else 3
    st = [0] * 6
    for mode in "sa":
        for rc, out in mv.pmap(explore, [(exe, length, mode, i, parts) for i in range(parts)]):
            for l in out.split("\n"):
                if l.startswith("STAT"):
                    st = [a + b for a, b in zip(st, map(int, l.split()[1:]))]
                elif l:
                    ck.violation(f"simulated child ({'polled' if mode == 'a' else 'waited for'}): {l}", {"mode": mode, "line": l})
            if rc not in (0, 7):
                ck.violation(f"simulated child: the runner dies ({rc})", {"mode": mode})
    ck.add(scripts=st[0], schedules=st[1], transitions=st[2] + st[3], states=st[5])
    if not ck.viol:
        clicheck.run(ck, list(cases(ck.thorough)), one, chunk=1)
    ck.add(exhaustive=True, child_steps=length,
           rule="run_cmd and run_cmd_collect against a simulated child: every script of up to CHILD_STEPS writes, closes and an exit, every interleaving of its steps with the system calls of "
                "the parent; real children: every script of up to 3 steps at every place that runs a command, all exit codes, all pairs of 50 arguments, scripts with every shape of #! line")
    ck.sample("child: 6000 bytes to standard error, exit 3, a descendant writes one byte to standard output and ends: all of it is collected, status 3, whatever the order of reads and writes")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
