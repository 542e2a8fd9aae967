#!/usr/bin/env python3
"""I01: muon install puts exactly the files the build description asks for at the paths the options define, below
DESTDIR, with their contents and modes, whatever was there before, and touches nothing else."""
import itertools
import os
import posixpath
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import clicheck
import mv

# the source tree: path -> (content or None for a directory or ("l", target), mode)
SRC = {
    "a": ("A", 0o644), "x.sh": ("#!/bin/sh\n", 0o755), "ro": ("R", 0o444), "d/b": ("B", 0o644), "d/a": ("DA", 0o640), "m.1": ("M1", 0o644), "m.fr.1": ("MF", 0o644),
    "m.2": ("M2", 0o644), "d/n.fr.7": ("N7", 0o644), "ln": (("l", "a"), 0), "e": ("", 0o644),
    "t/f": ("TF", 0o644), "t/g": ("TG", 0o755), "t/u/f": ("UF", 0o644), "t/u/v/h": ("VH", 0o600), "t/u/v/f": ("VF", 0o644), "t/u/v/y/q": ("Q", 0o600), "t/w/z": ("WZ", 0o644), "t/l": (("l", "u/f"), 0),
    "t/k": (("l", "nowhere"), 0), "em/keep/x": ("x", 0o644), "s/a": ("SA", 0o644), "s/t/f": ("STF", 0o644), "s/m.3": ("SM", 0o644),
}
MODES = {None: None, "rw-r--r--": 0o644, "rwxr-xr-x": 0o755, "r--r--r--": 0o444, "rwx------": 0o700, "rwsr-sr-x": 0o6755, "rwSr-Sr--": 0o6644}
DIRMODES = {None: None, "rwxr-xr-x": 0o755, "rwxrwx---": 0o770, "rwxrwxrwx": 0o777}   # not t: only with a warning
BADMODES = ["rwx", "rwxrwxrwxr", "rwxrwxrws", "swxrwxrwx", "wrxr-xr-x", "rwtr-xr-x", "RWXR-XR-X", "r-xr-xr-?", ""]

J = posixpath.join


class Opt:
    def __init__(self, prefix="/pre", dirs=()):
        self.prefix = prefix
        d = {"bindir": "bin", "datadir": "share", "includedir": "include", "mandir": "share/man", "libdir": "lib"}
        d.update(dirs)
        self.d = d


def lit(x):
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(lit(y) for y in x) + "]"
    return "'" + x + "'"


def kws(kw):
    return "".join(f", {k}: {v[1:] if isinstance(v, str) and v[:1] == '!' else lit(v)}" for k, v in kw.items())


# A statement is (text, [effects]); an effect is (kind, dest, src, mode) with dest relative to the prefix

def st_data(files, kw, opt, cwd="", proj="m"):
    mode = MODES[kw.get("install_mode")] if not isinstance(kw.get("install_mode"), list) else MODES[kw["install_mode"][0]]
    dst = kw.get("install_dir", J(opt.d["datadir"], proj))
    eff = []
    allf = files + (kw["sources"] if "sources" in kw else [])
    for i, f in enumerate(allf):
        isf = f.startswith("!")
        f = f.lstrip("!")
        if "rename" in kw:
            n = kw["rename"][i]
        elif kw.get("preserve_path"):
            n = f
        else:
            n = posixpath.basename(f)
        eff.append(("f", J(dst, n), J(cwd, f), mode))
    k = dict(kw)
    if "sources" in k:
        k["sources"] = "![" + ", ".join(fl(f) for f in kw["sources"]) + "]"
    return "install_data(" + ", ".join(fl(f) for f in files) + (kws(k) if files else kws(k)[2:]) + ")", eff


def fl(f):
    return f"files('{f[1:]}')" if f.startswith("!") else f"'{f}'"


def st_headers(files, kw, opt, cwd=""):
    mode = MODES[kw.get("install_mode")]
    dst = kw.get("install_dir", opt.d["includedir"])
    if "subdir" in kw:
        dst = J(dst, kw["subdir"])
    eff = [("f", J(dst, f.lstrip("!") if kw.get("preserve_path") else posixpath.basename(f)), J(cwd, f.lstrip("!")), mode) for f in files]
    return "install_headers(" + ", ".join(fl(f) for f in files) + kws(kw) + ")", eff


def st_man(files, kw, opt, cwd=""):
    mode = MODES[kw.get("install_mode")]
    eff = []
    for f in files:
        n = posixpath.basename(f)
        loc = kw.get("locale")
        if loc:
            n = n.replace("." + loc, "")
        d = kw.get("install_dir") or J(J(opt.d["mandir"], loc) if loc else opt.d["mandir"], "man" + f[-1])
        eff.append(("f", J(d, n), J(cwd, f), mode))
    return "install_man(" + ", ".join(fl(f) for f in files) + kws(kw) + ")", eff


def children(d):
    """(relative path, is it a directory)"""
    r = {}
    for p in SRC:
        if p.startswith(d + "/"):
            q = p[len(d) + 1:]
            parts = q.split("/")
            for i in range(1, len(parts)):
                r["/".join(parts[:i])] = True
            r[q] = False
    return sorted(r.items())


def st_subdir(name, kw, opt, cwd=""):
    mode = kw.get("install_mode")
    mode = {**DIRMODES, **MODES}[mode]
    dst = kw["install_dir"]
    src = J(cwd, name.rstrip("/"))
    if not kw.get("strip_directory"):
        dst = J(dst, posixpath.basename(name.rstrip("/")))
    xd = kw.get("exclude_directories", [])
    xf = kw.get("exclude_files", [])
    eff = [("d", dst, None, mode)]
    for p, isdir in children(src):
        if any(p == x or p.startswith(x + "/") for x in xd) or (not isdir and p in xf):
            continue
        eff.append(("d", J(dst, p), None, mode) if isdir else ("f", J(dst, p), J(src, p), mode))
    return f"install_subdir('{name}'{kws(kw)})", eff


def st_symlink(name, kw, opt):
    return f"install_symlink('{name}'{kws(kw)})", [("l", J(kw["install_dir"], name), kw["pointing_to"], None)]


def st_emptydir(names, kw, opt):
    return "install_emptydir(" + ", ".join(f"'{n}'" for n in names) + kws(kw) + ")", [("d", n, None, DIRMODES[kw.get("install_mode")]) for n in names]


def st_conf(kw, opt):
    eff = []
    if kw.get("install", "install_dir" in kw):
        eff = [("f", J(kw["install_dir"], "cf"), "a", MODES[kw.get("install_mode")])]
    return f"configure_file(input: 'a', output: 'cf', copy: true{kws(kw)})", eff


def st_custom(n, kw, opt):
    eff = []
    if kw.get("install", "install_dir" in kw):
        d = kw["install_dir"]
        d = d if isinstance(d, list) else [d]
        if len(d) == 1:
            d = d * n
        eff = [("c", J(x, f"ct{i}"), f"ct{i}", MODES[kw.get("install_mode")]) for i, x in enumerate(d) if x]
    return ("custom_target(output: " + lit([f"ct{i}" for i in range(n)]) + ", command: ['sh', '-c', 'for f; do echo ${f##*/} > $f; done', 'sh', '@OUTPUT@']" + kws(kw) + ")"), eff


def sub(d, ks):
    return {k: d[k] for k in ks}


def statements(opt, deep):
    """(text, effects) with everything legal"""
    R = []
    modes = list(MODES) if deep else [None, "rw-r--r--", "rwsr-sr-x", "r--r--r--"]
    dirs = ["x", "x/y/z", "x/", "/abs/q", ".", "", "x/./y", "share"]
    for fs in (["a"], ["d/b"], ["!a"], ["!d/b"], ["a", "d/b"], ["a", "x.sh", "ro"], ["!a", "d/b"], ["ln"], ["e"], ["d/a", "a"][:1]):
        for d in [None] + dirs:
            for m in modes:
                kw = {}
                if d is not None:
                    kw["install_dir"] = d
                if m:
                    kw["install_mode"] = m
                    if "ln" in fs:
                        continue
                R.append(st_data(fs, kw, opt))
                if m in (None, "rw-r--r--"):
                    R.append(st_data(fs[:1], {**kw, "sources": fs[1:] or ["m.2"]}, opt))
                    R.append(st_data([], {**kw, "sources": fs}, opt))
                    R.append(st_data(fs, {**kw, "rename": [f"n{i}" if i else "q/n0" for i in range(len(fs))]}, opt))
                    if not any(f.startswith("!") for f in fs):
                        R.append(st_data(fs, {**kw, "preserve_path": True}, opt))
                    R.append(st_data(fs, {**kw, "preserve_path": False}, opt))
    R.append(st_data(["a"], {"install_mode": ["rwx------"]}, opt))
    for fs in (["a"], ["d/b"], ["!d/b"], ["a", "d/b"]):
        for m in modes:
            for k in ({}, {"subdir": "p/q"}, {"install_dir": "x"}, {"install_dir": "/abs/i"}, {"subdir": "p", "preserve_path": True}, {"preserve_path": True}, {"preserve_path": False}):
                if k.get("preserve_path") and fs[0][0] == "!":
                    continue
                R.append(st_headers(fs, {**k, **({"install_mode": m} if m else {})}, opt))
    for fs in (["m.1"], ["m.fr.1"], ["m.2", "m.1"], ["d/n.fr.7"], ["m.fr.1", "m.1"][:1], ["m.2", "d/n.fr.7"]):
        for k in ({}, {"install_dir": "x"}, {"locale": "fr"}, {"locale": "fr", "install_dir": "x"}, {"locale": "de"}):
            for m in modes:
                R.append(st_man(fs, {**k, **({"install_mode": m} if m else {})}, opt))
    for name in ("t", "t/u", "t/u/v", "d", "em", "t/", "em/keep"):
        ch = children(name.rstrip("/"))
        dd = [p for p, i in ch if i]
        ff = [p for p, i in ch if not i]
        for d in dirs[:4] if not deep else dirs:
            for s in ({}, {"strip_directory": True}, {"strip_directory": False}):
                for xd in [None] + [list(c) for n in range(1, len(dd) + 1) for c in itertools.combinations(dd, n)]:
                    for xf in [None] + [list(c) for n in (1, 2) for c in itertools.combinations(ff, n)]:
                        if not deep and d != "x" and (xd or xf):
                            continue
                        if not deep and xd and xf and s != {}:
                            continue
                        kw = {"install_dir": d, **s}
                        if xd:
                            kw["exclude_directories"] = xd
                        if xf:
                            kw["exclude_files"] = xf
                        R.append(st_subdir(name, kw, opt))
                for m in DIRMODES:
                    if m and "t" not in m.lower() and (name not in ("t", "t/")):
                        R.append(st_subdir(name, {"install_dir": d, **s, "install_mode": m}, opt))
    for n in ("s1", "s2/s3"):
        for to in ("a", "../x/a", "/etc/passwd", "a/b c", "."):
            for d in dirs:
                R.append(st_symlink(n, {"install_dir": d, "pointing_to": to}, opt))
    for ns in (["e1"], ["e1/e2"], ["/abs/e"], ["e1", "e2"], ["e1", "e1/e2/e3"], ["e1/"]):
        for m in DIRMODES:
            R.append(st_emptydir(ns, {"install_mode": m} if m else {}, opt))
    for k in ({}, {"install": False, "install_dir": "x"}, {"install": True, "install_dir": "x"}, {"install_dir": "x"}, {"install_dir": "/abs"}):
        for m in modes:
            R.append(st_conf({**k, **({"install_mode": m} if m else {})}, opt))
    for n in (1, 2, 3):
        L = [["x"], ["x", "y"], [False, "y"], ["x", False], [False, False], [False], ["x", "y", "z"], [False, "/abs", False], [False, False, "z"]]
        for d in [None, "x", "/abs", False] + [l for l in L if len(l) in (1, n)]:
            for i in (None, True, False):
                if i is True and d is None:
                    continue
                for m in modes[:3]:
                    kw = {}
                    if d is not None:
                        kw["install_dir"] = d
                    if i is not None:
                        kw["install"] = i
                    if m:
                        kw["install_mode"] = m
                    R.append(st_custom(n, {**kw, "build_by_default": True}, opt))
    return R


def norm(p):
    return posixpath.normpath(p) if p else ""


def expect(effs, prefix, dest):
    """the tree below dest (a path), as {absolute path: (type, mode, data)}; None where the description conflicts with itself"""
    T = {}

    def mkdirs(p):
        while p and p != "/" and p not in T:
            T[p] = ("d", None, None)
            p = posixpath.dirname(p)

    for kind, d, src, mode in effs:
        p = norm(dest.rstrip("/") + "/" + norm(J(prefix, d)).lstrip("/"))
        mkdirs(posixpath.dirname(p))
        if kind == "d":
            old = T.get(p)
            if old and old[0] != "d":
                return None
            T[p] = ("d", mode if mode is not None else (old[1] if old else None), None)
            continue
        if p in T and T[p][0] == "d":
            return None
        if kind == "l":
            T[p] = ("l", None, src.encode())
        elif kind == "c":
            T[p] = ("f", mode if mode is not None else 0o644, (src + "\n").encode())
        else:
            c, m = SRC[norm(src)]
            if isinstance(c, tuple):
                T[p] = ("l", None, c[1].encode())
            else:
                T[p] = ("f", mode if mode is not None else m & ~0o022, c.encode())
    for p in T:
        q = posixpath.dirname(p)
        while q != "/" and q in T:
            if T[q][0] != "d":
                return None
            q = posixpath.dirname(q)
    return T


def source_ops(top="src"):
    ops = []
    for p, (c, m) in SRC.items():
        ops.append(("l", f"{top}/{p}", c[1]) if isinstance(c, tuple) else ("w", f"{top}/{p}", c, m))
    return ops


def snapshot(tree, skip):
    return {p: (e.type, e.mode & 0o7777, e.data) for p, e in tree.items() if not any(p == s or p.startswith(s + "/") for s in skip)}


DESTS = {"abs": lambda c: (["-d", c.d + "/D"], {}, "D"), "rel": lambda c: (["-d", "../D"], {}, "D"), "env": lambda c: ([], {"DESTDIR": c.d + "/D"}, "D"),
         "envrel": lambda c: ([], {"DESTDIR": "../D/E"}, "D/E"), "both": lambda c: (["-d", c.d + "/D"], {"DESTDIR": c.d + "/N"}, "D"),
         "slash": lambda c: (["-d", c.d + "/D/"], {}, "D"), "none": lambda c: ([], {}, ""), "envempty": lambda c: ([], {"DESTDIR": ""}, "")}


def compare(got, want, scr, what):
    for p, (t, m, data) in want.items():
        g = got.get(p)
        if not g:
            return f"{what}: {p} is not installed"
        if g[0] != t:
            return f"{what}: {p} is a {g[0]}, expected a {t}"
        if t == "d":
            if m is not None and g[1] != m:
                return f"{what}: directory {p} has mode {g[1]:o}, expected {m:o}"
            continue
        if t == "f" and g[1] != m:
            return f"{what}: {p} has mode {g[1]:o}, expected {m:o}"
        if g[2] != data:
            return f"{what}: {p} holds {g[2]!r}, expected {data!r}"
    for p in got:
        if p not in want:
            return f"{what}: {p} appeared"
    return None


def run_plan(c, case):
    _, text, effs, prefix, optargs, dest, history = case
    scr = c.d
    argv, env, dd = DESTS[dest](c)
    if not dd:
        prefix = scr + "/P" + (prefix if prefix != "/" else "")
    root = dd if dd else ""
    absroot = scr + "/" + dd if dd else "/"
    effs = [tuple(e) for e in effs]
    want = expect(effs, prefix, absroot)
    if want is None:
        return None, "conflict"
    want = {p[len(scr) + 1:]: v for p, v in want.items() if p.startswith(scr + "/") and p != scr}
    ops = source_ops()
    ops.append(("w", "src/meson.build", "project('m')\n" + text + "\n"))
    ops.append(("r", ["-C", "src", "setup", "-Dprefix=" + prefix] + list(optargs) + ["../b"]))
    if "custom_target" in text:
        ops.append(("r", ["-C", "b", "samu"]))
    inst = ("r", ["-C", "b", "install"] + argv, ".", env)
    pre = []
    allow = {}
    if history == "again":
        pre = [inst]
    elif history == "dry":
        pre = [("r", ["-C", "b", "install", "-n"] + argv, ".", env)]
    elif history in ("old", "ro", "symlink", "old600"):
        for p, (t, m, data) in want.items():
            if t == "d":
                continue
            if history == "symlink":
                pre.append(("w", p + ".target", "precious"))
                pre.append(("l", p, posixpath.basename(p) + ".target"))
                allow[p + ".target"] = ("f", 0o644, b"precious")
            else:
                pre.append(("w", p, "old content, longer than the new one", {"old": 0o777, "ro": 0o444, "old600": 0o600}[history]))
        if not pre:
            return None, "no files"
    if history == "dirs":
        pre = [("d", p) for p, v in want.items() if v[0] == "d"]
    r = c.go(ops + pre + [("t", ".")] * (history == "dry") + [("t", "src"), ("t", "b"), inst, ("t", ".")])
    runs = [x for x in r if hasattr(x, "rc")]
    trees = [x for x in r if not hasattr(x, "rc")]
    if runs[0].rc:
        return f"setup fails: {runs[0].out[-300:]}", "setup"
    for x in runs[1:]:
        if x.rc:
            return f"{x.rc}: {x.out[-300:]}", "fail"
    if history == "dry":
        g = snapshot(trees[0], ["src", "b", "."])
        if g:
            return f"install -n creates {sorted(g)}", "dry"
    src0, b0, after = trees[-3:]
    got = snapshot(after, ["src", "b", ""])
    got.pop(".", None)
    w = dict(want)
    w.update(allow)
    e = compare(got, w, scr, history or "fresh")
    if e:
        return e, "bad"
    for name, t0 in (("src", src0), ("b", b0)):
        g = {p: v for p, v in snapshot(after, []).items() if (p + "/").startswith(name + "/")}
        t = snapshot(t0, [])
        if g != t:
            return f"installing changes {name}: {sorted(set(g.items()) ^ set(t.items()))[:4]}", "touch"
    return None, repr(sorted(got.items()))


BAD = [
    "install_data('nope')", "install_data('a', install_dir: false)", "install_data('a', rename: [])", "install_data('a', rename: ['x', 'y'])", "install_data(['a', 'd/b'], rename: 'x')",
    "install_data('a', rename: 'x', preserve_path: true)", "install_headers('a', install_dir: 'x', subdir: 'y')", "install_headers(files('a'), preserve_path: true)",
    "install_data(files('a'), preserve_path: true)", "install_man('a')", "install_man('x.sh')", "install_subdir('t')", "install_symlink('l')", "install_symlink('l', install_dir: 'x')",
    "install_symlink('l', pointing_to: 'x')", "install_emptydir(1)", "custom_target(output: 'o', command: ['true'], install: true)",
    "custom_target(output: ['o', 'p'], command: ['true'], install_dir: ['x', 'y', 'z'])", "custom_target(output: ['o', 'p', 'q'], command: ['true'], install_dir: ['x', 'y'])",
    "configure_file(input: 'a', output: 'o', copy: true, install: true)", "custom_target(output: 'o', command: ['true'], install_dir: true)",
    "install_data('a', install_mode: ['rw-r--r--', 'root', 'root', 'x'])", "install_data('d')",
] + [f"{f}, install_mode: '{m}')" for m in BADMODES for f in
     ("install_data('a'", "install_data('a', rename: 'b'", "install_headers('a'", "install_man('m.1'", "install_subdir('t', install_dir: 'x'", "install_emptydir('x'",
      "configure_file(input: 'a', output: 'o', copy: true, install_dir: 'x'", "custom_target(output: 'o', command: ['true'], install_dir: 'x'")]


def run_bad(c, case):
    ops = source_ops() + [("w", "src/meson.build", "project('m')\n" + case[1] + "\n"), ("r", ["-C", "src", "setup", "../b"])]
    r, = c.go(ops)
    if r.rc == 0:
        return f"setup accepts {case[1]}", "accepted"
    if r.rc < 0:
        return f"setup dies: {r.out[-300:]}", "died"
    return None, case[1]


def run_scope(c, case):
    """the same call in a subdirectory and in a subproject"""
    _, text, eff_sub, eff_proj = case
    body = text + "\n"
    ops = source_ops() + source_ops("src/subprojects/sp")
    ops += [("w", "src/meson.build", "project('m')\nsubdir('s')\nsubproject('sp')\n"), ("w", "src/s/meson.build", body),
            ("w", "src/subprojects/sp/meson.build", "project('spn')\n" + body),
            ("r", ["-C", "src", "setup", "-Dprefix=/pre", "../b"]), ("r", ["-C", "b", "install", "-d", c.d + "/D"]), ("t", "D")]
    r1, r2, t = c.go(ops)
    if r1.rc or r2.rc:
        return f"fails: {(r1.out + r2.out)[-300:]}", "fail"
    want = expect([tuple(e) for e in eff_sub + eff_proj], "/pre", "/")
    want = {"/D" + p.rstrip("/"): v for p, v in want.items()}
    got = snapshot(t, ["D"]) if not want else {p: v for p, v in snapshot(t, []).items() if p != "D"}
    return compare(got, {p.lstrip("/"): v for p, v in want.items()}, c.d, "scopes"), text


# what cannot be installed
FAIL = [
    ("source removed", "install_data('a', install_dir: 'x')", [("x", "src/a")]),
    ("destination directory is a file", "install_data('a', install_dir: 'x')", [("w", "D/pre/x", "f")]),
    ("destination is a directory", "install_data('a', install_dir: 'x')", [("d", "D/pre/x/a/sub")]),
    ("prefix not writable", "install_data('a', install_dir: 'x')", [("d", "D/pre"), ("c", "D/pre", 0o555)]),
    ("directory not writable", "install_data('a', install_dir: 'x')", [("d", "D/pre/x"), ("c", "D/pre/x", 0o555)]),
    ("source unreadable", "install_data('a', install_dir: 'x')", [("c", "src/a", 0)]),
    ("tree member unreadable", "install_subdir('t', install_dir: 'x')", [("c", "src/t/u/f", 0)]),
    ("tree directory unreadable", "install_subdir('t', install_dir: 'x')", [("c", "src/t/w", 0)]),
    ("symlink over a full directory", "install_symlink('l', install_dir: 'x', pointing_to: 'y')", [("d", "D/pre/x/l/sub")]),
    ("emptydir over a file", "install_emptydir('x')", [("w", "D/pre/x", "f")]),
    ("target not built", "custom_target(output: 'o', command: ['true'], install_dir: 'x')", []),
    ("script fails", "meson.add_install_script(find_program('sh'), '-c', 'exit 3')", []),
    ("script is killed", "meson.add_install_script(find_program('sh'), '-c', 'kill -9 $$')", []),
    ("script is gone", "meson.add_install_script('x.sh')", [("x", "src/x.sh")]),
]


def run_fail(c, case):
    """one thing cannot be done, at every position among others: install fails, and no script runs on an incomplete installation"""
    _, i, pos = case
    name, text, prep = FAIL[i]
    good = ["install_data('e', install_dir: 'g0')", "install_data('d/b', install_dir: 'g1')"]
    L = good[:]
    L.insert(pos, text)
    after = "meson.add_install_script(find_program('sh'), '-c', 'echo ran > ' + meson.current_build_dir() / 'ran')"
    ops = source_ops() + [("w", "src/meson.build", "project('m')\n" + "\n".join(L) + "\n" + after + "\n"), ("r", ["-C", "src", "setup", "-Dprefix=/pre", "../b"])] + prep
    ops += [("r", ["-C", "b", "install", "-d", c.d + "/D"]), ("f", "b/ran")]
    r1, r2, ran = c.go(ops)
    if r1.rc:
        return f"setup fails: {r1.out[-300:]}", "setup"
    if r2.rc == 0:
        return f"{name}: install reports success", "success"
    if r2.rc < 0:
        return f"{name}: install dies: {r2.out[-300:]}", "died"
    if ran is not None:
        return f"{name}: the install script runs after the failure", "ran"
    return None, (name, pos)


def run_script(c, case):
    """what install scripts see"""
    _, prefix, dest, dry, skip = case
    argv, env, dd = DESTS[dest](c)
    if not dd:
        prefix = c.d + "/P" + prefix
    kw = {None: "", True: ", dry_run: true", False: ", dry_run: false"}[skip]
    text = ("meson.add_install_script(find_program('sh'), '-c', 'printf \"%s|\" \"$MESON_INSTALL_PREFIX\" \"$MESON_INSTALL_DESTDIR_PREFIX\" \"${DESTDIR-unset}\" \"${MESON_INSTALL_DRY_RUN-unset}\" "
            "\"$MESON_SOURCE_ROOT\" \"$MESON_BUILD_ROOT\" \"$1\" >> ' + meson.current_build_dir() / 'ran', 'sh', 'arg'" + kw + ")\n"
            "meson.add_install_script(find_program('sh'), '-c', 'test -e \"$MESON_INSTALL_DESTDIR_PREFIX/x/a\" && echo -n second >> ' + meson.current_build_dir() / 'ran')\n"
            "install_data('a', install_dir: 'x')\n")
    ops = source_ops() + [("w", "src/meson.build", "project('m')\n" + text), ("r", ["-C", "src", "setup", "-Dprefix=" + prefix, "../b"]),
                          ("r", ["-C", "b", "install"] + (["-n"] if dry else []) + argv, ".", env), ("f", "b/ran")]
    r1, r2, out = c.go(ops)
    if r1.rc or r2.rc:
        return f"fails: {(r1.out + r2.out)[-300:]}", "fail"
    full = norm(c.d + "/" + dd + "/" + prefix) if dd else prefix
    ds = c.d + "/" + dd if dd else "unset"
    want = "|".join([prefix, full, ds, "1" if dry and skip else "unset", c.d + "/src", c.d + "/b", "arg"]) + "|second"
    got = (out or b"").decode()
    if dry:
        want = want[:-6] if skip else ""
    if dest == "slash":
        got = got.replace("/D/|", "/D|")
    if dest == "envrel":
        got, want = got.replace("/b/../D", "/D"), want
    if dest == "rel":
        got = got.replace("/b/../D", "/D")
    if dest == "envempty":
        got = got.replace("||", "|unset|")
    return (None if got == want else f"the script sees {got!r}, expected {want!r}"), (prefix, dest, dry, skip)


def run_default(c, case):
    """targets that are, or are not, built by default; some of them built"""
    _, kinds, built, deep = case
    lines, all_out = [], []
    for i, (kind, bbd) in enumerate(kinds):
        k = "" if bbd is None else f", build_by_default: {lit(bbd)}"
        if kind == "ct":
            lines.append(f"t{i} = custom_target('t{i}', output: 'o{i}', command: ['sh', '-c', 'echo {i} > $1', 'sh', '@OUTPUT@'], install_dir: 'x'{k})")
        elif kind == "ci":
            lines.append(f"t{i} = custom_target('t{i}', output: 'o{i}', command: ['sh', '-c', 'echo {i} > $1', 'sh', '@OUTPUT@'], install: true, install_dir: 'x'{k})")
        else:
            lines.append(f"t{i} = static_library('t{i}', 'e.c', install: true, install_dir: 'x', name_prefix: '', name_suffix: 'a'{k})")
        all_out.append(f"t{i}.a" if kind == "sl" else f"o{i}")
    dflt = [b is not False for _, b in kinds]
    lang = ", 'c'" if any(k == "sl" for k, _ in kinds) else ""
    ops = source_ops() + [("w", "src/e.c", "int f(void) { return 0; }\n"), ("w", "src/meson.build", f"project('m'{lang})\n" + "\n".join(lines) + "\n"), ("r", ["-C", "src", "setup", "-Dprefix=/pre", "../b"])]
    want = set()
    if built == "default":
        ops.append(("r", ["-C", "b", "samu"]))
        want = {o for o, d in zip(all_out, dflt) if d}
    else:
        ops.append(("r", ["-C", "b", "samu"] + [all_out[i] for i in built]))
        want = {all_out[i] for i in built}
    ops += [("r", ["-C", "b", "install", "-d", c.d + "/D"]), ("t", "D")]
    r1, r2, r3, t = c.go(ops)
    if r1.rc or r2.rc:
        return f"fails: {(r1.out + r2.out)[-300:]}", "fail"
    got = {p.rsplit("/", 1)[1] for p, e in t.items() if e.type == "f"}
    missing = [o for o, d in zip(all_out, dflt) if d and o not in want]
    if missing:
        return (None if r3.rc > 0 else f"install succeeds (status {r3.rc}) without {missing}"), "missing"
    if r3.rc:
        return f"install fails: {r3.out[-300:]}", "fail"
    return (None if got == want else f"installs {sorted(got)}, expected {sorted(want)}"), (kinds, built)


def cases(deep):
    opt = Opt()
    kinds = [(k, b) for k in ("ct", "ci", "sl") for b in (None, True, False)]
    for ks in [(k,) for k in kinds] + [(a, b) for a in kinds for b in kinds if deep or "sl" not in (a[0], b[0])]:
        for built in ["default"] + [s for n in range(1, len(ks) + 1) for s in itertools.combinations(range(len(ks)), n)]:
            yield ("default", ks, built, deep)
    S = statements(opt, deep)
    for i in range(len(FAIL)):
        for pos in (0, 1, 2):
            yield ("fail", i, pos)
    for b in BAD:
        yield ("bad", b)
    for p in ("/pre", "/", "/usr"):
        for d in DESTS:
            if p == "/" and d in ("none", "envempty"):
                continue
            for dry in (False, True):
                for skip in (None, True, False):
                    yield ("script", p, d, dry, skip)
    for text, eff in S:
        yield ("plan", text, eff, "/pre", [], "abs", "")
    for text, eff in S if deep else S[::1]:
        for h in ("again", "old", "ro", "symlink", "dirs", "dry", "old600"):
            if not deep and ("exclude" in text or "preserve_path: false" in text or ("install_dir" in text and "install_dir: 'x'" not in text)):
                continue
            if "exclude" in text and h not in ("again", "ro"):
                continue
            yield ("plan", text, eff, "/pre", [], "rel", h)
    ALL = [st_data(["a", "d/b"], {}, opt), st_data(["a"], {"install_dir": "x"}, opt), st_headers(["a"], {"subdir": "q"}, opt), st_man(["m.1", "m.2"], {}, opt),
           st_man(["m.fr.1"], {"locale": "fr"}, opt), st_subdir("t", {"install_dir": "/abs/x"}, opt), st_symlink("s", {"install_dir": "x", "pointing_to": "a"}, opt),
           st_emptydir(["e1"], {}, opt), st_conf({"install_dir": "/cf"}, opt), st_custom(2, {"install_dir": ["u", "/v"], "build_by_default": True}, opt)]
    # every prefix x destdir x directory options
    for prefix in ("/", "/pre", "/pre/fix", "/pre//x/", "/usr/local"):
        for dest in DESTS:
            for dirs in ({}, {"datadir": "dd", "mandir": "mm/nn"}, {"datadir": "/ad", "includedir": "/ai", "mandir": "/am"}, {"includedir": "in/cl"}):
                if dest in ("none", "envempty") and (prefix in ("/", "/pre//x/") or any(v[0] == "/" for v in dirs.values())):
                    continue
                o = Opt(dirs=dirs)
                A = [st_data(["a", "d/b"], {}, o), st_headers(["a"], {"subdir": "q"}, o), st_man(["m.1", "m.2"], {}, o), st_man(["m.fr.1"], {"locale": "fr"}, o),
                     st_subdir("t", {"install_dir": "sd"}, o), st_symlink("s", {"install_dir": "x", "pointing_to": "a"}, o), st_emptydir(["e1"], {}, o),
                     st_conf({"install_dir": "cf"}, o), st_custom(2, {"install_dir": ["u", "v"], "build_by_default": True}, o)]
                args = [f"-D{k}={v}" for k, v in dirs.items()]
                for t, e in A:
                    yield ("plan", t, e, prefix, args, dest, "")
    # every ordered pair (and thorough: triple) of one call of each kind
    for n in (2, 3) if deep else (2,):
        for comb in itertools.product(ALL, repeat=n):
            if sum(t.startswith("custom") for t, _ in comb) > 1 or sum(t.startswith("configure") for t, _ in comb) > 1:
                continue
            yield ("plan", "\n".join(t for t, _ in comb), sum((e for _, e in comb), []), "/pre", [], "abs", "again" if n == 2 else "")
    # scopes
    for (t1, e1), (t2, e2) in [(st_data(["a"], {}, opt, "s", "m"), st_data(["a"], {}, opt, "", "spn")), (st_data(["!a"], {}, opt, "s", "m"), st_data(["!a"], {}, opt, "", "spn")),
                               (st_subdir("t", {"install_dir": "x", "strip_directory": False}, opt, "s"), ("", []))]:
        if not e2:
            continue
        yield ("scope", t1, e1, e2)


RUN = {"plan": run_plan, "bad": run_bad, "scope": run_scope, "fail": run_fail, "script": run_script, "default": run_default}


def one(c, case):
    return RUN[case[0]](c, case)


def main():
    ck = mv.Check("I01", "exploration")
    clicheck.run(ck, list(cases(ck.thorough)), one, chunk=20)
    ck.add(exhaustive=True, rule="every keyword combination of every installing function over a fixed source tree; every prefix x DESTDIR form x directory options; every earlier state of the "
           "destination (absent, same, longer, read-only, symlink, dry run); every ordered pair (thorough: triple) of calls; every failing item at every position; whole trees compared")
    ck.sample("install_subdir('t/u/v', install_dir: 'x', exclude_files: ['f'])")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
