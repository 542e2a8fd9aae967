#!/usr/bin/env python3
"""P01: a pkg-config file that muon generates says what the project asked for, and a consumer that follows it builds and
runs."""
import itertools
import re
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import clicheck
import mv

FN = {"st": "static_library", "sh": "shared_library", "bo": "both_libraries"}


def q(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'") + "'"


def lit(v):
    if isinstance(v, bool):
        return str(v).lower()
    if isinstance(v, str):
        return q(v)
    if isinstance(v, dict):
        return "{" + ", ".join(f"{q(k)}: {q(x)}" for k, x in v.items()) + "}"
    if isinstance(v, tuple):
        return v[0]     # an expression
    return "[" + ", ".join(lit(x) for x in v) + "]"


# ---- what a file says
class Pc:
    def __init__(self, text):
        self.vars, self.keys, self.err = {}, {}, None
        for l in text.split("\n"):
            if not l.strip():
                continue
            m = re.match(r"([A-Za-z0-9_.]+)=(.*)", l)
            k = re.match(r"([A-Z][A-Za-z.]*):(.*)", l)
            if m:
                if m[1] in self.vars:
                    self.err = f"the variable {m[1]} is defined twice"
                for r in re.findall(r"\$\{(.*?)\}", m[2]):
                    if r not in self.vars:
                        self.err = f"the variable {m[1]} uses {r} before its definition"
                self.vars[m[1]] = m[2]
            elif k:
                if k[1] in self.keys:
                    self.err = f"the field {k[1]} appears twice"
                self.keys[k[1]] = k[2].strip()
            else:
                self.err = f"the line {l!r} is no field and no variable"

    def expand(self, s, depth=0):
        if depth > 20:
            return s
        return re.sub(r"\$\{(.*?)\}", lambda m: self.expand(self.vars.get(m[1], "<UNDEFINED>"), depth + 1), s)

    def words(self, k):
        """the arguments in a field, split as pkg-config splits them"""
        return words(self.expand(self.keys.get(k, "")))


def words(s):
    out, cur, on, i = [], "", False, 0
    while i < len(s):
        ch = s[i]
        if ch == "\\" and i + 1 < len(s):
            cur += s[i + 1]
            on = True
            i += 1
        elif ch == " ":
            if on:
                out.append(cur)
            cur, on = "", False
        else:
            cur += ch
            on = True
        i += 1
    return out + ([cur] if on else [])


def join(p, d):
    return d if d.startswith("/") else p + "/" + d


# ---- contents: generate() without libraries of the project
VALUES = {
    "description": ["some text", "with = and : in it"],
    "version": ["1.2.3", "0"],
    "url": ["http://x.y/z?a=b"],
    "subdirs": [".", "a b", ["a", "b/c"]],
    "extra_cflags": ["-DX", ["-DA=a b", "-Wall"], ["-DX", "-DX"]],
    "requires": ["dep", ["a >= 1.2", "b"], ["a", "b = 3"]],
    "requires_private": ["pdep", ["pa < 2", "pb"]],
    "conflicts": ["old < 1", ["x", "y != 2"]],
    "filebase": ["base", "Base-1.0"],
    "install_dir": ["some/where", "/abs/where"],
    "dataonly": [True, False],
    "variables": ["foo=bar", ["foo=a b", "data=${prefix}/data"], {"foo": "x=y", "b": "${foo}/z"}, ["q=${bindir}/q", "r=${datadir}/r"], {"l": "${libdir}/x"}, ["lib_x=1", "a_b-c=d"]],
    "unescaped_variables": ["bar=b c", ["u=${sysconfdir}/u v"], {"ud": "x  y"}],
    "libraries": ["-lm", ["-L/some/dir", "-lfoo", "-pthread"], ["-Wl,-z,a b"]],
    "libraries_private": ["-ldl", ["-L/p", "-lp"]],
}
VALUES["variables"].pop()    # names with other characters are not asked for
DIRS = {"prefix": "/usr/local", "bindir": "bin", "datadir": "share", "includedir": "include", "libdir": "lib", "sysconfdir": "etc"}


def as_list(v):
    return [] if v is None else v if isinstance(v, list) else [v]


def variables(v):
    if isinstance(v, dict):
        return list(v.items())
    return [tuple(x.split("=", 1)) for x in as_list(v)]


def expect_contents(pc, name, kw, dirs, pversion):
    def get(k):
        return kw.get(k)
    if pc.err:
        return pc.err
    full = {k: join(dirs["prefix"], v) for k, v in dirs.items()}
    k = pc.keys
    data = get("dataonly") is True
    for field, want in (("Name", name), ("Description", get("description") or ""), ("Version", get("version") or pversion), ("URL", get("url"))):
        if k.get(field) != want:
            return f"{field} is {k.get(field)!r}, expected {want!r}"
    for field, key in (("Requires", "requires"), ("Requires.private", "requires_private"), ("Conflicts", "conflicts")):
        got = [x.strip() for x in k.get(field, "").split(",") if x.strip()]
        if got != as_list(get(key)):
            return f"{field} is {k.get(field)!r}, expected {as_list(get(key))}"
    inc = [full["includedir"] if s == "." else full["includedir"] + "/" + s for s in as_list(get("subdirs"))] if get("subdirs") else [full["includedir"]]
    want = [] if data else ["-I" + i for i in inc] + as_list(get("extra_cflags"))
    got = [re.sub(r"/\.?$", "", w) if w.startswith("-I") else w for w in pc.words("Cflags")]
    if got != want:
        return f"Cflags gives {got}, expected {want}"
    for field, key in (("Libs", "libraries"), ("Libs.private", "libraries_private")):
        want = as_list(get(key))
        if pc.words(field) != want:
            return f"{field} gives {pc.words(field)}, expected {want}"
    wantvars = {}
    for esc, key in ((True, "variables"), (False, "unescaped_variables")):
        for n, v in variables(get(key)):
            wantvars[n] = v.replace(" ", "\\ ") if esc else v
    for n, v in wantvars.items():
        if pc.vars.get(n) != v:
            return f"the variable {n} is {pc.vars.get(n)!r}, expected {v!r}"
        e = pc.expand(v)
        if "<UNDEFINED>" in e:
            return f"the variable {n} uses something undefined: {e!r}"
    for n, v in pc.vars.items():
        if n in wantvars:
            continue
        if n not in full:
            return f"there is a variable {n}"
        if pc.expand(v).replace("\\ ", " ") != full[n]:
            return f"the variable {n} is {pc.expand(v)!r}, expected {full[n]!r}"
    if not data:
        for n in ("prefix", "includedir"):
            if n not in pc.vars:
                return f"the variable {n} is missing"
    extra = set(k) - {"Name", "Description", "Version", "URL", "Requires", "Requires.private", "Conflicts", "Libs", "Libs.private", "Cflags"}
    if extra:
        return f"there are the fields {extra}"
    return None


def run_contents(c, case):
    """one project with many files"""
    _, dirs, pversion, sets = case
    dirs = {**DIRS, **dict(dirs)}
    args = [f"-D{k}={v}" for k, v in dirs.items()]
    text = "project('p'" + (f", version: {q(pversion)}" if pversion else "") + ")\npkg = import('pkgconfig')\n"
    files = []
    for i, kw in enumerate(sets):
        kw = {k: (f"{v}{i}" if k == "filebase" else v) for k, v in kw}
        files.append((f"n{i}", kw))
        text += f"pkg.generate(name: 'n{i}'" + "".join(f", {k}: {lit(v)}" for k, v in kw.items()) + ")\n"
    s, ins, t = c.go([("w", "s/meson.build", text), ("r", ["-C", "s", "setup"] + args + ["../b"]), ("r", ["-C", "b", "install"], None, {"DESTDIR": c.d + "/i"}), ("t", "i")])
    if s.rc or ins.rc:
        return ("setup" if s.rc else "install") + " fails: " + (s.out if s.rc else ins.out)[-300:], "fails"
    got = {p[1:]: e for p, e in t.items() if e.type != "d"}
    for name, kw in files:
        inst = kw.get("install_dir") or (dirs["datadir"] if kw.get("dataonly") is True else dirs["libdir"]) + "/pkgconfig"
        p = join(dirs["prefix"], inst) + "/" + kw.get("filebase", name) + ".pc"
        e = got.pop(p, None)
        desc = "generate(" + ", ".join(f"{k}: {lit(v)}" for k, v in kw.items()) + ")"
        if e is None:
            return f"{desc}: {p} is not installed", "file"
        bad = expect_contents(Pc(e.data.decode()), name, kw, dirs, pversion or "undefined")
        if bad:
            return f"{desc}: {bad}", "contents"
    if got:
        return f"also installs {sorted(got)[:5]}", "more"
    return None, ("contents", len(files), len(dirs))


def norm(case):
    return case


# ---- graphs: a consumer of the installed libraries
def use(kw, lib, way):
    kw.setdefault({"with": "link_with", "whole": "link_whole"}.get(way, "dependencies"), []).append(
        {"with": lib, "whole": lib, "dep": f"declare_dependency(link_with: {lib}, compile_args: '-DD_{lib}=1')", "depw": f"declare_dependency(link_whole: {lib})",
         "depdep": f"declare_dependency(dependencies: declare_dependency(link_with: {lib}))"}[way])


def graph(i, g):
    """-> meson text, sources, the .pc name, what the program prints"""
    a, b, l, form, bpc = g
    # a, b: (kind, installed, way) or None; l: kind
    text, src = "", []
    libs = {}
    for n, x, deps in (("b", b, []), ("a", a, ["b"]), ("l", (l, True, None), ["a"] if a else ["b"])):
        if x is None:
            continue
        kind, inst, _ = x
        kw = {}
        calls = [d for d in deps if d in libs]
        for d in calls:
            use(kw, f"{d}{i}", libs[d][2])
        libs[n] = x
        text += f"{n}{i} = {FN[kind]}('{n}{i}', '{n}{i}.c'{', install: true' if inst else ''}" + "".join(f", {k}: [{', '.join(v)}]" for k, v in kw.items()) + ")\n"
        val = {"b": 100, "a": 10, "l": 1}[n]
        src.append((f"{n}{i}.c", "".join(f"int {d}{i}(void);\n" for d in calls) + f"int {n}{i}(void) {{ return {val}" + "".join(f" + {d}{i}()" for d in calls) + "; }\n"))
        if n == "b" and bpc:
            text += f"pkg.generate(b{i}, description: 'b')\n"
        if n == "a" and bpc == "a":
            text += f"pkg.generate(a{i}, description: 'a')\n"
    head = {"main": f"l{i}", "list": f"libraries: l{i}", "both": f"l{i}, libraries: {'a' if a else 'b'}{i}", "dep": f"libraries: declare_dependency(link_with: l{i})"}[form]
    text += f"pkg.generate({head}, name: 'P{i}', filebase: 'P{i}', description: 'd', subdirs: 'inc{i}', extra_cflags: '-DEXTRA={i}')\n"
    text += f"install_headers('h{i}.h', subdir: 'inc{i}')\n"
    src.append((f"h{i}.h", f"int l{i}(void);\n"))
    return text, src, 1 + (10 if a else 0) + (100 if b else 0)


def self_contained(g):
    """no installed library is left without code that only an uninstalled library of the project has"""
    a, b, l, form, bpc = g
    chain = [x for x in ((l, True, None), a, b) if x]
    for k, x in enumerate(chain):
        if k and x[0] in ("sh",) and not x[1]:
            return False        # a shared library that is not installed
        if k and x[0] == "bo" and not x[1]:
            return False
    return True


def merges(g):
    """an installed static library uses an uninstalled static one"""
    chain = [x for x in ((g[2], True, None), g[0], g[1]) if x]
    static_inst = False
    for x in chain:
        if x[0] == "st" and not x[1]:
            if static_inst:
                return True
        else:
            static_inst = x[0] in ("st", "bo")
    return False


def run_graphs(c, case):
    _, libdir, graphs = case
    text = "project('p', 'c', version: '1')\npkg = import('pkgconfig')\n"
    ops, want, script = [], {}, ""
    for i, g in enumerate(graphs):
        t, src, v = graph(i, g)
        text += t
        ops += [("w", "s/" + n, s) for n, s in src]
        ops.append(("w", f"c/m{i}.c", f'#include <h{i}.h>\n#include <stdio.h>\n#if EXTRA != {i}\n#error\n#endif\nint main(void) {{ printf("%d\\n", l{i}()); return 0; }}\n'))
        static = all(x in ("st", "bo") for x in [g[2]] + [y[0] for y in g[:2] if y])
        for mode in ["", "--static"] + (["-static"] if static else []):
            pk = "--static" if mode else ""
            script += f"F=$(pkg-config --cflags --libs {pk} P{i}) && gcc -o c/x{i}{mode} c/m{i}.c $F {'-static' if mode == '-static' else ''} && echo 'R {i} {mode}' $(./c/x{i}{mode})\n"
            want[f"{i} {mode}".strip()] = str(v)
    I = c.d + "/i"
    env = {"PKG_CONFIG_PATH": f"{I}/{libdir}/pkgconfig", "LD_LIBRARY_PATH": f"{I}/{libdir}"}
    ops += [("w", "s/meson.build", text), ("w", "c/run.sh", script), ("r", ["-C", "s", "setup", f"-Dprefix={I}", f"-Dlibdir={libdir}", "../b"]), ("r", ["-C", "b", "samu"], None, None, 120),
            ("r", ["-C", "b", "install"], None, {}), ("e", ["sh", "c/run.sh"], None, env, 120), ("e", ["sh", "-c", f"head -50 i/{libdir}/pkgconfig/*.pc"])]
    s, b, ins, run, show = c.go(ops)
    for n, r in (("setup", s), ("the build", b), ("the installation", ins)):
        if r.rc:
            return f"{n} fails: " + r.out[-400:], "fails"
    got = dict(re.findall(r"^R (\d+(?: -?-static)?) +(\d+)$", run.out, re.M))
    for k, v in want.items():
        if got.get(k) != v:
            g = graphs[int(k.split()[0])]
            err = run.out
            return f"a consumer of {g} ({k.partition(' ')[2] or 'shared'}) gets {got.get(k)}, expected {v}: {err[-300:]}", "consumer"
    return None, ("graphs", len(graphs), tuple(sorted(want.values())))


KNOWN = [(None, ("st", False, w), "st", form, False) for w in ("with", "whole", "dep") for form in ("main", "list")]


def all_graphs(deep):
    A = [(k, i, w) for k in ("st", "sh", "bo") for i in (True, False) for w in ("with", "whole", "dep", "depw", "depdep") if not (w in ("whole", "depw") and k == "sh")]
    few = [x for x in A if x[2] in ("with", "whole", "dep") and x[0] != "bo"]
    for l in ("st", "sh", "bo"):
        for form in ("main", "list", "both", "dep"):
            for a in [None] + A:
                for b in A if deep or a is None else few:
                    for bpc in (False, "b", "a"):
                        if bpc and not b[1] or bpc == "a" and (a is None or not a[1]):
                            continue
                        if form == "both" and not (a or b)[1]:
                            continue
                        if not deep and a is not None and (form in ("list", "dep") or a[2] in ("depw", "depdep") or bpc == "a") and (b[2] != "with" or l == "bo"):
                            continue
                        g = (a, b, l, form, bpc)
                        if self_contained(g) and not merges(g):
                            yield g


def cases(deep):
    K = list(VALUES)
    sets = []
    for n in range(0, 4 if deep else 3):
        for ks in itertools.combinations(K, n):
            for vs in itertools.product(*[VALUES[k] for k in ks]):
                sets.append(tuple(zip(ks, vs)))
    order = sets + sets[::-1]
    for part in mv.chunked(order, 60):
        yield ("contents", (), "0.9", list(part))
    ones = [s for s in sets if len(s) <= 1]
    for dirs in ([("prefix", "/usr")], [("prefix", "/opt/a b")], [("libdir", "lib/x86")], [("libdir", "/abs/lib")], [("includedir", "/abs/inc"), ("datadir", "/abs/data")], [("bindir", "/usr/local/sbin")],
                 [("prefix", "/"), ("libdir", "lib")], [("prefix", "/usr"), ("libdir", "/usr/lib64"), ("includedir", "/usr/include/x")], [("sysconfdir", "/etc")]):
        if dirs[0] == ("prefix", "/"):
            continue
        for ver in (None, "3"):
            yield ("contents", tuple(dirs), ver, ones)
    gs = list(all_graphs(deep))
    for libdir in ("lib",):
        for part in mv.chunked(gs, 8):
            yield ("graphs", libdir, list(part))
    for part in mv.chunked([g for g in gs if g[0] is None], 8):
        yield ("graphs", "lib/sub dir".replace(" ", "-"), list(part))
    for g in KNOWN:
        yield ("graphs", "lib", [g])


def one(c, case):
    return {"contents": run_contents, "graphs": run_graphs}[case[0]](c, case)


def main():
    ck = mv.Check("P01", "exploration")
    cs = list(cases(ck.thorough))
    ck.add(files=sum(len(x[3]) for x in cs if x[0] == "contents"), graphs=sum(len(x[2]) for x in cs if x[0] == "graphs"))
    clicheck.run(ck, cs, one, chunk=1, keyfn=lambda w, x: f"merge: {x[2][0]}" if x[0] == "graphs" and x[2][0] in KNOWN else w)
    ck.add(exhaustive=True, rule="every combination of up to two (thorough: three) keywords of generate() with every value from the lists, in both orders within one project, and every single one under "
           "nine layouts of directories; every graph of up to three libraries (kind x installed x how it is used x how generate() names it x which have files of their own), installed and consumed through "
           "the real pkg-config and gcc, dynamically, with --static and fully static")
    ck.sample("pkg.generate(l, libraries: a): static l using installed shared a using uninstalled static b")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
