#!/usr/bin/env python3
"""C12: the options that choose how code is compiled (build type, warnings, language standard, sanitizers, ...) reach every compile
and link command of every target with the value they have there."""
import itertools
import shlex
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import clicheck
import mv


def commands(text):
    """{output: argv} of a list of commands, one per line"""
    res = {}
    for line in text.splitlines():
        try:
            a = shlex.split(line)
        except ValueError:
            continue
        if "-o" in a:
            res[a[a.index("-o") + 1]] = a
    return res

BT = [None, "plain", "debug", "debugoptimized", "release", "minsize", "custom"]
OPT = [None, "plain", "0", "g", "1", "2", "3", "s"]
DBG = [None, "true", "false"]
TABLE = {"plain": ({None}, False), "debug": ({"0"}, True), "debugoptimized": ({"g", "2"}, True), "release": ({"3"}, False), "minsize": ({"s"}, None)}
WL = [None, "0", "1", "2", "3", "everything"]
CSTD = ["none", "c89", "c99", "c11", "c17", "c18", "c2x", "gnu89", "gnu99", "gnu11", "gnu17", "gnu18", "gnu2x"]
CPPSTD = ["none", "c++98", "c++03", "c++11", "c++14", "c++17", "c++20", "c++2a", "c++1z", "gnu++03", "gnu++11", "gnu++14", "gnu++17"]
WSETS = {"0": set(), "1": {"-Wall"}, "2": {"-Wall", "-Wextra"}, "3": {"-Wall", "-Wextra", "-Wpedantic"}}
DEFAULT = {"buildtype": None, "optimization": None, "debug": None, "warning_level": "3", "werror": "false", "c_std": "none", "cpp_std": "none", "b_ndebug": "false",
           "b_sanitize": "none", "b_pgo": "off", "b_lto": "false", "b_colorout": "always", "b_staticpic": "true", "b_pie": "false"}


def opts(d):
    return [f"{k}={v}" for k, v in d.items() if v is not None]


def q(items):
    return "[" + ", ".join(f"'{x}'" for x in items) + "]"


def last(argv, pre, known=None):
    r = [a[len(pre):] for a in argv if a.startswith(pre) and (known is None or a[len(pre):] in known)]
    return r[-1] if r else None


# ---- reference: what the layers of options (lowest first) ask for
def value(layers, name):
    """(value, rank)"""
    for i in range(len(layers) - 1, -1, -1):
        if layers[i].get(name) is not None:
            return layers[i][name], i + 1
    return DEFAULT[name], 0


def want_opt(layers):
    """the acceptable (optimization, debug) values, each a set"""
    bt, rb = value(layers, "buildtype")
    o, ro = value(layers, "optimization")
    d, rd = value(layers, "debug")
    so = {"g", "2"} if o is None else {None} if o == "plain" else {o}
    sd = {True} if d is None else {d == "true"}
    if rb and bt != "custom":
        to, td = TABLE[bt]
        td = {True, False} if td is None else {td}
        # the later layer decides; both in one layer is ambiguous
        so = to if ro < rb else so if ro > rb else so | to
        sd = td if rd < rb else sd if rd > rb else sd | td
    return so, sd


def judge(argv, layers, lang, link=False, extra=None):
    """what is wrong with a command, or None"""
    def v(n):
        return value(layers, n)[0]
    if not link:
        so, sd = want_opt(layers)
        o = last(argv, "-O")
        if o not in so:
            return f"optimization is {o} instead of {sorted(map(str, so))}"
        g = [a for a in argv if a.startswith("-g") and a in ("-g", "-g0", "-g1", "-g2", "-g3", "-ggdb")]
        dbg = bool(g) and g[-1] != "-g0"
        if dbg not in sd:
            return f"debug information: {dbg}"
        wl = v("warning_level")
        got = {a for a in argv if a.startswith("-W") and a != "-Werror"}
        if wl == "everything":
            if len(got) < 10 or not got >= WSETS["3"]:
                return f"warning_level=everything gives {sorted(got)}"
        elif got != WSETS[wl]:
            return f"warning_level={wl} gives {sorted(got)}"
        if ("-Werror" in argv) != (v("werror") == "true"):
            return f"werror={v('werror')} but -Werror is {'there' if '-Werror' in argv else 'missing'}"
        std = v(lang + "_std")
        s = last(argv, "-std=")
        if (s or "none") != std:
            return f"{lang}_std={std} gives {s}"
        nd = v("b_ndebug")
        bt = v("buildtype")
        w = {nd == "true"} if nd != "if-release" else {True} if bt == "release" else {True, False} if bt in ("plain", "custom", None) else {False}
        ndebug = "-DNDEBUG" in argv or ("-D", "NDEBUG") in zip(argv, argv[1:])
        if ndebug not in w:
            return f"b_ndebug={nd} with buildtype={bt}: NDEBUG is {'defined' if ndebug else 'not defined'}"
        co = v("b_colorout")
        c = last(argv, "-fdiagnostics-color=")
        if c != co and not (c is None and co in ("never", "auto")):
            return f"b_colorout={co} gives {c}"
    sa = v("b_sanitize")
    s = last(argv, "-fsanitize=")
    if (s or "none") != sa:
        return f"b_sanitize={sa} gives {s}"
    pg = v("b_pgo")
    p = {a for a in argv if a.startswith("-fprofile")}
    if ("-fprofile-generate" in p) != (pg == "generate") or ("-fprofile-use" in p) != (pg == "use"):
        return f"b_pgo={pg} gives {sorted(p)}"
    if ("-flto" in argv) != (v("b_lto") == "true"):
        return f"b_lto={v('b_lto')}: -flto is {'there' if '-flto' in argv else 'missing'}"
    return None


# ---- projects: a list of targets, each with its own override options, in the main project and in a subproject
# kinds: e: executable, s: static library, h: shared library, m: shared module
FN = {"e": "executable", "s": "static_library", "h": "shared_library", "m": "shared_module", "b": "both_libraries"}


def project(targets, sub=False):
    out = []
    for i, (kind, lang, ov, kw) in enumerate(targets):
        out.append(f"{FN[kind]}('{'s' if sub else 't'}{i}', '{'f.c' if lang == 'c' else 'f.cpp'}', override_options: {q(opts(ov))}{kw})")
    return out


def index(cmds):
    comp, link = {}, {}
    for out, argv in cmds.items():
        base = out.split("/")
        if "-c" in argv:
            p = base[-2].split(".")
            comp.setdefault(p[0], []).append((".".join(p), argv))
        else:
            link.setdefault(base[-1].split(".")[0], []).append(argv)
    return comp, link


def build(c, cmdline, main, sub, targets, stargets):
    mb = [f"project('x', 'c', 'cpp', default_options: {q(opts(main))})"] + project(targets)
    ops = [("w", "src/f.c", ""), ("w", "src/f.cpp", "")]
    if stargets:
        sd, sk = sub
        mb.append(f"subproject('s', default_options: {q(opts(sk))})")
        ops += [("w", "src/subprojects/s/f.c", ""), ("w", "src/subprojects/s/f.cpp", ""),
                ("w", "src/subprojects/s/meson.build", "\n".join([f"project('s', 'c', 'cpp', default_options: {q(opts(sd))})"] + project(stargets, True)) + "\n")]
    ops += [("w", "src/meson.build", "\n".join(mb) + "\n"),
            ("r", ["-C", "src", "setup"] + ["-D" + x for x in cmdline] + ["../b"]), ("r", ["-C", "b", "samu", "-t", "commands"])]
    s, cm = c.go(ops)
    if s.rc or cm.rc:
        return "fails: " + (s.out + cm.out)[-500:], None
    return None, index(commands(cm.out))


def look(comp, link, name, layers, lang, kind, about):
    cs = comp.get(name, []) + comp.get("lib" + name, [])
    if len(cs) < 1:
        return f"{about}: no command compiles {name}"
    for _, argv in cs:
        w = judge(argv, layers, lang)
        if w:
            return f"{about}: {w}"
    if kind != "s":
        ls = link.get(name, []) + link.get("lib" + name, [])
        if not ls:
            return f"{about}: no command links {name}"
        for argv in ls:
            w = judge(argv, layers, lang, True)
            if w:
                return f"{about}: when linking, {w}"
    return None


def run_layers(c, case):
    """options from the command line and default_options, every override of the list in targets"""
    _, cmd, main, ovs, kinds = case
    targets = [(k, l, ov, "") for ov in ovs for k, l in kinds]
    what, ix = build(c, opts(cmd), main, ({}, {}), targets, [])
    here = f"command line {opts(cmd)}, default_options {opts(main)}"
    if what:
        return f"{here}: {what}", "fails"
    for i, (k, l, ov, _) in enumerate(targets):
        w = look(*ix, f"t{i}", [main, cmd, ov], l, k, f"{here}, override_options {opts(ov)} of a {FN[k]} ({l})")
        if w:
            return w, "wrong"
    return None, (str(cmd), str(main))


PER = ("warning_level", "werror", "c_std", "cpp_std")


def run_sub(c, case):
    """a subproject has its own warning level, werror and standards, and shares the rest"""
    _, cmd, scmd, main, sd, sk, ov = case
    kinds = [("e", "c"), ("e", "cpp"), ("s", "c"), ("h", "cpp")]
    t = [(k, l, o, "") for o in ({}, ov) for k, l in kinds]
    what, ix = build(c, opts(cmd) + ["s:" + x for x in opts(scmd)], main, (sd, sk), t, t)
    here = f"-D {opts(cmd)}, -Ds: {opts(scmd)}, default_options {opts(main)}, subproject's {opts(sd)}, subproject() {opts(sk)}"
    if what:
        return f"{here}: {what}", "fails"
    for i, (k, l, o, _) in enumerate(t):
        w = look(*ix, f"t{i}", [main, cmd, o], l, k, f"{here}, override_options {opts(o)} of a {FN[k]} ({l})")
        if w:
            return w, "wrong"
        # those of the main project are the subproject's where it has none of its own
        w = look(*ix, f"s{i}", [main, cmd, sd, sk, scmd, o], l, k, f"{here}, override_options {opts(o)} of a {FN[k]} ({l}) of the subproject")
        if w:
            return w, "wrong"
    return None, str(case)


VIS = [None, "", "default", "internal", "hidden", "protected", "inlineshidden"]


def run_pic(c, case):
    _, cmd, main = case
    t = []
    for ov in ({}, {"b_staticpic": "true"}, {"b_staticpic": "false"}, {"b_pie": "true"}, {"b_pie": "false"}):
        for kind in "eshm":
            for pic in (None, "true", "false"):
                for pie in (None, "true", "false"):
                    if pic == "false" and kind in "hm" or pie is not None and kind != "e":
                        continue
                    for vis in VIS if not ov else (None, "hidden"):
                        kw = (f", pic: {pic}" if pic else "") + (f", pie: {pie}" if pie else "") + (f", gnu_symbol_visibility: '{vis}'" if vis is not None else "")
                        if kind == "e" and pic:
                            continue
                        t.append((kind, "cpp" if vis == "inlineshidden" else "c", ov, kw, pic, pie, vis))
    what, ix = build(c, opts(cmd), main, ({}, {}), [x[:4] for x in t], [])
    here = f"command line {opts(cmd)}, default_options {opts(main)}"
    if what:
        return f"{here}: {what}", "fails"
    comp = ix[0]
    for i, (kind, l, ov, kw, pic, pie, vis) in enumerate(t):
        argv = (comp.get(f"t{i}", []) + comp.get(f"libt{i}", []))[0][1]
        ly = [main, cmd, ov]
        wpic = kind in "hm" or (pic == "true" if pic else kind == "s" and value(ly, "b_staticpic")[0] == "true")
        wpie = kind == "e" and (pie == "true" if pie else value(ly, "b_pie")[0] == "true")
        gpic = any(a in ("-fpic", "-fPIC") for a in argv)
        gpie = any(a in ("-fpie", "-fPIE") for a in argv)
        v = {a for a in argv if a.startswith("-fvisibility")}
        wv = set() if not vis else {"-fvisibility=hidden", "-fvisibility-inlines-hidden"} if vis == "inlineshidden" else {"-fvisibility=" + vis}
        w = None
        if gpic != wpic:
            w = f"compiled {'with' if gpic else 'without'} -fpic"
        elif gpie != wpie:
            w = f"compiled {'with' if gpie else 'without'} -fpie"
        elif v != wv:
            w = f"visibility is {sorted(v)}"
        if w:
            return f"{here}, override_options {opts(ov)} of a {FN[kind]}{kw}: {w}", "wrong"
    return None, str(case)


def run_effect(c, case):
    """what the program itself sees"""
    _, d, how = case
    src = """#include <stdio.h>
int main(void) {
	long std = 0; int opt = 0, size = 0, nd = 0, asan = 0;
#ifdef __STDC_VERSION__
	std = __STDC_VERSION__;
#endif
#ifdef __cplusplus
	std = __cplusplus;
#endif
#ifdef __OPTIMIZE__
	opt = 1;
#endif
#ifdef __OPTIMIZE_SIZE__
	size = 1;
#endif
#ifdef NDEBUG
	nd = 1;
#endif
#ifdef __SANITIZE_ADDRESS__
	asan = 1;
#endif
#ifdef __STRICT_ANSI__
	nd += 10;
#endif
	printf("%ld %d %d %d %d\\n", std, opt, size, nd, asan);
	return 0;
}
"""
    main = d if how == "default" else {}
    cmd = d if how == "cmd" else {}
    ov = d if how == "override" else {}
    mb = [f"project('x', 'c', 'cpp', default_options: {q(opts(main))})", f"executable('p', 'p.c', override_options: {q(opts(ov))})",
          f"executable('pp', 'p.cpp', override_options: {q(opts(ov))})"]
    r = c.go([("w", "src/meson.build", "\n".join(mb) + "\n"), ("w", "src/p.c", src), ("w", "src/p.cpp", src),
              ("r", ["-C", "src", "setup"] + ["-D" + x for x in opts(cmd)] + ["../b"]), ("r", ["-C", "b", "samu"]), ("e", ["b/p"]), ("e", ["b/pp"])])
    here = f"{opts(d)} ({how})"
    if any(x.rc for x in r):
        return f"{here}: fails: {''.join(x.out for x in r)[-400:]}", "fails"
    ly = [main, cmd, ov]
    so, _ = want_opt(ly)
    C = {"none": 201710, "c89": 0, "c99": 199901, "c11": 201112, "c17": 201710, "c18": 201710}
    P = {"none": 201703, "c++98": 199711, "c++03": 199711, "c++11": 201103, "c++14": 201402, "c++17": 201703, "c++20": 202002, "c++2a": 202002, "c++1z": 201703}
    for x, lang, tab in ((r[2], "c", C), (r[3], "cpp", P)):
        std, opt, size, nd, asan = map(int, x.out.split())
        s = value(ly, lang + "_std")[0]
        strict = s != "none" and not s.startswith("gnu")
        key = s.replace("gnu++", "c++").replace("gnu", "c")
        if key in tab and std != tab[key] and not (key == "none"):
            return f"{here}: {lang}_std={s}: the standard is {std}", "wrong"
        if (nd >= 10) != strict:
            return f"{here}: {lang}_std={s}: extensions are {'off' if nd >= 10 else 'on'}", "wrong"
        if (opt == 1) not in {o not in (None, "0") for o in so} or (size == 1) not in {o == "s" for o in so}:
            return f"{here}: optimized {opt}, for size {size}", "wrong"
        n = value(ly, "b_ndebug")[0]
        if n != "if-release" and (nd % 10 == 1) != (n == "true"):
            return f"{here}: NDEBUG {nd % 10}", "wrong"
        if (asan == 1) != ("address" in value(ly, "b_sanitize")[0]):
            return f"{here}: address sanitizer {asan}", "wrong"
    return None, here


def bt_space():
    return [{"buildtype": b, "optimization": o, "debug": d} for b in BT for o in OPT for d in DBG]


def clean(d):
    return {k: v for k, v in d.items() if v is not None}


BFLAGS = {"b_ndebug": ["true", "if-release"], "b_sanitize": ["address", "undefined", "address,undefined"], "b_pgo": ["generate", "use"], "b_lto": ["true"],
          "b_colorout": ["auto", "never"], "werror": ["true"], "warning_level": ["0", "1", "2", "everything"], "c_std": ["c99", "gnu11"], "cpp_std": ["c++11", "gnu++17"],
          "buildtype": ["plain", "release", "custom"]}
BACK = {"b_ndebug": "false", "b_sanitize": "none", "b_pgo": "off", "b_lto": "false", "b_colorout": "always", "werror": "false", "warning_level": "3", "c_std": "none",
        "cpp_std": "none", "buildtype": "debug"}


def cases(deep):
    allbt = [clean(d) for d in bt_space()]
    K = [("e", "c")]
    # every layer alone with every override; and every pair of layers with few overrides
    for d in allbt:
        yield ("layers", d, {}, allbt, K)
        yield ("layers", {}, d, allbt, K)
    few = [clean({"buildtype": b, "optimization": o, "debug": g}) for b in (None, "release", "custom") for o in (None, "0") for g in (None, "true")]
    for a in allbt if deep else few:
        for b in allbt:
            yield ("layers", a, b, few, [("e", "c"), ("s", "cpp")] if deep else K)
            if not deep:
                yield ("layers", b, a, few, K)
    # warnings and standards: every value in every layer, every override
    ow = [clean({"warning_level": w, "werror": e}) for w in WL for e in (None, "true", "false")]
    os_ = [{"c_std": s, "cpp_std": p} for s, p in zip(CSTD, CPPSTD)]
    KK = [("e", "c"), ("e", "cpp"), ("s", "c"), ("h", "cpp")]
    for d in ow + os_:
        for o in (ow, os_):
            yield ("layers", d, {}, o, KK)
            yield ("layers", {}, d, o, KK)
            yield ("layers", d, clean({"warning_level": "1", "werror": "true", "c_std": "gnu99", "cpp_std": "c++14"}), o, KK)
    # the rest: every value and pair of values in every layer, overridden by every value
    single = [{k: v} for k in BFLAGS for v in BFLAGS[k]]
    pairs = [{**a, **b} for a, b in itertools.combinations(single, 2) if not a.keys() & b.keys()]
    over = [{}] + single + [{k: v} for k, v in BACK.items()]
    for d in single + pairs:
        for L in ((d, {}), ({}, d)):
            yield ("layers",) + L + (over + (pairs if deep else []), KK if deep or len(d) == 1 else [("e", "c"), ("h", "cpp")])
    for a in single:
        for b in single:
            yield ("layers", a, b, over, [("e", "c"), ("h", "cpp")])
    # subprojects
    sv = [{"warning_level": "1"}, {"werror": "true"}, {"c_std": "c99"}, {"cpp_std": "c++14"}, {"c_std": "gnu11", "warning_level": "everything"}]
    none = [{}]
    for cmd in none + sv + [{"b_ndebug": "true"}, {"buildtype": "release"}, {"b_sanitize": "address"}]:
        for scmd in none + [{"warning_level": "0"}, {"c_std": "c11"}]:
            for main in none + [{"warning_level": "2"}, {"c_std": "c89", "werror": "true"}, {"buildtype": "minsize"}, {"b_lto": "true"}]:
                for sd in none + sv:
                    for sk in none + ([{"warning_level": "2", "c_std": "gnu17"}] if not deep else sv + [{"warning_level": "2", "c_std": "gnu17"}]):
                        yield ("sub", cmd, scmd, main, sd, sk, {"warning_level": "3", "c_std": "gnu89", "cpp_std": "gnu++11", "optimization": "s"} if not cmd and not main else {"werror": "true", "b_ndebug": "true"})
    # position independence and visibility
    pv = [{}] + [{k: v} for k in ("b_staticpic", "b_pie") for v in ("true", "false")] + [{"b_staticpic": a, "b_pie": b} for a in ("true", "false") for b in ("true", "false")]
    for d in pv:
        yield ("pic", d, {})
        yield ("pic", {}, d)
        if d:
            yield ("pic", d, {k: "true" if v == "false" else "false" for k, v in d.items()})
    # and what the programs see
    eff = allbt if deep else [d for d in allbt if len(d) <= 1]
    eff = eff + os_ + [{"b_ndebug": "true"}, {"b_sanitize": "address"}, {"b_sanitize": "address", "optimization": "2"}, {"b_lto": "true"}, {"b_pgo": "generate"}, {"warning_level": "everything"}]
    for d in eff:
        for how in ("cmd", "default", "override"):
            yield ("effect", d, how)


RUN = {"layers": run_layers, "sub": run_sub, "pic": run_pic, "effect": run_effect}


def main():
    ck = mv.Check("C12", "exploration")
    S = clicheck.run(ck, list(cases(ck.thorough)), lambda c, case: RUN[case[0]](c, case), 8, 600)
    ck.add(exhaustive=True, rule="every combination of build type, optimization and debug on the command line or in default_options x every combination in override_options; every value and pair of "
           "values of ten other options in each layer x overrides; subprojects; position independence; the flags of every compile and link command against the values, and what programs see")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
