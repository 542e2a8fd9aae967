#!/usr/bin/env python3
"""C02: the value of every option is that of the highest-precedence source that sets it, coerced to the option's
type, in its own project only; anything that is not a value of the option is an error."""
import itertools
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import clicheck
import mv

TYPES = ("string", "boolean", "combo", "integer", "array", "feature")
CH = "['c0','c1','c2','c3','c4','c5','c6','c7']"
DECL = {"string": "", "boolean": "", "combo": f", choices: {CH}", "integer": ", min: -50, max: 50", "array": "", "feature": ""}


def text(t, i, hot):
    """the text source number i gives an option of type t"""
    if t == "string":
        return f"s{i}"
    if t == "boolean":
        return "true" if i == hot else "false"
    if t == "combo":
        return f"c{i}"
    if t == "integer":
        return str(i * 3 - 7)
    if t == "array":
        return f"a{i},b"
    return ("enabled", "disabled", "auto")[(i + hot) % 3]


def lit(t, v):
    """the declaration's literal"""
    if t == "boolean" or t == "integer":
        return v
    if t == "array":
        return "[" + ",".join("'" + x + "'" for x in v.split(",")) + "]"
    return "'" + v + "'"


def show(t, v):
    """what the show() expression prints for that text"""
    if t == "array":
        return "+".join(v.split(","))
    return v


def show_expr(t, name):
    o = f"get_option('{name}')"
    if t == "array":
        return f"'+'.join({o})"
    if t == "feature":
        return f"({o}.enabled() ? 'enabled' : {o}.disabled() ? 'disabled' : 'auto')"
    if t in ("boolean", "integer"):
        return f"{o}.to_string()"
    return o


def report(label, names):
    """names: [(type, name)]"""
    return "".join(f"message('<{label}:{n}=@0@>'.format({show_expr(t, n)}))\n" for t, n in names)


def got(run):
    r = {}
    for m in run.messages():
        m = m.strip()
        if m.startswith("<") and m.endswith(">") and "=" in m:
            k, v = m[1:-1].split("=", 1)
            r[k] = v
    return r


def q(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'") + "'"


# ------------------------------------------------------------------ precedence

# sources, lowest precedence first (main's "sub:o" and subproject() are not ordered against each other here)
def precedence(deep):
    for main_d, main_c, main_c2 in itertools.product((0, 1), repeat=3):
        for sub in itertools.product((0, 1), repeat=5):      # yield, project, subproject(), main 'sub:', cmdline
            if sub[2] and sub[3]:
                continue
            for hot in range(8):
                for optfile in ("meson_options.txt", "meson.options"):
                    if optfile == "meson.options" and hot:
                        continue
                    yield ("prec", main_d, main_c, main_c2, sub, hot, optfile)


BUILTIN = [("combo", "warning_level", ["0", "1", "2", "3", "everything"]), ("combo", "default_library", ["static", "shared", "both"])]


def run_prec(c, case):
    _, md, mc, mc2, sub, hot, optfile = case
    yld, sp, scall, smain, scmd = sub
    names = [(t, "o_" + t) for t in TYPES]
    exp = {}

    def src(n, i):
        return {("o_" + t): text(t, i, hot) for t in TYPES}

    decl_m = "".join(f"option('o_{t}', type: '{t}'{DECL[t]}, value: {lit(t, text(t, 0, hot))})\n" for t in TYPES)
    decl_s = "".join(f"option('o_{t}', type: '{t}'{DECL[t]}, value: {lit(t, text(t, 4, hot))}{', yield: true' if yld else ''})\n" for t in TYPES)
    argv = []
    mdef, call, sdef = [], [], []
    # warning_level and default_library are options of each project
    bsrc = {}
    for j, (_, n, vals) in enumerate(BUILTIN):
        bsrc[n] = lambda i, vals=vals: vals[(i + hot) % len(vals)]
    for t in TYPES:
        n = "o_" + t
        v = text(t, 0, hot)
        if md:
            v = text(t, 1, hot)
            mdef.append(f"{n}={v}")
        if mc:
            v = text(t, 2, hot)
            argv.append(f"-D{n}={v}")
        if mc2:
            v = text(t, 3, hot)
            argv.append(f"-D{n}={v}")
        exp[f"m:{n}"] = show(t, v)
        w = text(t, 4, hot)
        if yld:
            w = v
        if sp:
            w = text(t, 5, hot)
            sdef.append(f"{n}={w}")
        if scall:
            w = text(t, 6, hot)
            call.append(f"{n}={w}")
        if smain:
            w = text(t, 7, hot)
            mdef.append(f"s:{n}={w}")
        if scmd:
            w = text(t, 1, hot)
            argv.append(f"-Ds:{n}={w}")
        exp[f"s:{n}"] = show(t, w)
        # another subproject with the same options sees none of this
        exp[f"z:{n}"] = show(t, text(t, 5, hot))
    for _, n, vals in BUILTIN:
        f = bsrc[n]
        if md:
            mdef.append(f"{n}={f(1)}")
            exp[f"m:{n}"] = f(1)
        if mc:
            argv.append(f"-D{n}={f(2)}")
            exp[f"m:{n}"] = f(2)
        if sp:
            sdef.append(f"{n}={f(3)}")
            exp[f"s:{n}"] = f(3)
        if scall:
            call.append(f"{n}={f(4)}")
            exp[f"s:{n}"] = f(4)
        if smain:
            mdef.append(f"s:{n}={f(5)}")
            exp[f"s:{n}"] = f(5)
        if scmd:
            argv.append(f"-Ds:{n}={f(6)}")
            exp[f"s:{n}"] = f(6)
    # the options of the whole tree: a subproject's defaults do not touch them
    exp["m:buildtype"] = exp["s:buildtype"] = "debugoptimized"
    for on, v in ((md, "release"), (mc, "plain"), (mc2, "minsize")):
        if on:
            (argv if on is not md or v != "release" else mdef).append(("-D" if v != "release" else "") + "buildtype=" + v)
            exp["m:buildtype"] = exp["s:buildtype"] = v
    if sp:
        sdef.append("buildtype=custom")
    if scall:
        call.append("buildtype=custom")
    if smain:
        mdef.append("s:buildtype=custom")
    # the order of the command line is kept per option; other orders do not matter
    if hot % 2:
        mdef.reverse()
        sdef.reverse()
        call.reverse()
    elif hot:
        # only the last of several entries for the same option counts
        for l in (mdef, sdef, call):
            l[:0] = [x.split("=")[0] + "=" + (text(x.split("_")[1].split("=")[0], hot, hot) if "o_" in x else next(v for _, n, v in BUILTIN if n in x)[hot % 3]) for x in l if "buildtype" not in x]
    ls = lambda k, l: f", {k}: [" + ",".join(q(x) for x in l) + "]" if l else ""
    b = [("combo", n) for _, n, _ in BUILTIN] + [("combo", "buildtype")]
    files = {
        "meson.build": f"project('m'{ls('default_options', mdef)})\nsubproject('z')\nsubproject('s'{ls('default_options', call)})\n" + report("m", names + b),
        optfile: decl_m,
        "subprojects/s/meson.build": f"project('s'{ls('default_options', sdef)})\n" + report("s", names + b),
        "subprojects/s/" + optfile: decl_s,
        "subprojects/z/meson.build": "project('z')\n" + report("z", names),
        "subprojects/z/" + optfile: "".join(f"option('o_{t}', type: '{t}'{DECL[t]}, value: {lit(t, text(t, 5, hot))})\n" for t in TYPES),
    }
    r = c.go([("w", k, v) for k, v in files.items()] + [("r", ["setup", *argv, "b"])])[0]
    if r.rc:
        return f"setup fails ({r.rc}): {r.out[-300:]}", "err"
    g = got(r)
    for k, v in exp.items():
        if g.get(k) != v:
            return f"{k} is {g.get(k)!r}, the highest-precedence source gives {v!r}", "bad"
    return None, tuple(sorted(exp.items()))


# ------------------------------------------------------------------ coercion of texts

def alpha_texts(t, deep):
    base = {"string": ["a", "=", ":", ",", "'", " ", "[", "]", "\\", "@"],
            "boolean": ["true", "false", "True", "t", "1", "0", " ", "yes"],
            "integer": ["0", "1", "-", "+", "9", "a", ".", "0x", "_"],
            "combo": ["c0", "c1", "c", "0", ",", "C0", " "],
            "array": ["a", "b", ",", "[", "]", "'", " "],
            "feature": ["enabled", "disabled", "auto", "true", ",", " ", "Enabled"]}[t]
    n = 3 + deep if t in ("string", "integer", "array") else 2 + deep
    if t == "array":
        n = 5 + deep
    seen = set()
    for k in range(n + 1):
        for x in itertools.product(base, repeat=k):
            s = "".join(x)
            if s not in seen:
                seen.add(s)
                yield s


def parse_array(s):
    """'' | [literal list of strings] | a,b,c  -> list, None (an error), or ... (not decided here)"""
    if s == "":
        return []
    if s[0] != "[":
        return s.split(",")
    i = 1

    def ws():
        nonlocal i
        while i < len(s) and s[i] == " ":
            i += 1
    out = []
    ws()
    while True:
        if i < len(s) and s[i] == "]":
            i += 1
            break
        if i >= len(s) or s[i] != "'":
            return ... if any(ch in s for ch in "ab") or s.count("[") > 1 else None
        j = s.find("'", i + 1)
        if j < 0:
            return None
        out.append(s[i + 1:j])
        i = j + 1
        ws()
        if i < len(s) and s[i] == ",":
            i += 1
            ws()
            continue
        if i < len(s) and s[i] == "]":
            continue
        return ...
    ws()
    if i != len(s):
        return ...          # an expression, not a literal list
    return out


def coerce(t, s):
    """expected shown value, None for an error, ... when not decided here"""
    if t == "string":
        return s
    if t == "boolean":
        return s if s in ("true", "false") else None
    if t == "combo":
        return s if s in [f"c{i}" for i in range(8)] else None
    if t == "feature":
        return s if s in ("enabled", "disabled", "auto") else None
    if t == "integer":
        if s.strip() != s:
            return ...
        body = s[1:] if s[:1] in "+-" else s
        if not body or not body.isdigit():
            return None
        v = int(s)
        return str(v) if -50 <= v <= 50 else None
    v = parse_array(s)
    if v is None or v is ...:
        return v
    return "+".join(v)


WHERE = ("cmd", "proj", "cmdsub", "call", "main", "sub")


def texts(deep):
    for t in TYPES:
        for s in alpha_texts(t, deep):
            yield ("text", t, s, "cmd")
    for t in TYPES:
        for s in alpha_texts(t, 0):
            if len(s) <= 4:
                for w in WHERE[1:]:
                    yield ("text", t, s, w)
    for s in ["9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551617", "4294967301",
              "99999999999999999999999999", "0000000000000000000000001", "-00", "+0"]:
        yield ("big", "integer", s, "cmd")


def run_text(c, case):
    kind, t, s, where = case
    decl = DECL[t] if kind == "text" else ""
    v0 = lit(t, "a,b" if t == "array" else "true" if t == "boolean" else "c7" if t == "combo" else "7" if t == "integer" else "auto" if t == "feature" else "dflt")
    want = coerce(t, s)
    if kind == "big":
        want = str(int(s)) if -2**63 <= int(s) < 2**63 else None
    if want is ...:
        return None, "undecided"
    sub = where in ("cmdsub", "call", "main", "sub")
    opt = f"option('o', type: '{t}', value: {v0}{decl})\n"
    P = {w: "" for w in WHERE}
    P[where] = f", default_options: [{q('o=' + s) if where != 'main' else q('s:o=' + s)}]"
    files = {"meson.build": f"project('m'{P['proj']}{P['main']})\n" + (f"subproject('s'{P['call']})\n" if sub else report("x", [(t, "o")])),
             "meson_options.txt": "" if sub else opt}
    if sub:
        files["subprojects/s/meson.build"] = f"project('s'{P['sub']})\n" + report("x", [(t, "o")])
        files["subprojects/s/meson_options.txt"] = opt
    argv = []
    if where == "cmd":
        argv = ["-Do=" + s]
    elif where == "cmdsub":
        argv = ["-Ds:o=" + s]
    r = c.go([("w", k, v) for k, v in files.items()] + [("r", ["setup", *argv, "b"])])[0]
    if r.signal:
        return f"muon died on {t} option text {s!r} from {where}: {r.out[-200:]}", "died"
    if want is None:
        if r.rc == 0:
            return f"{s!r} from {where} is not a value of a {t} option but setup succeeds with {got(r)}", "bad"
        return None, (t, "error")
    if r.rc:
        return f"{s!r} from {where} is a value of a {t} option but setup fails: {r.out[-200:]}", "bad"
    if got(r).get("x:o") != want:
        return f"{t} option given {s!r} from {where} is {got(r).get('x:o')!r}", "bad"
    return None, (t, want)


# ------------------------------------------------------------------ declarations

KW = {"value": None, "choices": None, "min": "1", "max": "9", "yield": "true", "description": "'d'", "deprecated": "false"}


def decls(deep):
    for t in TYPES + ("nope",):
        for n in range(len(KW) + 1):
            for ks in itertools.combinations(KW, n):
                yield ("decl", t, ks, 0)
    # values that do not fit the declaration
    for t in TYPES:
        for i in range(8):
            yield ("decl", t, ("value",), i + 1)
    for i in range(4):
        yield ("decl", "combo", ("value", "choices"), i + 1)
        yield ("decl", "array", ("value", "choices"), i + 1)
        yield ("decl", "integer", ("value", "min", "max"), i + 1)


def run_decl(c, case):
    _, t, ks, alt = case
    ok = t in TYPES
    default = {"string": "", "boolean": "true", "combo": "x", "array": "", "feature": "auto"}.get(t)
    vals = {"string": ("'v'", "v"), "boolean": ("false", "false"), "combo": ("'y'", "y"), "integer": ("5", "5"), "array": ("['y']", "y"), "feature": ("'enabled'", "enabled"),
            "nope": ("'v'", "")}
    lits = {1: ("'y'", ("string", "combo")), 2: ("5", ("integer",)), 3: ("true", ("boolean",)), 4: ("['y']", ("array",)), 5: ("'auto'", ("string", "feature")),
            6: ("{}", ()), 7: ("'zz'", ("string",)), 8: ("[]", ("array",))}
    v, shown = vals[t]
    if alt:
        if t == "combo" and "choices" in ks:
            v, shown, good = [("'x'", "x", 1), ("'z'", "", 0), ("''", "", 0), ("['x']", "", 0)][alt - 1]
        elif t == "array" and "choices" in ks:
            v, shown, good = [("['x','y']", "x+y", 1), ("['z']", "", 0), ("['x','z']", "", 0), ("[]", "", 1)][alt - 1]
        elif t == "integer" and "min" in ks:
            v, shown, good = [("1", "1", 1), ("0", "", 0), ("9", "9", 1), ("10", "", 0)][alt - 1]
        else:
            v, tt = lits[alt]
            good = t in tt
            shown = {1: "y", 2: "5", 3: "true", 4: "y", 5: "auto", 7: "zz", 8: ""}.get(alt, "")
        ok = ok and bool(good)
    if "choices" in ks and t not in ("combo", "array") or t == "combo" and "choices" not in ks:
        ok = False
    if ("min" in ks or "max" in ks) and t != "integer":
        ok = False
    if t == "integer" and "value" not in ks:
        ok = False
    kws = "".join(", " + k + ": " + (v if k == "value" else "['x','y']" if k == "choices" else KW[k]) for k in ks)
    if "value" not in ks:
        shown = default
        if t == "array" and "choices" in ks:
            shown = "x+y"
    r = c.go([("w", "meson.build", "project('m')\n" + (report("x", [(t, "o")]) if t in TYPES else "")),
              ("w", "meson_options.txt", f"option('o', type: '{t}'{kws})\n"), ("r", ["setup", "b"])])[0]
    if r.signal or (r.rc == 0) != ok:
        return f"option('o', type: '{t}'{kws}) {'is refused' if ok else 'is accepted'} (status {r.rc})", "bad"
    if ok and got(r).get("x:o") != shown:
        return f"option('o', type: '{t}'{kws}) defaults to {got(r).get('x:o')!r}, not {shown!r}", "bad"
    return None, (ok, shown if ok else None)


# ------------------------------------------------------------------ renamed and deprecated values

def dep(deep):
    # renamed options: old and new from each source
    for od in (0, 1):
        for oc in (0, 1):
            for nc in (0, 1):
                for order in (0, 1):
                    for where in ("main", "sub"):
                        yield ("rename", od, oc, nc, order, where)
    maps = ["{}", "{'a':'b'}", "{'a':'b','b':'a'}", "{'a':'b','b':'c'}", "{'b':'c','a':'b'}", "['a']", "['a','b']", "true", "false"]
    for m in maps:
        for n in range(4 + deep):
            for v in itertools.product("abc", repeat=n):
                yield ("depval", m, "array", ",".join(v))
        for v in "abc":
            yield ("depval", m, "string", v)
            yield ("depval", m, "combo", v)
    for v in ("enabled", "true", "auto", "x", ""):
        yield ("depval", "{'true':'enabled','false':'disabled'}", "feature", v)
    for bad in ("z", ""):
        for where in ("main", "sub"):
            yield ("renbad", bad, where)


def run_dep(c, case):
    if case[0] == "depval":
        _, m, t, v = case
        mp = {}
        if m[0] == "{":
            for kv in m[1:-1].split(","):
                if kv:
                    a, b = kv.split(":")
                    mp[a.strip("'")] = b.strip("'")
        want = ",".join(mp.get(x, x) for x in v.split(",")) if t == "array" else mp.get(v, v)
        ok = True
        if t == "feature":
            ok = want in ("enabled", "disabled", "auto")
        if t == "combo":
            ok = want in "abc"
        chs = ", choices: ['a','b','c']" if t in ("combo", "array") else ""
        dv = ", value: []" if t == "array" else ""
        r = c.go([("w", "meson.build", "project('m')\n" + report("x", [(t, "o")])),
                  ("w", "meson_options.txt", f"option('o', type: '{t}'{chs}{dv}, deprecated: {m})\n"), ("r", ["setup", f"-Do={v}", "b"])])[0]
        if r.signal or (r.rc == 0) != ok:
            return f"a {t} option with deprecated: {m} given {v!r} has status {r.rc}: {r.out[-200:]}", "bad"
        if ok and got(r).get("x:o") != show(t, want):
            return f"a {t} option with deprecated: {m} given {v!r} is {got(r).get('x:o')!r}, not {show(t, want)!r}", "bad"
        return None, (t, want, ok)
    if case[0] == "renbad":
        _, bad, where = case
        od, oc, nc, order = 0, 1, 0, 0
    else:
        _, od, oc, nc, order, where = case
        bad = None
    decls_ = ["option('old', type: 'string', value: 'd1', deprecated: 'new')\n", "option('new', type: 'combo', choices: ['d0','v1','v2','v3'])\n"]
    if order:
        decls_.reverse()
    pre = "" if where == "main" else "s:"
    argv, want = [], "d0"
    dflt = ""
    if od:
        want = "v1"
        dflt = f", default_options: ['{pre}old=v1']"
    if oc:
        want = "v2"
        argv.append(f"-D{pre}old=" + ("v2" if bad is None else bad))
    if nc:
        want = "v3"
        argv.append(f"-D{pre}new=v3")
    if order:
        argv.reverse()
    body = report("x", [("combo", "new")])
    if where == "main":
        files = {"meson.build": f"project('m'{dflt})\n" + body, "meson_options.txt": "".join(decls_)}
    else:
        files = {"meson.build": f"project('m'{dflt})\nsubproject('s')\n", "subprojects/s/meson.build": "project('sname')\n" + body,
                 "subprojects/s/meson_options.txt": "".join(decls_)}
    r = c.go([("w", k, v) for k, v in files.items()] + [("r", ["setup", *argv, "b"])])[0]
    if bad is not None:
        return (f"{argv} is not a value of the option it is renamed to, but setup succeeds with {got(r)}" if r.rc == 0 else None), "err"
    if r.rc or got(r).get("x:new") != want:
        return f"the renamed option is {got(r).get('x:new')!r} (status {r.rc}), not {want!r}", "bad"
    return None, want


# ------------------------------------------------------------------ unknown options, directories

def misc(deep):
    for where in WHERE:
        for s in ("nope=1", "=1", "o", "", "o:", ":o=1", "a:b:c=1", "s:", "nosuch:o=1", "O=1", "o =1", " o=1", "o=1"):
            yield ("name", where, s)
    pre = ["/usr/local", "/a", "/a/", "/", "/a/b", "//a"]
    dirs = ["bin", "x/y", "/a", "/a/bin", "/ab/bin", "/a/b/c", "/", "/usr/local/q", "", ".", "../z", "/a/../b", "/a/b/../c", "/a//b/"]
    for p in pre:
        for d in dirs:
            for opt in ("bindir", "libdir", "mandir", "sysconfdir") if deep else ("bindir", "sysconfdir"):
                for w in ((0, 0), (0, 1), (1, 0), (1, 1)):
                    yield ("dir", p, d, opt, w)


def norm(p):
    out = []
    for x in p.split("/"):
        if x == "..":
            if out:
                out.pop()
        elif x not in ("", "."):
            out.append(x)
    return "/" + "/".join(out)


def run_misc(c, case):
    if case[0] == "dir":
        _, p, d, opt, (pw, dw) = case
        argv, dflt = [], []
        (argv if pw else dflt).append(("-D" if pw else "") + "prefix=" + p)
        (argv if dw else dflt).append(("-D" if dw else "") + f"{opt}=" + d)
        dd = ", default_options: [" + ",".join(q(x) for x in dflt) + "]" if dflt else ""
        r = c.go([("w", "meson.build", f"project('m'{dd})\nmessage('<p=' + get_option('prefix') + '>')\nmessage('<d=' + get_option('prefix') / get_option('{opt}') + '>')\n"),
                  ("r", ["setup", *argv, "b"])])[0]
        g = got(r)
        want = norm(d if d.startswith("/") else p + "/" + d)
        if r.rc:
            return f"prefix={p} {opt}={d} is refused: {r.out[-200:]}", "bad"
        if norm(g["p"]) != norm(p):
            return f"prefix={p} is read back as {g['p']!r}", "bad"
        if norm(g["d"]) != want:
            return f"prefix={p} {opt}={d} installs to {g['d']!r}, not {want!r}", "bad"
        return None, want
    _, where, s = case
    ok = s == "o=1" and where != "main"
    P = {w: "" for w in WHERE}
    P[where] = f", default_options: [{q(s)}]"
    if where == "main":
        # options meant for a subproject that does not exist are the main project's business elsewhere; here: this one
        P[where] = f", default_options: [{q('s:' + s if ':' not in s else s)}]"
        ok = s == "o=1"
        if s in ("nosuch:o=1",):
            return None, "skip"
    sub = where in ("cmdsub", "call", "main", "sub")
    files = {"meson.build": f"project('m'{P['proj']}{P['main']})\n" + (f"subproject('s'{P['call']})\n" if sub else ""), "meson_options.txt": "" if sub else "option('o', type:'string')\n"}
    if sub:
        files["subprojects/s/meson.build"] = f"project('s'{P['sub']})\n"
        files["subprojects/s/meson_options.txt"] = "option('o', type:'string')\n"
    argv = []
    if where == "cmd":
        argv = ["-D" + s]
    elif where == "cmdsub":
        argv = ["-Ds:" + s]
    if where in ("call", "sub", "proj") and s == "nosuch:o=1":
        return None, "skip"
    r = c.go([("w", k, v) for k, v in files.items()] + [("r", ["setup", *argv, "b"])])[0]
    if r.signal or (r.rc == 0) != ok:
        return f"option {s!r} from {where} {'refused' if ok else 'accepted'} (status {r.rc}): {r.out[-200:]}", "bad"
    return None, (where, ok)


RUN = {"prec": run_prec, "text": run_text, "big": run_text, "decl": run_decl, "rename": run_dep, "depval": run_dep, "renbad": run_dep, "name": run_misc, "dir": run_misc}


def one(c, case):
    return RUN[case[0]](c, case)


def main():
    ck = mv.Check("C02", "exploration")
    deep = 1 if ck.thorough else 0
    cases = itertools.chain(precedence(deep), texts(deep), decls(deep), dep(deep), misc(deep))
    clicheck.run(ck, cases, one)
    ck.add(rule="every combination of present sources (8 for the main project x 24 for a subproject) for all six types and the per-project and global "
                "builtin options, every text up to length 3-5 over a hostile alphabet per type and source, every keyword subset of option(), every "
                "renamed and replaced value, every prefix and directory pair; distinct by resulting values", exhaustive=True)
    ck.sample("-Ds:o=v beats subproject(default_options) beats project(default_options) beats yield")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
