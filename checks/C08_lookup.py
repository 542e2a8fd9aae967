#!/usr/bin/env python3
"""C08: dependencies, programs and subprojects are looked up in the documented order, satisfy what is asked of them,
and the same question gets the same answer."""
import itertools
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import clicheck
import mv


class Skip(Exception):
    "an override of what was looked up or overridden before: refused by Meson, muon replaces the dependency"


class Fail(Exception):
    pass


def ver(v):
    return [int(x) for x in v.split(".")]


def satisfied(have, wanted):
    """wanted: a list of requirements"""
    if isinstance(wanted, str):
        wanted = [wanted]
    if not wanted:
        return True
    if have in (None, "undefined"):
        return False
    for w in wanted:
        for op in (">=", "<=", "!=", "==", ">", "<", "="):
            if w.startswith(op):
                w = w[len(op):]
                break
        else:
            op = "=="
        a, b = ver(have), ver(w)
        if not {">=": a >= b, "<=": a <= b, "!=": a != b, "==": a == b, "=": a == b, ">": a > b, "<": a < b}[op]:
            return False
    return True


class Dep:
    def __init__(self, origin, version, typ="internal", found=True, inc="preserve"):
        self.origin, self.version, self.typ, self.found, self.inc = origin, version, typ, found, inc

    def show(self, inc=None):
        return f"true {self.version} {self.typ} {self.origin} {inc or self.inc}" if self.found else "false"


NOTFOUND = Dep("", None, found=False)


class World:
    """what Meson documents"""

    def __init__(self, sc):
        self.sc = sc
        self.over = {}          # (name, static or None) -> Dep
        self.progs = {}
        self.subs = {}          # name -> None (failed) | dict
        self.opt = dict(sc.get("opts", {}))
        self.default_library = self.opt.get("default_library", "shared")
        self.wrap_mode = self.opt.get("wrap_mode", "default")
        self.force = [x for x in self.opt.get("force_fallback_for", "").split(",") if x]
        self.out = []

    # ---- subprojects
    def provider(self, kind, name):
        for w, provides in self.sc.get("wraps", {}).items():
            for k, n, v in provides:
                if k == kind and n == name:
                    return w, v
        if kind == "dep" and name in self.sc.get("subs", {}):
            return name, None
        return None, None

    def subproject(self, name, required, version=(), static=None, defaults=()):
        if name in self.subs:
            sp = self.subs[name]
            if sp is None:
                if required:
                    raise Fail
                return None
            if not satisfied(sp["version"], version):
                if required:
                    raise Fail
                return None
            return sp
        spec = self.sc.get("subs", {}).get(name)
        if spec is None:
            if required:
                raise Fail
            return None
        saved = dict(self.over), dict(self.progs)
        deflib = self.default_library
        if static is not None:
            deflib = "static" if static else "shared"
        o = "d"
        for x in defaults or ():
            k, v = x.split("=")
            if k == "o":
                o = v
            elif static is not None and v != deflib:
                raise Skip  # asks for two things
            else:
                deflib = v
        self.out.append(f"S {name} {deflib} {o}")
        sp = {"version": spec.get("version") or "undefined", "vars": {}}
        try:
            for it in spec["body"]:
                if it[0] == "error":
                    raise Fail
                if it[0] == "var":
                    sp["vars"][it[1]] = self.value(name, sp, it[2])
                elif it[0] == "over":
                    self.override(it[1], it[2], self.value(name, sp, it[3]), deflib)
                elif it[0] == "prog":
                    self.progs[it[1]] = (f"{name}:{it[1]}", sp["version"])
            if not satisfied(sp["version"], version):
                raise Fail
        except Fail:
            self.over, self.progs = saved
            if required:
                raise
            return None
        self.subs[name] = sp
        return sp

    def value(self, name, sp, spec):
        if spec == "notfound":
            return NOTFOUND
        if spec == "str":
            return None
        return Dep(f"{name}:{spec[0]}", spec[1] or sp["version"], inc="system" if len(spec) > 2 else "preserve")

    def override(self, name, static, dep, deflib):
        if static is None:
            keys = [None] + ([True] if deflib in ("static", "both") else []) + ([False] if deflib in ("shared", "both") else [])
        else:
            keys = [static]
            self.over.setdefault((name, None), dep)
        for k in keys:
            if (name, k) in self.over:
                raise Skip
            self.over[name, k] = dep

    # ---- dependencies
    def cached(self, name, static, wanted):
        d = self.over.get((name, static))
        if d is None:
            return None
        if not d.found or not satisfied(d.version, wanted):
            return NOTFOUND
        return d

    def from_sub(self, sub, var, names, static, wanted):
        sp = self.subs.get(sub)
        if sp is None:
            return None
        for n in names:
            d = self.cached(n, static, wanted)
            if d:
                return d
        if not var:
            return NOTFOUND
        d = sp["vars"].get(var)
        if d is None or not d.found or not satisfied(d.version, wanted):
            return NOTFOUND
        return d

    def dependency(self, names, kw):
        req = kw.get("required", True)
        if req in ("disabled",):
            return "disabler" if kw.get("disabler") else NOTFOUND
        required = req in (True, "enabled")
        static = kw.get("static")
        wanted = kw.get("version", [])
        allow = kw.get("allow_fallback")
        fb = kw.get("fallback")
        sub = var = None
        if fb is not None:
            if isinstance(fb, str):
                fb = [fb]
            if len(fb) == 0:
                allow = False
            else:
                sub, var = (list(fb) + [None])[:2]
        nofallback = self.wrap_mode == "nofallback"
        forced = self.wrap_mode == "forcefallback" or any(n in self.force for n in names) or sub in self.force
        if not sub and allow is not False:
            for n in names:
                s, v = self.provider("dep", n)
                if s:
                    forced = forced or s in self.force
                    if forced or allow is True or required or self.subs.get(s):
                        sub, var = s, v
                    break
        cands = [lambda n=n: self.cached(n, static, wanted) for n in names]
        if sub:
            cands.append(lambda: self.from_sub(sub, var, names, static, wanted))
        if not forced or not sub:
            cands += [lambda n=n: self.external(n, wanted) for n in names]
        if sub and not nofallback:
            def conf():
                self.subproject(sub, required, static=static, defaults=kw.get("default_options"))
                return self.from_sub(sub, var, names, static, wanted)
            cands.append(conf)
        d = None
        for c in cands:
            d = c()
            if d:
                break
        if d and d.found:
            for n in names:
                self.over.setdefault((n, static), d)
            return d
        if required:
            raise Fail
        return "disabler" if kw.get("disabler") else NOTFOUND

    def external(self, name, wanted):
        v = self.sc.get("pc", {}).get(name)
        if v and satisfied(v, wanted):
            return Dep(f"pc:{name}", v, "pkgconfig")
        return None

    # ---- programs
    def find_program(self, names, kw):
        req = kw.get("required", True)
        if req == "disabled":
            return "disabler" if kw.get("disabler") else "false"
        required = req in (True, "enabled")
        wanted = kw.get("version", [])
        p = self.lookup_program(names, kw, required, wanted)
        if p and satisfied(p[1], wanted):
            return "true " + p[0]
        if required:
            raise Fail
        return "disabler" if kw.get("disabler") else "false"

    def lookup_program(self, names, kw, required, wanted):
        for n in names:
            if n in self.progs:
                return self.progs[n]
        fb = None
        if self.wrap_mode != "nofallback":
            for n in names:
                fb = self.provider("prog", n)[0]
                if fb:
                    break
        if fb and self.wrap_mode == "forcefallback":
            return self.prog_from_sub(fb, names, required)
        for n in names:
            for where in [d + "/" for d in kw.get("dirs", [])] + ["sd/" if self.sc.get("subdir") else "", "PATH/"]:
                v = self.sc.get("progs", {}).get(where + n)
                if v:
                    if satisfied(v, wanted):
                        return where + n, v
                    break
        if fb and required:
            return self.prog_from_sub(fb, names, required)
        return None

    def prog_from_sub(self, sub, names, required):
        self.subproject(sub, required)
        for n in names:
            if n in self.progs:
                return self.progs[n]
        return None

    # ---- the steps of the main project
    def run(self):
        try:
            for st in self.sc["steps"]:
                if st[0] == "over":
                    self.override(st[1], st[2], self.value("main", {"version": "9"}, st[3]), self.default_library)
                elif st[0] == "prog":
                    self.progs[st[1]] = ("main:" + st[1], "9")
                elif st[0] == "sub":
                    kw = st[2]
                    req = kw.get("required", True)
                    if req == "disabled":
                        self.out.append("false")
                    else:
                        self.out.append(str(self.subproject(st[1], req in (True, "enabled"), kw.get("version", []), defaults=kw.get("default_options")) is not None).lower())
                elif st[0] == "dep":
                    d = self.dependency(st[1], st[2])
                    self.out.append(d if isinstance(d, str) else d.show(st[2].get("include_type")))
                elif st[0] == "find":
                    self.out.append(self.find_program(st[1], st[2]))
        except Fail:
            self.out.append("ERROR")
        return self.out


# ---------------------------------------------------------------- the same, written as a project
def lit(x):
    if isinstance(x, bool):
        return str(x).lower()
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(map(lit, x)) + "]"
    return "'%s'" % x


def kwargs(kw):
    r = []
    for k, v in kw.items():
        if k == "required" and isinstance(v, str):
            v = f"get_option('{v}')"
        elif k == "dirs":
            v = "[" + ", ".join(f"meson.project_source_root() / '{x}'" for x in v) + "]"
        else:
            v = lit(v)
        r.append(f", {k}: {v}")
    return "".join(r)


def depspec(owner, spec):
    if spec == "notfound":
        return "dependency('', required: false)"
    if spec == "str":
        return "'string'"
    v = f"version: '{spec[1]}', " if spec[1] else ""
    return "declare_dependency(%svariables: {'from': '%s:%s'})%s" % (v, owner, spec[0], ".as_system()" if len(spec) > 2 else "")


def over(owner, it):
    st = "" if it[2] is None else ", static: " + lit(it[2])
    return f"meson.override_dependency('{it[1]}', {depspec(owner, it[3])}{st})\n"


def script(v):
    return f"#!/bin/sh\necho prog {v}\n"


def files(sc):
    w = [("d", "w")]
    sd = "sd/" if sc.get("subdir") else ""
    main = "project('p', version: '9')\n"
    for i, st in enumerate(sc["steps"]):
        if st[0] == "over":
            main += over("main", st)
        elif st[0] == "prog":
            main += f"meson.override_find_program('{st[1]}', files('over-{st[1]}'))\n"
            w.append(("w", f"w/{sd}over-{st[1]}", script("9"), 0o755))
        elif st[0] == "sub":
            main += f"message('L', subproject('{st[1]}'{kwargs(st[2])}).found())\n"
        elif st[0] == "dep":
            main += f"d = dependency({', '.join(map(lit, st[1]))}{kwargs(st[2])})\n"
            main += "if is_disabler(d)\n  message('L disabler')\nelif d.found()\n  message('L true', d.version(), d.type_name(), d.get_variable('from', default_value: '-'), d.include_type())\nelse\n  message('L false')\nendif\n"
        elif st[0] == "find":
            main += f"d = find_program({', '.join(map(lit, st[1]))}{kwargs(st[2])})\n"
            main += "if is_disabler(d)\n  message('L disabler')\nelif d.found()\n  message('L true', d.full_path())\nelse\n  message('L false')\nendif\n"
    if sc.get("subdir"):
        w += [("w", "w/sd/meson.build", main.split("\n", 1)[1]), ("w", "w/meson.build", main.split("\n", 1)[0] + "\nsubdir('sd')\n")]
    else:
        w.append(("w", "w/meson.build", main))
    w.append(("w", "w/meson_options.txt", "".join(f"option('{n}', type: 'feature', value: '{n}')\n" for n in ("enabled", "disabled", "auto"))))
    for n, v in sc.get("pc", {}).items():
        w.append(("w", f"pc/{n}.pc", f"from=pc:{n}\nName: {n}\nDescription: x\nVersion: {v}\nCflags: -DPC\n"))
    for n, v in sc.get("progs", {}).items():
        w.append(("w", n.replace("PATH/", "bin/") if n.startswith("PATH/") else "w/" + n, script(v), 0o755))
    for n, sp in sc.get("subs", {}).items():
        t = f"project('{n}'" + (f", version: '{sp['version']}'" if sp.get("version") else "") + ")\nmessage('S', meson.project_name(), get_option('default_library'), get_option('o'))\n"
        w.append(("w", f"w/subprojects/{n}/meson_options.txt", "option('o', type: 'string', value: 'd')\n"))
        for it in sp["body"]:
            if it[0] == "error":
                t += "error('no')\n"
            elif it[0] == "var":
                t += f"{it[1]} = {depspec(n, it[2])}\n"
            elif it[0] == "over":
                t += over(n, it)
            elif it[0] == "prog":
                t += f"meson.override_find_program('{it[1]}', files('{it[1]}'))\n"
                w.append(("w", f"w/subprojects/{n}/{it[1]}", script(sp["version"]), 0o755))
        w.append(("w", f"w/subprojects/{n}/meson.build", t))
    for n, provides in sc.get("wraps", {}).items():
        t = "[wrap-file]\ndirectory = %s\n[provide]\n" % n
        for key, kind in (("dependency_names", "dep"), ("program_names", "prog")):
            l = [x[1] for x in provides if x[0] == kind and not x[2]]
            if l:
                t += f"{key} = {', '.join(l)}\n"
        t += "".join(f"{x[1]} = {x[2]}\n" for x in provides if x[2])
        w.append(("w", f"w/subprojects/{n}.wrap", t))
    return w


def check(c, sc):
    want = World(sc).run()
    opts = [f"-D{k}={v}" for k, v in {**{"default_library": "shared"}, **sc.get("opts", {})}.items()]
    env = {"PKG_CONFIG_PATH": c.d + "/pc", "PKG_CONFIG_LIBDIR": "/none", "PATH": f"{c.d}/bin:/usr/bin:/bin"}
    r, = c.go(files(sc) + [("r", ["setup", *opts, "b"], "w", env)])
    got = []
    for m in r.messages():
        if m.startswith("L ") or m == "L":
            m = m[2:].strip()
            m = m.replace(f"{c.d}/bin/", "PATH/").replace(f"{c.d}/w/over-", "main:").replace(f"{c.d}/w/sd/over-", "main:")
            for n in sc.get("subs", {}):
                m = m.replace(f"{c.d}/w/subprojects/{n}/", n + ":")
            got.append(m.replace(f"{c.d}/w/", "").replace("null", "None"))
        elif m.startswith("S "):
            got.append(m.strip())
    if r.rc not in (0, 1):
        return f"muon ended with {r.rc}: {r.out[-300:]}", ()
    if r.rc:
        got.append("ERROR")
    if got != want:
        return f"{got} instead of {want}", ()
    return None, (tuple(want), repr(sc["steps"]))


BODIES = {
    "var": [("var", "a_dep", ("a_dep", "2.0"))],
    "var nover": [("var", "a_dep", ("a_dep", None))],
    "over": [("over", "a", None, ("a", "2.0"))],
    "over nover": [("over", "a", None, ("a", None))],
    "over static": [("over", "a", True, ("as", "2.0"))],
    "over shared": [("over", "a", False, ("ad", "2.0"))],
    "over both": [("over", "a", True, ("as", "2.0")), ("over", "a", False, ("ad", "2.0")), ("var", "a_dep", ("a_dep", "4.0"))],
    "over b": [("over", "b", None, ("b", "2.0")), ("var", "a_dep", ("a_dep", "4.0"))],
    "over notfound": [("over", "a", None, "notfound"), ("var", "a_dep", ("a_dep", "2.0"))],
    "error": [("error",)],
    "over error": [("over", "a", None, ("a", "2.0")), ("error",)],
    "var str": [("var", "a_dep", "str")],
    "var notfound": [("var", "a_dep", "notfound")],
    "none": [],
}
WRAPS = {
    "sp": lambda: {},
    "sp wrap": lambda: {"sp": []},
    "sp names": lambda: {"sp": [("dep", "a", None), ("dep", "b", None)]},
    "sp vars": lambda: {"sp": [("dep", "a", "a_dep"), ("dep", "b", "a_dep")]},
}
FB = [{}, {"fallback": []}, {"fallback": "sp"}, {"fallback": ["sp", "a_dep"]}, {"fallback": ["sp", "nope"]}, {"fallback": "nosub"},
      {"allow_fallback": True}, {"allow_fallback": False}]
NAMES = [["a"], ["b"], ["b", "a"], ["a", "b"], ["zz", "a"]]
PCS = [{}, {"a": "1.0"}, {"b": "1.0"}, {"a": "1.0", "b": "3.0"}]
REQ = [True, False, "auto", "disabled", "enabled"]
VERS = [None, ">=1.5", ">=3", "<1.5", [">=1", "<2"], []]
OPTS = [{}, {"wrap_mode": "nofallback"}, {"wrap_mode": "forcefallback"}, {"wrap_mode": "nodownload"}, {"force_fallback_for": "a"}, {"force_fallback_for": "sp"},
        {"force_fallback_for": "b", "wrap_mode": "nofallback"}, {"default_library": "static"}, {"default_library": "both"}]
PRE = [[], [("sub", "sp", {"required": False})], [("over", "a", None, ("m", "1.2"))], [("over", "a", True, ("ms", "1.2"))], [("over", "b", False, ("mb", "1.2"))],
       [("over", "a", None, "notfound")], [("dep", ["a"], {"required": False})], [("dep", ["b"], {"required": False, "allow_fallback": True})],
       [("dep", ["b", "a"], {"required": False, "version": ">=1.5"})], [("sub", "sp", {"version": ">=6", "required": False})], [("sub", "sp", {"version": "<9"})], [("sub", "sp", {"default_options": ["o=s", "default_library=static"]})]]
DIMS = [list(BODIES), list(WRAPS), PCS, NAMES, REQ, VERS, [None, True, False], FB, OPTS, PRE, [False, True], ["5", None], ["sp", "a"],
        [None, ["o=x"], ["o=x", "o=y"], ["default_library=both"], ["default_library=static", "o=y"]]]


def dcase(body, wrap, pc, names, req, vers, static, fb, opts, pre, disabler, spver, spname, defaults=None):
    kw = {}
    if req is not True:
        kw["required"] = req
    if vers is not None:
        kw["version"] = vers
    if static is not None:
        kw["static"] = static
    kw.update(fb)
    if disabler:
        kw["disabler"] = True
    if defaults:
        kw["default_options"] = defaults
    sc = {"pc": pc, "subs": {"sp": {"version": spver, "body": BODIES[body]}}, "wraps": WRAPS[wrap](), "opts": opts, "steps": pre + [("dep", names, kw)]}
    if spname == "a":
        sc = eval(repr(sc).replace("'sp'", "'a'"))
    return sc


def dcases(strength):
    """all combinations of up to `strength` deviations from several base cases"""
    bases = [("over", "sp", {}, ["a"], True, None, None, {"fallback": "sp"}, {}, [], False, "5", "sp", None),
             ("var", "sp wrap", {"a": "1.0"}, ["a"], False, None, None, {"fallback": ["sp", "a_dep"]}, {}, [], False, "5", "sp", None),
             ("over both", "sp names", {"b": "1.0"}, ["a"], True, ">=1.5", None, {}, {}, [], False, "5", "sp", None),
             ("var nover", "sp vars", {}, ["b", "a"], False, None, None, {"allow_fallback": True}, {"wrap_mode": "forcefallback"}, [], False, "5", "sp", None),
             ("over", "sp", {}, ["a"], True, None, None, {}, {}, [], False, "5", "a", None)]
    seen = set()
    for b in bases:
        for n in range(strength + 1):
            for pos in itertools.combinations(range(len(DIMS)), n):
                for vals in itertools.product(*[[v for v in DIMS[p] if v != b[p]] for p in pos]):
                    c = list(b)
                    for p, v in zip(pos, vals):
                        c[p] = v
                    k = repr(c)
                    if k in seen:
                        continue
                    seen.add(k)
                    c = dcase(*c)
                    try:
                        World(c).run()
                    except Skip:
                        continue
                    yield c


PAIR_NAMES = [["a"], ["b"], ["b", "a"], ["zz", "a"]]
PAIR_KW = [{"required": False}, {"required": False, "static": True}, {"required": False, "static": False}, {"required": False, "version": ">=1.5"},
           {"required": False, "include_type": "system"}, {"required": False, "include_type": "non-system"}, {"required": False, "fallback": ["sp", "a_dep"]},
           {"required": False, "allow_fallback": True}, {"required": False, "allow_fallback": False}]


def paircases(thorough, n=2):
    """all sequences of n lookups in a few worlds"""
    steps = [("dep", a, b) for a in PAIR_NAMES for b in PAIR_KW] + [("sub", "sp", {"required": False})]
    worlds = []
    for body in ("over", "over static", "over shared", "var", "over notfound") if thorough else ("over", "over static"):
        for wrap in ("sp", "sp names") if thorough else ("sp names",):
            for pc in ({}, {"a": "1.0"}, {"b": "1.0"}):
                worlds.append((body, wrap, pc))
    sysb = [("over", "a", None, ("a", "2.0", "sys")), ("var", "a_dep", ("a_dep", "2.0", "sys"))]
    for body, wrap, pc in worlds + [(sysb, "sp", {}), (sysb, "sp names", {"b": "1.0"})]:
        for seq in itertools.product(steps, repeat=n):
            sc = {"pc": pc, "subs": {"sp": {"version": "5", "body": BODIES[body] if isinstance(body, str) else body}}, "wraps": WRAPS[wrap](), "steps": list(seq)}
            try:
                World(sc).run()
            except Skip:
                continue
            yield sc


PLACES = [{}, {"PATH/p": "1.0"}, {"p": "2.0"}, {"d1/p": "3.0"}, {"PATH/q": "1.0"}, {"sd/p": "2.5"}]
PNAMES = [["p"], ["q", "p"], ["p", "q"], ["zz", "p"], ["d1/p"], ["", "p"]]
PBODIES = [[("prog", "p")], [("prog", "p"), ("prog", "q")], [], [("error",)], [("prog", "p"), ("error",)]]


def findcases(thorough):
    for places in (PLACES if not thorough else []) + [{**a, **b, **c} for a, b, c in itertools.combinations(PLACES, 3)]:
        for names in PNAMES:
            for dirs in ([], ["d1"], ["d2", "d1"]):
                for vers in (None, ">=2", [">=1.5", "<3"], []):
                    for req in (True, False, "auto", "disabled"):
                        for sub in (False, True):
                            for wrap, body in [(False, [])] + [(True, b) for b in PBODIES]:
                                for mode in ("default", "nofallback", "forcefallback"):
                                    if not wrap and mode != "default":
                                        continue
                                    for pre in ([], [("prog", "p")], [("find", ["p"], {"required": False})]):
                                        n = (dirs != []) + (vers is not None) + (req is not True) + sub + (mode != "default") + (pre != []) + (body == [] and wrap)
                                        if n > (4 if thorough else 2 if len(names) == 1 else 1):
                                            continue
                                        kw = {}
                                        if req is not True:
                                            kw["required"] = req
                                            if vers:
                                                kw["disabler"] = True
                                        if dirs:
                                            kw["dirs"] = dirs
                                        if vers is not None:
                                            kw["version"] = vers
                                        yield {"progs": places, "subs": {"sp": {"version": "5", "body": body}} if wrap else {},
                                               "wraps": {"sp": [("prog", "p", None), ("prog", "q", None)]} if wrap else {},
                                               "opts": {"wrap_mode": mode} if mode != "default" else {}, "subdir": sub, "steps": pre + [("find", names, kw)]}


def main():
    ck = mv.Check("C08", "exploration")
    cases = list(dcases(3 if ck.thorough else 2)) + list(paircases(ck.thorough)) + list(findcases(ck.thorough))
    clicheck.run(ck, cases, check)
    ck.add(exhaustive=True, rule="every world up to 2 (3) choices away from 5 bases over 13 dimensions, pairs of lookups, and program lookups: what is found, where, or that it fails, is what the model of the documented order says")
    ck.sample("dependency('b', 'a', version: '>=1.5', fallback: ['sp', 'a_dep']) after subproject('sp', required: false)")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
