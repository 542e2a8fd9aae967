#!/usr/bin/env python3
"""L13: muon analyze ends with its report for every program, reports no error in a program that runs, and reports calls that cannot be right, variables that cannot be
defined and variables that are never read."""
import collections
import itertools
import os
import re
import subprocess
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import mv
import L07_misuse as misuse

_C = {}
# not one statement among others: they end the file or start another one
ALONE = re.compile(r"project\(|subdir\(|error\(|assert\(|subdir_done|^(not |- )|^[\w.]+$|\nx\.y|\bv_nul\b")  # (a NUL where C strings are used ends muon at once, with a message)
# values whose type the analyzer cannot know: elements of lists, options, disablers
UNKNOWN = re.compile(r"\bo_(file|inc|obj|dis|fd|fe|fa|cti|rng)\b|\blo_")
# errors that depend on nothing but the number, the names and the types of the arguments
TYPES = re.compile(r"err(?:or)? (?:expected type|too many arguments|this function does not accept|invalid kwarg|non-kwarg after|missing required kwarg|missing positional|keyword argument .* set twice)")
# functions that look at the types of what is in their arguments themselves
OWN = re.compile(r"^(x = )?(summary|get_variable|message|import)\(|\benv: |variables: |\b(not )?in\b|target_type: |\bsoversion: |\bversion: |private_dir_include|get_option|configuration: |environment\(|vs_module_defs: |darwin_versions: |build_target\('zz', 'm.c'\)")
# analyze is stricter on purpose about comparing values of different types, about lists of one where a single value is meant, and about nothing (void)
STRICT = re.compile(r" [=!]= |\bo_dis\b|\[(o_|\[)|message\('x'\)")


def analyze(d, text, flags=("-q",)):
    with open(os.path.join(d, "src", "meson.build"), "w") as f:
        f.write(text)
    try:
        r = subprocess.run([_C["muon"], "analyze", *flags], cwd=os.path.join(d, "src"), capture_output=True, text=True, errors="replace", timeout=120)
    except subprocess.TimeoutExpired:
        return "hangs", "", {}
    out = r.stdout + r.stderr
    at = collections.defaultdict(list)
    for m in re.finditer(r"meson\.build:(\d+):(\d+): (error|err|warn|warning) (.*)", out):
        at[int(m[1])].append((m[3][0], m[4], int(m[2])))
    return r.returncode, out, at


def batch(d, progs):
    """{index of program: errors}; or how it ended"""
    text = misuse.WORLD
    n = text.count("\n") + 1
    owner = {}
    for i, p in enumerate(progs):
        for k in range(p.count("\n") + 1):
            owner[n + k] = i
        n += p.count("\n") + 1
        text += p + "\n"
    rc, out, at = analyze(d, text)
    if rc not in (0, 1):
        return rc, out, {}
    return rc, out, {owner.get(l, -l): [m for _, m, _ in ms] for l, ms in at.items()}


def crash(d, progs):
    """the first program with which analyze does not end as it should"""
    while len(progs) > 1:
        h = len(progs) // 2
        rc, _, _ = batch(d, progs[:h])
        progs = progs[:h] if rc not in (0, 1) else progs[h:]
    rc, out, _ = batch(d, progs)
    return (progs[0], rc, out) if rc not in (0, 1) else None


def work_calls(progs):
    bad, n = [], collections.Counter()
    with mv.Scratch("l13") as d:
        os.chmod(d, 0o755)
        os.chown(d, misuse.UID, misuse.UID)
        misuse.world(d)
        s = misuse.Srv(_C["rel"], d, _C["muon"], misuse.UID)
        ok, fail = [], []
        for p in progs:
            if ALONE.search(p):
                continue
            st, out = s.run(p)
            if st == 0:
                ok.append(p)
            else:
                fail.append((p, out))
        s.close()
        for group, ps in (("ok", ok), ("fail", [p for p, _ in fail])):
            while ps:
                rc, out, at = batch(d, ps)
                if rc in (0, 1):
                    break
                c = crash(d, ps)
                if not c:
                    raise mv.Infra("analyze ends with %r on many programs and not on any of them" % rc)
                bad.append((f"muon analyze {c[0]!r} ends with {c[1]}: {c[2][-200:]}", "crash " + c[0]))
                ps = [p for p in ps if p != c[0]]
            else:
                continue
            for l, ms in at.items():
                if l < 0:
                    bad.append((f"muon analyze finds an error in the project itself: line {-l}: {ms[0]}", f"world {-l}"))
            if group == "ok":
                for i, p in enumerate(ps):
                    n["runs"] += 1
                    if i in at and not STRICT.search(p):
                        bad.append((f"muon analyze reports an error in what runs: {p!r}: {at[i][0]}", "false " + p))
            else:
                errs = {p: o for p, o in fail}
                for i, p in enumerate(ps):
                    if TYPES.search(errs[p]) and not UNKNOWN.search(p) and not OWN.search(p):
                        n["misuses"] += 1
                        if i not in at:
                            bad.append((f"muon analyze does not report {p!r}: {re.search(r'err.*', errs[p])[0]}", "missed " + p))
                n["fails"] += len(ps)
    return n, bad


# ---- variables.  A program is a tree of statements; conditions and lists are options, so unknown to the analyzer.
ATOMS = ["x = 1", "x = 'a'", "y = x", "message(x)", "x += 1", "message(x + 1)", "x += 'b'", "unset_variable('x')", "message(is_variable('x'))", "message(y)"]
CONDS = list(itertools.product((False, True), ([], [None, None]), (False, True)))


class Err(Exception):
    pass


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


def run(prog, c, l, e=False):
    """carries out the program; -> (how it fails or None, assignments whose value is read)"""
    env, read = {}, set()
    steps = [0]

    def rd(v):
        if v not in env:
            raise Err("undefined")
        read.update(env[v][1])
        return env[v][0]

    def stmts(b, path):
        for i, s in enumerate(b):
            stmt(s, path + (i,))

    def stmt(s, at):
        if isinstance(s, tuple):
            if s[0] == "if":
                stmts(s[1 if c else 2], at + (1 if c else 2,))
            elif s[0] == "if3":
                k = 1 if c else 2 if e else 3
                stmts(s[k], at + (k,))
            else:
                for v in l:  # elements of an option: of a type the analyzer cannot know
                    env["i"] = (v, {("i",)})
                    try:
                        stmts(s[1], at + (1,))
                    except Brk:
                        break
                    except Cnt:
                        continue
        elif s == "break":
            raise Brk
        elif s == "continue":
            raise Cnt
        elif s == "x = 1":
            env["x"] = (1, {at})
        elif s == "x = 'a'":
            env["x"] = ("a", {at})
        elif s == "x = i":
            env["x"] = (rd("i"), {at})
        elif s == "y = x":
            env["y"] = (rd("x"), {at})
        elif s in ("message(x)", "message(y)"):
            rd(s[8])
        elif s in ("x += 1", "x += 'b'"):
            old = rd("x")
            v = 1 if s == "x += 1" else "b"
            if old is not None and type(old) != type(v):
                raise Err("type")
            env["x"] = (None if old is None else old + v, {at})
        elif s == "message(x + 1)":
            if isinstance(rd("x"), str):
                raise Err("type")
        elif s == "unset_variable('x')":
            if "x" not in env:
                raise Err("undefined")
            del env["x"]
        elif s == "message(is_variable('x'))":
            pass
        else:
            raise AssertionError(s)
    try:
        stmts(prog, ())
    except Err as e:
        return e.args[0], read
    return None, read


def text(prog, suf):
    """the lines of a program, and the line of each assignment"""
    out, where = [], {}

    def go(b, path, ind):
        for i, s in enumerate(b):
            at = path + (i,)
            if isinstance(s, tuple):
                if s[0] == "if":
                    out.append(ind + "if c")
                    go(s[1], at + (1,), ind + "  ")
                    if s[2]:
                        out.append(ind + "else")
                        go(s[2], at + (2,), ind + "  ")
                    out.append(ind + "endif")
                elif s[0] == "if3":
                    for k, head in enumerate(("if c", "elif e", "else")):
                        if s[k + 1]:
                            out.append(ind + head)
                            go(s[k + 1], at + (k + 1,), ind + "  ")
                    out.append(ind + "endif")
                else:
                    out.append(ind + "foreach i : l")
                    go(s[1], at + (1,), ind + "  ")
                    out.append(ind + "endforeach")
            else:
                if re.match(r"[xy] \+?= ", s):
                    where[at] = len(out)
                out.append(ind + re.sub(r"\b([xy])\b(?! *')", lambda m: m[1] + suf, re.sub(r"'x'", f"'x{suf}'", s)))
    go(prog, (), "")
    return out, where


def structures(bodies):
    for b in bodies:
        yield ("if", b, [])
        yield ("for", b)


def flows(deep):
    one = [[a] for a in ATOMS]
    atoms = list(ATOMS)
    small = atoms + list(structures(one))
    ifelse = [("if", a, b) for a in one for b in one]
    two = [("for", [a, b]) for a in ATOMS + ["x = i"] for b in ATOMS + ["break", "continue"]] + [("for", [("if", [k], [])] + a) for k in ("break", "continue") for a in one] + \
        [("if", [a, b], []) for a in ATOMS for b in ATOMS]
    nest = [("if", [s], []) for s in structures(one)] + [("for", [s]) for s in structures(one)] + [("for", [("if", a, b)]) for a in one[:6] for b in one[:6]]
    for s in small:
        yield [s]
    for t in itertools.product(small, repeat=2):
        yield list(t)
    for t in itertools.product(small, repeat=3):
        yield list(t)
    for s in ifelse + two + nest:
        for a in [[]] + [[x] for x in atoms]:
            for b in [[]] + [[x] for x in atoms]:
                yield a + [s] + b
    three = ["x = 1", "x = 'a'", "message(x)", "x += 1", "y = x", None]
    for t in itertools.product(three, repeat=3):
        if t[0] and t[1]:
            s = ("if3",) + tuple([a] if a else [] for a in t)
            for a in [[], ["x = 1"], ["x = 'a'"]]:
                for b in [[], ["message(x)"], ["y = x"], ["x += 1"], ["message(y)"]]:
                    yield a + [s] + b
            yield ["x = 1", ("for", [s]), "message(x)"]
    if deep:
        for t in itertools.product(atoms[:8], small, small, atoms[1:]):
            yield list(t)
        for a, b in itertools.product(ifelse, ifelse):
            yield [a, b]
            yield ["x = 1", a, b]


HEAD = "project('p')\nc = get_option('c')\nl = get_option('l')\ne = get_option('e')\nmessage(c, l, e)\n"


def work_flows(progs):
    bad, n = [], collections.Counter()
    with mv.Scratch("l13") as d:
        os.makedirs(os.path.join(d, "src"))
        with open(os.path.join(d, "src", "meson_options.txt"), "w") as f:
            f.write("option('c', type: 'boolean')\noption('e', type: 'boolean')\noption('l', type: 'array', value: ['1'])\n")
        lines = HEAD.splitlines()
        info = []
        for k, p in enumerate(progs):
            t, where = text(p, f"_{k}")
            info.append((len(lines) + 1, t, where))
            lines += t
        rc, out, at = analyze(d, "\n".join(lines) + "\n", ("-W", "unused-variable"))
        if rc not in (0, 1):
            return n, [(f"muon analyze ends with {rc} on flows: {out[-200:]}", "crash flows")]
        for (l0, t, where), p in zip(info, progs):
            r = [run(p, *c) for c in CONDS]
            fails = [x[0] for x in r]
            errs = [m for l in range(l0, l0 + len(t)) for k, m, _ in at.get(l, []) if k == "e"]
            show = "; ".join(x.strip() for x in t)
            n["flows"] += 1
            if not any(fails):
                n["flows that run"] += 1
                if errs:
                    bad.append((f"muon analyze reports an error in what runs whatever the options: {show}: {errs[0]}", "flow false " + repr(p)))
            # (types are merged where paths meet, and what one path unsets may be there)
            elif all(f == "undefined" and not any(isinstance(s, tuple) and "unset" in repr(s) for s in p) or (f and all(isinstance(s, str) for s in p)) for f in fails):
                n["flows that fail"] += 1
                if not errs:
                    bad.append((f"muon analyze does not report that this fails whatever the options: {show}", "flow missed " + repr(p)))
            # unused variables
            if any(fails):
                continue
            used = set().union(*(x[1] for x in r))
            names = " ".join(t)
            for pl, ln in where.items():
                warned = any("unused variable" in m for k, m, _ in at.get(l0 + ln, []))
                v = t[ln].split()[0]
                if pl in used and warned:
                    bad.append((f"muon analyze calls a variable unused that is read: {show}: line {ln + 1}", "flow unused " + repr(p)))
                elif not warned and len(re.findall(r"\b%s\b" % v, names)) == 1 and "is_variable" not in names:
                    bad.append((f"muon analyze does not call a variable unused that is never read: {show}: line {ln + 1}", "flow used " + repr(p)))
    return n, bad


SURE = re.compile(r"err(?:or)? (expected type|unsupported operator|too many arguments|this function does not accept|invalid kwarg|non-kwarg after|missing required kwarg|missing positional|undefined (variable|object)|function .* not found).*")
# conditions the analyzer does not work out: both ways are ways the program may take
HARD = re.compile(r"^((?:el)?if )(.*\b(?:and|or|in|is_variable|u)\b.*)$", re.M)
# whether the value that is looked for can be in the other is not looked at; that a path to an ending exists is enough for its type to matter
FREE = re.compile(r"\) in |if a == a")


def ways(p):
    """the programs that p may turn out to be"""
    out = [p]
    while any(HARD.search(q) for q in out):
        out = [HARD.sub(lambda m: m[1] + v, q, count=1) for q in out for v in ("v_true", "v_false")]
    return [q if not u else f"u = {u}\n{q}" for q in out for u in (("v_true", "v_false") if re.search(r"\bu\b", q) else ("",))]


# ---- what is known before anything runs: literals, operators, conditions that are literals, and functions of scripts
LEAVES = ["1", "0", "'a'", "'1'", "true", "false", "[]", "[1]", "['a', 2]", "{}", "{'k': 1}"]
BIN = ["+", "-", "*", "/", "%", "<", ">=", "and", "or", "in", "not in"]


def exprs(deep):
    e1 = [f"{a} {o} {b}" for a in LEAVES for o in BIN for b in LEAVES]
    e1 += [f"{o}{a}" for o in ("not ", "-") for a in LEAVES]
    e1 += [f"{a}[{b}]" for a in LEAVES for b in ("0", "1", "-1", "'k'", "'z'", "true", "[1]")]
    e1 += [f"{c} ? {a} : {b}" for c in LEAVES for a in LEAVES[::2] for b in LEAVES[1::2]]
    meth = ["to_upper()", "to_string()", "to_int()", "length()", "keys()", "get(0)", "get('k')", "contains('a')", "has_key('k')", "is_odd()", "split()", "strip(1)", "join('a')", "nope()"]
    e1 += [f"{a}.{m}" for a in LEAVES for m in meth]
    yield from e1
    for o in ("+", "and", "*", "in"):
        for x in e1[:: 1 if deep else 9]:
            for b in ("1", "'a'", "true", "[1]"):
                yield f"({x}) {o} {b}"
                if deep:
                    yield f"{b} {o} ({x})"
    for x in e1[:: 1 if deep else 7]:
        for m in ("to_upper()", "to_string()", "length()"):
            yield f"({x}).{m}"
        yield f"({x}) ? 1 : 'a'"
        yield f"(({x}) ? 1 : 'a') + 1"
        yield f"({x})[0]"


def statements(deep):
    for e in exprs(deep):
        yield f"x = {e}"
    conds = ["true", "false", "not true", "1 > 2", "'a' in ['a']", "true and false", "false or true", "1", "'a'", "2 > 1 ? true : false", "-1 < 0", "'ab'[0] in 'a'", "is_variable('q')", "u", "not u",
             "u or true", "u and false", "true and u", "false and u", "[] == [] and u"]
    bodies = ["x = 1", "x = 'a'", "x += 1", "message(zz)", "x = [x]", "error('no')"]
    ends = ["y = x + 1", "y = x + 'a'", "y = 1", "message(zz)"]
    for c in conds:
        for b in bodies:
            for f in [None] + bodies:
                for e in ends:
                    for i in ("x = 2", ""):
                        yield f"{i}\nif {c}\n{b}\n" + (f"else\n{f}\n" if f else "") + f"endif\n{e}"
        for d in conds[:8] + ["u"]:
            for b, f in itertools.product(bodies[:4:1 if deep else 2], repeat=2):
                for e in ends[:2]:
                    yield f"x = 2\nif {c}\n{b}\nelif {d}\n{f}\nendif\n{e}"
                    yield f"if {c}\n{b}\nelif {d}\n{f}\nelse\nx = 3\nendif\n{e}"
    for it in LEAVES + ["[1, 2]", "[['a']]", "{'a': 'b'}", "range(2)", "range('a')"]:
        for v in ("i", "i, j"):
            for b in ("x = i", "x = i + 1", "x = i + 'a'", "x += 1", "message(j)", "break", "continue"):
                for e in ends:
                    yield f"x = 2\nforeach {v} : {it}\n{b}\nendforeach\n{e}"


def scripts(deep):
    """functions, with what they take and give, and calls of them"""
    types = {"int": ["1"], "str": ["'a'"], "bool": ["true"], "list[str]": ["['a']", "[]", "[1]"], "dict[int]": ["{'k': 1}", "{'k': 'a'}"], "int|str": []}
    vals = ["1", "'a'", "true", "['a']", "[1]", "{'k': 1}", "{'k': 'a'}"]
    bodies = ["return a", "return 1", "return 'a'", "", "a += 1\nreturn a", "return zz", "return f2(a)", "foreach i : [1]\nreturn i\nendforeach\nreturn 2", "if a == a\nreturn a\nendif\nreturn 'z'"]
    for t in types:
        for r in ("", " -> int", " -> str", " -> " + t):
            for b in bodies:
                for v in vals:
                    for use in (f"x = f({v})", f"f({v})", f"x = f({v}) + 1"):
                        yield f"func f2(a any) -> any\nreturn a\nendfunc\nfunc f(a {t}){r}\n{b}\nendfunc\n{use}"
    for sig in ("", "a int", "a int, b str", "k str:", "a int, k str:", "a int, k int: 1", "a glob[int]", "a listify[int]"):
        for args in ("", "1", "'a'", "1, 'a'", "1, 2", "1, 'a', 3", "k: 'a'", "1, k: 'a'", "1, k: 2", "k: 'a', z: 1", "1, k: 'a', k: 'b'", "[1]", "['a']"):
            yield f"func f({sig}) -> int\nreturn 1\nendfunc\nx = f({args})"
            yield f"func f({sig}) -> int\nreturn 1\nendfunc\ng = f\nx = g({args})"


def work_exprs(job):
    kind, progs = job
    bad, n = [], collections.Counter()
    with mv.Scratch("l13") as d:
        os.chmod(d, 0o755)
        os.chown(d, misuse.UID, misuse.UID)
        results = []
        if kind == "exprs":
            misuse.world(d)
            s = misuse.Srv(_C["rel"], d, _C["muon"], misuse.UID)
            for p in progs:
                results.append([s.run(q) for q in ways(p)])
            s.close()
            with open(os.path.join(d, "src", "meson_options.txt"), "w") as h:
                h.write("option('u', type: 'boolean')\n")
        f = os.path.join(d, "src", "x.meson")
        os.makedirs(os.path.dirname(f), exist_ok=True)
        for k, p in enumerate(progs):
            if kind == "exprs":
                rc, out, at = analyze(d, "project('p')\nu = get_option('u')\n" + p + "\n")
            else:
                with open(f, "w") as h:
                    h.write(p + "\n")
                r = subprocess.run([_C["muon"], "internal", "eval", "-s", f], capture_output=True, text=True, errors="replace", timeout=60, cwd=d)
                results.append([(r.returncode, r.stdout + r.stderr)])
                r = subprocess.run([_C["muon"], "analyze", "-q", "-i", f], capture_output=True, text=True, errors="replace", timeout=60, cwd=d)
                rc, out = r.returncode, r.stdout + r.stderr
            errs = re.findall(r": (?:err|error) (.*)", out)
            n[kind] += 1
            if rc not in (0, 1) or (rc == 1) != bool(errs):
                bad.append((f"muon analyze {p!r} ends with {rc}: {out[-200:]}", "crash " + p))
            elif not any(st for st, _ in results[k]):
                n[kind + " that run"] += 1
                if errs and not FREE.search(p):
                    bad.append((f"muon analyze reports an error in what runs: {p!r}: {errs[0]}", "false " + p))
            elif all(st and SURE.search(o) for st, o in results[k]) and not FREE.search(p) and not re.search("^(if|elif) (?!u$)", p, re.M) and (
                    "if" not in p or all("undefined" in o for _, o in results[k])):  # (what is assigned under a condition that is a literal is not told apart; types are merged where paths meet)
                n[kind + " that fail"] += 1
                if not errs:
                    bad.append((f"muon analyze does not report {p!r}: {SURE.search(results[k][0][1])[0]}", "missed " + p))
    return n, bad


def work(job):
    return {"calls": work_calls, "flows": work_flows}[job[0]](job[1]) if job[0] in ("calls", "flows") else work_exprs(job)


def main():
    ck = mv.Check("L13", "exploration")
    _C["rel"] = mv.build_harness("misuse", ["misuse.c"], "rel")
    _C["muon"] = mv.muon("rel")
    fs = misuse.functions(subprocess.run([_C["muon"], "internal", "dump_funcs"], capture_output=True, text=True).stdout)
    if len(fs) < 150:
        raise mv.Infra("muon internal dump_funcs lists only %d functions" % len(fs))
    calls = list(dict.fromkeys(misuse.programs(fs, 1 if ck.thorough else 0)))
    k = max(1, len(calls) // 900)
    jobs = [("calls", calls[i::k]) for i in range(k)]
    fl = list(flows(ck.thorough))
    jobs += [("flows", fl[i:i + 400]) for i in range(0, len(fl), 400)]
    for kind, ps in (("exprs", list(dict.fromkeys(statements(ck.thorough)))), ("scripts", list(dict.fromkeys(scripts(ck.thorough))))):
        jobs += [(kind, ps[i:i + 300]) for i in range(0, len(ps), 300)]
    if os.environ.get("L13_ONLY"):
        jobs = [j for j in jobs if j[0] in os.environ["L13_ONLY"]]
    tot, seen = collections.Counter(), collections.Counter()
    for n, bad in mv.pmap(work, jobs):
        tot.update(n)
        ck.add(evaluations=n["runs"] + n["fails"] + n["flows"] + n["exprs"] + n["scripts"])
        for what, key in bad:
            c = re.sub(r"'[^']*'|\d+|\b[vlod]_\w+", "_", what)[:70]
            if seen[c] < int(os.environ.get("L13_SEEN") or 5):
                ck.violation(what, key, key=key)
            seen[c] += 1
    ck.add(distinct_nontrivial=tot["runs"] + tot["misuses"] + tot["flows that run"] + tot["flows that fail"], by_kind=dict(tot), functions=len(fs), exhaustive=True,
           rule="the calls and operations of L07: none ends analyze, those that run have no error, misuses that names, numbers and types of arguments show have one; "
           "sequences and nestings of assignments, uses, if, else, foreach, break, continue and unset under unknown conditions and lists: no error where none of the "
           "choices fails, one where all do; unused variables")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
