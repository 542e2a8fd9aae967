#!/usr/bin/env python3
"""L08: muon fmt keeps the meaning and the comments of every program, and has nothing to change in its own output."""
import itertools
import os
import re
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import mv

TOK = re.compile(r"[ \t]+|#[^\n]*|\n|f?'''(?:.|\n)*?'''|f?'(?:\\.|[^'\\])*'|\w+|\+=|==|!=|<=|>=|.", re.S)


def tokens(s):
    return [t for t in TOK.findall(s) if t.strip(" \t")]


def comments(s):
    return sorted(t[1:].strip() for t in tokens(s) if t.startswith("#"))


# one statement of every kind, and of every kind of operand in every container
STMTS = """x = 1
x = 'abc'
x = f'a@b@'
x = '''a
  b'''
x += [1]
x = [1, 'b', c]
x = {'a': 1, 'b': [c]}
x = [1, 2,]
x = {'a': 1,}
x = []
x = {}
x = f()
x = f(a)
x = f(a, b,)
x = f(a, k: b)
x = f(k: a, l: b,)
x = f([a, b], k: [c])
x = files('b', 'a')
x = files(['b', 'a/b'])
x = files('b', ['a'])
x = custom_target(command: ['a', '-b', 'c', '-d', '--e', f])
x = a.b()
x = a.b(c).d(e, k: f)
x = a[1]
x = a['k'][0].m()[b]
x = 'a'.format(b)
x = (1 + 2) * 3
x = 1 + 2 * 3 - 4 / 5 % 6
x = -a
x = not a
x = a and b or not c
x = (a or b) and c
x = a == b
x = a != b and c < d
x = a in b
x = a not in b
x = a ? b : c
x = (a ? b : c) ? d : e
x = a ? (b ? c : d) : e
if a
  x = 1
endif
if a and b
  x = 1
elif c or d
  x = 2
else
  x = 3
endif
if a
elif b
else
endif
foreach i : a
  f(i)
  continue
endforeach
foreach k, v : {'a': 1}
  break
endforeach
foreach i : [1, 2]
endforeach
if a
  if b
    foreach i : c
      x += i
    endforeach
  else
    f()
  endif
endif
f(a + b, c and d, e ? g : h, not i, j in k, -l)
x = [a + b, c and d, e ? g : h, not i, j in k, -l]
x = {'a' + b: c or d, 'e': g ? h : i}
x = a[b + c]
f(g(h(i)), [[j]], {'k': {'l': m}})
f('a', 'b').c('d').e('f')
test('a', b, args: ['-c', 'd'], env: {'e': 'f'}, timeout: 10)
"""


def programs():
    out, cur, depth, ml = [], "", 0, False
    for l in STMTS.split("\n"):
        cur += l + "\n"
        w = l.strip().split(" ")[0]
        if "'''" in l and l.count("'''") == 1:
            ml = not ml
        if ml:
            continue
        depth += w in ("if", "foreach")
        depth -= w in ("endif", "endforeach")
        if not depth and cur.strip():
            out.append(cur)
            cur = ""
    return out


OPEN, CLOSE = "([{", ")]}"
IN = ["\n", "  ", " # c1\n", "\n\n", "\n# c1\n", "\n\n# c1\n\n", " # c1\n# c2\n"]
EOL = [" # c1", "\n", "\n# c1", "\n\n\n# c1", " # c1\n# c2\n"]
SHORT = ["\n", " # c1\n", "\n# c1\n"]


def pieces(prog):
    """[(token, kind of the gap after it)]: i inside of brackets, o outside, n before a newline"""
    t = [x for x in TOK.findall(prog)]
    r, d = [], 0
    for i, x in enumerate(t):
        if x.strip(" \t") == "":
            continue
        nxt = next((y for y in t[i + 1:] if y.strip(" \t") != ""), None)
        sp = i + 1 < len(t) and t[i + 1].strip(" \t") == ""
        if x in OPEN and len(x) == 1:
            d += 1
        if x in CLOSE and len(x) == 1:
            d -= 1
        g = "e" if nxt is None else "n" if nxt == "\n" and d == 0 else "l" if x == "\n" and d == 0 else "i" if d else "o"
        ws = t[i + 1] if sp else ""
        r.append((x, ws, g))
    return r


def layouts(prog, npairs):
    P = pieces(prog)
    base = [x + w for x, w, g in P]
    slots = []
    for i, (x, w, g) in enumerate(P):
        if g == "i":
            slots += [(i, v) for v in IN]
        elif g == "n":
            slots += [(i, v) for v in EOL]
        elif g == "o" and w:
            slots.append((i, "   "))
        elif g == "l":
            slots += [(i, v) for v in ("\n", "# c0\n", "\n\n# c0\n\n")]
    yield prog
    for i, v in slots:
        yield "".join(base[:i] + [P[i][0] + v] + base[i + 1:])
    if npairs:
        few = [(i, v) for i, v in slots if v in SHORT or (P[i][2] == "n" and v in EOL[:3])]
        for (i, v), (j, u) in itertools.combinations(few, 2):
            if i != j and (npairs > 1 or j - i <= 2):
                yield "".join(base[:i] + [P[i][0] + v] + base[i + 1:j] + [P[j][0] + u.replace("c1", "c3")] + base[j + 1:])
    # everything at once
    for v in (("\n", ""), (" # c1\n", " # c2"), ("\n# c1\n", "\n# c2"), ("", " # c2")):
        yield "".join(x + (v[0] or w if g == "i" else v[1] or w if g == "n" else w) for x, w, g in P)


def exprs():
    """all pairs of operators, with and without parentheses, and long ones"""
    A = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"
    U = ["not {}", "-{}"]
    B = ["{} + {}", "{} - {}", "{} * {}", "{} / {}", "{} % {}", "{} == {}", "{} < {}", "{} in {}", "{} not in {}", "{} and {}", "{} or {}"]
    T = ["{} ? {} : {}"]
    W = ["f({})", "[{}]", "{{'k': {}}}", "a[{}]", "f(k: {})", "({})", "a.m({})"]
    for x in ("a", A):
        atoms = [x, x[:-1] + "b", x[:-1] + "c"]
        L1 = [o.format(*atoms) for o in U + B + T] + [o.format(atoms[0]) for o in W]
        for e in L1:
            yield e
            for o in U + B + T:
                for k in range(o.count("{}")):
                    args = ["d"] * o.count("{}")
                    for p in (e, "(" + e + ")"):
                        args[k] = p
                        yield o.format(*args)
            for o in W:
                yield o.format(e)


def exprprogs():
    for e in exprs():
        for w in ("x = {}\n", "x += {}\n", "if {}\n  f()\nendif\n", "foreach i : {}\n  f()\nendforeach\n", "f({})\n", "x = [{}]\n", "if a\nelif {}\nendif\n"):
            yield w.format(e)


CONFIGS = {
    "": "",
    "len0": "max_line_len = 0\n",
    "len9": "max_line_len = 9\n",
    "len20": "max_line_len = 20\n",
    "spacearray": "space_array = true\n",
    "kwa": "kwargs_force_multiline = true\n",
    "wide": "wide_colon = true\nindent_by = '\t'\n",
    "single": "no_single_comma_function = true\n",
    "all": "max_line_len = 15\nspace_array = true\nkwa_ml = true\nwide_colon = true\nno_single_comma_function = true\nindent_by = '  '\n",
}


def cases(deep):
    """(config, program)"""
    P = programs()
    for p in P:
        for q in layouts(p, 2 if deep else 1):
            for c in CONFIGS if deep else ("", "len9"):
                yield c, q
        if not deep:
            for q in layouts(p, 0):
                for c in CONFIGS:
                    if c not in ("", "len9"):
                        yield c, q
    for p in exprprogs():
        for c in CONFIGS if deep else ("", "len0", "len9", "all"):
            yield c, p
    for a in P:
        for b in P:
            yield "", a + b
            yield "", "# c0\n" + a + "# c1\n\n\n" + b + "# c2"
            if deep:
                yield "len9", "if z\n" + a + b + "endif\n"
    for s in ("", "\n", "\n\n", "# c", "# c\n", "\n# c\n\n", "   \n", "x = 1", "#\n#c\n", "x = 1\n\n\n\n", "\tx = 1 \t\n", "x=1\r\ny=2\r\n", "#c\r\nx = 1\r\n"):
        for c in CONFIGS:
            yield c, s


    for n in (10, 4093, 4094, 4095, 4096, 5000, 70000):
        for c in ("", "len9"):
            yield c, "x = 1 #" + "c" * n + "\n"
            yield c, "#" + "c" * n + "\nx = f(\n#" + "d" * n + "\n'" + "s" * n + "', " + "i" * n + ")\n"


LEX = re.compile(rb'\(|\)|"(?:[^"\\]|\\.)*"|[^\s()]+')


def tree(dump):
    """the printed AST as nested tuples, without empty nodes (a trailing comma or line is one)"""
    st = [[]]
    for t in LEX.findall(dump):
        if t == b"(":
            st.append([])
        elif t == b")":
            n = st.pop()
            # a child without content goes with its position
            r = []
            for x in n:
                if isinstance(x, tuple) and x[0] in (b"empty", b"empty_line", b"node_empty", b"node_empty_line"):
                    r.pop()
                    continue
                r.append(x)
            if len(r) == 1 and r[0] in (b"argument", b"block", b"node_argument", b"node_block"):
                r = [b"empty"]
            st[-1].append(files(tuple(r)))
        else:
            st[-1].append(t)
    return st[0]


def args(n):
    """the chain of arguments as a list"""
    r = []
    while isinstance(n, tuple) and n[0] == b"argument":
        d = dict(zip(n[1::2], n[2::2]))
        r.append((d.get(b"0"), d.get(b"1")))
        n = d.get(b"2")
    return r


def files(n):
    """files(): the arguments sorted, a lone list expanded (which means the same)"""
    if n[0] == b"function" and (b"id", b'"files"') in n:
        a = args(n[-1])
        if len(a) == 1 and a[0][0][0] == b"array":
            a = args(a[0][0][-1])
        return (b"files",) + tuple(sorted(map(repr, a)))
    return n


def work(chunk):
    S = WORK
    n, bad, seen = 0, [], set()
    a0 = S.batch([("p", p.encode()) for _, p in chunk])
    live = [(c, p, a[1]) for (c, p), a in zip(chunk, a0) if not isinstance(a, mv.Crash) and a[0] == 0]
    skipped = len(chunk) - len(live)
    f1 = S.batch([("f", ((os.path.join(DIR, c) if c else "") + "\n" + p).encode()) for c, p, _ in live])
    texts = [b"" if isinstance(f, mv.Crash) or f[0] else f[1] for f in f1]
    a1 = S.batch([("p", t) for t in texts])
    f2 = S.batch([("f", (os.path.join(DIR, c) if c else "").encode() + b"\n" + t) for (c, _, _), t in zip(live, texts)])
    for (c, p, ast), f, t, a, g in zip(live, f1, texts, a1, f2):
        n += 1
        what = None
        if isinstance(f, mv.Crash):
            what = "fmt crashes: " + f.what
        elif f[0]:
            what = "fmt fails: " + f[1].decode("latin1")[:200]
        elif isinstance(a, mv.Crash) or a[0]:
            what = f"the result does not parse: {t.decode()!r}"
        elif a[1] != ast and tree(a[1]) != tree(ast):
            what = f"the meaning changes: {t.decode()!r}"
        elif comments(t.decode()) != comments(p):
            what = f"the comments change: {t.decode()!r}"
        elif isinstance(g, mv.Crash) or g[0] or g[1] != t:
            what = f"formatting again changes the result: {t.decode()!r} to {g.what if isinstance(g, mv.Crash) else g[1].decode()!r}"
        else:
            seen.add(t)
        if what:
            bad.append((what, [c, p]))
    return n, skipped, bad, {hash(t) for t in seen}


WORK = DIR = None


def init(exe, d):
    global WORK, DIR
    WORK, DIR = mv.Server(exe, cwd="/"), d


def main():
    import multiprocessing as mp
    ck = mv.Check("L08", "exploration")
    exe = mv.build_harness("mserve", ["mserve.c", "mserve_ext0.c"], "asan")
    seen, skipped = set(), 0
    with mv.Scratch("fmt") as d:
        for c, t in CONFIGS.items():
            if c:
                open(os.path.join(d, c), "w").write(t)
        with mp.Pool(mv.NPROC, initializer=init, initargs=(exe, d)) as pool:
            for n, sk, bad, s in pool.imap_unordered(work, mv.chunked(cases(ck.thorough), 400)):
                ck.coverage["evaluations"] += n
                skipped += sk
                seen |= s
                for what, case in bad:
                    ck.violation(f"{case[1]!r} ({case[0]}): {what}", case)
                if len(ck.viol) > int(os.environ.get("MV_LIMIT", "300")):
                    break
    ck.add(distinct_nontrivial=len(seen), not_programs=skipped, exhaustive=True, rule="every placement of one (two) line breaks, blank lines or comments between the tokens of every kind of statement, and every pair of operators, under 9 configurations")
    ck.sample("x = f(a # c1\\n, b) with max_line_len = 9")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
