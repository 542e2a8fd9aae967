#!/usr/bin/env python3
"""L09: if / foreach / break / continue run exactly the statements they select.

Space: all sequences of control-flow lines up to a length (well formed or not),
and all well-formed nestings up to a larger length; the trace of executed
statements is compared with the reference interpreter."""
import itertools
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import langcheck
import mv
import refmethods

L = ["T", "if true", "if i == 1", "elif i == 2", "else", "endif", "foreach i : [1, 2, 3]", "endforeach", "break", "continue"]
CL = {"T": 0}


def text(lines):
    out = ["i = 0", "tr = []"]
    for n, l in enumerate(lines):
        out.append(f"tr += ['{n}', i]" if l == "T" else l)
    return "\n".join(out) + "\ntr += 'end'\n"


def wf(n, loop):
    """all well-formed statement lists of exactly n lines"""
    if n == 0:
        yield ()
        return
    for st, rest in split(n):
        for s in stmt(st, loop):
            for r in wf(rest, loop):
                yield s + r


def split(n):
    for k in range(1, n + 1):
        yield k, n - k


CONDS = ["i == 1", "i == 2", "false"]


def stmt(k, loop):
    if k == 1:
        yield ("T",)
        if loop:
            yield ("break",)
            yield ("continue",)
        return
    inner = k - 2
    for b in wf(inner, loop):
        yield ("if i == 1",) + b + ("endif",)
        yield ("if i != 1",) + b + ("endif",)
    if inner >= 1:
        for j in range(inner):
            for b1 in wf(j, loop):
                for b2 in wf(inner - 1 - j, loop):
                    yield ("if i == 1",) + b1 + ("else",) + b2 + ("endif",)
                    yield ("if i == 1",) + b1 + ("elif i == 2",) + b2 + ("endif",)
    for b in wf(inner, True):
        yield ("foreach i : [1, 2, 3]",) + b + ("endforeach",)
        if inner <= 3:
            yield ("foreach i : []",) + b + ("endforeach",)
            yield ("foreach i : {'a': 1}",) + b + ("endforeach",)


def cases(thorough):
    for n in range(0, 6 if thorough else 5):
        for t in itertools.product(L, repeat=n):
            yield text(t), ["tr", "i"]
    for n in range(5, 9 if thorough else 8):
        for t in wf(n, False):
            yield text(t), ["tr", "i"]
    # foreach over every kind of value with one and two names
    for v in ["[1]", "{'a': 1}", "1", "'ab'", "true", "range(3)", "range(2, 5)", "range(0, 7, 3)", "range(3, 3)", "range(-1)",
              "range(2, 1)", "range(0, 4, 0)", "range(0, 4, -1)", "range()", "range(1, 2, 3, 4)", "range('a')", "[[1, 2]]", "[]", "{}",
              "range(0)", "range(1, 10, 100)", "nope"]:
        for ids in ["i", "i, j", "i, j, k", "", "1", "i j", "if"]:
            yield f"tr = []\nforeach {ids} : {v}\ntr += [1]\nendforeach\n", ["tr"]
            yield f"i = 0\nj = 0\ntr = []\nforeach {ids} : {v}\ntr += [i, j]\nendforeach\n", ["tr", "i", "j"]
    # conditions must be boolean, and only the needed ones are evaluated
    V = ["true", "false", "1", "'a'", "[]", "nope", "not true", "1 == 1"]
    for a, b, c in itertools.product(V, repeat=3):
        yield f"x = 0\nif {a}\nx = 1\nelif {b}\nx = 2\nelif {c}\nx = 3\nelse\nx = 4\nendif\n", ["x"]
    # assignment statements
    for s in ["x = 1", "x += 1", "y += 1", "x = y", "x == 1", "x", "1", "x = x", "x = x + 1", "x + 1 = 2", "x[0] = 1", "x.y = 1", "x = ",
              "= 1", "x = 1 = 2", "x = (y = 1)", "x += y += 1", "x -= 1", "if = 1", "true = 1", "x = [1", "x = 1]", "x = 1)", "x\n= 1",
              "x =\n1", "x = [\n1,\n\n2\n]", "x = (1\n+ 2\n)", "x = 1 +\n2", "x = 1 \\\n+ 2", "x = 1; x = 2", "x = 1 x = 2",
              "x = range(2,\n3)", "if true x = 1 endif", "if true\nx = 2 endif", "if (true\n)\nx = 3\nendif", "# c\nx = 1 # c", "\tx\t=\t1\t"]:
        yield "x = 0\n" + s + "\n", ["x"]
        yield "x = 0\n" + s, ["x"]


def main():
    ck = mv.Check("L09", "exploration")
    langcheck.CFG.interp = refmethods.MInterp
    langcheck.run(ck, cases(ck.thorough), chunk=400)
    ck.add(rule="every line sequence of the stated alphabet and length, and every well-formed nesting up to a larger length; "
                "the executed trace is compared with the reference; distinct by trace", exhaustive=True)
    ck.sample(text(("foreach i : [1, 2, 3]", "if i == 1", "continue", "endif", "T", "endforeach")))
    return ck.finish()


if __name__ == "__main__":
    langcheck.CFG.interp = refmethods.MInterp
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(langcheck.replay_cli())
    mv.main(main)
