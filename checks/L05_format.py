#!/usr/bin/env python3
"""L05: string literals, escapes, f-strings and format() substitute exactly.

Space: all sequences of pieces up to a length inside each kind of literal."""
import itertools
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import langcheck
import mv
import refmethods


def seqs(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t)


def cases(thorough):
    x = 1 if thorough else 0
    # escapes in single quoted literals
    P = ["a", "\\\\", "\\'", "\\n", "\\x41", "\\101", "\\7", "8", "\\q", "\\", "0", "#", "\\xe9", "\\u00e9", '"']
    for s in seqs(P, 3 + x):
        yield f"'{s}'", None
    for e in ["\\a", "\\b", "\\f", "\\n", "\\r", "\\t", "\\v", "\\\\", "\\'", "\\x01", "\\x7f", "\\x80", "\\xff", "\\377",
              "\\400", "\\777", "\\0001", "\\18", "\\019", "\\u0041", "\\u00ff", "\\u0100", "\\uffff", "\\U0001f600",
              "\\U0010ffff", "\\z", "\\8", "\\9", "\\\"", "\\ "]:
        for a, b in itertools.product(["", "x", "1", "\\\\", "'", "\\n"], repeat=2):
            yield f"'{a}{e}{b}'", None
    # multi line literals take no escapes
    P = ["a", "\\", "'", "''", "\n", "n", "#", "\\n", "@"]
    for s in seqs(P, 3 + x):
        yield f"'''{s}'''", None
        yield f"'''{s}''' + 'z'", None
    # comments and literals next to each other
    P = ["'a'", "# c", "\n", "+", "'''b\n'''", "'#'", " ", "\\\n", "f'x'"]
    for s in seqs(P, 4 + x):
        yield f"y = '0' + {s}\nx = 'end'\n", ["x", "y"]
    # format()
    P = ["@", "0", "1", "2", "a", "\\\\", "-", "10"]
    for s in seqs(P, 5 + x):
        yield f"'{s}'.format('A', 7)", None
    for s in ["@0@", "@1@", "@0@@1@", "@@0@@", "@0@ @0@", "@00@", "@2@", "@18446744073709551616@", "@4294967296@", "@x@0@"]:
        for a in ["'v'", "1", "-5", "true", "false", "'@0@'", "'@1@', 'w'", "['l', 'm']", "[['n'], 2]", "{'a': 1}", "", "k: 1"]:
            yield f"'{s}'.format({a})", None
    # f-strings
    P = ["@", "n", "s", "b", "_", "1", " ", "nn", "zz", "@n@"]
    for s in seqs(P, 4 + x):
        yield f"n = 1\ns = 'S@b@'\nb = true\nnn = 'NN'\n_ = 'U'\nx = f'{s}'\n", ["x"]
    for v in ["'x'", "5", "-5", "true", "false", "''", "'a' + 'b'"]:
        for t in ["f'@v@'", "f'@v@@v@'", "f'@v@' + '!'", "'!' + f'@v@'", "f'@v@' == '5'", "f'a@v@'[0]", "[f'@v@', 1]",
                  "{'k': f'@v@'}", "f'@v@'.to_upper()", "f'@v@' in ['5', 'x']", "f'\\n@v@'", "f'@v' + '@'", "f'v@v@v'",
                  "f'''@v@'''", "not (f'@v@' == 'x')", "f'@v@' / 'y'", "f'@v@@'", "f'@@v@'", "f'@v @v@'"]:
            if t.startswith("f'''"):
                continue
            yield f"v = {v}\nx = {t}\n", ["x"]


def main():
    ck = mv.Check("L05", "exploration")
    langcheck.CFG.interp = refmethods.MInterp
    langcheck.run(ck, cases(ck.thorough), chunk=1600)
    ck.add(rule="every sequence of literal pieces of the stated alphabets and lengths, in every kind of literal; expected "
                "value from a reference lexer and formatter; distinct by expected value", exhaustive=True)
    ck.sample("'@0@@1@'.format('A', 7)")
    ck.sample("f'@n@@ s@'")
    return ck.finish()


if __name__ == "__main__":
    langcheck.CFG.interp = refmethods.MInterp
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(langcheck.replay_cli())
    mv.main(main)
