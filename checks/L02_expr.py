#!/usr/bin/env python3
"""L02: every expression evaluates to the value the language defines.

Space: all token sequences  [unary] operand (binop [unary] operand){0..k}
(with parentheses, indexing and ternaries placed in every position) over a fixed
alphabet of operands and operators; plus the full product of arithmetic
operators over boundary integers."""
import itertools
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import langcheck
import mv

BIN = ["+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "in", "not in", "and", "or"]
ARITH = ["+", "-", "*", "/", "%"]
LOGIC = ["==", "!=", "<", ">=", "in", "not in", "and", "or"]


def flat(ops, operands, k):
    for n in range(k + 1):
        for os_ in itertools.product(operands, repeat=n + 1):
            for bs in itertools.product(ops, repeat=n):
                s = os_[0]
                for b, o in zip(bs, os_[1:]):
                    s += f" {b} {o}"
                yield s


PRE = "t = true\nf = false\na = [1, 2]\nd = {'k': 1}\n"


def cases(thorough):
    def w(e):
        return (f"t = true\nf = false\nx = {e}\n", ["x"])

    # every operator between every pair of operand kinds
    kinds = ["0", "1", "-7", "true", "false", "''", "'a'", "'ab'", "[]", "[1]", "[[1]]", "['a']", "{}", "{'a': 1}",
             "{'a': [1]}", "not t", "(1 + 2)", "[1, 'a', true]"]
    for l, r in itertools.product(kinds, repeat=2):
        for b in BIN:
            yield w(f"{l} {b} {r}")
    for u in ["not ", "-", ""]:
        for l in kinds:
            yield w(f"{u}{l}")
            yield w(f"{u}({l})")
    # arithmetic chains: precedence and associativity
    for e in flat(ARITH, ["7", "2", "3"], 3):
        yield w(e)
    for e in flat(ARITH, ["7", "-2", "5"], 2):
        yield w(e)
        yield w("(" + e + ") * 3")
        yield w("100 - (" + e + ")")
    if thorough:
        for e in flat(ARITH, ["9", "2"], 5):
            yield w(e)
    # parenthesised groupings of 4-operand chains
    for bs in itertools.product(ARITH, repeat=3):
        a, b, c = bs
        yield w(f"(17 {a} 5) {b} (4 {c} 3)")
        yield w(f"17 {a} (5 {b} 4) {c} 3")
        yield w(f"17 {a} (5 {b} 4 {c} 3)")
        yield w(f"-(17 {a} 5 {b} 4) {c} 3")
    # boundary integers
    B = ["0", "1", "2", "3", "7", "10", "4294967295", "4294967296", "9223372036854775807", "4611686018427387904",
         "0x7fffffffffffffff", "0xff", "0o17", "0b101", "65536", "1000000007"]
    for l, r in itertools.product(B, repeat=2):
        for b in ARITH + ["==", "<", "<=", ">", ">=", "!="]:
            yield w(f"{l} {b} {r}")
            yield w(f"-{l} {b} {r}")
            yield w(f"{l} {b} -{r}")
            yield w(f"-{l} {b} -{r}")
    for m in range(-9, 10):
        for n in range(-5, 6):
            yield w(f"{m} / {n}" if n >= 0 else f"{m} / ({n})")
            yield w(f"{m} % {n}" if n >= 0 else f"{m} % ({n})")
    # logic chains; the undefined name 'u' makes a missing short circuit an error
    for e in flat(["and", "or", "==", "!="], ["t", "f", "u"], 3):
        yield w(e)
    for e in flat(LOGIC, ["1", "t", "'a'", "['a', 1]"], 2):
        yield w(e)
    for e in flat(["and", "or"], ["t", "not f", "not t", "(f or t)", "u == 1"], 3 if thorough else 2):
        yield w(e)
    for e in flat(["+", "-", "<", "==", "and", "or", "in"], ["1", "2", "[3]", "t"], 3 if thorough else 2):
        yield w(e)
    # ternaries, nested on every side, only one branch evaluated
    for c1, c2 in itertools.product(["t", "f", "1", "u", "t and f", "f or t"], repeat=2):
        for v in itertools.product(["1", "u", "'s'"], repeat=3):
            yield w(f"{c1} ? {v[0]} : {v[1]}")
            yield w(f"{c1} ? {v[0]} : {c2} ? {v[1]} : {v[2]}")
            yield w(f"({c1} ? {c2} : f) ? {v[0]} : {v[1]}")
            yield w(f"{c1} ? ({c2} ? {v[0]} : {v[1]}) : {v[2]}")
            yield w(f"[{c1} ? {v[0]} : {v[1]}, {v[2]}]")
    # indexing
    for cont in ["[1, 2, 3]", "[]", "[[1], 2]", "'abc'", "''", "{'a': 1, 'b': [2]}", "{}", "5", "true", "(['x'] + ['y'])"]:
        for i in ["0", "1", "2", "3", "-1", "-2", "-3", "-4", "-5", "-9", "4", "'a'", "'b'", "'c'", "''", "true", "[0]",
                  "1 - 1", "1 + 1", "9223372036854775807", "-9223372036854775807", "4294967296", "4294967297"]:
            yield w(f"{cont}[{i}]")
            yield (f"c = {cont}\nx = c[{i}]\n", ["x"])
            for j in ["0", "-1", "-2", "1"]:
                yield w(f"{cont}[{i}][{j}]")
    # collections with operators
    COLL = ["[]", "[1]", "['a']", "[[1]]", "[1, 2]", "1", "'a'", "{'a': 1}", "{}", "{'b': 2, 'a': 3}", "true"]
    for l, m, r in itertools.product(COLL, repeat=3):
        yield w(f"{l} + {m} + {r}")
    for l, r in itertools.product(COLL + ["[[1], [2]]", "{'a': [1], 'b': 2}", "[true]", "{'a': true}"], repeat=2):
        for b in ["==", "!=", "in", "not in"]:
            yield w(f"{l} {b} {r}")
            yield w(f"[{l}] {b} [{r}]")
            yield w(f"{{'k': {l}}} {b} {{'k': {r}}}")
    # dictionary construction: duplicate keys, key types
    for k in itertools.product(["'a'", "'b'", "1", "'a' + ''"], repeat=3):
        yield w("{%s: 1, %s: 2, %s: 3}" % k)
        yield w("{%s: 1, %s: 2}" % k[:2])
    # path building
    for p in itertools.product(["'a'", "'b/c'", "'/x'", "'a.b'", "'..a'", "'...'"], repeat=3):
        yield w(f"{p[0]} / {p[1]}")
        yield w(f"{p[0]} / {p[1]} / {p[2]}")
        yield w(f"{p[0]} + {p[1]} / {p[2]}")
    # grammar: which token sequences are expressions at all
    T = ["1", "t", "+", "-", "not", "(", ")", "[", "]", "?", ":", "=="]
    for n in range(1, 6 if thorough else 5):
        for s in itertools.product(T, repeat=n):
            yield w(" ".join(s))


def main():
    ck = mv.Check("L02", "exploration")
    langcheck.run(ck, cases(ck.thorough))
    ck.add(rule="every expression of the stated token alphabets and lengths is evaluated by the interpreter and "
                "compared with a reference evaluator; cases the language documents leave open are skipped",
           exhaustive_within_bounds=True)
    ck.sample("x = 7 - 2 * 3 / 2")
    ck.sample("x = f and u == 1 or t")
    return ck.finish()


if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(langcheck.replay_cli())
    mv.main(main)
