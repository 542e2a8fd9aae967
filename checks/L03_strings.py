#!/usr/bin/env python3
"""L03: string methods agree with their definition on every short string.

Space: all subject strings up to a length over a small alphabet, times all
arguments up to a length, for each method."""
import itertools
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import langcheck
import mv
import refmethods


def strs(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t)


def q(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'").replace("\n", "\\n").replace("\t", "\\t") + "'"


def cases(thorough):
    x = 1 if thorough else 0
    pats = list(strs("ab", 3)) + ["-", "a-", "aba", "baab"]
    subj = list(strs("ab", 5 + x)) + list(strs("a-b", 3 + x))
    for s in subj:
        for p in pats:
            yield f"{q(s)}.split({q(p)})", None
            yield f"{q(s)}.contains({q(p)})", None
            yield f"{q(s)}.startswith({q(p)})", None
            yield f"{q(s)}.endswith({q(p)})", None
            yield f"{q(s)}.strip({q(p)})", None
            yield f"{q(p)} in {q(s)}", None
            for r in ["", "x", "ab", "aa"]:
                yield f"{q(s)}.replace({q(p)}, {q(r)})", None
    for s in strs("a \n\t", 5 + x):
        yield f"{q(s)}.strip()", None
        yield f"{q(s)}.split()", None
        yield f"{q(s)}.split(' ')", None
    for s in ["", "a", "ab", "abc", "abcd"]:
        R = list(range(-6, 7)) + [2**31, -2**31, 2**32 + 1, -2**32 - 1, 2**62, -2**62]
        yield f"{q(s)}.substring()", None
        for i in R:
            yield f"{q(s)}.substring({i})", None
            for j in R:
                yield f"{q(s)}.substring({i}, {j})", None
    for s in strs("aZ9_-.z", 4):
        yield f"{q(s)}.to_upper()", None
        yield f"{q(s)}.to_lower()", None
        yield f"{q(s)}.underscorify()", None
    for s in strs("0-+ 19x", 4 + x):
        yield f"{q(s)}.to_int()", None
    for s in ["9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "0x10",
              "00012", "1_0", "99999999999999999999", "+5", "--5", "+ 5", "5 5", "\\t7\\n"]:
        yield f"'{s}'.to_int()", None
    for n in range(0, 4):
        for t in itertools.product(["''", "'a'", "['b', 'c']", "[]", "[['d'], 'e']", "1"], repeat=n):
            yield f"'-'.join({', '.join(t)})", None
            yield f"''.join([{', '.join(t)}])", None
    # integers and booleans
    for i in list(range(-12, 13)) + [2**31, 2**32, 2**63 - 1, -2**63 + 1]:
        yield f"({i}).to_string()", None
        yield f"({i}).is_even()", None
        yield f"({i}).is_odd()", None
        yield f"({i}).to_string().to_int()", None
    for b in ["true", "false"]:
        yield f"{b}.to_int()", None
        yield f"{b}.to_string()", None
        yield f"{b}.to_string('y', 'n')", None
    # every method with every argument list of wrong or right shape
    M = {"'a-b'": ["strip", "to_upper", "to_lower", "underscorify", "contains", "startswith", "endswith", "substring",
                   "replace", "split", "join", "to_int", "version_compare", "format", "nosuch", "length", "get"],
         "5": ["to_string", "is_even", "is_odd", "nosuch", "strip"],
         "true": ["to_int", "to_string", "nosuch"],
         "[1, 'a']": ["length", "get", "contains", "nosuch", "keys"],
         "{'a': 1}": ["keys", "get", "has_key", "nosuch", "length"]}
    A = ["'a'", "1", "true", "['a']", "{'a': 1}"]
    for o, ms in M.items():
        for m in ms:
            for n in range(0, 4):
                for t in itertools.product(A, repeat=n):
                    yield f"{o}.{m}({', '.join(t)})", None
            yield f"{o}.{m}(k: 1)", None
            yield f"{o}.{m}('a', k: 1)", None


def main():
    ck = mv.Check("L03", "exploration")
    langcheck.CFG.interp = refmethods.MInterp
    langcheck.run(ck, cases(ck.thorough), chunk=1600)
    ck.add(rule="every method on every subject string and argument of the stated alphabets and lengths; expected value "
                "from a reference implementation; a case counts as distinct by its expected value", exhaustive=True)
    ck.sample("'aabab'.split('ab')")
    ck.sample("'abc'.substring(-6, 2)")
    return ck.finish()


if __name__ == "__main__":
    langcheck.CFG.interp = refmethods.MInterp
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(langcheck.replay_cli())
    mv.main(main)
