#!/usr/bin/env python3
"""L12: version comparison is Meson's order on every pair of short versions."""
import itertools
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import langcheck
import mv
import refmethods

OPS = ["", "=", "==", "!=", ">", ">=", "<", "<="]


def strs(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t)


def cases(thorough):
    V = list(strs("01a.", 3)) + list(strs(["1", "9", ".", "b"], 3)) + list(strs(["1", "-", "~", "Z"], 2 + thorough))
    V = list(dict.fromkeys(V))
    for a in V:
        for b in V:
            yield f"'{a}'.version_compare('{b}')", None
            yield f"'{a}'.version_compare('<{b}')", None
    W = ["", "0", "1", "1.", ".1", "1.0", "1.0.0", "1.00", "01", "10", "9", "1.10", "1.9", "1.0a", "1.0.a", "1.0-rc1", "1.0rc1", "1.0-rc.1",
         "a", "a1", "1a", "1a2", "B", "b", "1_2", "1+2", "1~2", "99999999999999999999", "99999999999999999998", "100000000000000000000",
         "000099999999999999999999", "1.2.3.4.5.6", "1.2.3.4.5.7", "\\xe9", "1\\xe9", " 1", "1 ", " "]
    for a in W:
        for b in W:
            for o in OPS:
                yield f"'{a}'.version_compare('{o}{b}')", None
                yield f"'{a}'.version_compare('{o} {b}')", None
    # antisymmetry and transitivity follow from agreement with a total preorder
    for a in W[:20]:
        for o in ["=>", "=<", "<>", "><", "~", "!", "===", "<<", ">>", ">==", "!!="]:
            for b in W[:20]:
                yield f"'{a}'.version_compare('{o}{b}')", None
    if thorough:
        P = ["1", "2", "10", "a", "b", ".", "-"]
        L = [s for s in strs(P, 3)]
        for a in L:
            for b in L:
                for o in OPS:
                    yield f"'{a}'.version_compare('{o}{b}')", None


def main():
    ck = mv.Check("L12", "exploration")
    langcheck.CFG.interp = refmethods.MInterp
    langcheck.run(ck, cases(ck.thorough), chunk=3200)
    ck.add(rule="every ordered pair of version strings of the stated alphabets with every operator, compared with Meson's "
                "version order; distinct by verdict", exhaustive=True)
    ck.sample("'1.0-rc1'.version_compare('< 1.0')")
    return ck.finish()


if __name__ == "__main__":
    langcheck.CFG.interp = refmethods.MInterp
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(langcheck.replay_cli())
    mv.main(main)
