#!/usr/bin/env python3
"""L01: variables hold values; no statement on one variable changes another.

Space: every sequence of statements of the alphabet up to a length, over three
variables holding nested lists and dicts; all variables compared at the end."""
import itertools
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import langcheck
import mv
import refmethods

PRE = "a = [1, [2]]\nb = ['x']\nd = {'k': [3]}\n"
ST = [
    "b = a", "a = b", "a += b", "a += [b]", "b += [[a]]", "d += {'k': a}", "d = {'k': b, 'l': a}", "b = d['k']",
    "b += 9", "a += a", "e = d\nd += {'n': 1}", "foreach i : a\nb += i\na += 0\nendforeach",
    "foreach k, v : d\nv += [7]\nb += v\nendforeach", "d += d + {'m': d}",
    "a = b.length() > 1 ? b : a", "c = [a, b]\nforeach x : c\nx += [8]\nendforeach", "a = d.get('k')\na += 5",
    "set_variable('b', a)", "b = get_variable('a')\nb += [4]", "c = [a]\nb = c[0]\nb += [6]",
]


def cases(thorough):
    n = 4 if thorough else 3
    for k in range(1, n + 1):
        for t in itertools.product(ST, repeat=k):
            yield PRE + "\n".join(t) + "\n", ["a", "b", "c", "d", "e"]
    # iteration sees the value the loop started with
    for body in itertools.product(["a += i", "a = []", "a = [i]", "i = 5", "i += 1", "b += i", "unset_variable('a')", "a += a"],
                                  repeat=2):
        yield "a = [1, 2, 3]\nb = []\nforeach i : a\n" + "\n".join(body) + "\nendforeach\n", ["a", "b", "i"]
    for body in itertools.product(["d += {k + 'x': v}", "d = {}", "v += [1]", "b += [[k, v]]", "k = 'z'", "d += {k: [0]}"], repeat=2):
        yield "d = {'p': [1], 'q': [2]}\nb = []\nforeach k, v : d\n" + "\n".join(body) + "\nendforeach\n", ["d", "b", "k", "v"]
    # loops leave their variables, nested loops over the same list
    for e in ["a", "a + [4]", "[a, a]", "b", "[]"]:
        for f in ["a", "i", "[i]", "b"]:
            yield (f"a = [[1], [2]]\nb = [0]\nt = []\nforeach i : {e}\nforeach j : {f}\nt += [[i, j]]\na += [[9]]\nb += [1]\n"
                   "endforeach\nendforeach\n", ["a", "b", "t", "i", "j"])


def main():
    ck = mv.Check("L01", "exploration")
    langcheck.CFG.interp = refmethods.MInterp
    langcheck.run(ck, cases(ck.thorough), chunk=400)
    ck.add(rule="every statement sequence of the stated length; the final values of all variables are compared with a "
                "reference interpreter whose values are immutable", exhaustive=True)
    ck.sample("a = [1, [2]] ... b = a; b += 9; d += {'k': a}")
    return ck.finish()


if __name__ == "__main__":
    langcheck.CFG.interp = refmethods.MInterp
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(langcheck.replay_cli())
    mv.main(main)
