#!/usr/bin/env python3
"""L06: lists and dicts behave like insertion-ordered value containers of any size.

Space: every sequence of add / overwrite / merge / delete / index operations up
to a depth, started from containers of every size around the sizes where the
representation changes; the whole container is observed after every step."""
import itertools
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import langcheck
import mv
import refmeson
import refmethods
from refmeson import Err


class Internal(refmethods.MInterp):
    """delete() exists in muon's internal scripts, and changes the variable it is called on"""

    def list_delete(self, o, pos, kw):
        refmethods.need(pos, kw, "int")
        i = pos[0]
        if not -len(o) <= i < len(o):
            raise Err("bounds")
        del o[i]
        return None

    def dict_delete(self, o, pos, kw):
        refmethods.need(pos, kw, "str")
        o.pop(pos[0], None)
        return None

    def stmt(self, s):
        # value semantics: a name owns its value
        if s[0] == "assign":
            super().stmt(s)
            import copy
            self.v[s[1]] = copy.deepcopy(self.v[s[1]])
            return
        if s[0] == "plus":
            super().stmt(s)
            import copy
            self.v[s[1]] = copy.deepcopy(self.v[s[1]])
            return
        super().stmt(s)


def dlit(n, rev=False):
    r = range(n)
    return "{" + ", ".join(f"'k{i}': {i}" for i in (reversed(r) if rev else r)) + "}"


OBS_D = "l{t} = d.keys()\nv{t} = []\nforeach k, v : d\nv{t} += [[k, v]]\nendforeach\nm{t} = 'k0' in d\nn{t} = d.get('zz', 'none')\n" \
        "q{t} = [d == {{}} + d, d + d == d, d == d + {{'k1': d.get('k1', 'none')}}, (d + {{'z': 5}}).keys() == (d + {{'z': 6}}).keys()]\n"
OBS_A = "l{t} = a.length()\nv{t} = []\nforeach k : a\nv{t} += [k]\nendforeach\nm{t} = a.contains(1)\nn{t} = a.get(2, 'none')\n"


def prog_d(base, ops):
    p = f"d = {base}\n"
    vs = ["d"]
    for t, o in enumerate(ops):
        p += o + "\n" + OBS_D.format(t=t)
        vs += [f"l{t}", f"v{t}", f"m{t}", f"n{t}", f"q{t}"]
    return p, vs


def prog_a(base, ops):
    p = f"a = {base}\n"
    vs = ["a"]
    for t, o in enumerate(ops):
        p += o + "\n" + OBS_A.format(t=t)
        vs += [f"l{t}", f"v{t}", f"m{t}", f"n{t}"]
    return p, vs


def cases(thorough):
    depth = 4 if thorough else 3
    # dicts of every size, built in every way
    for n in range(0, 70 if thorough else 40):
        yield prog_d(dlit(n), ["d += {'k0': 'new'}", "d = d + {'zz': 1}"])
        yield (f"d = {{}}\nforeach i : range({n})\nd += {{'k@0@'.format(i): i}}\nendforeach\ne = {dlit(n)}\nx = d == e\n"
               f"f = {dlit(n, True)}\ny = e == f\nz = d + f\n", ["d", "x", "y", "z"])
        yield (f"d = {dlit(n)}\nx = []\nforeach i : range({n + 2})\nx += ['k@0@'.format(i) in d, "
               f"d.has_key('k@0@'.format(i)), d.get('k@0@'.format(i), 'no')]\nendforeach\n", ["x"])
        yield (f"d = {dlit(n)}\ne = d\ne += {{'k1': 'changed', 'n': 1}}\nf = e == d\n", ["d", "e", "f"])
        for k in range(n):
            yield prog_d(dlit(n), [f"d.delete('k{k}')", f"d += {{'k{k}': 'again'}}"])
            if k % 5 == 0:
                yield (f"d = {dlit(n)}\nx = d['k{k}']\ny = d.get('k{k}')\n", ["x", "y"])
        yield f"d = {dlit(n)}\nx = d['k{n}']\n", ["x"]
        # duplicate key in a literal
        if n:
            yield "x = " + dlit(n)[:-1] + f", 'k{n - 1}': 0}}\n", ["x"]
    # operation sequences
    ops = ["d += {'k0': 'A'}", "d += {'z': 'Z'}", "d += {'z': 'Y', 'k1': 'B'}", "d.delete('k0')", "d.delete('z')", "d.delete('k1')"]
    for n in [0, 1, 2, 3, 12, 13, 14, 15, 16, 17, 31, 32]:
        for t in itertools.product(ops, repeat=depth):
            yield prog_d(dlit(n), t)
    # arrays
    for n in range(0, 30):
        lit = "[" + ", ".join(str(i) for i in range(n)) + "]"
        for k in range(-n - 2, n + 2):
            yield prog_a(lit, [f"a.delete({k})", "a += 99"])
            yield f"x = {lit}.get({k}, 'd')\n", ["x"]
            yield f"x = {lit}[{k}]\n", ["x"]
    ops = ["a += 1", "a += [1, 2]", "a += [[3]]", "a = a + a", "a.delete(0)", "a.delete(-1)", "a.delete(1)", "a = [0] + a",
           "a += [[]]"]
    for n in range(0, 4):
        for t in itertools.product(ops, repeat=depth):
            yield prog_a("[" + ", ".join(f"'e{i}'" for i in range(n)) + "]", t)
    # membership and nesting
    E = ["1", "'a'", "[1]", "['a', [1]]", "{'k': [1]}", "[]", "{}", "true", "[[]]"]
    for a, b, c in itertools.product(E, repeat=3):
        yield f"[{a}, {b}].contains({c})", None
        yield f"{c} in [{a}, {b}]", None
        yield f"[{a}, {b}] + [{c}] + {a}", None
        yield f"[[{a}], {b}] == [[{c}], {b}]", None
    # long lists: range, slicing by index, concatenation
    for n in [0, 1, 7, 8, 15, 16, 17, 63, 64, 65, 255, 256, 257]:
        for st in [1, 2, 7]:
            yield f"a = range({n})\nx = []\nforeach i : range(0, {n}, {st})\nx += i\nendforeach\ny = x.length()\n", ["x", "y"]


def main():
    ck = mv.Check("L06", "exploration")
    langcheck.CFG.interp = Internal
    langcheck.CFG.mode = "i"
    langcheck.run(ck, cases(ck.thorough), chunk=200)
    ck.add(rule="every operation sequence of the stated depth from every stated initial size; the container's keys, "
                "values, order and membership are compared with the reference after every step", exhaustive=True)
    ck.sample("d of 16 keys; d.delete('k0'); d += {'z': ..}; d.delete('z')")
    return ck.finish()


if __name__ == "__main__":
    langcheck.CFG.interp = Internal
    langcheck.CFG.mode = "i"
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(langcheck.replay_cli())
    mv.main(main)
