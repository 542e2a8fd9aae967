"""The build graph families of the B checks.

A family: name, manifest variants (Graphs), sources {path: [contents]}, the
outputs worth deleting, build argument lists, failure sets."""
from samu import Edge, Graph


class Family:
    def __init__(self, name, variants, sources, delete=(), builds=((),), fails=(), absent=(), depth=3, manifest=False):
        self.name, self.variants, self.sources = name, variants, sources
        self.delete, self.builds, self.fails = list(delete), list(builds), list(fails)
        self.absent = set(absent)      # sources that do not exist at first
        self.depth = depth
        self.manifest = manifest       # build.ninja is regenerated from build.ninja.in by the build


E = Edge


def families():
    F = []
    F.append(Family("chain", [Graph([E(["a"], ["s"]), E(["b"], ["a"]), E(["c"], ["b"])])],
                    {"s": [b"0", b"1"]}, delete=["a", "b", "c"], builds=[(), ("b",)], fails=["b", "a"], depth=5))
    F.append(Family("diamond", [Graph([E(["a"], ["s"]), E(["l"], ["a"]), E(["r"], ["a", "t"]), E(["z"], ["l", "r"])])],
                    {"s": [b"0"], "t": [b"0"]}, delete=["a", "l", "z"], builds=[(), ("l",)], fails=["r"], depth=4))
    # the command of an edge changes and changes back
    F.append(Family("command", [Graph([E(["a"], ["s"], tag=t), E(["b"], ["a"]), E(["c"], ["s"])]) for t in ("x", "y")],
                    {"s": [b"0"]}, delete=["a"], builds=[(), ("b",), ("c",)], fails=["a"], depth=5))
    # the same for every kind of rule
    F.append(Family("commands", [Graph([E(["a"], ["s"], restat=True, trunc=True, tag=t), E(["b", "b2"], ["a"], tag=t), E(["c"], ["b2"], dep="gcc", tag=u), E(["d"], ["b"], dep="file", tag=u)])
                                 for t, u in (("x", "x"), ("y", "x"), ("y", "y"))],
                    {"s": [b"0\nx", b"0\ny", b"1\ny"]}, delete=["a", "c"], builds=[(), ("b",), ("c",)], fails=["a"], depth=4))
    F.append(Family("commandgen", [Graph([E(["a"], ["s"], generator=True, tag=t), E(["b"], ["a"], restat=True, generator=True, tag=t), E(["c"], ["b"])]) for t in ("x", "y")],
                    {"s": [b"0"]}, delete=["a"], builds=[(), ("b",)], fails=["a"], depth=4))
    # an input is added to / removed from an edge
    F.append(Family("inputs", [Graph([E(["a"], ins)]) for ins in (["s"], ["s", "t"], ["t"])] +
                    [Graph([E(["a"], ["s"], imp=["t"])]), Graph([E(["a"], ["s"], order=["t"])])],
                    {"s": [b"0"], "t": [b"0"]}, delete=["a"], depth=4))
    # restat: a copies only the first line of s
    F.append(Family("restat", [Graph([E(["a"], ["s"], restat=True, trunc=True), E(["b"], ["a"]), E(["c"], ["b"])])],
                    {"s": [b"0\nx", b"0\ny", b"1\ny"]}, delete=["a", "b", "c"], builds=[(), ("a",), ("b",)], fails=["a", "b"], depth=5))
    F.append(Family("restat2", [Graph([E(["a"], ["s"], restat=True, trunc=True), E(["b"], ["a"], restat=True, trunc=True),
                                       E(["c"], ["b", "t"]), E(["d"], ["a"], order=["b"])])],
                    {"s": [b"0\nx", b"0\ny", b"1\ny"], "t": [b"0"]}, delete=["a", "b"], builds=[(), ("b",), ("a",)], depth=4))
    # restat with several outputs, of which some change
    F.append(Family("restatmulti", [Graph([E(["o1", "o2"], ["s"], restat=True, trunc=True), E(["b"], ["o1"]), E(["c"], ["o2"]),
                                           E(["d"], ["b", "c"])])],
                    {"s": [b"0\nx", b"0\ny", b"1\ny", b"1\nx"]}, delete=["o1", "o2"], builds=[(), ("b",), ("c",)], depth=4))
    # restat below an order-only dependency
    F.append(Family("restatorder", [Graph([E(["a"], ["s"], restat=True, trunc=True), E(["g"], ["t"]), E(["b"], ["a"], order=["g"]),
                                           E(["c"], ["b"])])],
                    {"s": [b"0\nx", b"0\ny", b"1\ny"], "t": [b"0"]}, delete=["g"], depth=4))
    F.append(Family("order", [Graph([E(["g"], ["t"]), E(["a"], ["s"], order=["g"]), E(["b"], ["a"], order=["g"])])],
                    {"s": [b"0"], "t": [b"0"]}, delete=["g", "a"], builds=[(), ("a",)], fails=["g"], depth=4))
    for kind in ("gcc", "file"):
        # headers found while compiling
        F.append(Family("hdr-" + kind, [Graph([E(["o"], ["s"], dep=kind), E(["x"], ["o"])])],
                        {"s": [b"#inc:h\n0", b"1", b"#inc:h,k\n2"], "h": [b"0", b"#inc:k\n0"], "k": [b"0"]},
                        delete=["o", "x"] + (["o.d"] if kind == "file" else []), fails=["o"], depth=4))
        # a generated header, found only through the depfile on later builds
        F.append(Family("genhdr-" + kind, [Graph([E(["g.h"], ["t"], pas=True), E(["o"], ["s"], order=["g.h"], dep=kind),
                                                 E(["p"], ["s2"], order=["g.h"], dep=kind), E(["x"], ["o", "p"])])],
                        {"s": [b"#inc:g.h\n", b"0"], "s2": [b"1"], "t": [b"0", b"#inc:u.h\n"], "u.h": [b"0"]},
                        delete=["g.h"], builds=[(), ("o",)], fails=["g.h"], depth=3))
        # generated header that is itself restat
        F.append(Family("rehdr-" + kind, [Graph([E(["g.h"], ["t"], restat=True, trunc=True), E(["o"], ["s"], order=["g.h"], dep=kind)])],
                        {"s": [b"#inc:g.h\n"], "t": [b"0\nx", b"0\ny", b"1\ny"]}, delete=["g.h", "o"], depth=4))
    # a generated header under another spelling of its name
    F.append(Family("dothdr", [Graph([E(["g.h"], ["t"], pas=True), E(["o"], ["s"], order=["g.h"], dep="gcc"),
                                      E(["d/h"], ["t"], pas=True), E(["p"], ["s2"], order=["d/h", "g.h"], dep="gcc")])],
                    {"s": [b"#inc:./g.h\n", b"0"], "s2": [b"#inc:d/../g.h,d/.././d//h\n"], "t": [b"0", b"1"]},
                    delete=["g.h"], builds=[(), ("o",)], depth=3))
    # compilers that report nothing
    for kind in ("gcc-q", "gcc-n"):
        F.append(Family("few-" + kind, [Graph([E(["o"], ["s"], dep=kind), E(["p"], ["o"], dep=kind), E(["q"], ["s", "t"], dep=kind)])],
                        {"s": [b"0", b"1"], "t": [b"0"]}, delete=["o", "q"], builds=[(), ("p",)], fails=["p"], depth=4))
    F.append(Family("multi", [Graph([E(["o1", "o2"], ["s"], impout=["o3"]), E(["b"], ["o2"]), E(["c"], ["o3"])])],
                    {"s": [b"0"]}, delete=["o1", "o2", "o3"], builds=[(), ("b",)], fails=["o1"], depth=4))
    F.append(Family("phony", [Graph([E(["all"], ["c", "l"], phony=True), E(["l"], ["s"]), E(["grp"], ["a", "b"], phony=True),
                                     E(["a"], ["s"]), E(["b"], ["t"]), E(["c"], ["u"], imp=["grp"], noread=["grp"])], default=["all"])],
                    {"s": [b"0"], "t": [b"0"], "u": [b"0"]}, delete=["a"], builds=[(), ("grp",), ("c",)], fails=["b"], depth=4))
    F.append(Family("phonysrc", [Graph([E(["grp"], ["s", "t"], phony=True), E(["c"], ["u"], imp=["grp"], noread=["grp"]),
                                        E(["d"], ["u"], order=["grp"]), E(["e"], ["c"], restat=True, trunc=True, imp=["grp"], noread=["grp"]),
                                        E(["f"], ["e"])])],
                    {"s": [b"0"], "t": [b"0"], "u": [b"0"]}, delete=["c"], builds=[(), ("e",)], depth=4))
    F.append(Family("rsp", [Graph([E(["a"], ["s"], rsp=r), E(["b"], ["a"])]) for r in ("x", "y")],
                    {"s": [b"0"]}, delete=["a"], fails=["a"], depth=5))
    F.append(Family("prefix", [Graph([E(["o"], ["s"], restat=True, trunc=True), E(["o1"], ["s"], restat=True, trunc=True),
                                      E(["o10"], ["o1"]), E(["d/o1"], ["o"])])],
                    {"s": [b"0\nx", b"0\ny", b"1"]}, delete=["d/o1"], depth=4))
    # the manifest is an output of the build
    def man(tag, extra=False):
        es = [E(["build.ninja"], ["build.ninja.in"], pas=True, generator=True, tag="regen"),
              E(["a"], ["s"], tag=tag), E(["b"], ["a"])]
        if extra:
            es.append(E(["n"], ["b"]))
        return Graph(es)
    F.append(Family("manifest", [man("x"), man("y"), man("x", True)], {"s": [b"0"]}, delete=["a"], builds=[(), ("b",)], depth=4,
                    manifest=True))
    # the manifest is regenerated by a restat rule from an intermediate file
    def man2(tag):
        es = [E(["build.ninja"], ["mid"], pas=True, generator=True, restat=True, tag="regen"),
              E(["mid"], ["build.ninja.in"], pas=True, restat=True),
              E(["a"], ["s"], tag=tag), E(["b"], ["a"], imp=["mid"])]
        return Graph(es)
    F.append(Family("manifest2", [man2("x"), man2("y")], {"s": [b"0"]}, delete=["mid"], builds=[(), ("b",)], depth=4, manifest=True))
    return F
