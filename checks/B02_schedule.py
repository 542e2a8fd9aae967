#!/usr/bin/env python3
"""B02: parallel builds. Every order in which running jobs can finish, for every -j,
-k, pool and failure set of the stated bounds, on the real scheduler."""
import itertools
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import mv
import samu
from samu import Edge as E, Graph

W = {}


def world():
    if "w" not in W:
        W["w"] = samu.World()
    return W["w"]


class Case:
    def __init__(self, name, g, src, edits=(), maxj=3, args=(), deep=False):
        self.deep = deep
        self.name, self.g, self.src, self.edits, self.maxj, self.args = name, g, src, edits, maxj, args


def cases():
    S = {"s": b"0"}
    C = []
    C.append(Case("wide", Graph([E([x], ["s"]) for x in "abcd"]), S, maxj=4))
    C.append(Case("join", Graph([E(["a"], ["s"]), E(["b"], ["s"]), E(["c"], ["a", "b"]), E(["d"], ["s"])]), S, edits=[("s", b"1")]))
    C.append(Case("ladder", Graph([E(["a"], ["s"]), E(["b"], ["s"]), E(["c"], ["a"]), E(["d"], ["b"]), E(["e"], ["c", "d"])]), S))
    C.append(Case("order", Graph([E(["g"], ["s"]), E(["a"], ["s"], order=["g"]), E(["b"], ["s"], imp=["g"]), E(["c"], ["a", "b"])]), S,
                  edits=[("s", b"1"), ("-", "g")]))
    C.append(Case("phony", Graph([E(["a"], ["s"]), E(["b"], ["s"]), E(["p"], ["a", "b"], phony=True),
                                  E(["c"], ["s"], order=["p"]), E(["d"], ["s"], imp=["q"], noread=["q"]), E(["q"], ["p"], phony=True)]), S))
    for depth in (1, 2):
        C.append(Case(f"pool{depth}", Graph([E(["a"], ["s"], pool="P"), E(["b"], ["s"], pool="P"), E(["c"], ["s"], pool="P"),
                                             E(["d"], ["a"]), E(["e"], ["d", "b"], pool="P")], pools={"P": depth}), S, maxj=4))
    C.append(Case("pools", Graph([E(["a"], ["s"], pool="P"), E(["b"], ["s"], pool="Q"), E(["c"], ["a"], pool="Q"), E(["d"], ["b"], pool="P"),
                                  E(["e"], ["s"])], pools={"P": 1, "Q": 1}), S, maxj=3))
    C.append(Case("console", Graph([E(["a"], ["s"], pool="console"), E(["b"], ["s"], pool="console"), E(["c"], ["s"]), E(["d"], ["a"])]), S))
    C.append(Case("restat", Graph([E(["a"], ["s"], restat=True, trunc=True), E(["b"], ["t"]), E(["c"], ["a"], order=["b"]), E(["d"], ["a", "b"]),
                                   E(["e"], ["c", "d"])]),
                  {"s": b"0\nx", "t": b"0"}, edits=[("s", b"0\ny"), ("t", b"0"), ("s", b"1\ny")]))
    C.append(Case("restat2", Graph([E(["a1", "a2"], ["s"], restat=True, trunc=True), E(["b"], ["a1"], restat=True, trunc=True),
                                    E(["c"], ["a2"]), E(["d"], ["b", "c"]), E(["f"], ["t"])]),
                  {"s": b"0\nx", "t": b"0"}, edits=[("s", b"0\ny"), ("s", b"1\nx"), ("t", b"1")]))
    C.append(Case("headers", Graph([E(["g.h"], ["t"], pas=True), E(["h.h"], ["t"], pas=True), E(["o"], ["s"], order=["g.h", "h.h"], dep="gcc"),
                                    E(["p"], ["u"], order=["g.h"], dep="gcc"), E(["x"], ["o", "p"])]),
                  {"s": b"#inc:g.h,h.h\n", "u": b"#inc:g.h\n", "t": b"0"}, edits=[("t", b"1"), ("s", b"#inc:h.h\n")]))
    C.append(Case("multi", Graph([E(["o1", "o2"], ["s"], impout=["o3"]), E(["b"], ["o1", "o2"]), E(["c"], ["o3"]), E(["d"], ["o2"], order=["o3"])]), S,
                  edits=[("-", "o3")]))
    C.append(Case("twice", Graph([E(["a"], ["s"]), E(["b"], ["s"]), E(["c"], ["a", "a"], imp=["a"], order=["a", "b"]), E(["d"], ["c", "b"])]), S))
    C.append(Case("targets", Graph([E(["a"], ["s"]), E(["b"], ["a"]), E(["c"], ["a"]), E(["d"], ["s"])]), S, args=("c", "b")))
    C.append(Case("wide5", Graph([E([x], ["s"]) for x in "abcde"]), S, maxj=5, deep=True))
    C.append(Case("grid", Graph([E(["a"], ["s"]), E(["b"], ["s"]), E(["c"], ["a"]), E(["d"], ["a", "b"]), E(["e"], ["b"]), E(["f"], ["c", "d"]),
                                 E(["g"], ["d", "e"])]), S, edits=[("s", b"1"), ("-", "d")], maxj=3, deep=True))
    C.append(Case("poolgrid", Graph([E(["a"], ["s"], pool="P"), E(["b"], ["s"], pool="P"), E(["c"], ["s"], pool="console"), E(["d"], ["a"], pool="Q"),
                                     E(["e"], ["b"], pool="Q"), E(["f"], ["d", "c"], pool="P"), E(["g"], ["e"])], pools={"P": 2, "Q": 1}),
                  S, maxj=4, deep=True))
    C.append(Case("restat3", Graph([E(["a"], ["s"], restat=True, trunc=True), E(["b"], ["t"], restat=True, trunc=True),
                                    E(["c"], ["a", "b"]), E(["d"], ["a"], order=["b"]), E(["e"], ["b"], order=["c"]), E(["f"], ["c", "d", "e"])]),
                  {"s": b"0\nx", "t": b"0\nx"}, edits=[("s", b"0\ny"), ("t", b"0\ny"), ("s", b"1\ny"), ("-", "c")], deep=True))
    return C


CASES = cases()


def base_states(c):
    """the fresh tree, and built trees after one edit or a deletion"""
    m = samu.Model()
    files, clock = {}, 1000
    for p, x in list(c.src.items()) + [("build.ninja", c.g.text())]:
        clock += 1
        files[p] = (clock, x)
        m.write(p, x)
    out = [("fresh", files, m, clock)]
    w = world()
    if c.edits:
        r = w.run(list(c.args) + ["-j1"][:0], files, clock=clock)
        m1 = m.copy()
        m1.build(c.g, c.g.targets(c.args))
        if r.rc != 0:
            return out  # the fresh case reports it
        for k in range(1, len(c.edits) + 1):
            for sub in itertools.combinations(c.edits, k):
                if len({x[0] for x in sub}) != len(sub):
                    continue
                f2, m2, ck = dict(r.files), m1.copy(), r.clock
                for p, x in sub:
                    if p == "-":
                        f2.pop(x, None)
                        m2.remove(x)
                    else:
                        ck += 1
                        f2[p] = (ck, x)
                        m2.write(p, x)
                out.append(("+".join(f"{p}{x!r}" for p, x in sub), f2, m2, ck))
    return out


def failsets(c, thorough):
    names = [e.name for e in c.g.edges if not e.phony]
    out = [{}]
    for n in names:
        for k in (1, 3):
            out.append({n: k})
    for a, b in itertools.combinations(names, 2):
        out.append({a: 1, b: 1})
        out.append({a: 1, b: 3})
        if thorough:
            out.append({a: 3, b: 1})
            out.append({a: 3, b: 3})
    return out


def downstream(g, bad, m):
    """edges that cannot run when the edges in bad fail"""
    dead = set(bad)
    ch = True
    while ch:
        ch = False
        for e in g.edges:
            if e.name in dead:
                continue
            rec = m.rec.get(e.name)
            for i in e.ins + e.imp + e.order + (list(rec[2]) if rec else []):
                x = g.gen.get(i)
                if x is not None and x.name in dead:
                    dead.add(e.name)
                    ch = True
                    break
    return dead


def audit(c, m, fails, j, k, r, need):
    """check one run's trace. need: edges the reference says must run without failures"""
    g = c.g
    st, done, failed = [], set(), []
    running = set()
    nfail = 0
    byname = {e.name: e for e in g.edges}
    deps = {}

    def feeds(p, seen):
        """edges (through phonies) that have to be finished before p can be used"""
        e = g.gen.get(p)
        if e is None or e.name in seen:
            return set()
        seen.add(e.name)
        if not e.phony:
            return {e.name}
        return set().union(*[feeds(i, seen) for i in e.ins + e.imp + e.order] or [set()])
    for e in g.edges:
        rec = m.rec.get(e.name)
        d = set()
        for i in e.ins + e.imp + e.order + (list(rec[2]) if rec else []):
            d |= feeds(i, set())
        deps[e.name] = d
    # an edge up to date passes its own inputs on
    needset = set(need)

    def waits(n, seen):
        out = set()
        for d in deps[n]:
            if d in seen:
                continue
            seen.add(d)
            out.add(d)
            out |= waits(d, seen)
        return out
    waiting = {n: waits(n, set()) & needset for n in deps}
    pruned_possible = any(e.restat for e in g.edges)
    pooldepth = dict(g.pools, console=1)
    settled = set()   # edges finished or pruned: everything that waits on only settled edges is ready
    prev = ""
    for kind, x in r.trace:
        last, prev = prev, kind
        if kind in ("start", "nostart"):
            e = byname.get(x)
            if e is None or e.phony:
                return f"started {x}"
            if x in st:
                return f"{x} started twice"
            if x not in needset:
                return f"{x} started, but is up to date"
            if nfail >= k:
                return f"{x} started after {nfail} failures (-k {k})"
            late = waiting[x] - done
            if not pruned_possible and late:
                return f"{x} started before its inputs {sorted(late)} were finished"
            if pruned_possible and (late & (running | set(failed))):
                return f"{x} started while its inputs {sorted(late & running)} were running"
            st.append(x)
            if kind == "start":
                running.add(x)
                if len(running) > j:
                    return f"{len(running)} jobs at once (-j {j})"
                if e.pool:
                    n = sum(1 for y in running if byname[y].pool == e.pool)
                    if n > pooldepth[e.pool]:
                        return f"{n} jobs at once in pool {e.pool} of depth {pooldepth[e.pool]}"
            else:
                failed.append(x)
                nfail += 1
        elif kind in ("capture", "console"):
            if (kind == "console") != (byname[x].pool == "console"):
                return f"{x}: {kind}"
        elif kind == "done":
            running.discard(x)
            done.add(x)
        elif kind == "fail":
            running.discard(x)
            failed.append(x)
            nfail += 1
        elif kind == "poll":
            # after a whole round of polls, everything that can be started has been
            if last in ("capture", "console", "nostart", "poll") and len(running) < j and nfail < k and not pruned_possible:
                for e in g.edges:
                    if e.phony or e.name in st or e.name not in needset:
                        continue
                    if waiting[e.name] - done:
                        continue
                    if e.pool and sum(1 for y in running if byname[y].pool == e.pool) >= pooldepth[e.pool]:
                        continue
                    return f"{e.name} is ready, but is not started while {sorted(running)} run (-j {j})"
    if running and r.rc != 0 and not failed:
        return "jobs abandoned"
    if r.signal:
        return f"samu died of signal {r.signal}"
    if bool(failed) != (r.rc != 0):
        return f"exit status {r.rc} after failures {failed}"
    if set(failed) - set(fails):
        return f"failed: {failed}"
    if not failed:
        if fails and set(fails) & needset:
            return f"{sorted(set(fails) & needset)} never started"
        if sorted(st) != sorted(need):
            return f"commands run: {sorted(st)}, out of date: {sorted(need)}"
    elif nfail < k:
        if running:
            return f"{sorted(running)} were not waited for"
        if not pruned_possible:
            dead = downstream(g, failed, m)
            want = (needset - dead) | set(failed)
            if set(st) != want:
                return f"commands run: {sorted(st)}, can be run: {sorted(want)}"
    return None


def job(a):
    ci, si, thorough, bound, part, parts = a
    c = CASES[ci]
    w = world()
    name, files, m, clock = base_states(c)[si]
    n = nsched = 0
    bad = []
    probe = m.copy()
    ok, need, _ = probe.build(c.g, c.g.targets(c.args))
    assert ok, c.name
    for fi, fs in enumerate(failsets(c, thorough and not c.deep)):
        if fi % parts != part or c.deep and len(fs) > 1:
            continue
        if fs and not set(fs) <= set(need):
            continue
        for j in range(1, c.maxj + 1):
            for k in ((1,) if not fs else (1, 2, 1000)):
                args = [f"-j{j}", f"-k{k if k < 1000 else 0}"] + list(c.args)
                ref = None

                def run(choices):
                    return w.run(args, files, fails=list(fs.items()), choices=choices, clock=clock)
                try:
                    for prefix, r in samu.schedules(run, bound):
                        nsched += 1
                        what = audit(c, m, fs, j, k, r, need)
                        if not what and not fs:
                            for p, x in probe.content.items():
                                if p.endswith(".d"):
                                    continue
                                if p not in r.files or r.files[p][1] != x:
                                    what = f"{p} does not hold what a clean build gives"
                        if not what and fs:
                            what = recover(c, w, r, m, fs)
                            nsched += 1
                        if what:
                            bad.append((what, {"case": c.name, "state": name, "args": args, "fails": fs, "choices": prefix,
                                               "trace": r.trace, "stderr": r.err[-300:]}))
                            if len(bad) > 5:
                                return ci, n, nsched, bad
                except samu.SchedulePrune:
                    raise mv.Infra(f"{c.name}: more than {bound} schedules")
                n += 1
    return ci, n, nsched, bad


def recover(c, w, r, m, fs):
    """after a failed build, a build without failures runs what is missing and ends clean"""
    m2 = m.copy()
    m2.build(c.g, [])
    for kind, x in r.trace:
        if kind == "done":
            e = c.g.gen[x]
            outs, hdrs = samu.compute(e, m2.content.get)
            for o, y in zip(e.allouts, outs):
                if not (e.restat and m2.content.get(o) == y):
                    m2.write(o, y)
            m2.rec[e.name] = (e.cmdkey(), {i: m2.version(c.g, i) for i in e.ins + e.imp + hdrs}, tuple(hdrs))
    r2 = w.run(list(c.args), r.files, clock=r.clock)
    ok, need, _ = m2.build(c.g, c.g.targets(c.args))
    if r2.rc != 0:
        return f"the next build fails (status {r2.rc}): {r2.err[-200:]}"
    if sorted(r2.started()) != sorted(need):
        return f"the next build runs {sorted(r2.started())}, out of date: {sorted(need)}"
    for p, x in m2.content.items():
        if not p.endswith(".d") and (p not in r2.files or r2.files[p][1] != x):
            return f"after the next build, {p} does not hold what a clean build gives"
    return None


def main():
    ck = mv.Check("B02", "exploration")
    samu.exe()
    jobs = []
    for i, c in enumerate(CASES):
        if c.deep and not ck.thorough:
            continue
        for s in range(len(base_states(c))):
            parts = 16 if ck.thorough else 2
            for p in range(parts):
                jobs.append((i, s, ck.thorough, 400000, p, parts))
    jobs.sort(key=lambda j: -CASES[j[0]].deep)
    per = {}
    import multiprocessing as mp
    if "w" in W:
        W.pop("w").close()
    with mp.Pool(mv.NPROC) as pool:
        for ci, n, ns, bad in pool.imap_unordered(job, jobs, 1):
            ck.add(configurations=n, schedules=ns, evaluations=ns)
            per[CASES[ci].name] = per.get(CASES[ci].name, 0) + ns
            for what, case in bad:
                ck.violation(what, case)
            if len(ck.viol) >= 20:
                break
    ck.add(graphs=per, distinct_nontrivial=ck.coverage["schedules"], exhaustive=True,
           rule="for every graph, start state, -j, -k and failure set: every sequence of completion choices")
    ck.sample("pool1 -j3 -k0 with a failing: every completion order; b and c still run one at a time")
    return ck.finish()


def replay():
    import json
    for v in json.load(open(sys.argv[2])):
        x = v["case"]
        c = [c for c in CASES if c.name == x["case"]][0]
        name, files, m, clock = [s for s in base_states(c) if s[0] == x["state"]][0]
        r = world().run(x["args"], files, fails=list(x["fails"].items()), choices=x["choices"], clock=clock)
        print(v["what"], x["case"], x["state"], x["args"], x["fails"])
        for t in r.trace:
            print("   ", *t)
        print(r.err)


if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(replay())
    mv.main(main)
