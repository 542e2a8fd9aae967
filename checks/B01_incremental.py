#!/usr/bin/env python3
"""B01: an incremental build ends in the state of a clean build, and runs exactly
the commands whose inputs changed.

Explicit-state search over the real samu: states are (files, time stamps, log,
deps log); transitions are edits, touches, deletions, manifest changes and
builds (of every target set, with and without failing commands)."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import mv
import samu
import samugraphs

W = {}


def world():
    if "w" not in W:
        W["w"] = samu.World()
    return W["w"]


class State:
    __slots__ = ("files", "clock", "model", "hist")

    def __init__(self, files, clock, model, hist):
        self.files, self.clock, self.model, self.hist = files, clock, model, hist


def initial(fam):
    m = samu.Model()
    files = {}
    clock = 1000

    def put(p, c):
        nonlocal clock
        clock += 1
        files[p] = (clock, c)
        m.write(p, c)
    for p, cs in fam.sources.items():
        if p not in fam.absent:
            put(p, cs[0])
    put("build.ninja", fam.variants[0].text())
    if fam.manifest:
        put("build.ninja.in", fam.variants[0].text())
        # the manifest exists and is newer
        put("build.ninja", fam.variants[0].text())
        g = fam.variants[0]
        e = g.gen["build.ninja"]
        m.rec[e.name] = (e.cmdkey(), {i: m.version(g, i) for i in e.ins}, ())
    return State(files, clock, m, ())


def ops(fam):
    o = []
    for p, cs in fam.sources.items():
        for i in range(len(cs)):
            o.append(("edit", p, i))
    for d in fam.delete:
        o.append(("delete", d))
    if len(fam.variants) > 1:
        for i in range(len(fam.variants)):
            o.append(("manifest", i))
    for b in fam.builds:
        o.append(("build", b, None, 0))
    for f in fam.fails:
        o.append(("build", (), f, 1))
        o.append(("build", (), f, 2))
    return o


def graph_of(fam, text):
    for g in fam.variants:
        if g.text() == text:
            return g
    return None


def apply(fam, st, op, w):
    """-> (new state or None, violation or None)"""
    files, m = dict(st.files), st.model.copy()
    clock = st.clock
    hist = st.hist + (op,)
    if op[0] == "edit":
        clock += 1
        c = fam.sources[op[1]][op[2]]
        files[op[1]] = (clock, c)
        m.write(op[1], c)
        return State(files, clock, m, hist), None
    if op[0] == "delete":
        if op[1] not in files:
            return None, None
        del files[op[1]]
        m.remove(op[1])
        return State(files, clock, m, hist), None
    if op[0] == "manifest":
        p = "build.ninja.in" if fam.manifest else "build.ninja"
        c = fam.variants[op[1]].text()
        if files[p][1] == c:
            return None, None
        clock += 1
        files[p] = (clock, c)
        m.write(p, c)
        return State(files, clock, m, hist), None
    # build
    _, targets, failname, kind = op
    fails = {failname: kind} if failname else {}
    ran = []
    for _ in range(5):
        g = graph_of(fam, m.content["build.ninja"])
        if g is None:
            return None, None
        if not fam.manifest:
            break
        ok, r1, f1 = m.build(g, ["build.ninja"], fails)
        ran += r1
        if not ok:
            break
        if graph_of(fam, m.content["build.ninja"]) is g:
            break
    if failname and kind == 2:
        e = g.gen.get(failname)
        m2 = m.copy()
        m2.build(g, g.targets(targets), {})
        # a failing command that leaves a new output behind is only told apart by its inputs or a missing record
        if e is None:
            return None, None
        probe = m.copy()
        probe.build(g, e.ins + e.imp + e.order, fails)
        if probe.reason(g, e) not in ("input", "norecord", None):
            return None, None
    ok, r2, failed = m.build(g, g.targets(targets), fails)
    expect = ran + [x for x in r2]
    args = list(targets)
    r = w.run(args, files, fails=[(n, k) for n, k in fails.items()], clock=clock)
    what = None
    got = r.started()
    if r.rc < 0 or r.rc not in (0, 1):
        what = f"samu died: rc={r.rc}"
    elif (r.rc == 0) != ok:
        what = f"exit status {r.rc}, but the build " + ("succeeds" if ok else f"has to fail ({failed})")
    elif ok and sorted(got) != sorted(expect):
        what = f"commands run: {sorted(got)}, commands out of date: {sorted(expect)}"
    elif not ok and (len(set(got)) != len(got) or not set(got) <= set(expect)):
        what = f"commands run: {got}, at most {expect} are out of date"
    elif ok:
        for p, c in m.content.items():
            if p.endswith(".d") or p.endswith(".rsp"):
                continue
            if p not in r.files:
                what = f"{p} is missing after a successful build"
            elif r.files[p][1] != c:
                what = f"{p} holds {r.files[p][1]!r}, a clean build gives {c!r}"
            if what:
                break
    if what:
        return None, (what, {"family": fam.name, "history": hist, "trace": r.trace, "stderr": r.err[-600:]})
    if not ok:
        # which commands ran before the failure depends on the schedule: follow the real one
        m = st.model.copy()
        follow(fam, m, r)
    nf = {p: v for p, v in r.files.items()}
    return State(nf, r.clock, m, hist), None


def follow(fam, m, r):
    """update the model with what a failed build really did"""
    for k, x in r.trace:
        g = graph_of(fam, m.content["build.ninja"])
        if k == "done":
            e = g.gen[x]
            outs, hdrs = samu.compute(e, m.content.get)
            for o, c in zip(e.allouts, outs):
                if e.restat and m.content.get(o) == c:
                    continue
                m.write(o, c)
            if e.dep == "file":
                m.write(e.depfile, b"")
            m.rec[e.name] = (e.cmdkey(), {i: m.version(g, i) for i in e.ins + e.imp + hdrs}, tuple(hdrs))
        elif k == "write" and r.files.get(x, (0, b""))[1] == b"garbage":
            m.write(x, b"garbage")


def expand(job):
    fi, states, last = job
    fam = FAMS[fi]
    w = world()
    out, bad = [], []
    n0 = w.runs
    trans = 0
    for st in states:
        for op in ops(fam):
            if last and op[0] != "build":
                continue
            if st.hist and op[0] == "delete" and st.hist[-1] == op:
                continue
            s2, v = apply(fam, st, op, w)
            trans += 1
            if v:
                bad.append(v)
                if len(bad) >= 3:
                    return fi, out, bad, trans, w.runs - n0
            elif s2 is not None:
                if last:
                    continue
                out.append((samu.canon(s2.files, s2.model), s2))
    return fi, out, bad, trans, w.runs - n0


FAMS = samugraphs.families()


def selfcheck():
    """every family has to be able to build completely (in the model)"""
    for fam in FAMS:
        for g in fam.variants:
            m = initial(fam).model
            for p, cs in fam.sources.items():
                if p not in m.content:
                    m.write(p, cs[0])
            ok, ran, _ = m.build(g, [o for e in g.edges for o in e.allouts])
            assert ok and all(e.name in m.rec or e.phony for e in g.edges), fam.name


def search(ck, depth_extra):
    seen = [set() for _ in FAMS]
    front = {}
    for i, f in enumerate(FAMS):
        s = initial(f)
        # start from the fresh tree and from every built state
        front[i] = [s]
        seen[i].add(samu.canon(s.files, s.model))
    total = 0
    depth = 0
    perfam = {f.name: {"states": 1, "builds": 0} for f in FAMS}
    import multiprocessing as mp
    with mp.Pool(mv.NPROC) as pool:
        while any(front.values()):
            jobs = []
            for i, fr in front.items():
                last = depth >= FAMS[i].depth + depth_extra
                n = max(1, min(40, len(fr) // (mv.NPROC * 2) + 1))
                for k in range(0, len(fr), n):
                    jobs.append((i, fr[k:k + n], last))
            nxt = {i: [] for i in front}
            nbad = 0
            for fi, out, bad, trans, runs in pool.imap_unordered(expand, jobs, 1):
                ck.add(transitions=trans, builds=runs)
                perfam[FAMS[fi].name]["builds"] += runs
                for what, case in bad:
                    nbad += 1
                    if nbad <= 400:
                        ck.violation(what, case)
                if nbad >= 20:
                    break
                for k, s in out:
                    if k not in seen[fi]:
                        seen[fi].add(k)
                        nxt[fi].append(s)
                        perfam[FAMS[fi].name]["states"] += 1
            front = nxt
            depth += 1
            if ck.viol:
                break
    ck.add(states=sum(len(s) for s in seen), max_depth=depth, evaluations=ck.coverage["builds"], families=perfam)


def replay():
    import json
    for c in json.load(open(sys.argv[2])):
        fam = [f for f in FAMS if f.name == c["case"]["family"]][0]
        st = initial(fam)
        w = world()
        for op in c["case"]["history"]:
            op = tuple(tuple(x) if isinstance(x, list) else x for x in op)
            s2, v = apply(fam, st, op, w)
            print(op, "->", v[0] if v else "ok")
            if v:
                for t in v[1]["trace"]:
                    print("   ", *t)
                print(v[1]["stderr"])
                break
            st = s2
    return 0


def main():
    ck = mv.Check("B01", "exploration")
    samu.exe()
    selfcheck()
    search(ck, 4 if ck.thorough else 1)
    ck.add(distinct_nontrivial=ck.coverage["states"], exhaustive=True,
           rule="breadth first over every operation history of the stated depth per graph family, states deduplicated by contents, "
                "order of time stamps, log and deps log; every build is compared with the version-based reference model")
    ck.sample("restat: edit s (same first line), build a, edit s, build: a runs, b and c do not")
    return ck.finish()


if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(replay())
    mv.main(main)
