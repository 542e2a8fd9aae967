#!/usr/bin/env python3
"""B03: a build that is killed at any point, and a build log or deps log that was cut
off at any byte, cost at most extra work: the next build ends in the state of a clean
build and the one after it has nothing to do.  A damaged byte never crashes samu."""
import os
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import mv
import samu
import samugraphs
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import B01_incremental as B01

FAMS = [f for f in samugraphs.families() if f.name != "commandgen"]    # generator rules keep outputs of an older command
W = {}
LOGS = (".ninja_log", ".ninja_deps")


def world(variant="rel"):
    if variant not in W:
        W[variant] = samu.World(variant)
    return W[variant]


def starts(fam, w, deep):
    """(label, files, clock, model): the fresh tree, the built tree, and built trees after each one (two when deep) change"""
    out = []
    s0 = B01.initial(fam)
    for p, cs in fam.sources.items():
        if p not in s0.files:
            s0.clock += 1
            s0.files[p] = (s0.clock, cs[0])
            s0.model.write(p, cs[0])
    out.append(("fresh", s0))
    s1, v = B01.apply(fam, s0, ("build", (), None, 0), w)
    if v:
        return out, v
    out.append(("built", s1))
    level = [("", s1)]
    for d in range(2 if deep else 1):
        nxt = []
        for name, st in level:
            for op in B01.ops(fam):
                if op[0] == "build":
                    continue
                s2, v = B01.apply(fam, st, op, w)
                if s2 is not None:
                    nxt.append((name + repr(op), s2))
        out += nxt
        level = nxt
    return out, None


def clean_contents(fam, st):
    """what a clean build of this tree's sources gives; None when it cannot be built"""
    m = samu.Model()
    text = st.model.content["build.ninja.in" if fam.manifest else "build.ninja"]
    g = B01.graph_of(fam, text)
    for p, c in st.model.content.items():
        if p not in g.gen or (fam.manifest and p == "build.ninja"):
            if p in g.gen:
                m.write(p, text)
            elif not p.endswith(".d"):
                m.write(p, c)
    ok, ran, _ = m.build(g, g.targets(()))
    return (g, m.content) if ok else (g, None)


def recovers(fam, st, files, clock, w, label):
    g, want = clean_contents(fam, st)
    if want is None:
        return None
    r = w.run([], files, clock=clock)
    if r.rc != 0:
        return f"{label}: the next build fails (status {r.rc}): {r.err[-200:]}"
    keep = {o for o in g.targets(())}
    reach = set()

    def walk(p):
        e = g.gen.get(p)
        if e is None or e.name in reach:
            return
        reach.add(e.name)
        for i in e.ins + e.imp + e.order:
            walk(i)
    for o in keep:
        walk(o)
    for e in g.edges:
        if e.name not in reach or e.phony:
            continue
        for o in e.allouts:
            if r.files.get(o, (0, None))[1] != want[o]:
                return f"{label}: after the next build {o} holds {r.files.get(o, (0, None))[1]!r}, a clean build gives {want[o]!r}"
    r2 = w.run([], r.files, clock=r.clock)
    if r2.rc != 0 or r2.started():
        return f"{label}: the build after that is not idle: {r2.started()} (status {r2.rc})"
    return None


def crash_job(a):
    fi, deep = a
    fam = FAMS[fi]
    w = world()
    n0 = w.runs
    points = 0
    bad = []
    sts, v = starts(fam, w, deep)
    if v:
        return fi, 0, 0, 0, [v]
    for name, st in sts:
        for args in ([["-j1"], ["-j2"], ["-j3"]] if deep else [["-j2"]]):
            r = w.run(args, st.files, clock=st.clock)
            if r.rc != 0:
                continue
            for n in range(len(r.trace)):
                for mode in (0, 1):
                    points += 1
                    c = w.run(args, st.files, clock=st.clock, crash=n, mode=mode)
                    what = recovers(fam, st, c.files, c.clock, w, f"killed at event {n} ({' '.join(r.trace[n])}), buffers {'written' if mode else 'lost'}")
                    if not what and deep and mode == 1:
                        # killed again during the recovery
                        r2 = w.run(args, c.files, clock=c.clock)
                        for n2 in range(0, len(r2.trace)):
                            points += 1
                            c2 = w.run(args, c.files, clock=c.clock, crash=n2, mode=1)
                            what = what or recovers(fam, st, c2.files, c2.clock, w, f"killed at event {n}, then at event {n2}")
                    if what:
                        bad.append((what, {"family": fam.name, "state": name, "args": args}))
            if len(bad) > 5:
                return fi, points, 0, w.runs - n0, bad
    return fi, points, 0, w.runs - n0, bad


def cut_job(a):
    """every prefix of the logs after a complete build, then every change, then builds"""
    fi, deep, part, parts = a
    fam = FAMS[fi]
    w = world()
    n0 = w.runs
    bad = []
    cuts = 0
    sts, v = starts(fam, w, False)
    if v:
        return fi, 0, 0, 0, [v]
    built = [s for n, s in sts if n == "built"][0]
    lg, dp = (built.files[l][1] for l in LOGS)
    pairs = set()
    for n in range(len(lg) + 1):
        pairs |= {(n, len(dp)), (n, 0)} if deep else {(n, len(dp))}
    for n in range(len(dp) + 1):
        pairs |= {(len(lg), n), (None, n)} if deep else {(len(lg), n)}
    pairs |= {(None, None), (None, len(dp)), (len(lg), None), (0, 0)}
    if deep:
        pairs |= {(a, b) for a in range(len(lg) + 1) for b in range(16, len(dp) + 1)}
    for i, (a, b) in enumerate(sorted(pairs, key=str)):
        if i % parts != part:
            continue
        for name, st in sts:
            if name == "fresh" or st.files.get(".ninja_log") is None:
                continue
            files = dict(st.files)
            for l, n, full in ((LOGS[0], a, lg), (LOGS[1], b, dp)):
                if n is None:
                    files.pop(l)
                else:
                    files[l] = (files[l][0], full[:n])
            cuts += 1
            what = recovers(fam, st, files, st.clock, w, f"log cut at {a} of {len(lg)}, deps log cut at {b} of {len(dp)}")
            if what:
                bad.append((what, {"family": fam.name, "state": name, "log": repr(lg[:a]), "deps": repr(dp[:b])}))
                if len(bad) > 5:
                    return fi, 0, cuts, w.runs - n0, bad
    return fi, 0, cuts, w.runs - n0, bad


def damage_job(a):
    """one damaged byte anywhere in either log, under the address sanitizer"""
    fi, deep, part, parts = a
    fam = FAMS[fi]
    w = world("asan")
    n0 = w.runs
    bad = []
    cuts = 0
    sts, v = starts(fam, world(), False)
    if v:
        return fi, 0, 0, 0, [v]
    built = [s for n, s in sts if n == "built"][0]
    for l in LOGS:
        full = built.files[l][1]
        for i in range(part, len(full), parts):
            vals = {0, 0xff, full[i] ^ 1, full[i] ^ 0x80} | ({10, 9, full[i] ^ 4, 0x7f, full[i] + 1 & 255} if deep else set())
            for v in vals - {full[i]}:
                cuts += 1
                files = dict(built.files)
                files[l] = (files[l][0], full[:i] + bytes([v]) + full[i + 1:])
                r = w.run([], files, clock=built.clock)
                if r.rc not in (0, 1):
                    bad.append((f"{l} with byte {i} set to {v}: samu died (status {r.rc})", {"family": fam.name, "stderr": r.err[-1500:]}))
                    if len(bad) > 5:
                        return fi, 0, cuts, w.runs - n0, bad
    return fi, 0, cuts, w.runs - n0, bad


def go(a):
    return a[0], {"crash": crash_job, "cut": cut_job, "damage": damage_job}[a[0]](a[1])


def main():
    ck = mv.Check("B03", "fault-enumeration")
    samu.exe()
    samu.exe("asan")
    deepfam = ("chain", "restat", "hdr-gcc", "genhdr-gcc", "multi", "command", "prefix", "manifest2", "restatorder")
    jobs = []
    for i, f in enumerate(FAMS):
        deep = ck.thorough and f.name in deepfam
        jobs.append(("crash", (i, deep)))
        parts = 8 if deep else 2
        for p in range(parts):
            jobs.append(("cut", (i, deep, p, parts)))
        if f.name in ("hdr-gcc", "genhdr-gcc", "prefix", "multi", "few-gcc-q") or ck.thorough:
            for p in range(4):
                jobs.append(("damage", (i, ck.thorough, p, 4)))
    import multiprocessing as mp
    # long jobs first
    jobs.sort(key=lambda j: -(j[0] == "cut" and j[1][1]))
    with mp.Pool(mv.NPROC) as pool:
        for kind, (fi, points, cuts, runs, bad) in pool.imap_unordered(go, jobs, 1):
            ck.add(builds=runs, crash_points=points)
            ck.add(**{"log_cuts" if kind == "cut" else "damaged_bytes" if kind == "damage" else "other": cuts})
            for what, case in bad:
                ck.violation(what, case)
            if len(ck.viol) >= 20:
                break
    ck.add(evaluations=ck.coverage["builds"], distinct_nontrivial=ck.coverage["crash_points"] + ck.coverage["log_cuts"], exhaustive=True,
           rule="every event of every build of every family as the point of death (buffers lost or written), every byte prefix of both logs")
    ck.sample("hdr-gcc: deps log cut inside the record of o, then h edited: o is rebuilt")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
