"""Parallel enumeration of cases against the muon command line (lib/cli.py)."""
import os

import cli
import mv

_FN = {}


def _work(chunk):
    fn = _FN["fn"]
    c = cli.cli(_FN["variant"])
    n0 = c.runs
    out, bad = set(), []
    for case in chunk:
        what, sig = fn(c, case)
        out.add(sig)
        if what:
            # only what happens again counts
            w2, _ = fn(c, case)
            if w2:
                bad.append((what, case))
    return len(chunk), c.runs - n0, out, bad


def run(ck, cases, fn, chunk=40, limit=400, variant="rel", keyfn=None, nproc=None):
    """fn(cli, case) -> (None | what went wrong, hashable outcome)"""
    cli.exe(variant)
    mv.muon("rel")
    with mv.Scratch("cli") as d:
        os.chmod(d, 0o755)
        cli.BASE = d
        _FN["fn"], _FN["variant"] = fn, variant
        outs = set()
        for n, runs, out, bad in mv.pmap(_work, mv.chunked(cases, chunk), nproc):
            ck.add(evaluations=n, runs=runs)
            outs |= out
            for what, case in bad:
                ck.violation(what, case, key=keyfn(what, case) if keyfn else None)
            if len(ck.viol) >= limit:
                break
        cli.BASE = None
    ck.add(distinct_nontrivial=len(outs))
    return outs
