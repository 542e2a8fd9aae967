"""Exhaustive comparison of muon's interpreter with the reference interpreter.

cases: iterable of (program text, [variable names]).  Every case is evaluated by
the real interpreter; a disagreement is confirmed in a fresh server process
before it is reported."""
import json
import sys

import mv
import refmeson


def decode(j):
    if isinstance(j, dict):
        if "d" in j:
            return {k: decode(v) for k, v in j["d"]}
        return ("obj", j.get("t") or "file:" + j.get("f", "?"))
    if isinstance(j, list):
        return [decode(x) for x in j]
    return j


def same(a, b):
    """strict comparison including types and dict order"""
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a.keys()) == list(b.keys()) and all(same(a[k], b[k]) for k in a)
    return a == b


class Cfg:
    exe = None
    interp = refmeson.Interp
    mode = "e"
    keyfn = None
    setup = None


CFG = Cfg()


def expected(prog, vars_):
    it = CFG.interp()
    try:
        v = it.run(prog)
    except refmeson.Unspec as e:
        return ("unspec", str(e))
    except refmeson.Err as e:
        return ("err", str(e))
    except (refmeson.Brk, refmeson.Cnt):
        return ("unspec", "loop ctl")
    except RecursionError:
        return ("unspec", "recursion")
    return ("ok", {x: v[x] for x in vars_ if x in v})


def judge(exp, got):
    """None when they agree, else text"""
    if isinstance(got, mv.Crash):
        return "crash: " + got.what
    st, b = got
    if exp[0] == "err":
        return None if st == 1 else "accepted a program that must be rejected (%s): %s" % (exp[1], b[:300].decode())
    if st != 0:
        return "rejected a valid program, expected %r" % (exp[1],)
    v = {k: decode(x) for k, x in json.loads(b)["v"].items()}
    if not same(v, exp[1]) and not (v.keys() == exp[1].keys() and all(same(v[k], exp[1][k]) for k in v)):
        return "got %r expected %r" % (v, exp[1])
    return None


def payload(prog, vars_):
    return (CFG.mode + ",".join(vars_) + "\n" + prog).encode("latin1")


def confirm(e, prog, vars_):
    """evaluate alone, in a fresh process; None or (text, case)"""
    s2 = mv.Server(CFG.exe)
    g2 = s2.one("E", payload(prog, vars_))
    s2.stop()
    m2 = judge(e, g2)
    if not m2:
        return None
    lg = ""
    if not isinstance(g2, mv.Crash):
        lg = json.loads(g2[1]).get("log", "")[-300:]
    return (m2, {"program": prog, "vars": vars_, "log": lg})


def run_chunk(chunk):
    """chunk of (program, vars) or (expression, None); valid expressions are
    evaluated 32 to a program, everything else alone"""
    srv = mv.server(CFG.exe)
    exps, reqs, idx = [], [], []
    unspec = 0
    nerr = 0
    n = 0
    outc = set()
    progs = set()
    pend = []

    def flush():
        if not pend:
            return
        prog = "".join(f"x{i} = {p}\n" for i, (p, _) in enumerate(pend))
        exps.append(("ok", {f"x{i}": e[1]["x"] for i, (_, e) in enumerate(pend)}))
        idx.append((list(pend), None))
        reqs.append(("e", payload(prog, [f"x{i}" for i in range(len(pend))])))
        pend.clear()

    for prog, vars_ in chunk:
        ex = vars_ is None
        e = expected(f"x = {prog}\n" if ex else prog, ["x"] if ex else vars_)
        if e[0] == "unspec":
            unspec += 1
            continue
        n += 1
        if e[0] != "err":
            progs.add(hash(prog))
        if e[0] == "err":
            nerr += 1
            outc.add("err")
        else:
            outc.add(json.dumps(e[1], sort_keys=True))
            if ex:
                pend.append((prog, e))
                if len(pend) >= 32:
                    flush()
                continue
        if ex:
            prog, vars_ = f"x = {prog}\n", ["x"]
        exps.append(e)
        idx.append((prog, vars_))
        reqs.append(("e", payload(prog, vars_)))
    flush()
    bad = []
    for e, g, (prog, vars_) in zip(exps, srv.batch(reqs), idx):
        if judge(e, g) is None:
            continue
        if vars_ is None:
            todo = [(ee, f"x = {p}\n", ["x"]) for p, ee in prog]
        else:
            todo = [(e, prog, vars_)]
        sub = [c for c in (confirm(*t) for t in todo) if c]
        if not sub and vars_ is None:
            # only the combination fails
            prog2 = "".join(f"x{i} = {p}\n" for i, (p, _) in enumerate(prog))
            c = confirm(e, prog2, [f"x{i}" for i in range(len(prog))])
            sub = [c] if c else []
        bad += sub
    return n, unspec, nerr, outc, bad, progs


def run(check, cases, chunk=400, keyfn=None, limit=20000, variant="rel", label=None):
    """Returns number of cases; records violations in check."""
    CFG.exe = mv.build_harness("mserve", ["mserve.c", "mserve_ext.c"], variant=variant)
    n = u = ne = 0
    outs = set()
    progs = set()
    nbad = 0
    for r in mv.pmap(run_chunk, mv.chunked(cases, chunk)):
        n += r[0]
        u += r[1]
        ne += r[2]
        if len(outs) < 200000:
            outs |= r[3]
        progs |= r[5]
        for what, case in r[4]:
            nbad += 1
            if nbad < limit:
                check.violation(what, case, key=keyfn(what, case) if keyfn else None)
    check.add(evaluations=n, skipped_unspecified=u, expected_rejections=ne)
    check.add(distinct_nontrivial=len(progs), distinct_outcomes=len(outs))
    if label:
        check.coverage.setdefault("spaces", {})[label] = {"cases": n, "unspecified": u, "rejections": ne,
                                                         "distinct_outcomes": len(outs)}
    return n


def replay_cli():
    """replay file on the command line: print the disagreement again"""
    cases = json.load(open(sys.argv[2]))
    CFG.exe = mv.build_harness("mserve", ["mserve.c", "mserve_ext.c"], variant="rel")
    rc = 0
    for c in cases:
        e = expected(c["case"]["program"], c["case"]["vars"])
        s = mv.Server(CFG.exe)
        g = s.one("E", payload(c["case"]["program"], c["case"]["vars"]))
        s.stop()
        m = judge(e, g)
        print(c["case"]["program"], "\n =>", m)
        rc |= bool(m)
    return rc
