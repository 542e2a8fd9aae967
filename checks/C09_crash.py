#!/usr/bin/env python3
"""C09: muon killed at any point (between any two file changes, or within a write) leaves a state from which it recovers."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import clicheck
import faults
import mv

REF = {}
# what is done with a build directory afterwards
AFTER = [("r", ["-C", "b", "samu"], ".", {}, 60), ("r", ["-C", "b", "test"], ".", {}, 60), ("r", ["-C", "b", "install", "-d", "../D"], ".", {}, 60), ("t", ".")]
# commands that (re)configure: what follows uses the old or the new configuration
CONF = ("resetup", "changed", "regen", "setup", "csetup")
SKIP = ("compile_commands.json", "testlog", "summary.txt", "ignore", "~")


def ref(c, name):
    """(number of file changes, tree after, tree after a complete build, test and installation of the new and of the old state)"""
    k = (c.d, name)
    if k not in REF:
        pre, argv = faults.SC[name]
        r = c.go(pre + [("p", argv, ".", {}, 60, "c", "w", 0, 0), ("t", ".")])
        if any(x.rc for x in r[:-1]):
            raise mv.Infra(f"{name} fails without a crash: {r[-2].out[-500:]}")
        new = old = None
        if name in CONF:
            a = c.go(pre + [("r", argv)] + AFTER)
            if any(x.rc for x in a[:-1]):
                raise mv.Infra(f"after {name}: {a[-2].out[-500:]}")
            new = faults.view(a[-1])
            a = c.go([o for o in pre if o[0] != "r"] + [("t", ".")])
            p = pre if name == "resetup" else next((pre[:i] for i in range(len(pre)) if pre[i][0] == "w" and any(o[0] == "r" for o in pre[:i])), None)
            if p and any(o[0] == "r" for o in p):
                a = c.go(p + AFTER)
                if any(x.rc for x in a[:-1]):
                    raise mv.Infra(f"before {name}: {a[-2].out[-500:]}")
                old = faults.view(a[-1])
        b = c.go(pre + [("t", ".")])
        REF[k] = (r[-2].seen, faults.view(b[-1]), faults.view(r[-1]), old, new)
    return REF[k]


def mine(v):
    """what a user sees: outputs and installed files, not muon's own records"""
    return {p: e for p, e in v.items() if not p.startswith("src") and "/.muon" not in p and not p.endswith("build.ninja") and not p.endswith(SKIP) and not p.endswith(".tmp")}


def run(c, case):
    name, k, mode = case
    pre, argv = faults.SC[name]
    n, before, want, old, new = ref(c, name)
    kill = ("p", argv, ".", {}, 30, mode, "w", k, 0)
    r = c.go(pre + [kill, ("t", "."), ("r", argv, ".", {}, 60), ("t", ".")])
    k1, t, redo, t2 = r[-4:]
    if not k1.hit:
        return None, "beyond"
    where = f"{name}, killed {'before' if mode == 'k' else 'in the middle of'} change {k} ({k1.hit})"
    sig = (name, k, mode)
    if redo.rc:
        return f"{where}: when repeated, the command fails: {redo.out[-300:]}", sig
    d = faults.diff({p: e for p, e in faults.view(t2).items() if not p.endswith((".tmp", ".fmt_tmp", "~"))}, want)
    if d:
        return f"{where}: when repeated, {d}", sig
    if name.startswith("fmt"):
        for p, e in faults.view(t).items():
            if not p.endswith("_tmp") and e not in (before.get(p), want.get(p)):
                return f"{where}: {p} is {e}", sig
    if name.startswith(("install", "reinstall")):
        for p, e in faults.view(t).items():
            if p not in before and p not in want:
                return f"{where}: {p} is left over", sig
            if p.startswith("b/") and e != before.get(p) and not p.endswith(".tmp"):
                return f"{where}: the build directory changes: {p}", sig
    if name in CONF:
        a = c.go(pre + [kill] + AFTER)
        samu, test, inst, t3 = a[-4:]
        got = faults.view(t3)
        if samu.rc == 0 and name in ("changed", "regen"):
            # the sources are newer, so the build has to configure again
            for x, w in ((test, "test"), (inst, "install")):
                if x.rc:
                    return f"{where}: samu succeeds, then {w} fails: {x.out[-300:]}", sig
            d = faults.diff(mine(got), mine(new))
            if d:
                return f"{where}: after samu, test and install, {d}", sig
        else:
            for p, e in mine(got).items():
                if e[0] == "f" and samu.rc == 0 and e[2] not in [v[p][2] for v in (old, new) if v and p in v]:
                    return f"{where}: samu succeeds with {p} being {e[2][:100]!r}", sig
            if name in ("setup", "csetup") and samu.rc == 0:
                d = faults.diff(mine(got), mine(new)) if inst.rc == 0 else f"install fails: {inst.out[-300:]}"
                if d or test.rc:
                    return f"{where}: samu succeeds, then {d or test.out[-300:]}", sig
    return None, sig


def cases(c, names):
    for name in names:
        n = ref(c, name)[0]
        for k in range(1, n + 8):
            yield (name, k, "k")
            yield (name, k, "t")


def main():
    ck = mv.Check("C09", "crash-points")
    import cli
    c = cli.cli("rel")
    names = faults.THOROUGH if ck.thorough else faults.QUICK
    L = list(cases(c, names))
    n = {s: ref(c, s)[0] for s in names}
    c.close()
    cli._C.clear()
    REF.clear()
    clicheck.run(ck, L, run, chunk=10)
    ck.add(exhaustive=True, file_changes=n, rule="muon is killed before every file-changing system call of every scenario and half way through every write")
    ck.sample("regen, killed before change 17 (rename b/.muon/tests.dat.tmp): samu, test and install then give the new configuration")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
