#!/usr/bin/env python3
"""F04: a failing system call is never mistaken for success, and what it leaves behind can be redone."""
import errno
import signal
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import clicheck
import faults
import mv

REF = {}


def ref(c, name):
    """the result without a fault"""
    k = (c.d, name)
    if k not in REF:
        pre, argv = faults.SC[name]
        for _ in range(3):
            # a loaded machine can make a command time out
            r = c.go(pre + [("p", argv, ".", {}, 120, "c", "a", 0, 0), ("t", ".")])
            if not any(x.rc for x in r[:-1]):
                break
        else:
            raise mv.Infra(f"{name} fails without a fault: {r[-2].out[-500:]} {[x.out[-200:] for x in r[:-1] if x.rc]}")
        REF[k] = (r[-2], faults.view(r[-1]), r[-2].seen)
    return REF[k]


def run(c, case):
    name, k, how, err = case
    pre, argv = faults.SC[name]
    r0, want, seen = ref(c, name)
    ops = pre + [("p", argv, ".", {}, 30, how, "a", k, err), ("t", "."), ("r", argv, ".", {}, 30), ("t", ".")]
    R = c.go(ops)
    r, t, r2, t2 = R[-4:]
    if not r.hit:
        return None, "beyond"
    where = f"{name}: call {k} ({r.hit}) {'is cut short' if how == 's' else 'fails with ' + errno.errorcode[err]}"
    sig = (name, k, how, err, r.rc == 0)
    if r.rc < 0 and -r.rc != signal.SIGPIPE:
        return f"{where}: {'hangs' if -r.rc == signal.SIGALRM else 'dies of signal %d' % -r.rc}: {r.out[-200:]}", sig
    if r.rc == 0:
        # the compilation database is an extra: its failure is reported, but does not count
        d = faults.diff(faults.view(t, ["compile_commands.json"] if "err" in r.out else []), {p: v for p, v in want.items() if not (p.endswith("compile_commands.json") and "err" in r.out)})
        if d:
            return f"{where}: reported as success, but {d}", sig
    elif how == "s":
        return None, sig
    if r2.rc:
        return f"{where}: afterwards the command fails: {r2.out[-300:]}", sig
    d = faults.diff(faults.view(t2), want)
    if d:
        return f"{where}: when repeated, {d}", sig
    return None, sig


def cases(c, deep):
    for name in faults.THOROUGH if deep else faults.QUICK:
        _, _, n = ref(c, name)
        for k in range(1, n + 20):
            yield (name, k, "e", errno.EIO)
            yield (name, k, "s", 0)
            if deep:
                for e in (errno.ENOSPC, errno.EACCES, errno.EMFILE):
                    yield (name, k, "e", e)


def main():
    ck = mv.Check("F04", "fault-enumeration")
    import cli
    c = cli.cli("rel")
    L = list(cases(c, ck.thorough))
    n = {s: ref(c, s)[2] for s in (faults.THOROUGH if ck.thorough else faults.QUICK)}
    c.close()
    cli._C.clear()
    REF.clear()
    clicheck.run(ck, L, run, chunk=12)
    ck.add(exhaustive=True, system_calls=n, rule="every system call of the main process of every scenario fails (or is cut short); the command then fails or has the right result, and repeating it gives the right result")
    ck.sample("setup: call 37 (write) fails with EIO")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
