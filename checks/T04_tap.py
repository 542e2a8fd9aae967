#!/usr/bin/env python3
"""T04: TAP output is judged as the Test Anything Protocol has it."""
import itertools
import re
import struct
import subprocess
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import clicheck
import mv

LINES = ["1..0", "1..1", "1..2", "1..3", "1..2 # two", "1..0 # SKIP none", "ok", "ok 1 - a", "ok 2 a # b", "not ok", "not ok 1 - x", "ok # SKIP", "ok 1 - s # skip why", "not ok # TODO", "not ok 2 - t # todo later",
         "ok # TODO", "not ok # SKIP", "# ok", "", "Bail out!", "Bail out! disk full", "TAP version 13", "  ok", "    not ok 1", "\tnot ok", "  ---", "some text", "ok - 1..3", "not ok - Bail out!", "pragma +strict"]
FEW = ["1..0", "1..1", "1..2", "ok", "not ok 1 - x", "ok # SKIP", "not ok # TODO", "ok # TODO", "Bail out!", "# c", "  not ok"]

PLAN = re.compile(r"1\.\.([0-9]+)")
TEST = re.compile(r"(not )?ok(?:\s+[0-9]+)?[^#]*(?:#\s*(\S*))?")


def model(lines):
    """-> None: not judged; (ok, passed or skipped, failed, planned or None)"""
    good = bad = 0
    plan = None
    bail = False
    for l in lines:
        m = PLAN.match(l)
        if m:
            if plan is not None:
                return None     # two plans
            plan = int(m[1])
            continue
        if l.startswith("Bail out!"):
            bail = True
            continue
        m = TEST.match(l)
        if m:
            d = (m[2] or "").upper()
            d = d if d in ("SKIP", "TODO") else ""
            if (m[1] is None) != (d == "TODO"):
                good += 1
            else:
                bad += 1
    return not bail and not bad and (plan is None or plan == good), good, bad, plan


def _direct(docs):
    exe = mv.build_harness("tapserve", ["tapserve.c"], variant="asan")
    raw = []
    for lines, end in docs:
        nl = "\r\n" if end == 2 else "\n"
        raw.append((nl.join(lines) + (nl if end else "")).encode())
    r = subprocess.run([exe], input=b"".join(struct.pack("<I", len(x)) + x for x in raw), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    if r.returncode or len(r.stdout) != 20 * len(docs):
        i = len(r.stdout) // 20
        return len(docs), 0, [(f"crash at or after {docs[i] if i < len(docs) else '?'}: {r.stderr[-300:]!r}", docs[i] if i < len(docs) else None)], set()
    bad, judged, sig = [], 0, set()
    for i, (lines, end) in enumerate(docs):
        w = model(lines)
        if not w:
            continue
        judged += 1
        total, p, f, s, ok = struct.unpack_from("<5I", r.stdout, 20 * i)
        sig.add((total, p, f, s, ok))
        if (bool(ok), p + s, f) != w[:3] or total != (sum(w[1:3]) if w[3] is None else w[3]):
            bad.append((f"{lines} ({end}): ok {bool(ok)}, {p + s} passed, {f} failed of {total}; expected {w}", (lines, end)))
    return len(docs), judged, bad, sig


def _end_to_end(c, case):
    """the verdict of muon test is that of the document"""
    mb = ["project('p')"]
    ops = []
    for i, (lines, end) in enumerate(case):
        ops.append(("w", f"{i}.tap", "\n".join(lines) + ("\n" if end else "")))
        mb.append(f"test('t{i}', find_program('cat'), args: files('{i}.tap'), protocol: 'tap')")
    r, t = c.go([("w", "meson.build", "\n".join(mb) + "\n"), *ops, ("r", ["setup", "b"], ".", {}, 60), ("r", ["-C", "b", "test", "-S", "-j4"], ".", {}, 60)])
    got = {}
    for m in re.finditer(r"^(\w+)\S* +[0-9.]+s +(?:(\d+)/ *(\d+) subtests, )?t(\d+)(?=\s|:|$)", t.out, re.M):
        got[int(m[4])] = (m[1] == "ok", int(m[2] or 0), int(m[3] or 0))
    allok = True
    for i, (lines, end) in enumerate(case):
        w = model(lines)
        if i not in got:
            return f"{lines} has no result: {t.out[-500:]}", ()
        if w:
            allok = allok and w[0]
            want = (w[0], w[1], sum(w[1:3]) if w[3] is None else w[3])
            if got[i] != want:
                return f"muon test: {lines}: {got[i]} instead of {want}", ()
        else:
            allok = allok and got[i][0]
    if (t.rc == 0) != allok:
        return f"exit code {t.rc}, {sum(not x[0] for x in got.values())} failed", ()
    return None, repr(case)


def main():
    ck = mv.Check("T04", "exploration")
    thorough = ck.thorough
    docs = []
    for n in range(0, 5 if thorough else 4):
        for p in itertools.product(LINES, repeat=n):
            for end in ((0, 1, 2) if n < 3 else (0, 1) if n < 4 else (1,)):
                docs.append((p, end))
    for n in range(4, 7 if thorough else 6):
        for p in itertools.product(FEW, repeat=n):
            docs.append((p, 1))
    # many tests, large plans
    for k in (9, 10, 99, 100, 255, 256, 257, 1000, 65535, 65536, 70000):
        for d in (-1, 0, 1):
            docs.append((("1..%d" % (k + d),) + ("ok",) * k, 1))
            docs.append((("not ok # TODO",) * k + ("1..%d" % (k + d),), 0))
    exe = mv.build_harness("tapserve", ["tapserve.c"], variant="asan")
    judged = 0
    sigs = set()
    for n, j, bad, sig in mv.pmap(_direct, mv.chunked(docs, 20000)):
        ck.add(evaluations=n)
        judged += j
        sigs |= sig
        for what, case in bad[:50]:
            ck.violation(what, case)
    ck.add(distinct_nontrivial=len(sigs), judged=judged)
    e2e = [(p, e) for n in range(0, 3) for p in itertools.product(LINES, repeat=n) for e in ((0, 1) if thorough or n < 2 else (1,))]
    e2e += [(p, 1) for p in itertools.product(FEW, repeat=3)]
    clicheck.run(ck, mv.chunked(e2e, 60), _end_to_end, chunk=1)
    ck.add(exhaustive=True, rule=f"every document of up to {4 if thorough else 3} lines of {len(LINES)} kinds and up to {6 if thorough else 5} of {len(FEW)} kinds, with and without a final newline, and plans of up to 70000 tests, "
           "through tap_parse() with ASan; those of up to 2 lines (3 of the few) as the output of a test under muon test; distinct_nontrivial: different results and end-to-end batches")
    ck.sample("1..2 / ok / not ok # TODO: passes; ok # TODO: fails; Bail out! anywhere: fails; fewer or more tests than planned: fails")
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
