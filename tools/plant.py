#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from a small description file (not used by any check).

usage: plant.py DESC.py      DESC.py calls bug(id, property, [(file, old, new), ...], demo, needs, breaks, files={})
The edit is made in a scratch worktree, never in /repo."""
import os, subprocess, sys, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = """#!/bin/sh
# exit 0: behaves; nonzero: broken.  cwd is /repo, built in _build.
here=$(cd "$(dirname "$0")" && pwd)
muon=$(pwd)/_build/muon
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
unset CFLAGS CXXFLAGS LDFLAGS DESTDIR
export CC=gcc
cd "$tmp" || exit 3
"""
def bug(id, prop, edits, demo, needs, breaks, files={}):
    wt = tempfile.mkdtemp(prefix="seedwt")
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt, "HEAD"], check=True)
    try:
        for f, old, new in edits:
            p = os.path.join(wt, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE, check=True).stdout
        o = os.path.join(V, "seeded", id)
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "wb").write(d)
        open(o + "/demo.sh", "w").write(HEAD + demo.strip("\n") + "\n")
        os.chmod(o + "/demo.sh", 0o755)
        for n, c in files.items():
            open(os.path.join(o, n), "w").write(c)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt], check=True)
    print("planted", id)
exec(open(sys.argv[1]).read())
