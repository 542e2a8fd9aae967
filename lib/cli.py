"""Driver of harness/cliworld.c: muon's command line over scratch trees."""
import os
import struct

import mv

UID = 65534
BASE = None         # where the scratch trees are made; the caller removes it


def exe(variant="rel"):
    return mv.build_harness("cliworld", ["cliworld.c"], variant=variant, with_main=True)


def s(x):
    if isinstance(x, str):
        x = x.encode("utf-8", "surrogateescape")
    return struct.pack("<H", len(x)) + x


class Run:
    def __init__(self, st, out):
        self.signal = st & 0x7f
        self.rc = (st >> 8) & 0xff if not self.signal else -self.signal
        self.out = out.decode("utf-8", "replace")

    def messages(self):
        """the texts given to message()"""
        r = []
        for l in self.out.split("\n"):
            i = l.find("message: ")
            if i >= 0:
                r.append(l[i + 9:].rstrip("\r"))
        return r


class Entry:
    __slots__ = ("type", "mode", "mtime", "data")

    def __repr__(self):
        return f"<{self.type} {self.mode:o} {self.data[:60]!r}>"


class Cli:
    def __init__(self, variant="rel", uid=UID):
        self.scr = mv.Scratch("cli", BASE)
        if uid:
            os.chown(self.scr.d, uid, uid)
            os.chmod(self.scr.d, 0o755)
        self.d = self.scr.d
        self.srv = mv.Server(exe(variant), [self.scr.d, mv.muon("rel"), str(uid)])
        self.runs = 0

    def close(self):
        self.srv.stop()
        self.scr.__exit__()

    def go(self, ops, keep=False):
        """ops -> the answers of the run/tree/file ops, in order"""
        b = [struct.pack("<I", len(ops))]
        kinds = []
        for op in ops:
            k = op[0]
            b.append(k[0].encode())
            if k == "w":
                c = op[2]
                if isinstance(c, str):
                    c = c.encode("utf-8", "surrogateescape")
                b.append(s(op[1]) + struct.pack("<HI", op[3] if len(op) > 3 else 0o644, len(c)) + c)
            elif k in ("l", "m"):
                b.append(s(op[1]) + s(op[2]))
            elif k in ("d", "x"):
                b.append(s(op[1]))
            elif k == "c":
                b.append(s(op[1]) + struct.pack("<H", op[2]))
            elif k == "u":
                b.append(s(op[1]) + struct.pack("<q", op[2]))
            elif k in ("r", "e", "p"):
                # ("r", argv, cwd, env, timeout); ("p", argv, cwd, env, timeout, mode, set, k, errno)
                argv = op[1]
                cwd = op[2] if len(op) > 2 and op[2] else "."
                env = op[3] if len(op) > 3 and op[3] else {}
                to = op[4] if len(op) > 4 else 10
                self.runs += 1
                b.append(s(cwd) + struct.pack("<H", len(env)) + b"".join(s(f"{x}={y}") for x, y in env.items()) +
                         struct.pack("<H", len(argv)) + b"".join(s(a) for a in argv) + struct.pack("<H", to))
                if k == "p":
                    b.append(op[5].encode() + op[6].encode() + struct.pack("<IH", op[7], op[8]))
                kinds.append("p" if k == "p" else "r")
            elif k in ("t", "f"):
                b.append(s(op[1]))
                kinds.append(k)
            else:
                raise ValueError(k)
        r = self.srv.one("k" if keep else "s", b"".join(b))
        if isinstance(r, mv.Crash):
            raise mv.Infra("cliworld died: " + r.what)
        r = r[1]
        i = 0
        res = []
        for k in kinds:
            if k in "rp":
                st, n = struct.unpack_from("<iI", r, i)
                res.append(Run(st, r[i + 8:i + 8 + n]))
                i += 8 + n
                if k == "p":
                    res[-1].seen, n = struct.unpack_from("<IH", r, i)
                    res[-1].hit = r[i + 6:i + 6 + n].decode("utf-8", "replace")
                    i += 6 + n
            elif k == "f":
                n, = struct.unpack_from("<i", r, i)
                i += 4
                if n < 0:
                    res.append(None)
                else:
                    res.append(r[i:i + n])
                    i += n
            else:
                c, = struct.unpack_from("<I", r, i)
                i += 4
                tree = {}
                for _ in range(c):
                    e = Entry()
                    e.type = chr(r[i])
                    l, = struct.unpack_from("<H", r, i + 1)
                    p = r[i + 3:i + 3 + l].decode("utf-8", "surrogateescape")
                    i += 3 + l
                    e.mode, e.mtime, n = struct.unpack_from("<HqI", r, i)
                    i += 14
                    e.data = r[i:i + n]
                    i += n
                    tree[p] = e
                res.append(tree)
        return res


_C = {}


def cli(variant="rel"):
    k = (variant, os.getpid())
    if k not in _C:
        _C[k] = Cli(variant)
    return _C[k]
