"""Reference semantics of the string, integer, boolean, array and dict methods
(Meson reference manual, where muon implements the method)."""
import re

import refmeson
from refmeson import Err, Unspec, Interp, typ, eq

WS = " \t\r\n"


def need(pos, kw, *types, opt=0):
    if kw:
        raise Err("unknown keyword")
    if not len(types) - opt <= len(pos) <= len(types):
        raise Err("arity")
    for p, t in zip(pos, types):
        if t != "any" and typ(p) not in t.split("|"):
            raise Err("type")


def flatten(xs):
    out = []
    for x in xs:
        if typ(x) == "list":
            out += flatten(x)
        else:
            out.append(x)
    return out


def vparse(s):
    return [(1, int(t)) if t.isdigit() else (0, t) for t in re.findall(r"[0-9]+|[a-zA-Z]+", s)]


def vcmp(a, b):
    for x, y in zip(a, b):
        if x != y:
            return -1 if x < y else 1
    return (len(a) > len(b)) - (len(a) < len(b))


def version_compare(v, c):
    op = "=="
    for o in (">=", "<=", "!=", "==", "=", ">", "<"):
        if c.startswith(o):
            op, c = o, c[len(o):]
            break
    r = vcmp(vparse(v), vparse(c))
    return {"==": r == 0, "=": r == 0, "!=": r != 0, ">=": r >= 0, "<=": r <= 0, ">": r > 0, "<": r < 0}[op]


def toint(s):
    t = s.strip(WS)
    if not re.fullmatch(r"[+-]?[0-9]+", t):
        if re.fullmatch(r"[ -~\s]*", s) is None or "_" in s:
            raise Unspec("to_int of exotic text")
        raise Err("to_int")
    v = int(t)
    if not -2**63 <= v < 2**63:
        raise Err("range")
    return v


class MInterp(Interp):
    def method(self, o, name, pos, kw):
        t = typ(o)
        f = getattr(self, f"{t}_{name}", None)
        if f is None:
            raise Err(f"no method {t}.{name}")
        return f(o, pos, kw)

    # ---- str
    def str_strip(self, o, pos, kw):
        need(pos, kw, "str", opt=1)
        if not pos:
            if o.strip(" \n\t") != o.strip():
                raise Unspec("which whitespace")
            return o.strip()
        return o.strip(pos[0]) if pos[0] else o

    def str_to_upper(self, o, pos, kw):
        need(pos, kw)
        return "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in o)

    def str_to_lower(self, o, pos, kw):
        need(pos, kw)
        return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in o)

    def str_underscorify(self, o, pos, kw):
        need(pos, kw)
        return re.sub(r"[^a-zA-Z0-9]", "_", o)

    def str_contains(self, o, pos, kw):
        need(pos, kw, "str")
        return pos[0] in o

    def str_startswith(self, o, pos, kw):
        need(pos, kw, "str")
        return o.startswith(pos[0])

    def str_endswith(self, o, pos, kw):
        need(pos, kw, "str")
        return o.endswith(pos[0])

    def str_substring(self, o, pos, kw):
        need(pos, kw, "int", "int", opt=2)
        a, b = (pos + [0, len(o)][len(pos):])
        if a < -len(o) or b < -len(o):
            a = max(a, -len(o)) if a < 0 else a
            b = max(b, -len(o)) if b < 0 else b
        return o[a:b]

    def str_replace(self, o, pos, kw):
        need(pos, kw, "str", "str")
        return o.replace(pos[0], pos[1])

    def str_split(self, o, pos, kw):
        need(pos, kw, "str", opt=1)
        if not pos:
            if re.search(r"[\x0b\x0c\x1c-\x1f\x85\xa0]", o):
                raise Unspec("which whitespace")
            return o.split()
        if not pos[0]:
            raise Err("empty separator")
        return o.split(pos[0])

    def str_join(self, o, pos, kw):
        if kw:
            raise Err("kw")
        xs = flatten(pos)
        if any(typ(x) != "str" for x in xs):
            raise Err("join type")
        return o.join(xs)

    def str_to_int(self, o, pos, kw):
        need(pos, kw)
        return toint(o)

    def str_version_compare(self, o, pos, kw):
        need(pos, kw, "str")
        return version_compare(o, pos[0])

    def str_format(self, o, pos, kw):
        if kw:
            raise Err("kw")
        args = flatten(pos)
        if any(typ(x) == "dict" for x in args):
            raise Err("format type")
        if "\\@" in o:
            raise Unspec("escaped @")

        def sub(m):
            i = int(m.group(1))
            if i >= len(args):
                raise Err("format index")
            return refmeson.tostr(args[i])

        return re.sub(r"@([0-9]+)@", sub, o)

    # ---- int
    def int_to_string(self, o, pos, kw):
        need(pos, kw)
        return str(o)

    def int_is_even(self, o, pos, kw):
        need(pos, kw)
        return o % 2 == 0

    def int_is_odd(self, o, pos, kw):
        need(pos, kw)
        return o % 2 == 1

    # ---- bool
    def bool_to_int(self, o, pos, kw):
        need(pos, kw)
        return int(o)

    def bool_to_string(self, o, pos, kw):
        need(pos, kw, "str", "str", opt=2)
        if len(pos) == 1:
            raise Unspec("one argument")
        return (pos or ["true", "false"])[0 if o else 1]

    # ---- list
    def list_length(self, o, pos, kw):
        need(pos, kw)
        return len(o)

    def list_get(self, o, pos, kw):
        need(pos, kw, "int", "any", opt=1)
        if -len(o) <= pos[0] < len(o):
            return o[pos[0]]
        if len(pos) == 2:
            return pos[1]
        raise Err("bounds")

    def list_contains(self, o, pos, kw):
        need(pos, kw, "any")

        def has(l):
            return any(eq(x, pos[0]) or (typ(x) == "list" and has(x)) for x in l)

        return has(o)

    # ---- dict
    def dict_keys(self, o, pos, kw):
        need(pos, kw)
        return list(o.keys())

    def dict_has_key(self, o, pos, kw):
        need(pos, kw, "str")
        return pos[0] in o

    def dict_get(self, o, pos, kw):
        need(pos, kw, "str", "any", opt=1)
        if pos[0] in o:
            return o[pos[0]]
        if len(pos) == 2:
            return pos[1]
        raise Err("key")

    # ---- functions
    def call(self, name, pos, kw):
        if name == "is_variable":
            need(pos, kw, "str")
            return pos[0] in self.v
        if name == "get_variable":
            need(pos, kw, "str", "any", opt=1)
            if pos[0] in self.v:
                return self.v[pos[0]]
            if len(pos) == 2:
                return pos[1]
            raise Err("undefined")
        if name == "set_variable":
            need(pos, kw, "str", "any")
            if not re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", pos[0]):
                raise Unspec("variable name")
            self.v[pos[0]] = pos[1]
            return None
        if name == "unset_variable":
            need(pos, kw, "str")
            if pos[0] not in self.v:
                raise Err("undefined")
            del self.v[pos[0]]
            return None
        if name == "assert":
            need(pos, kw, "bool", "str", opt=1)
            if not pos[0]:
                raise Err("assert")
            return None
        if name == "error":
            raise Err("error()")
        if name == "join_paths":
            raise Unspec("join_paths")
        return super().call(name, pos, kw)
