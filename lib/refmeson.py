"""A small, boring reference interpreter for the Meson language subset that the
language properties talk about.  Written from the Meson reference manual and
muon's doc/, not from muon's code.

Values: int, bool, str (latin-1 chars = bytes), list, Dict (ordered, keys str).
Err  = the program is rejected (at parse time or at run time).
Unspec = the documents do not say; the case is skipped.
"""


class Err(Exception):
    pass


class Unspec(Exception):
    pass


KW = {"true", "false", "if", "else", "elif", "endif", "and", "or", "not", "foreach", "endforeach",
      "in", "continue", "break"}


# ---------------------------------------------------------------- lexer

def lex(src):
    toks = []
    i, n = 0, len(src)
    depth = 0
    while i < n:
        c = src[i]
        if c in " \t\r":
            i += 1
        elif c == "\\" and src[i + 1:i + 2] == "\n":
            i += 2
        elif c == "#":
            while i < n and src[i] != "\n":
                i += 1
        elif c == "\n":
            if depth == 0:
                toks.append(("eol", None))
            i += 1
        elif c.isalpha() or c == "_":
            if c == "f" and src[i + 1:i + 2] == "'":
                i += 1
                s, i = lex_string(src, i)
                toks.append(("fstr", s))
                continue
            j = i
            while j < n and (src[j].isalnum() or src[j] == "_"):
                j += 1
            w = src[i:j]
            toks.append((w, None) if w in KW else ("id", w))
            i = j
        elif c.isdigit():
            j = i
            if src[i:i + 2] in ("0x", "0X"):
                base, digs, j = 16, "0123456789abcdefABCDEF", i + 2
            elif src[i:i + 2] in ("0o", "0O"):
                base, digs, j = 8, "01234567", i + 2
            elif src[i:i + 2] in ("0b", "0B"):
                base, digs, j = 2, "01", i + 2
            else:
                base, digs = 10, "0123456789"
            k = j
            while k < n and src[k] in digs:
                k += 1
            if k == j:
                raise Err("bad number")
            v = int(src[j:k], base)
            if v > 2**63 - 1:
                raise Err("number out of range")
            toks.append(("num", v))
            i = k
        elif c == "'":
            s, i = lex_string(src, i)
            toks.append(("str", s))
        else:
            for op in ("==", "!=", "<=", ">=", "+=", "+", "-", "*", "/", "%", "<", ">", "=", "(", ")", "[", "]",
                       "{", "}", ",", ":", ".", "?"):
                if src.startswith(op, i):
                    if op in "([{":
                        depth += 1
                    if op in ")]}":
                        depth -= 1
                    toks.append((op, None))
                    i += len(op)
                    break
            else:
                raise Err("bad char")
    toks.append(("eol", None))
    toks.append(("eof", None))
    return toks


SIMPLE = {"\\": "\\", "'": "'", "a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}


def u8(v):
    """a code point as UTF-8 bytes (programs and values are latin-1 decoded bytes)"""
    return chr(v).encode("utf-8", "surrogatepass").decode("latin1")


def lex_string(src, i):
    n = len(src)
    if src.startswith("'''", i):
        j = src.find("'''", i + 3)
        if j < 0:
            raise Err("unterminated")
        return src[i + 3:j], j + 3
    i += 1
    out = []
    while True:
        if i >= n:
            raise Err("unterminated")
        c = src[i]
        if c == "'":
            return "".join(out), i + 1
        if c == "\n":
            raise Err("newline in string")
        if c != "\\":
            out.append(c)
            i += 1
            continue
        e = src[i + 1:i + 2]
        if e in SIMPLE and e:
            out.append(SIMPLE[e])
            i += 2
        elif e == "x":
            h = src[i + 2:i + 4]
            if len(h) == 2 and all(x in "0123456789abcdefABCDEF" for x in h):
                out.append(u8(int(h, 16)))
                i += 4
            else:
                raise Unspec("short hex escape")
        elif e and e in "01234567":
            j = i + 1
            while j < n and j < i + 4 and src[j] in "01234567":
                j += 1
            out.append(u8(int(src[i + 1:j], 8)))
            i = j
        elif e in ("u", "U") and len(src) > i + (5 if e == "u" else 9) and all(
                x in "0123456789abcdefABCDEF" for x in src[i + 2:i + (6 if e == "u" else 10)]):
            k = i + (6 if e == "u" else 10)
            v = int(src[i + 2:k], 16)
            if v == 0 or v > 0x10ffff or 0xd800 <= v < 0xe000:
                raise Unspec("not a character")
            out.append(u8(v))
            i = k
        elif e in ("u", "U", "N"):
            raise Unspec("unicode escape")
        else:
            out.append("\\")
            i += 1


# ---------------------------------------------------------------- parser

class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0
        self.loop = 0

    def peek(self):
        return self.t[self.i][0]

    def acc(self, k):
        if self.t[self.i][0] == k:
            self.i += 1
            return True
        return False

    def exp(self, k):
        if not self.acc(k):
            raise Err(f"expected {k} got {self.peek()}")

    def program(self):
        self.noeffect = False
        b = self.block(("eof",))
        self.exp("eof")
        if self.noeffect:
            raise Unspec("block with no effect")
        return b

    def block(self, ends):
        out = []
        while True:
            while self.acc("eol"):
                pass
            if self.peek() in ends:
                return out
            out.append(self.stmt())
            if self.peek() not in ends:
                self.exp("eol")
            elif self.peek() != "eof":
                raise Unspec("statement not ended by a newline")

    def stmt(self):
        if self.acc("if"):
            arms = []
            c = self.expr()
            self.exp("eol")
            arms.append((c, self.block(("elif", "else", "endif"))))
            els = None
            while self.acc("elif"):
                c = self.expr()
                self.exp("eol")
                arms.append((c, self.block(("elif", "else", "endif"))))
            if self.acc("else"):
                self.exp("eol")
                els = self.block(("endif",))
            self.exp("endif")
            self.effect([x for _, b in arms for x in b] + (els or []), [c for c, _ in arms])
            return ("if", arms, els)
        if self.acc("foreach"):
            ids = [self.ident()]
            if self.acc(","):
                ids.append(self.ident())
            self.exp(":")
            it = self.expr()
            self.exp("eol")
            self.loop += 1
            b = self.block(("endforeach",))
            self.loop -= 1
            self.exp("endforeach")
            self.effect(b, [it])
            return ("foreach", ids, it, b)
        if self.acc("continue"):
            if not self.loop:
                raise Err("continue outside loop")
            return ("continue",)
        if self.acc("break"):
            if not self.loop:
                raise Err("break outside loop")
            return ("break",)
        e = self.expr()
        if self.acc("="):
            if e[0] != "id":
                raise Err("assign to non-id")
            return ("assign", e[1], self.expr())
        if self.acc("+="):
            if e[0] != "id":
                raise Err("assign to non-id")
            return ("plus", e[1], self.expr())
        return ("expr", e)

    def effect(self, stmts, exprs):
        """muon rejects blocks that cannot do anything; Meson does not"""
        def eff(e):
            return isinstance(e, (tuple, list)) and (
                (isinstance(e, tuple) and e and e[0] in ("call", "meth")) or any(eff(x) for x in e))
        for s in stmts:
            if s[0] != "expr" or eff(s):
                return
        if not any(eff(e) for e in exprs):
            self.noeffect = True

    def ident(self):
        if self.peek() != "id":
            raise Err("expected identifier")
        v = self.t[self.i][1]
        self.i += 1
        return v

    def expr(self):
        c = self.e_or()
        if self.acc("?"):
            a = self.expr()
            self.exp(":")
            b = self.expr()
            return ("tern", c, a, b)
        return c

    def e_or(self):
        l = self.e_and()
        while self.acc("or"):
            l = ("or", l, self.e_and())
        return l

    def e_and(self):
        l = self.e_cmp()
        while self.acc("and"):
            l = ("and", l, self.e_cmp())
        return l

    def e_cmp(self):
        l = self.e_add()
        for op in ("==", "!=", "<", "<=", ">", ">=", "in"):
            if self.acc(op):
                return ("cmp", op, l, self.e_add())
        if self.peek() == "not" and self.t[self.i + 1][0] == "in":
            self.i += 2
            return ("cmp", "not in", l, self.e_add())
        return l

    def e_add(self):
        l = self.e_mul()
        while self.peek() in ("+", "-"):
            op = self.peek()
            self.i += 1
            l = ("bin", op, l, self.e_mul())
        return l

    def e_mul(self):
        l = self.e_un()
        while self.peek() in ("*", "/", "%"):
            op = self.peek()
            self.i += 1
            l = ("bin", op, l, self.e_un())
        return l

    def e_un(self):
        if self.acc("not"):
            return ("not", self.e_post())
        if self.acc("-"):
            return ("neg", self.e_post())
        return self.e_post()

    def e_post(self):
        l = self.e_prim()
        while True:
            if self.acc("["):
                i = self.expr()
                self.exp("]")
                l = ("idx", l, i)
            elif self.acc("."):
                m = self.ident()
                self.exp("(")
                l = ("meth", l, m, self.args(")"))
            elif self.peek() == "(" and l[0] == "id":
                self.i += 1
                l = ("call", l[1], self.args(")"))
            else:
                return l

    def args(self, end):
        pos, kw = [], []
        while not self.acc(end):
            e = self.expr()
            if self.acc(":"):
                if e[0] != "id":
                    raise Err("kwarg name")
                kw.append((e[1], self.expr()))
            else:
                if kw:
                    raise Err("positional after keyword")
                pos.append(e)
            if not self.acc(","):
                self.exp(end)
                break
        return pos, kw

    def e_prim(self):
        k, v = self.t[self.i]
        if k == "num" or k == "str":
            self.i += 1
            return ("lit", v)
        if k == "fstr":
            self.i += 1
            return ("fstr", v)
        if k == "true" or k == "false":
            self.i += 1
            return ("lit", k == "true")
        if k == "id":
            self.i += 1
            return ("id", v)
        if k == "(":
            self.i += 1
            e = self.expr()
            self.exp(")")
            # a parenthesised identifier is not callable
            return ("paren", e) if e[0] == "id" else e
        if k == "[":
            self.i += 1
            out = []
            while not self.acc("]"):
                out.append(self.expr())
                if not self.acc(","):
                    self.exp("]")
                    break
            return ("arr", out)
        if k == "{":
            self.i += 1
            out = []
            while not self.acc("}"):
                a = self.expr()
                self.exp(":")
                out.append((a, self.expr()))
                if not self.acc(","):
                    self.exp("}")
                    break
            return ("dict", out)
        raise Err(f"unexpected {k}")


def parse(src):
    return P(lex(src)).program()


# ---------------------------------------------------------------- evaluation

I64 = 2**63


def rng(n):
    if not -I64 <= n < I64:
        raise Unspec("integer overflow")
    return n


def typ(v):
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, str):
        return "str"
    if isinstance(v, list):
        return "list"
    if isinstance(v, dict):
        return "dict"
    return "void"


def eq(a, b):
    ta, tb = typ(a), typ(b)
    if ta != tb:
        return False
    if ta == "list":
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if ta == "dict":
        return len(a) == len(b) and all(k in b and eq(v, b[k]) for k, v in a.items())
    return a == b


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


def joinpath(a, b):
    """'a' / 'b'"""
    if "\0" in a or "\0" in b:
        raise Err("nul in path")
    if b.startswith("/"):
        r = b
    elif not a:
        r = b
    elif not b:
        r = a + "/" if not a.endswith("/") else a
        raise Unspec("join with empty")
    else:
        r = a + "/" + b
    # path normalisation beyond plain components is not part of this subset
    for comp in r.split("/")[0 if not r.startswith("/") else 1:]:
        if comp in ("", ".", ".."):
            raise Unspec("path normalisation")
    return r


def tostr(v, nested=False):
    t = typ(v)
    if t == "bool":
        return "true" if v else "false"
    if t == "int":
        return str(v)
    if t == "str":
        return v
    raise Unspec("stringify container")


def isidstart(c):
    return c.isascii() and (c.isalpha() or c == "_")


class Interp:
    STEPS = 20000

    def __init__(self):
        self.v = {}
        self.steps = 0
        self.methods = None

    def run(self, src):
        prog = parse(src)
        self.block(prog)
        return self.v

    def tick(self):
        self.steps += 1
        if self.steps > self.STEPS:
            raise Unspec("too long")

    def block(self, b):
        for s in b:
            self.stmt(s)

    def stmt(self, s):
        self.tick()
        k = s[0]
        if k == "assign":
            v = self.ev(s[2])
            if v is None:
                raise Err("void")
            self.v[s[1]] = v
        elif k == "plus":
            if s[1] not in self.v:
                raise Err("undefined")
            l = self.v[s[1]]
            r = self.ev(s[2])
            self.v[s[1]] = self.bin("+", l, r)
        elif k == "expr":
            if s[1][0] not in ("call", "meth"):
                raise Unspec("statement with no effect")
            self.ev(s[1])
        elif k == "if":
            for c, b in s[1]:
                v = self.ev(c)
                if typ(v) != "bool":
                    raise Err("if needs bool")
                if v:
                    return self.block(b)
            if s[2] is not None:
                self.block(s[2])
        elif k == "foreach":
            it = self.ev(s[2])
            t = typ(it)
            if t == "list":
                if len(s[1]) != 1:
                    raise Err("foreach ids")
                seq = [(x,) for x in it]
            elif t == "dict":
                if len(s[1]) != 2:
                    raise Err("foreach ids")
                seq = list(it.items())
            else:
                raise Err("not iterable")
            for tup in seq:
                self.tick()
                for n, x in zip(s[1], tup):
                    self.v[n] = x
                try:
                    self.block(s[3])
                except Cnt:
                    pass
                except Brk:
                    break
        elif k == "break":
            raise Brk()
        elif k == "continue":
            raise Cnt()

    def ev(self, e):
        self.tick()
        k = e[0]
        if k == "lit":
            return e[1]
        if k == "paren":
            return self.ev(e[1])
        if k == "id":
            if e[1] not in self.v:
                raise Err("undefined " + e[1])
            return self.v[e[1]]
        if k == "fstr":
            return self.fstring(e[1])
        if k == "arr":
            return [self.nv(x) for x in e[1]]
        if k == "dict":
            d = {}
            for a, b in e[1]:
                kk = self.ev(a)
                if typ(kk) != "str":
                    raise Err("key type")
                vv = self.nv(b)
                if kk in d:
                    raise Err("duplicate key")
                d[kk] = vv
            return d
        if k == "tern":
            c = self.ev(e[1])
            if typ(c) != "bool":
                raise Err("ternary cond")
            return self.ev(e[2] if c else e[3])
        if k in ("and", "or"):
            l = self.ev(e[1])
            if typ(l) != "bool":
                raise Err("bool op")
            if (k == "and") != l:
                return l
            r = self.ev(e[2])
            if typ(r) != "bool":
                raise Err("bool op")
            return r
        if k == "not":
            l = self.ev(e[1])
            if typ(l) != "bool":
                raise Err("not")
            return not l
        if k == "neg":
            l = self.ev(e[1])
            if typ(l) != "int":
                raise Err("neg")
            return rng(-l)
        if k == "cmp":
            return self.cmp(e[1], self.ev(e[2]), self.ev(e[3]))
        if k == "bin":
            return self.bin(e[1], self.ev(e[2]), self.ev(e[3]))
        if k == "idx":
            return self.index(self.ev(e[1]), self.ev(e[2]))
        if k == "meth":
            o = self.ev(e[1])
            pos = [self.nv(x) for x in e[3][0]]
            kw = {n: self.nv(x) for n, x in e[3][1]}
            return self.method(o, e[2], pos, kw)
        if k == "call":
            pos = [self.nv(x) for x in e[2][0]]
            kw = {n: self.nv(x) for n, x in e[2][1]}
            return self.call(e[1], pos, kw)
        raise AssertionError(k)

    def nv(self, x):
        v = self.ev(x)
        if v is None:
            raise Unspec("void value used")
        return v

    def fstring(self, s):
        out, i = [], 0
        while i < len(s):
            if s[i] == "@":
                j = i + 1
                if j < len(s) and isidstart(s[j]):
                    while j < len(s) and s[j].isascii() and (s[j].isalnum() or s[j] == "_"):
                        j += 1
                    if j < len(s) and s[j] == "@":
                        n = s[i + 1:j]
                        if n in KW:
                            raise Unspec("keyword in f-string")
                        if n not in self.v:
                            raise Err("undefined in f-string")
                        out.append(tostr(self.v[n]))
                        i = j + 1
                        continue
            out.append(s[i])
            i += 1
        return "".join(out)

    def cmp(self, op, l, r):
        if l is None or r is None:
            raise Unspec("void compare")
        if op in ("==", "!="):
            return eq(l, r) == (op == "==")
        if op in ("in", "not in"):
            t = typ(r)
            if t == "list":
                b = any(eq(l, x) for x in r)
            elif t == "dict":
                if typ(l) != "str":
                    raise Err("in dict")
                b = l in r
            elif t == "str":
                if typ(l) != "str":
                    raise Err("in str")
                b = l in r
            else:
                raise Err("in")
            return b == (op == "in")
        if typ(l) == "str" and typ(r) == "str":
            raise Unspec("string ordering")
        if typ(l) != "int" or typ(r) != "int":
            raise Err("ordering")
        return {"<": l < r, "<=": l <= r, ">": l > r, ">=": l >= r}[op]

    def bin(self, op, l, r):
        t = typ(l)
        if t == "int":
            if typ(r) != "int":
                raise Err("arith types")
            if op == "+":
                return rng(l + r)
            if op == "-":
                return rng(l - r)
            if op == "*":
                return rng(l * r)
            if r == 0:
                raise Err("div by 0")
            return rng(l // r) if op == "/" else rng(l % r)
        if t == "str":
            if typ(r) != "str":
                raise Err("arith types")
            if op == "+":
                return l + r
            if op == "/":
                return joinpath(l, r)
            raise Err("str op")
        if t == "list":
            if op != "+":
                raise Err("list op")
            if r is None:
                raise Unspec("void")
            return l + (r if typ(r) == "list" else [r])
        if t == "dict":
            if op != "+" or typ(r) != "dict":
                raise Err("dict op")
            d = dict(l)
            d.update(r)
            return d
        if t == "void":
            raise Unspec("void")
        raise Err("operator")

    def index(self, l, i):
        t = typ(l)
        if t in ("list", "str"):
            if typ(i) != "int":
                raise Err("index type")
            if not -len(l) <= i < len(l):
                raise Err("bounds")
            return l[i]
        if t == "dict":
            if typ(i) != "str":
                raise Err("index type")
            if i not in l:
                raise Err("key")
            return l[i]
        raise Err("index")

    def call(self, name, pos, kw):
        if name == "range":
            if kw or not 1 <= len(pos) <= 3 or any(typ(x) != "int" for x in pos):
                raise Err("range args")
            a, b, c = 0, None, 1
            if len(pos) == 1:
                b = pos[0]
            elif len(pos) == 2:
                a, b = pos
            else:
                a, b, c = pos
            if a < 0 or b < 0 or c < 1 or b < a:
                raise Err("range args")
            return list(range(a, b, c))
        raise Unspec("function " + name)

    def method(self, o, name, pos, kw):
        raise Unspec("method " + name)
