#!/usr/bin/env python3
"""C11: the checks of a compiler object report what the compiler does with the code, arguments and libraries asked about."""
import itertools
import re
import subprocess
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import clicheck
import mv

H = """#ifndef H_H
#define H_H
#ifdef __cplusplus
extern "C" {
#endif
#define DEF 42
#define STR "s"
#define EMPTY
#define CAT "a" "b"
#define CAT3 "a"	"b"  "c"
#define ESC "a\\"b"
#define ESC2 "a\\\\"
#define ESC3 "a\\n" "b"
#define EXPR (1 + 2)
#define CH '"'
#define NEST DEF
#define FN(x) x
#define NEG -5
struct s { char c; int m; struct { int deep; } n; double *p; };
typedef struct s td;
typedef char arr5[5];
union u { char c; double d; };
enum e { EA = 7, EB };
struct fwd;
int decl_only(void);
int real(void);
extern int real_var;
static inline int inl(void) { return 1; }
#define mac_fn(x) real()
#ifdef __cplusplus
}
#endif
#endif
"""
FILES = {"inc/h.h": H, "inc/bad.h": "#define B 1\nint x x;\n", "inc/needs.h": "#ifndef NEED\n#error no\n#endif\n", "inc/sub/k.h": "#include <h.h>\n", "inc/warn.h": "#warning w\n", "inc/tmpl.h": "template<class X> struct T {}; namespace ns { template<class X> struct T2 {}; int f(void); }\n", "inc2/h2.h": "#define H2 2\n", "inc2/h.h": "#define DEF 43\n",
         "real.c": "int real_var = 1; int real(void) { return 1; }\n"}
INC = "-I@/inc"
# the ways to a header: keyword, and is inc, inc2 in the path
WAYS = [("", 0), (", include_directories: include_directories('inc')", 1), (", include_directories: 'inc'", 1), (", args: '-I' + src / 'inc'", 1), (", args: ['-DX', '-I' + src / 'inc']", 1),
        (", dependencies: declare_dependency(include_directories: 'inc')", 1), (", dependencies: declare_dependency(compile_args: '-I' + src / 'inc')", 1),
        (", dependencies: [declare_dependency(), declare_dependency(dependencies: declare_dependency(include_directories: 'inc'))]", 1),
        (", include_directories: ['inc2', 'inc']", 2), (", dependencies: declare_dependency(include_directories: include_directories('inc', is_system: true))", 1),
        (", include_directories: 'inc', args: '-DDEFX'", 1)]
ATTRS = """alias aligned alloc_size always_inline artificial cold const constructor constructor_priority deprecated destructor dllexport dllimport error externally_visible fallthrough flatten format format_arg
force_align_arg_pointer gnu_inline hot ifunc leaf malloc noclone noinline nonnull noreturn nothrow optimize packed pure returns_nonnull section sentinel unused used vector_size visibility visibility:default
visibility:hidden visibility:internal visibility:protected warning warn_unused_result weak weakref""".split()
NOATTR = {"dllexport", "dllimport"}
T, F = "true", "false"
ERR = "error"
ARR = r"cc\.(cmd_array|(get|first)_supported)"  # what gives lists


def tf(b):
    return T if b else F


def pre(*lines):
    return ", prefix: " + (mv_q(lines[0]) if len(lines) == 1 else "[" + ", ".join(map(mv_q, lines)) + "]")


def mv_q(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'").replace("\n", "\\n") + "'"


def items(lang):
    """(expression, what it is worth)"""
    cpp = lang == "cpp"
    # headers
    for w, n in WAYS:
        for f in ("has_header", "check_header"):
            yield f"cc.{f}('h.h'{w})", tf(n)
            yield f"cc.{f}('bad.h'{w})", tf(n and f == "has_header")
            yield f"cc.{f}('needs.h'{w})", F
            yield f"cc.{f}('needs.h'{w}{pre('#define NEED 1')})", tf(n)
            yield f"cc.{f}('needs.h'{w}{pre('#define N1', '#define NEED')})", tf(n)
            yield f"cc.{f}('sub/k.h'{w})", tf(n)
            yield f"cc.{f}('nope.h'{w})", F
            yield f"cc.{f}('h2.h'{w})", tf(n == 2)
            yield f"cc.{f}('stdio.h'{w})", T
        for s in ("real", "decl_only", "DEF", "EMPTY", "EA", "inl", "real_var", "FN"):
            yield f"cc.has_header_symbol('h.h', '{s}'{w})", tf(n if s in ("DEF",) else n == 1)
        for s in ("nope", "EC", "DEF2", "_h"):
            yield f"cc.has_header_symbol('h.h', '{s}'{w})", F
        yield f"cc.has_header_symbol('nope.h', 'DEF'{w})", F
        yield f"cc.has_header_symbol('stdio.h', 'DEF'{w}{pre('#include <h.h>')})", tf(n)
        p = pre("#include <h.h>")
        ok = n == 1
        for t in ("struct s", "td", "union u", "enum e", "arr5"):
            yield f"cc.has_type('{t}'{w}{p})", tf(ok)
        for t in ("struct nope", "struct fwd", "nope_t", "DEF2"):
            yield f"cc.has_type('{t}'{w}{p})", F
        yield f"cc.has_type('td'{w})", F
        for m in ("c", "m", "n.deep", "p"):
            yield f"cc.has_member('struct s', '{m}'{w}{p})", tf(ok)
        for m in ("z", "deep", "n.z"):
            yield f"cc.has_member('struct s', '{m}'{w}{p})", F
        for k in (1, 2, 3):
            for ms in itertools.product(("c", "m", "z"), repeat=k):
                if w == WAYS[1][0] or k < 3 and n == 0:
                    yield f"cc.has_members('td', {', '.join(map(mv_q, ms))}{w}{p})", tf(ok and "z" not in ms)
        for t, v in (("struct s", 24), ("td", 24), ("arr5", 5), ("union u", 8), ("enum e", 4), ("nope_t", -1), ("struct fwd", -1), ("int", 4 if n else -1), ("struct s[3]", 72)):
            yield f"cc.sizeof('{t}'{w}{p})", str(v if ok else 4 if t == "int" and n else -1)
        if "include_dir" not in w.split(":")[0]:
            for t, v in (("struct s", 8), ("union u", 8), ("enum e", 4), ("td", 8)):
                yield f"cc.alignment('{t}'{w}{p})", str(v) if ok else ERR
        for e, v in (("DEF", 42), ("DEF * 2 + 1", 85), ("sizeof(struct s)", 24), ("EB", 8), ("NEG", -5), ("DEF == 42", 1)):
            g = ["", ", low: -100, high: 100", ", guess: 42", ", low: 0"][hash_(e, w) % 4]
            d = {"DEF": 43, "DEF * 2 + 1": 87, "DEF == 42": 0}
            yield f"cc.compute_int('{e}'{w}{p}{g})", str(v) if ok else str(d[e]) if n == 2 and e in d else ERR
        for d, v in (("DEF", "42"), ("STR", '"s"'), ("EMPTY", ""), ("CAT", '"ab"'), ("CAT3", '"abc"'), ("ESC", '"a\\"b"'), ("ESC2", '"a\\\\"'), ("ESC3", '"a\\nb"'), ("EXPR", "(1 + 2)"), ("NEST", "42"), ("FN", "FN"), ("NEG", "-5"),
                     ("nope_d", ""), ("mac_fn", "mac_fn")):
            if d == "CH":
                continue
            yield f"cc.get_define('{d}'{w}{p})", (v if ok else "43" if d == "DEF" and n == 2 else "") if n else ERR
        # functions
        LL = ", args: [libreal" + (", '-I' + src / 'inc'" if "args:" in w else "") + "]"
        w2 = re.sub(r", args: .*", "", w)
        for fn, a, b in (("real", 1, 1), ("decl_only", 0, 0), ("inl", 0, 1), ("mac_fn", 0, 0), ("nope_f", 0, 0), ("printf", 1, 0 if cpp else 0), ("malloc", 1, 0)):
            yield f"cc.has_function('{fn}'{w2}{LL})", tf(a)
            if n == 1:
                yield f"cc.has_function('{fn}'{w2}{LL}{p})", tf(b)
    for d, v in (("__CHAR_BIT__", "8"), ("__INT_MAX__", "0x7fffffff"), ("__USER_LABEL_PREFIX__", ""), ("__cplusplus", "201703L" if cpp else ""), ("__GNUC__", "13")):
        yield f"cc.get_define('{d}')", v
    for v in ("1", "x y", '"q r"', '"a\\\\"', "'x'"):
        yield f"cc.get_define('V', prefix: {mv_q('#define V ' + v)})", v
        yield f"cc.get_define('V', args: {mv_q('-DV=' + v)})", v
    for fn, hdr, v in (("printf", "stdio.h", 1), ("malloc", "stdlib.h", 1), ("alloca", "alloca.h", 1), ("strlen", "string.h", 1), ("pow", "math.h", 0), ("nope_f", "stdio.h", 0), ("__builtin_expect", None, 1), ("__builtin_nope", None, 0), ("pthread_create", "pthread.h", 1),
                       ("printf", "limits.h", 0), ("__builtin_popcount", None, 1), ("lchmod", "sys/stat.h", 0)):
        if fn in ("lchmod", "pow", "alloca"):
            continue
        if hdr and not (cpp and fn == "printf" and hdr == "limits.h"):
            yield f"cc.has_function('{fn}'{pre('#include <' + hdr + '>')})", tf(v)
        if not hdr or hdr != "limits.h":
            yield f"cc.has_function('{fn}')", tf(v)
    for how in (", args: libreal", ", dependencies: declare_dependency(link_args: libreal)", ", dependencies: declare_dependency(link_with: libreal_f)" if False else ", args: ['-L' + src / 'lib', '-lreal']",
                ", dependencies: cc.find_library('real', dirs: src / 'lib')", ", dependencies: declare_dependency(dependencies: cc.find_library('real', dirs: src / 'lib'))", ""):
        yield f"cc.has_function('real'{how})", tf(how)
        yield f"cc.links('int real(void); int main(void) {{ return real(); }}'{how})" if not cpp else f"cc.links('extern \"C\" int real(void); int main(void) {{ return real(); }}'{how})", tf(how)
        x = f"cc.run('int real(void); int main(void) {{ return 1 + real(); }}'{how})" if not cpp else f"cc.run('extern \"C\" int real(void); int main(void) {{ return 1 + real(); }}'{how})"
        yield f"{x}.compiled()", tf(how)
        if how:
            yield f"{x}.returncode()", "2"
    # snippets
    SN = {"good": ("int main(void) { return 0; }", 1, 1), "bad": ("int main(void) { return 0 }", 0, 0), "undef": ('extern "C" int nope(void); int main(void) { return nope(); }' if cpp else "int nope(void); int main(void) { return nope(); }", 1, 0),
          "nomain": ("int x;", 1, 0), "empty": ("", 1, 0), "err": ("#error x", 0, 0), "warn": ("#warning x\nint main(void) { return 0; }", 1, 1), "defd": ("#ifndef Q\n#error x\n#endif\nint main(void) { return 0; }", 0, 0), "missing": ("#include <nope.h>\nint main(void) { return 0; }", 0, 0)}
    for k, (s, c, l) in SN.items():
        for a in ("", ", args: '-DQ'", ", args: ['-DQ=1', '-Werror']", ", args: '-DQR'", ", dependencies: declare_dependency(compile_args: '-DQ')", ", args: []", ", name: 'n'"):
            C, L = c, l
            if k == "defd" and "-DQ=" in a or k == "defd" and "-DQ'" in a:
                C = L = 1
            if k == "warn" and "-Werror" in a:
                C = L = 0
            yield f"cc.compiles({mv_q(s)}{a})", tf(C)
            yield f"cc.links({mv_q(s)}{a})", tf(L)
            yield f"cc.run({mv_q(s)}{a}).compiled()", tf(L)
            yield f"cc.compiles(files('sn/{k}.{lang}'){a})", tf(C)
            yield f"cc.links(files('sn/{k}.{lang}'){a})", tf(L)
            yield f"cc.run(files('sn/{k}.{lang}'){a}).compiled()", tf(L)
    IO = "#include <stdio.h>\nint main(int c, char **v) { printf(\"o\"); fprintf(stderr, \"e%d\", c); return R; }"
    for r in ("0", "1", "77", "255"):
        for meth, v in (("compiled()", T), ("returncode()", r), ("stdout()", "o"), ("stderr()", "e1")):
            yield f"cc.run({mv_q(IO)}, args: '-DR={r}').{meth}", v
    yield f"cc.run({mv_q(IO)}).compiled()", F
    # arguments
    ARGS = [("-Wall", 1), ("-Wnope", 0), ("-O2", 1), ("-fnope", 0), ("-DX=1", 1), ("-std=" + ("c++17" if cpp else "c99"), 1), ("-std=nope", 0), ("-Wfoo=bar", 0)]
    for a, v in ARGS:
        yield f"cc.has_argument('{a}')", tf(v)
        yield f"cc.has_multi_arguments('{a}')", tf(v)
    for k in (2, 3):
        for t in itertools.permutations(ARGS[:5], k):
            l = ", ".join(f"'{a}'" for a, _ in t)
            if k == 2:
                yield f"cc.has_multi_arguments({l})", tf(all(v for _, v in t))
                yield f"cc.has_multi_arguments([{l}])", tf(all(v for _, v in t))
            yield f"cc.get_supported_arguments({l})", [a for a, v in t if v]
            yield f"cc.get_supported_arguments([{l}])", [a for a, v in t if v]
            yield f"cc.first_supported_argument({l})", [a for a, v in t if v][:1]
    yield "cc.get_supported_arguments()", []
    yield "cc.get_supported_arguments('-Wall', '-Wall')", ["-Wall", "-Wall"]
    LARGS = [("-Wl,--as-needed", 1), ("-Wl,--nope", 0), ("-lnope", 0), ("-lm", 1), ("-Wl,-z,nope", 0)]
    for a, v in LARGS:
        yield f"cc.has_link_argument('{a}')", tf(v)
        yield f"cc.has_argument('{a}')", T if a != "-Wl,-z,nope" else T
    for k in (1, 2, 3):
        for t in itertools.permutations(LARGS[:4], k):
            l = ", ".join(f"'{a}'" for a, _ in t)
            yield f"cc.has_multi_link_arguments({l})", tf(all(v for _, v in t))
            yield f"cc.get_supported_link_arguments({l})", [a for a, v in t if v]
            yield f"cc.first_supported_link_argument({l})", [a for a, v in t if v][:1]
    for a in ATTRS:
        yield f"cc.has_function_attribute('{a}')", tf(a not in NOATTR)
    for t in (("packed", "dllexport", "weak"), ("dllimport",), ("weak", "packed")):
        yield f"cc.get_supported_function_attributes({', '.join(map(mv_q, t))})", [a for a in t if a not in NOATTR]
        yield f"cc.get_supported_function_attributes([{', '.join(map(mv_q, t))}])", [a for a in t if a not in NOATTR]
    yield "cc.has_function_attribute('nope')", ERR
    yield "cc.symbols_have_underscore_prefix()", F
    yield "cc.get_id()", "gcc"
    yield "cc.get_argument_syntax()", "gcc"
    yield "cc.version()", GCC[0]
    yield "cc.cmd_array()", ["g++" if cpp else "gcc"]
    yield "cc.sizeof('char')", "1"
    yield "cc.alignment('char')", "1"
    for e, v in (("1 << 30", 1 << 30), ("-1", -1), ("0x7fffffff", 0x7fffffff), ("4000000000", 4000000000), ("-(1L << 40)", -(1 << 40)), ("sizeof(long)", 8)):
        yield f"cc.compute_int('{e}')", str(v)
    # libraries
    for n, v in (("real", 1), ("nope", 0), ("rea", 0), ("real.a", 0)):
        for d in ("", ", dirs: src / 'lib'", ", dirs: [src / 'inc', src / 'lib']", ", dirs: src / 'inc'", ", dirs: []"):
            for s in ("", ", static: true", ", static: false"):
                for h, ok in (("", 1), (", has_headers: 'stdio.h'", 1), (", has_headers: 'h.h'", 0), (", has_headers: ['stdio.h', 'h.h'], header_include_directories: include_directories('inc')", 1), (", has_headers: 'h.h', header_args: '-I' + src / 'inc'", 1),
                              (", has_headers: 'h.h', header_dependencies: declare_dependency(include_directories: 'inc')", 1), (", has_headers: ['h.h', 'nope.h'], header_include_directories: 'inc'", 0),
                              (", has_headers: 'needs.h', header_include_directories: 'inc', header_prefix: '#define NEED'", 1), (", has_headers: 'needs.h', header_include_directories: 'inc', header_prefix: ['#define N1', '#define NEED']", 1),
                              (", has_headers: 'needs.h', header_include_directories: 'inc', header_prefix: '#define N1'", 0), (", has_headers: ['nope.h', 'h.h'], header_include_directories: 'inc', header_required: false", 0),
                              (", has_headers: ['h.h'], header_include_directories: 'inc', header_required: true", 1)):
                    if h and (s or n == "rea"):
                        continue
                    found = v and "lib'" in d and ok
                    yield f"cc.find_library('{n}', required: false{d}{s}{h}).found()", tf(found)
                    if not h and not s:
                        yield f"cc.find_library('{n}'{d}).found()", tf(found) if found else ERR
    yield "cc.find_library('real', dirs: src / 'lib', required: false, has_headers: ['nope.h'], header_required: true).found()", ERR
    yield "cc.find_library('real', dirs: src / 'lib', required: false, has_headers: ['stdio.h', 'nope.h', 'stdlib.h'], header_required: true).found()", ERR
    if cpp:
        for h, n, v in (("string", "std::string", 1), ("vector", "std::vector", 1), ("vector", "std::nope", 0), ("map", "std::vector", 0), ("utility", "std::pair", 1), ("tmpl.h", "T2", 0), ("tmpl.h", "ns::T2", 1), ("tmpl.h", "ns::f", 1), ("tmpl.h", "ns::T", 0)):
            yield f"cc.has_header_symbol('{h}', '{n}', include_directories: 'inc')", tf(v)
            yield f"cc.has_header_symbol('{h}', '{n}', include_directories: 'inc', required: false)", tf(v)
            yield f"cc.has_header_symbol('{h}', '{n}', include_directories: 'inc', required: true)", tf(v) if v else ERR
    for s, v in (("", 1), (", static: true", 0), (", static: false", 1)):
        yield f"cc.find_library('shonly', required: false, dirs: src / 'lib'{s}).found()", tf(v)
    yield "cc.find_library('m').found()", T
    # long texts
    for n in (100, 3000, 4000, 4090, 5000, 20000):
        x = "x" * n
        yield f"cc.compiles('int {x};')", T
        yield f"cc.has_type('int', prefix: 'int {x};')", T
        yield f"cc.has_header('stdio.h', prefix: 'int {x};')", T
        yield f"cc.sizeof('int', prefix: 'int {x};')", "4"
        yield f"cc.compute_int('3', prefix: 'int {x};')", "3"
        yield f"cc.has_member('struct s', 'a', prefix: 'struct s {{ int a; }}; int {x};')", T
        yield f"cc.get_define('Q', prefix: '#define Q 1\\nint {x};')", "1"
        yield f"cc.has_header_symbol('stdio.h', 'printf', prefix: 'int {x};')", T
        yield f"cc.has_function('printf', prefix: '#include <stdio.h>\\nint {x};')", T
        yield f"cc.has_function('printf', prefix: 'int {x};')", T
        yield f"cc.alignment('int', prefix: 'int {x};')", "4"


GCC = [None]
SNIPS = {}


def hash_(*a):
    import zlib
    return zlib.crc32(repr(a).encode())


def mb(lang, its, tail=""):
    o = [f"project('p', '{lang}')", f"cc = meson.get_compiler('{lang}')", "src = meson.current_source_dir()", "libreal = src / 'lib/libreal.a'"]
    for i, e in enumerate(its):
        o += [f"message('<' + '<{i}=', " + ("'[' + ','.join(" + e + ") + ']'" if re.match(ARR, e) else f"'@0@'.format({e})") + ", '>' + '>')"]
    return "\n".join(o) + "\n" + tail


def base(c):
    ops = [("w", "src/" + f, x) for f, x in FILES.items()]
    for lang in ("c", "cpp"):
        for f, x in SNIPS[lang].items():
            ops.append(("w", f"src/sn/{f}.{lang}", x))
    ops += [("d", "src/lib"), ("e", ["sh", "-c", "gcc -c src/real.c -o real.o && ar rc src/lib/libreal.a real.o && gcc -shared real.o -o src/lib/libshonly.so 2>/dev/null || gcc -fPIC -shared src/real.c -o src/lib/libshonly.so"], None, None, 60)]
    return ops


def show(v):
    return "[" + ",".join(v) + "]" if isinstance(v, list) else v


def answers(r):
    return dict((int(a), b) for a, b in re.findall(r"<<(\d+)= (.*?) >>", r.out.replace("\n", "\\n")))


CACHE = ["-c", "../b/.muon/compiler_check_cache.dat"]


def run_items(c, case):
    """every item, in both orders, twice, and again from the cache"""
    _, lang, its = case
    good = [x for x in its if x[1] != ERR]
    fwd = good + good
    rev = good[::-1]
    ops = base(c) + [("w", "src/meson.build", mb(lang, [e for e, _ in fwd])), ("r", ["-C", "src", "setup", "../b"], None, None, 200), ("r", ["-C", "src", "setup", *CACHE, "../b"], None, None, 200),
                     ("w", "src/meson.build", mb(lang, [e for e, _ in rev])), ("r", ["-C", "src", "setup", "../b2"], None, None, 200), ("r", ["-C", "src", "setup", *CACHE, "../b"], None, None, 200)]
    bad = [x for x in its if x[1] == ERR]
    for e, _ in bad:
        ops += [("w", "src/meson.build", mb(lang, [e])), ("r", ["-C", "src", "setup", "../b3"], None, None, 60), ("r", ["-C", "src", "setup", *CACHE, "../b3"], None, None, 60)]
    R = c.go(ops)[1:]
    for what, seq, r in (("fresh", fwd, R[0]), ("from the cache", fwd, R[1]), ("in reverse order", rev, R[2]), ("in reverse order, from the cache", rev, R[3])):
        got = answers(r)
        for i, (e, v) in enumerate(seq):
            if got.get(i) != show(v):
                return f"{lang}: {e} is {got.get(i)!r} {what}, expected {show(v)!r}" + ("" if i in got else ": " + r.out[-300:]), "value"
        if r.rc:
            return f"{lang}: setup fails: {r.out[-300:]}", "fails"
    for k, (e, _) in enumerate(bad):
        for r in R[4 + 2 * k:6 + 2 * k]:
            if r.rc == 0:
                return f"{lang}: {e} is {answers(r)}, expected an error", "error"
    return None, (lang, good[0][0] if good else bad[0][0])


# ---- what is required
REQ = {"has_header": ("'{}.h', include_directories: 'inc'", ("h", "nope")), "check_header": ("'{}.h', include_directories: 'inc'", ("h", "bad")), "has_header_symbol": ("'h.h', '{}', include_directories: 'inc'", ("real", "nope")),
       "find_library": ("'{}', dirs: src / 'lib'", ("real", "nope"))}


def run_req(c, case):
    _, meth, req, before, opt = case
    a, names = REQ[meth]
    res = []
    for good, n in zip((True, False), names):
        call = f"cc.{meth}({a.format(n)}, required: {req})"
        if meth == "find_library":
            call += ".found()"
        its = [f"cc.{meth}({a.format(n)}" + (", required: false)" + (".found()" if meth == "find_library" else ""))] if before == "same" else []
        o = [("w", "src/meson_options.txt", "option('f', type: 'feature', value: 'auto')\n"), ("w", "src/meson.build", mb("c", its + [call])), ("r", ["-C", "src", "setup", *(CACHE if before == "cache" else []), f"-Df={opt}", "../b"], None, None, 60)]
        if before == "cache":
            o = [o[0], ("w", "src/meson.build", mb("c", [call.replace(f"required: {req}", "required: false")])), ("r", ["-C", "src", "setup", "../b"], None, None, 60), o[1], o[2]]
        r = c.go(base(c) + o)[-1]
        on = req == "true" or "get_option" in req and opt == "enabled"
        off = "get_option" in req and opt == "disabled"
        ans = answers(r).get(len(its))
        if (r.rc != 0) != (on and not good):
            return f"{call} (option {opt}, before: {before}): setup {'fails' if r.rc else 'succeeds'}: {r.out[-200:]}", "req"
        if not r.rc and ans != tf(good and not off):
            return f"{call} (option {opt}, before: {before}) is {ans}", "req"
        res.append(ans)
    return None, (meth, req, before, opt, tuple(res))


# ---- what changes
def run_hist(c, case):
    """options and files change between configurations"""
    _, lang, seq = case
    its = ["cc.compiles('#ifndef A\\n#error x\\n#endif')", "cc.get_define('B')", "cc.compiles(files('x." + lang + "'))", "cc.run(files('x." + lang + "')).compiled()", "cc.has_argument('-Wall')", "cc.sizeof('int')",
           "cc.links('int main(void) { return 0; }')", "cc.compute_int('4 - 1')", "cc.has_header('h2.h')", "cc.check_header('h2.h')", "cc.alignment('double')", "cc.get_define('" + ("__cplusplus" if lang == "cpp" else "__STDC_VERSION__") + "')"]
    ops = [("w", "src/meson.build", mb(lang, its)), ("w", "src/inc2/h2.h", "")]
    want = []
    st = {"args": "", "file": True, "std": "none", "link": ""}
    for k, v in seq:
        if k == "first":
            pass
        else:
            st[k] = v
        ops.append(("w", f"src/x.{lang}", "int main(void) { return 0; }\n" if st["file"] else "int main(void) { return 0 }\n"))
        ops.append(("r", ["-C", "src", "setup", *(CACHE if k != "first" else []), f"-D{lang}_args={st['args']}", f"-D{lang}_std={st['std']}", f"-D{lang}_link_args={st['link']}", "../b"], None, None, 60))
        a = st["args"]
        bad = st["link"] == "-lnope"
        std = {"none": "201703L" if lang == "cpp" else "201710L", "c99": "199901L", "c89": "", "c11": "201112L", "c++11": "201103L", "c++14": "201402L"}[st["std"]]
        want.append([tf("-DA" in a), "2" if "-DB=2" in a else "", tf(st["file"]), tf(st["file"] and not bad), T, "-1" if bad else "4", tf(not bad), ERR if bad else "3", tf("inc2" in a), tf("inc2" in a), ERR if bad else "8", std])
    for k, (r, w) in enumerate(zip(c.go(ops), want)):
        got = answers(r)
        for i, v in enumerate(w):
            if v == ERR:
                if not r.rc:
                    return f"{lang}: after {seq[:k + 1]} {its[i]} is {got.get(i)!r}, expected an error", "hist"
                break
            if got.get(i) != v:
                return f"{lang}: after {seq[:k + 1]} {its[i]} is {got.get(i)!r}, expected {v!r}: {r.out[-200:] if i not in got else ''}", "hist"
    return None, (lang, seq)


CHANGES = {"c": [("args", ""), ("args", "-I../src/inc2,-DB=2"), ("std", "c89"), ("args", "-DA"), ("args", "-DB=2"), ("file", False), ("file", True), ("std", "c99"), ("std", "c11"), ("link", "-lnope"), ("link", "")],
           "cpp": [("args", "-DA"), ("args", "-I../src/inc2,-DA"), ("args", "-DB=2"), ("file", False), ("std", "c++11"), ("std", "c++14"), ("link", "-lnope")]}


def cases(deep):
    for lang in ("c", "cpp"):
        it = list(items(lang))
        if lang == "cpp" and not deep:
            it = [x for i, x in enumerate(it) if i % 3 == 0 or "header_symbol" in x[0]]
        it = sorted(it, key=lambda x: re.match(r"cc\.\w+", x[0]).group())
        for part in mv.chunked(it, 12):
            yield ("items", lang, part)
    for meth in REQ:
        for req in ("true", "false", "get_option('f')"):
            for before in ("none", "same", "cache"):
                for opt in (("auto", "enabled", "disabled") if "get" in req else ("auto",)):
                    yield ("req", meth, req, before, opt)
    for lang, ch in CHANGES.items():
        for n in (1, 2, 3) if deep else (1, 2):
            for t in itertools.product(ch, repeat=n):
                yield ("hist", lang, (("first", ""),) + t)


def one(c, case):
    return {"items": run_items, "req": run_req, "hist": run_hist}[case[0]](c, case)


def main():
    ck = mv.Check("C11", "exploration")
    GCC[0] = subprocess.run(["gcc", "-dumpfullversion"], stdout=subprocess.PIPE, text=True).stdout.strip()
    fill()
    cs = list(cases(ck.thorough))
    ck.add(expressions=sum(len(x[2]) for x in cs if x[0] == "items"))
    clicheck.run(ck, cs, one, chunk=1, limit=60)
    ck.add(exhaustive=True, rule="every check of a compiler object x every way to its headers, defines and libraries x present and absent things, for C and C++, in both orders, twice, and again from the cache of earlier "
           "configurations; every required value before and after the same check was made without it; every sequence of up to 2 (thorough: 3) changes of options and files between configurations")
    ck.sample("cc.has_member('struct s', 'n.deep', dependencies: declare_dependency(include_directories: 'inc'), prefix: '#include <h.h>')")
    return ck.finish()


def fill():
    src = {"good": "int main(void) { return 0; }", "bad": "int main(void) { return 0 }", "nomain": "int x;", "empty": "", "err": "#error x", "warn": "#warning x\nint main(void) { return 0; }",
           "defd": "#ifndef Q\n#error x\n#endif\nint main(void) { return 0; }", "missing": "#include <nope.h>\nint main(void) { return 0; }"}
    for lang in ("c", "cpp"):
        SNIPS[lang] = dict(src)
        SNIPS[lang]["undef"] = ('extern "C" ' if lang == "cpp" else "") + "int nope(void); int main(void) { return nope(); }"


if __name__ == "__main__":
    mv.main(main)
