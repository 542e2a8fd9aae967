#!/usr/bin/env python3
"""L07: whatever a program does, muon either carries it out or says what is wrong with it: it never dies, hangs, or fails without a word."""
import itertools
import os
import re
import signal
import struct
import subprocess
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import mv

UID = 65534
WORLD = r"""project('w', 'c', 'cpp', version: '1.2', license: ['MIT'], default_options: ['warning_level=0'], meson_version: '>=0.50')
v_true = true
v_false = false
v_0 = 0
v_1 = 1
v_neg = -1
v_big = 9223372036854775807
v_empty = ''
v_a = 'a'
v_slash = '/'
v_dots = '../..'
v_abs = '/nonexistent/x'
v_at = '@INPUT@'
v_at2 = '@0@@OUTPUT@@@'
v_eq = 'a=b'
v_opt = 'buildtype=release'
v_nl = '''a
b'''
v_nul = 'a\x00b'
v_sp = 'a b'
v_src = 'm.c'
v_dir = 'sub'
v_ver = '>=1.0'
v_c = 'c'
v_long = 'xxxxxxxxxxxxxxxx'
foreach i : range(9)
  v_long = v_long + v_long
endforeach
l_empty = []
l_nest = [[[]]]
l_int = [1]
l_str = ['a']
l_src = ['m.c', 'm.c']
l_dict = [{}]
l_true = [true]
l_se = ['']
d_empty = {}
d_int = {'a': 1}
d_str = {'a': 'b'}
d_es = {'': ''}
d_list = {'a': ['b']}
d_nest = {'a': {'b': []}}
o_inc = include_directories('sub')
o_depnf = dependency('nonexistent-xyz', required: false)
o_dep = declare_dependency(compile_args: '-DA', variables: {'a': 'b'})
o_thr = dependency('threads')
o_exe = executable('exe', 'm.c')
o_slib = static_library('slib', 'm.c')
o_shlib = shared_library('shlib', 'm.c')
o_mod = shared_module('mod', 'm.c')
o_both = both_libraries('both', 'm.c')
o_ct = custom_target('ct', output: ['x.c', 'x.h'], command: ['true'])
o_cti = o_ct[0]
o_cth = custom_target('cth', output: 'y.h', input: 'm.c', command: ['cp', '@INPUT@', '@OUTPUT@'])
o_gen = generator(o_exe, output: '@BASENAME@.c', arguments: ['@INPUT@', '@OUTPUT@'])
o_gl = o_gen.process('in.txt')
o_rt = run_target('rt', command: ['true'])
o_al = alias_target('al', o_exe)
o_file = files('m.c')[0]
o_obj = o_exe.extract_all_objects(recursive: true)
o_env = environment({'A': 'b'})
o_cd = configuration_data({'A': 'b', 'N': 1, 'T': true})
o_fe = get_option('fe')
o_fd = get_option('fd')
o_fa = get_option('fa')
o_cc = meson.get_compiler('c')
o_bm = build_machine
o_fs = import('fs')
o_pkg = import('pkgconfig')
o_py = import('python').find_installation()
o_pynf = import('python').find_installation('nonexistent-python', required: false)
o_prog = find_program('sh')
o_pnf = find_program('nonexistent-xyz', required: false)
o_sub = subproject('s')
o_subnf = subproject('nf', required: false)
o_rr = run_command('true', check: true)
o_crr = o_cc.run('int main(void){return 0;}')
o_ss = import('sourceset').source_set()
o_ss2 = import('sourceset').source_set()
o_ss2.add('m.c')
o_sc = o_ss2.apply({})
o_dis = disabler()
o_rng = range(3)
o_meson = meson
lo_exe = [o_exe, o_slib]
lo_dep = [o_dep, o_depnf]
lo_ct = [o_ct, o_cti]
"""
VALUES = re.findall(r"^((?:v|l|d|o|lo)_\w+) =", WORLD, re.M)
VALUES = list(dict.fromkeys(VALUES))
VALUES.append("void")
# the variables of a receiver type
RECV = {"str": ["v_a", "v_empty", "v_at2", "v_nul", "v_long"], "int": ["v_0", "v_neg"], "bool": ["v_true"], "list": ["l_empty", "l_str", "l_nest"], "dict": ["d_empty", "d_list"], "dep": ["o_dep", "o_depnf", "o_thr"],
        "build_tgt": ["o_exe", "o_slib", "o_shlib"], "both_libs": ["o_both"], "custom_tgt": ["o_ct", "o_cti"], "file": ["o_file"], "env": ["o_env"], "cfg_data": ["o_cd"], "feature": ["o_fe", "o_fd", "o_fa"],
        "compiler": ["o_cc"], "meson": ["meson"], "build_machine": ["build_machine"], "module": ["o_fs"], "external_program": ["o_prog", "o_pnf"], "python_installation": ["o_py", "o_pynf"],
        "subproject": ["o_sub", "o_subnf"], "runresult": ["o_rr", "o_crr"], "generator": ["o_gen"], "source_set": ["o_ss", "o_ss2"], "source_configuration": ["o_sc"], "disabler": ["o_dis"]}
GOOD = {"str": "'a'", "bool": "true", "int": "1", "list": "['a']", "dict": "{'a': 'b'}", "dep": "o_dep", "build_tgt": "o_exe", "both_libs": "o_both", "custom_tgt": "o_ct", "file": "o_file", "env": "o_env",
        "cfg_data": "o_cd", "feature": "o_fe", "inc": "o_inc", "exe": "o_prog", "external_program": "o_prog", "any": "1", "generated_list": "o_gl", "alias_tgt": "o_al", "source_set": "o_ss", "compiler": "o_cc"}
# positional and keyword arguments that make a call succeed, where those by type do not
CALL = {"executable": (["'zz'", "'m.c'"], ""), "static_library": (["'zz'", "'m.c'"], ""), "shared_library": (["'zz'", "'m.c'"], ""), "shared_module": (["'zz'", "'m.c'"], ""),
        "library": (["'zz'", "'m.c'"], ""), "both_libraries": (["'zz'", "'m.c'"], ""), "build_target": (["'zz'", "'m.c'"], "target_type: 'executable'"),
        "custom_target": (["'zz'"], "output: 'zz.out', command: ['true']"), "run_target": (["'zz'"], "command: ['true']"), "configure_file": ([], "output: 'zz.h', configuration: {'a': 1}"),
        "vcs_tag": ([], "input: 'in.txt', output: 'vcs.h', command: ['true']"), "generator": (["o_exe"], "output: '@BASENAME@.c', arguments: ['@INPUT@']"),
        "dependency": (["'nonexistent-abc'"], "required: false"), "find_program": (["'sh'"], ""), "subproject": (["'s'"], "required: false"), "install_data": (["'m.c'"], ""),
        "install_headers": (["'m.c'"], ""), "install_man": (["'m.1'"], ""), "install_subdir": (["'sub'"], "install_dir: 'x'"), "install_symlink": (["'zz'"], "install_dir: 'x', pointing_to: 'y'"),
        "install_emptydir": (["'zz'"], ""), "test": (["'zz'", "o_exe"], ""), "benchmark": (["'zz'", "o_exe"], ""), "run_command": (["'true'"], "check: false"), "subdir": (["'sub'"], ""),
        "add_test_setup": (["'zz'"], ""), "import": (["'fs'"], ""), "files": (["'m.c'"], ""), "include_directories": (["'sub'"], ""), "get_option": (["'fa'"], ""), "get_variable": (["'v_a'"], ""),
        "add_languages": (["'c'"], ""), "add_project_arguments": (["'-DX'"], "language: 'c'"), "add_global_arguments": (["'-DX'"], "language: 'c'"), "add_project_link_arguments": (["'-lm'"], "language: 'c'"),
        "add_global_link_arguments": (["'-lm'"], "language: 'c'"), "add_project_dependencies": (["o_dep"], "language: 'c'"), "assert": (["true"], ""), "alias_target": (["'zz'", "o_exe"], ""),
        "generator.process": (["'in.txt'"], ""), "import('pkgconfig').generate": (["o_slib"], "name: 'zz', description: 'd'"), "compiler.compiles": (["'int i;'"], ""), "compiler.links": (["'int main(void){return 0;}'"], ""),
        "compiler.run": (["'int main(void){return 0;}'"], ""), "compiler.preprocess": (["'m.c'"], ""), "compiler.has_header": (["'stdio.h'"], ""), "compiler.check_header": (["'stdio.h'"], ""),
        "compiler.has_header_symbol": (["'stdio.h'", "'printf'"], ""), "compiler.find_library": (["'m'"], "required: false"), "compiler.has_function": (["'printf'"], ""), "compiler.has_member": (["'struct timeval'", "'tv_sec'"], ""),
        "compiler.has_members": (["'struct timeval'", "'tv_sec'"], ""), "compiler.sizeof": (["'int'"], ""), "compiler.alignment": (["'int'"], ""), "compiler.has_type": (["'int'"], ""), "compiler.compute_int": (["'1'"], ""),
        "compiler.get_define": (["'__GNUC__'"], ""), "meson.override_dependency": (["'zz'", "o_dep"], ""), "meson.override_find_program": (["'zz'", "o_prog"], ""), "meson.add_install_script": (["'sh'"], ""),
        "meson.add_dist_script": (["'sh'"], ""), "meson.add_postconf_script": (["'true'"], ""), "meson.get_compiler": (["'c'"], ""), "build_tgt.extract_objects": (["'m.c'"], ""), "both_libs.extract_objects": (["'m.c'"], ""),
        "import('keyval').load": (["'in.txt'"], ""), "import('fs').read": (["'m.c'"], ""), "import('fs').hash": (["'m.c'", "'sha256'"], ""), "import('fs').size": (["'m.c'"], ""), "import('fs').copyfile": (["'m.c'"], ""),
        "subproject.get_variable": (["'x'"], ""), "env.set": (["'A'", "'b'"], ""), "env.append": (["'A'", "'b'"], ""), "env.prepend": (["'A'", "'b'"], ""), "cfg_data.get": (["'A'"], ""), "cfg_data.get_unquoted": (["'A'"], ""),
        "cfg_data.set": (["'x'", "'y'"], ""), "cfg_data.set10": (["'x'", "true"], ""), "cfg_data.set_quoted": (["'x'", "'y'"], ""), "cfg_data.merge_from": (["o_cd"], ""), "source_set.add": (["'m.c'"], ""),
        "source_set.add_all": (["o_ss2"], ""), "source_set.apply": (["{'a': true}"], ""), "import('python').find_installation": ([], "required: false"), "str.to_int": ([], ""), "str.substring": (["0", "1"], ""),
        "dep.get_variable": (["'a'"], ""), "dep.get_pkgconfig_variable": (["'a'"], ""), "range": (["1", "4", "1"], ""), "project": (["'x'", "'c'"], "")}


def functions(text):
    """[(name, [positional types], [optional types], vararg type or None, {keyword: type})] from muon's own list"""
    res, sect = [], None
    for l in text.splitlines():
        if not l.startswith(" "):
            name = l.strip()
            if not name:
                continue
            res.append((name, [], [], [], {}))
        elif l.startswith("    "):
            f = res[-1]
            t = l.strip()
            if sect == "kwargs":
                k, _, ty = t.partition(": ")
                f[4][k] = ty
            elif sect == "posargs":
                f[1].append(t)
            elif sect == "optargs":
                f[2].append(t)
            elif sect == "varargs":
                f[3].append(t)
        else:
            sect = l.strip().rstrip(":")
    return res


def good(ty):
    for t in ty.replace("list[", "").replace("]", "").split("|"):
        if t in GOOD:
            return GOOD[t]
    return "'a'"


def calls(f):
    """ways to write the call: [(text before the arguments, arguments, keywords)]"""
    name, pos, opt, var, kw = f
    args, gkw = CALL.get(name, ([good(t) for t in pos], ""))
    if name.startswith("import("):
        heads = [name]
    elif "." in name:
        ty, m = name.split(".", 1)
        heads = [f"{v}.{m}" for v in RECV.get(ty, [])]
    else:
        heads = [name]
    return [(h, list(args), [x for x in re.split(r", (?=\w+: )", gkw) if x]) for h in heads]


def call(h, args, kws):
    return f"{h}({', '.join(list(args) + list(kws))})"


def kwset(gkw, k, v):
    return [x for x in gkw if not x.startswith(k + ": ")] + [f"{k}: {v}"]


QPAIR = ("v_true v_0 v_neg v_big v_empty v_a v_abs l_empty l_nest l_str d_empty d_list o_inc o_depnf o_dep o_thr o_exe o_slib o_both o_ct o_cti o_gen o_gl o_rt o_al o_file o_obj o_env o_cd o_fe o_cc o_bm o_fs o_py o_pnf o_sub o_rr "
         "o_ss o_sc o_dis o_rng o_meson lo_ct void").split()
QFEW = "v_0 v_empty v_at2 l_nest d_es o_inc o_depnf o_both o_ct o_pnf o_dis lo_ct".split()
QPLACE = ("v_true v_0 v_neg v_big v_empty v_a v_dots v_abs v_at2 v_eq v_opt v_nl v_nul v_src v_dir v_c v_long l_empty l_nest l_int l_src l_dict l_se d_empty d_int d_es d_list o_inc o_depnf o_dep o_thr o_exe o_slib o_shlib o_both o_ct "
          "o_cti o_cth o_gen o_gl o_rt o_al o_file o_obj o_env o_cd o_fd o_cc o_fs o_py o_pynf o_prog o_pnf o_sub o_rr o_ss o_ss2 o_sc o_dis o_rng o_meson lo_exe lo_ct void").split()
SKIP = ("extension:", "error", "subdir_done", "project")
WRAPS = ["{}", "[{}]", "['a', {}]", "{{'a': {}}}", "[[{}]]"]


def val(v):
    return "message('x')" if v == "void" else v


def programs(fs, level):
    """level 0: the fewest, 2: all"""
    deep = level == 2
    # one of each kind for pairs, the ones that differ most for places
    V = [val(v) for v in (QPAIR if level == 0 else VALUES)]
    P = V if deep else [val(v) for v in (QFEW if level == 0 else QPAIR)]
    Q = V if deep else [val(v) for v in (QPAIR if level == 0 else QPLACE)]
    for f in fs:
        name, pos, opt, var, kw = f
        if name.startswith(SKIP[0]) or name in SKIP[1:3]:
            continue
        for hi, (h, args, gkw) in enumerate(calls(f)):
            n = len(pos) + len(opt)
            yield call(h, args, gkw)
            yield "x = " + call(h, args, gkw) + "\nmessage(x)\nfoo = [x, {'a': x}]\nmessage(foo)"
            # the number of arguments
            filler = args + [good(t) for t in (pos + opt)[len(args):]]
            for k in range(0, max(n, len(filler)) + 3):
                yield call(h, (filler + ["'b'"] * 9)[:k], gkw)
            # every value in every place
            for i in range(max(n, len(args)) + (2 if var else 1)):
                a = (filler + [good(t) for t in var] * 3 + ["'b'"] * 3)[:max(i + 1, len(args))]
                for v in V if hi == 0 else Q:
                    for w in WRAPS[:1] if level == 0 or (hi and not deep) else WRAPS if deep or (var and v in Q) else WRAPS[:2] if v in Q else WRAPS[:1]:
                        yield call(h, a[:i] + [w.format(v)] + a[i + 1:], gkw)
            if hi and not deep:
                continue
            # every value of every keyword
            for k in list(kw) + ["nokeyword"]:
                for v in QFEW if level == 0 else Q:
                    for w in WRAPS if deep else WRAPS[:2] if v in P and level else WRAPS[:1]:
                        yield call(h, args, kwset(gkw, k, w.format(v)))
            # a keyword missing, twice
            for k in gkw:
                yield call(h, args, [x for x in gkw if x != k])
                yield call(h, args, gkw + [k])
            # pairs of keywords that have good values
            for k1, k2 in itertools.combinations(kw, 2) if level else ():
                yield call(h, args, kwset(kwset(gkw, k1, good(kw[k1])), k2, good(kw[k2])))
                if deep:
                    for a in ("v_empty", "l_empty", "o_ct", "o_depnf", "o_both", "v_true", "v_big"):
                        for b in ("v_empty", "l_empty", "o_ct", "v_false", "v_at2", "l_nest"):
                            yield call(h, args, kwset(kwset(gkw, k1, a), k2, b))
            if deep and len(args) >= 2 or (deep and n >= 2):
                for v in V:
                    for w in V:
                        yield call(h, [v, w] + filler[2:], gkw)
    # what can be done with any value
    for v in V:
        for t in ("{}", "x = {}", "x = [{}]\nx += {}", "x = {{'a': {}}}", "x = {{ {}: 1}}", "not {}", "- {}", "if {}\nx=1\nendif", "foreach i : {}\nmessage(i)\nendforeach", "foreach a, b : {}\nmessage(a)\nendforeach",
                  "x = {} ? 1 : 2", "x = {}[0]", "x = {}[-1]", "x = {}['a']", "x = {}['']", "{}.nomethod()", "{}.found()", "{}(1)", "message({})", "message('@0@'.format({}))", "x = {}\nx.y()",
                  "x = {}\ny = f'@x@'", "x = {}\nx += 1", "x = {}\nx += ['a']", "x = {}\nx += 'a'", "x = {}\nx += {{'b': 1}}", "assert({})", "set_variable('x', {})\nmessage(x)", "summary('k', {})", "summary({{'k': {}}})",
                  "warning({})", "error({})", "is_disabler({})", "x = true and {}", "x = {} and true", "x = {} or true", "x = [1] + {}", "if {0} == {0}\nx = 1\nendif", "x = 'a' / {}", "debug({})"):
            yield t.replace("{}", "{0}").format(v)
        if v not in P:
            continue
        for w in P:
            for op in ("+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "in", "not in", "and", "or"):
                yield f"x = {v} {op} {w}\nmessage(x)"
            yield f"x = {v}[{w}]\nmessage(x)"
            yield f"x = {v}\nx += {w}\nmessage(x)"


# ---- running
class Srv:
    def __init__(self, exe, d, muon, uid):
        self.d = d
        self.log = os.path.join(d, "log")
        env = {"PATH": "/usr/bin:/bin", "HOME": d, "TMPDIR": os.path.join(d, "tmp"), "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=0:disable_coredump=1", "UBSAN_OPTIONS": "halt_on_error=1",
               "PKG_CONFIG_PATH": ""}
        self.p = subprocess.Popen([exe, self.log, str(uid), muon], cwd=os.path.join(d, "src"), stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, start_new_session=True)
        if self.answer() is None:
            raise mv.Infra("the world of L07 cannot be configured: " + open(self.log, errors="replace").read()[-1500:])

    def answer(self):
        h = self.p.stdout.read(8)
        if len(h) < 8:
            return None
        st, n = struct.unpack("<iI", h)
        return st, self.p.stdout.read(n).decode("utf8", "replace")

    def run(self, prog):
        b = prog.encode()
        self.p.stdin.write(struct.pack("<I", len(b)) + b)
        self.p.stdin.flush()
        r = self.answer()
        if r is None:
            raise mv.Infra("the server of L07 ended at " + prog)
        return r

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def world(d):
    def w(p, t):
        p = os.path.join(d, "src", p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(t)
    w("meson.build", WORLD)
    w("meson_options.txt", "option('fe', type: 'feature', value: 'enabled')\noption('fd', type: 'feature', value: 'disabled')\noption('fa', type: 'feature', value: 'auto')\n")
    w("m.c", "int main(void) { return 0; }\n")
    w("m.1", "x\n")
    w("in.txt", "a=b\n")
    w("sub/meson.build", "")
    w("sub/h.h", "")
    w("subprojects/s/meson.build", "project('s')\nx = 1\n")
    os.makedirs(os.path.join(d, "tmp"))
    os.makedirs(os.path.join(d, "b"))
    for root, ds, fs in os.walk(d):
        for x in ds + fs + ["."]:
            os.chown(os.path.join(root, x), UID, UID)


def sigkey(prog, st, out):
    """where it goes wrong"""
    m = re.search(r"(\w+\.c):\d+: (\w+): Assertion `(.*)' failed", out)
    if m:
        return f"{m[1]} {m[2]} {m[3]}"
    m = re.search(r"err internal type error, .*", out)
    if m:
        f = re.search(r"^(?:\w+ = )?(?:\w+\.)?(\w+)\(", prog)
        return f"{f[1] if f else prog}: {m[0][4:]}"
    if not os.WIFSIGNALED(st) and os.WEXITSTATUS(st) == 1:
        return "no message: " + re.sub(r"\d+", "_", out.strip()[-100:])
    m = re.search(r"(AddressSanitizer|runtime error):? ([a-zA-Z -]+).*?(?:#\d+ \S+ in (\w+) \S*/src/(\S+?):\d+)", out, re.S)
    if m:
        return f"{m[2].strip()} in {m[3]} {m[4]}"
    return f"signal {os.WTERMSIG(st)}" if os.WIFSIGNALED(st) else f"status {os.WEXITSTATUS(st)}"


def judge(prog, st, out):
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        if s == signal.SIGALRM:
            return "hangs"
        last = [l for l in out.splitlines() if l.strip()][-1:] or [""]
        return f"dies of {signal.Signals(s).name}: {last[0][:250]}"
    rc = os.WEXITSTATUS(st)
    if rc not in (0, 1):
        m = re.search(r"(ERROR: AddressSanitizer.*|runtime error.*)", out)
        return f"ends with status {rc}: {(m[0] if m else out)[-250:]}"
    if rc == 1 and not re.search(r"\berr(or)?\b|^samu: ", out, re.M):
        return f"fails without a word: {out[-200:]!r}"
    return None


_C = {}


def work(chunk):
    variant, chunk = chunk
    with mv.Scratch("l07") as d:
        os.chmod(d, 0o755)
        os.chown(d, UID, UID)
        world(d)
        s = Srv(_C[variant], d, _C["muon"], UID)
        bad, n, ok, outs = [], 0, 0, set()
        for prog in chunk:
            st, out = s.run(prog)
            n += 1
            ok += st == 0
            what = judge(prog, st, out)
            if what:
                bad.append((what, prog, sigkey(prog, st, out)))
            m = re.search(r"\berr(?:or)? (.*)", out)
            outs.add((st, re.sub(r"'[^']*'|\d+", "_", m[1] if m else "")[:80]))
        s.close()
        return n, ok, bad, outs


def main():
    ck = mv.Check("L07", "exploration")
    for v in ("asan", "rel"):
        _C[v] = mv.build_harness("misuse", ["misuse.c"], v)
    _C["muon"] = mv.muon("rel")
    fs = functions(subprocess.run([_C["muon"], "internal", "dump_funcs"], capture_output=True, text=True).stdout)
    if len(fs) < 150:
        raise mv.Infra("muon internal dump_funcs lists only %d functions" % len(fs))
    jobs = []
    # all of them in the ordinary build with its assertions, fewer under the address sanitizer
    for v, level in (("rel", 2 if ck.thorough else 1), ("asan", 1 if ck.thorough else 0)):
        progs = list(dict.fromkeys(programs(fs, level)))
        # neighbours are alike: deal them out
        k = max(1, len(progs) // 1500)
        jobs += [(v, progs[i::k]) for i in range(k)]
    outs, seen, ex = set(), {}, {}
    for n, ok, bad, o in mv.pmap(work, jobs):
        ck.add(evaluations=n, succeed=ok)
        outs |= o
        for what, prog, key in bad:
            if seen.setdefault(key, 0) < int(os.environ.get("L07_SEEN") or 5):
                ck.violation(f"{prog!r}: {what}", prog, key=key)
            seen[key] += 1
            ex.setdefault(key, prog)
    ck.add(distinct_nontrivial=len(outs), functions=len(fs), values=len(VALUES), exhaustive=True,
           rule="every function and method of muon's own list with every value in every positional and keyword place (bare and nested in lists and dicts), every number of arguments, every pair of keywords; "
           "every operator, statement and index with every pair of values; then generating the build files, under the address sanitizer")
    if os.environ.get("L07_SEEN"):
        for k, v in sorted(seen.items(), key=lambda x: -x[1]):
            print(v, k, "::", ex[k][:160].replace("\n", ";"))
    return ck.finish()


if __name__ == "__main__":
    mv.main(main)
