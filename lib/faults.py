"""Scenarios for fault and crash enumeration at system call granularity (ptrace in harness/cliworld.c)."""

MAIN = """project('m', default_options: ['v=d'])
v = get_option('v')
c = configuration_data({'V': v})
configure_file(input: 'in.h', output: 'c.h', configuration: c)
configure_file(output: 'd.h', configuration: c)
configure_file(input: 'a', output: 'a.cp', copy: true)
r = run_command('echo', v, check: true).stdout().strip()
configure_file(output: 'r', command: ['echo', r], capture: true)
custom_target('t1', input: 'a', output: 't1.o', command: ['cp', '@INPUT@', '@OUTPUT@'], build_by_default: true, install: true, install_dir: 'ct')
custom_target('t2', output: 't2.o', command: ['echo', v], capture: true, build_by_default: true, env: {'E': v})
custom_target('t3', input: 'a', output: 't3.o', depfile: 't3.d', command: ['sh', '-c', 'cp $1 $2; echo "$2: $1" > $3', 'sh', '@INPUT@', '@OUTPUT@', '@DEPFILE@'], build_by_default: true)
subdir('s')
sp = subproject('sp')
test('ok', find_program('true'), env: {'A': 'b'})
test('cat', find_program('sh'), args: ['-c', 'cat ' + meson.current_build_dir() / 't2.o'])
install_data('a', 's/b', install_dir: 'data')
install_headers('in.h')
install_subdir('tree', install_dir: 'x')
install_symlink('ln', install_dir: 'x', pointing_to: 'data/a')
install_emptydir('empty')
summary('v', v)
"""
SRC = [("w", "src/meson.build", MAIN), ("w", "src/meson_options.txt", "option('v', type: 'string', value: 'd')\n"), ("w", "src/in.h", "@V@\n#mesondefine V\n"), ("w", "src/a", "A\n"),
       ("w", "src/s/meson.build", "configure_file(input: 'b', output: 'b.cp', copy: true)\ncustom_target('sub', input: 'b', output: 'sub.o', command: ['cp', '@INPUT@', '@OUTPUT@'], build_by_default: true)\n"),
       ("w", "src/s/b", "B\n", 0o755), ("w", "src/subprojects/sp/meson.build", "project('sp')\ninstall_data('z')\ntest('spt', find_program('true'))\n"), ("w", "src/subprojects/sp/z", "Z\n"),
       ("w", "src/tree/f", "F\n"), ("w", "src/tree/d/g", "G\n", 0o755), ("l", "src/tree/l", "f")]
CMAIN = """project('cm', 'c')
cc = meson.get_compiler('c')
c = configuration_data()
c.set('HAVE_STDIO', cc.has_header('stdio.h'))
c.set('SZ', cc.sizeof('int'))
configure_file(output: 'config.h', configuration: c)
l = static_library('l', 'l.c')
executable('e', 'e.c', link_with: l, install: true)
"""
CSRC = [("w", "src/meson.build", CMAIN), ("w", "src/l.c", "#include \"l.h\"\nint f(void) { return 0; }\n"), ("w", "src/l.h", "int f(void);\n"), ("w", "src/e.c", "#include \"l.h\"\nint main(void) { return f(); }\n")]
SETUP = ("r", ["-C", "src", "setup", "-Dprefix=/pre", "../b"])
OLD = 1000000000
NEWMAIN = MAIN.replace("'ct'", "'ct2'").replace("'empty'", "'empty2'").replace("'V': v", "'V': 'n'").replace("test('ok'", "test('okn'").replace("['echo', v]", "['echo', 'n']")
UGLY = "project( 'x' )\nif true\nx=[1,2,\n3]\nendif\n# comment\nfoo = 'bar'   # trailing\n"


def clk(ops):
    """sources older than anything that is built"""
    return ops + [("u", o[1], OLD) for o in ops if o[0] == "w"]


# name -> (operations before, command line, what is run afterwards to look at the result)
SC = {
    "setup": (clk(SRC), ["-C", "src", "setup", "-Dprefix=/pre", "../b"]),
    "resetup": (clk(SRC) + [SETUP], ["-C", "src", "setup", "-Dprefix=/pre", "-Dv=two", "../b"]),
    "build": (clk(SRC) + [SETUP], ["-C", "b", "samu"]),
    "rebuild": (clk(SRC) + [SETUP, ("r", ["-C", "b", "samu"]), ("x", "b/s/sub.o"), ("x", "b/t2.o")], ["-C", "b", "samu"]),
    "regen": (clk(SRC) + [SETUP, ("r", ["-C", "b", "samu"]), ("w", "src/meson.build", NEWMAIN)], ["-C", "b", "samu"]),
    "changed": (clk(SRC) + [SETUP, ("r", ["-C", "b", "samu"]), ("w", "src/meson.build", NEWMAIN), ("w", "src/in.h", "new @V@\n")], SETUP[1]),
    "install": (clk(SRC) + [SETUP, ("r", ["-C", "b", "samu"])], ["-C", "b", "install", "-d", "../D"]),
    "reinstall": (clk(SRC) + [SETUP, ("r", ["-C", "b", "samu"]), ("w", "D/pre/data/a", "older"), ("w", "D/pre/x/tree/f", "older")], ["-C", "b", "install", "-d", "../D"]),
    "test": (clk(SRC) + [SETUP, ("r", ["-C", "b", "samu"])], ["-C", "b", "test"]),
    "fmt": ([("w", "src/meson.build", UGLY, 0o600)], ["fmt", "-i", "src/meson.build"]),
    "fmt2": ([("w", "src/a", UGLY, 0o644), ("w", "src/b", UGLY.replace("foo", "other"))], ["fmt", "-i", "src/a", "src/b"]),
    "csetup": (clk(CSRC), ["-C", "src", "setup", "../b"]),
    "cbuild": (clk(CSRC) + [("r", ["-C", "src", "setup", "../b"])], ["-C", "b", "samu"]),
}
QUICK = ["setup", "resetup", "changed", "build", "rebuild", "regen", "install", "reinstall", "test", "fmt", "fmt2"]
THOROUGH = QUICK + ["csetup", "cbuild"]

LOGS = (".ninja_log", ".ninja_deps")


def view(tree, skip=()):
    """a tree without time stamps, logs and dependency files (which ninja removes after reading them, if it can)"""
    return {p: (e.type, e.mode, e.data) for p, e in tree.items() if p.rsplit("/", 1)[-1] not in LOGS + tuple(skip) and not p.endswith(".d")}


def diff(got, want):
    """first difference of two views"""
    for p in sorted(set(got) | set(want)):
        if got.get(p) != want.get(p):
            if p not in got:
                return f"{p} is missing"
            if p not in want:
                return f"{p} is left over: {got[p][2][:120]!r}"
            return f"{p} is {got[p][0]} {got[p][1]:o} {got[p][2][:200]!r}, expected {want[p][0]} {want[p][1]:o} {want[p][2][:200]!r}"
    return None
