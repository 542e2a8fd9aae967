# The properties; executed by props.py.
EXPL = ("exhaustive bounded enumeration of programs on the real interpreter, against a reference interpreter")
EXPN = ("Every program of the stated finite space is run by the code built from the working tree and compared with a reference "
        "written from the manual; nothing is claimed outside the bounds, and the reference is trusted.")

prop("L01", "Variables hold values: no statement changes another variable",
     "Assigning, appending to, iterating over, indexing or passing a list or dict never changes the value another variable "
     "(or an element of another container) observes. A loop iterates over the value its list or dict had when the loop "
     "started, whatever its body assigns.",
     ["programs"], "all statement sequences up to length 3 (4 thorough) of a 20 statement alphabet over nested lists and dicts",
     "The tests run a few straight-line aliasing examples; sharing bugs need a particular sequence of bind, append and read.",
     ["src/lang/interpreter.c", "src/lang/workspace.c", "src/lang/object.c"],
     [("copying on binding and reading", "src/lang/interpreter.c"), ("object duplication", "src/lang/object.c")],
     "L01_values.py", EXPL, "exploration", EXPN)
prop("L02", "Expressions evaluate to the value the language defines",
     "Every expression is either rejected or evaluates to the value that Meson's grammar and operator definitions give it: "
     "precedence, associativity, short circuit evaluation, floor division, indexing, membership, equality and type errors. "
     "Integer results that do not fit 64 bits are errors, never wrapped values.",
     ["programs", "inputs"], "all expressions of the operator and operand alphabets up to 3-4 operators, all token sequences up to length 4 (5), boundary integers pairwise",
     "Tests evaluate a few dozen hand-picked expressions; precedence and boundary errors show only for particular operator and operand combinations.",
     ["src/lang/parser.c", "src/lang/lexer.c", "src/lang/interpreter.c"],
     [("expression grammar", "src/lang/parser.c"), ("operator evaluation", "src/lang/interpreter.c")],
     "L02_expr.py", EXPL, "exploration", EXPN)
prop("L03", "String, number and boolean methods agree with their definition",
     "For every receiver and argument, strip, split, join, replace, contains, startswith, endswith, substring, case conversion, "
     "underscorify and the conversions between strings, integers and booleans return the value the reference manual defines, and wrongly "
     "typed or wrongly counted arguments are rejected.",
     ["inputs"], "all subject strings up to length 5 (6) over small alphabets times all arguments up to length 3, all index pairs in and around bounds",
     "Tests check one or two calls per method; overlapping matches, empty patterns and out-of-range indices are not sampled.",
     ["src/functions/string.c", "src/functions/number.c", "src/functions/boolean.c", "src/lang/string.c"],
     [("method implementations", "src/functions/string.c"), ("splitting and stripping", "src/lang/string.c")],
     "L03_strings.py", EXPL, "exploration", EXPN)
prop("L05", "Literals, escapes, f-strings and format() substitute exactly",
     "A string literal of any kind denotes exactly the characters its escapes define; f-strings and format() replace every well-formed "
     "placeholder by its value and leave all other text unchanged, including text that comes from substituted values. A reference to an undefined "
     "variable or out-of-range argument is an error.",
     ["inputs"], "all sequences of up to 3-5 literal pieces (4-6 thorough) inside each kind of literal and format string",
     "Tests use a handful of templates; adjacency of placeholders, escapes and quotes is where substitution goes wrong.",
     ["src/lang/lexer.c", "src/functions/string.c"],
     [("string lexing", "src/lang/lexer.c"), ("placeholder substitution", "src/functions/string.c")],
     "L05_format.py", EXPL, "exploration", EXPN)
prop("L06", "Lists and dicts are insertion-ordered value containers of any size",
     "After any sequence of appends, merges, overwrites and deletions, a list or dict contains exactly the elements a plain ordered "
     "container would, in insertion order, for every size; lookup, membership, equality and iteration agree with each other.",
     ["histories", "programs"], "all operation sequences of depth 3 (4) from dicts of size 0..32 and lists of size 0..3, all single deletions for every size below 40 (70)",
     "Tests use containers of a few elements; the representation changes with size and after deletions.",
     ["src/lang/object.c", "src/datastructures/hash.c", "src/functions/dict.c", "src/functions/array.c"],
     [("small and large dict representation", "src/lang/object.c"), ("hash table", "src/datastructures/hash.c")],
     "L06_containers.py", EXPL, "exploration", EXPN)
prop("L09", "Control flow runs exactly the selected statements",
     "For every program, if/elif/else, foreach, break and continue execute exactly the statements the language selects, in order, and a program "
     "whose blocks do not nest properly is rejected before anything runs.",
     ["programs"], "all line sequences up to length 4 (5) of a 10 line alphabet, all well-formed nestings up to 7 (8) lines",
     "Tests contain a few nestings; break and continue bugs depend on what encloses them.",
     ["src/lang/parser.c", "src/lang/interpreter.c"],
     [("block parsing", "src/lang/parser.c"), ("loop control", "src/lang/interpreter.c")],
     "L09_control.py", EXPL, "exploration", EXPN)
prop("L12", "Version comparison is Meson's total preorder",
     "For every pair of version strings and every comparison operator, version_compare gives the verdict of Meson's version order: digit and letter runs "
     "compared pairwise, separators ignored, digits above letters, longer above its prefix.",
     ["inputs"], "all ordered pairs of version strings up to length 3 over {0,1,a,.} and {1,9,.,b}, a list of special versions with every operator",
     "Tests compare a few release numbers; order errors need particular mixes of digits, letters and separators.",
     ["src/rpmvercmp.c", "src/functions/string.c"], [("segment comparison", "src/rpmvercmp.c")],
     "L12_version.py", EXPL, "exploration", EXPN)
prop("L13", "muon analyze finds what cannot be right and nothing that is",
     "muon analyze ends with its report for every program. It reports no error in a program that configures whatever the options are (but for comparisons of values of "
     "different types, lists of one element where a single value is meant, and uses of void), and reports every call with a wrong number of arguments, an unknown keyword or "
     "an argument whose known type is wrong, every operator that its known operands do not have, every use of a variable that no path defines, and every variable that is never read.",
     ["inputs"], "the calls and operations of L07; all sequences of 3 statements (4) and nestings of if, else, foreach, break, continue with assignments, uses and unset "
     "of two variables under unknown conditions and lists; expressions of literals, conditions with literals, loops over literals; functions of scripts: signatures, bodies, calls",
     "Tests analyze working projects; wrong reports need a particular order of definitions, branches and uses.",
     ["src/lang/analyze.c", "src/lang/typecheck.c", "src/functions/common.c"], [("abstract interpretation", "src/lang/analyze.c")],
     "L13_analyze.py", "exhaustive bounded enumeration of programs; the real analyzer's report against the real evaluator (calls) and against all choices of conditions and "
     "lists in a reference interpreter (control flow)", "exploration",
     "Every program of the stated finite space is analyzed by the muon built from the working tree, many per file, errors found by line. Types merged where paths meet, "
     "values of unknown type (elements of lists, options) and checks that functions make themselves are not judged as missed; conditions that contain and, or, in are taken to go both ways; subdir and subproject are not covered.")
EXPS = ("explicit-state exploration of the real samu under a virtual file system clock and controlled scheduler, against a version-based model")
EXPSN = ("samu_main from the working tree runs in a harness that decides time stamps, completion order, failures and the moment of death; commands are "
         "virtual. Graphs are small and fixed; sources edited while a build runs, hand-edited outputs and non-atomic writes are excluded.")
SAMU = ["src/external/samurai/build.c", "src/external/samurai/deps.c", "src/external/samurai/log.c", "src/external/samurai/graph.c",
        "src/external/samurai/samu.c"]
prop("B01", "An incremental build equals a clean build and runs only what is out of date",
     "After any history of edits, touches, deletions, manifest changes and successful, partial or failed builds, a successful muon samu leaves every "
     "requested output with the contents a clean build would give it, and runs exactly the commands that are out of date: no record of a "
     "successful run with this command, a missing output, or a changed explicit, implicit or depfile input. Order-only inputs never cause a rebuild, "
     "unchanged restat outputs stop the propagation, a phony stands for its inputs, and a manifest that the build regenerates is reloaded.",
     ["histories"], "all operation histories of depth 4-6 (7-9) over 25 graph families, states deduplicated; every build compared",
     "Tests build once and sometimes twice; a stale or superfluous rebuild needs a particular order of edits, partial builds and failures.",
     SAMU, [("dirtiness and pruning", "src/external/samurai/build.c"), ("dependency log", "src/external/samurai/deps.c"),
            ("build log", "src/external/samurai/log.c")],
     "B01_incremental.py", EXPS, "exploration", EXPSN)
prop("B02", "Parallel builds respect dependencies, limits and failures in every schedule",
     "Whatever order running jobs finish in: a command starts only after everything it depends on (order-only inputs included) has finished, each "
     "runs at most once, no more than -j jobs run and no more than a pool's depth (console: one) of its jobs run at once, ready jobs are started while there "
     "is room, nothing starts after -k failures, every command that does not depend on a failed one runs under -k0, jobs already running are waited "
     "for and recorded, the exit status is nonzero exactly when something failed (including failing to start), the result does not depend on the schedule, and the next "
     "build finishes what is missing.",
     ["schedules"], "every completion order for 15 (19) graphs x start states x -j1..4 x -k1,2,0 x every set of up to two failing jobs",
     "A test run sees one schedule, chosen by the machine's timing.",
     SAMU, [("scheduler", "src/external/samurai/build.c"), ("pools", "src/external/samurai/build.c")],
     "B02_schedule.py", "exhaustive schedule enumeration of the real scheduler (stateless exploration)", "exploration", EXPSN)
prop("B03", "A killed build or a cut-off log costs work, never correctness",
     "If muon samu is killed at any point, or its .ninja_log or .ninja_deps is cut off at any byte or lost, the next build succeeds and ends in the "
     "state of a clean build, and the one after it runs nothing. A damaged byte in either file never makes it crash or access memory out of bounds.",
     ["crash points", "histories"], "every event of every build of 25 families x buffers lost or written, every byte prefix of both logs, then every single change (thorough: double crashes, all pairs of prefixes, more damaged bytes)",
     "No test kills a build; which records are on disk depends on the moment of death.",
     SAMU, [("log parsing and rewriting", "src/external/samurai/log.c"), ("deps log parsing and rewriting", "src/external/samurai/deps.c")],
     "B03_crash.py", "exhaustive crash point and torn write enumeration on the real code", "fault-enumeration", EXPSN)
CLI = "exhaustive enumeration of configurations run through the real command line in scratch trees, against a reference model"
CLIN = ("muon's own main() is forked for every run, as an unprivileged user below a scratch directory. Every case of the stated finite space is run; "
        "the reference is written from the documentation and trusted.")
prop("C02", "Each option has the value of its highest-precedence source, in its project",
     "get_option() returns what the highest-precedence source that sets the option gives (option file < environment < yield < default_options < subproject "
     "default_options < command line), coerced to the option's type, and setting an option of one project never changes another project's. Values that are not of the "
     "type or outside of choices or range, unknown options and malformed declarations are errors, whichever source they come from.",
     ["inputs", "configurations"], "every combination of present sources for all types and builtin options, every text up to length 3-5 over a hostile alphabet per type and source, every keyword subset of option()",
     "Tests set options one way at a time; precedence errors need two or more sources for one option.",
     ["src/options.c", "src/functions/kernel/options.c", "src/cmd_install.c"][:2],
     [("option sources and precedence", "src/options.c"), ("type coercion", "src/options.c")],
     "C02_options.py", CLI, "exploration", CLIN)
prop("B05", "What a depfile names is an input of its target from then on",
     "The files named by the depfile a compiler wrote for a target (in the make syntax that gcc and clang write, whatever characters the names contain and whatever the layout of the rule) are "
     "recorded exactly and survive later runs of samu. From then on they are inputs of that target: when one of them changes or disappears, exactly the targets that named it in their last build "
     "are built again, and when none changed nothing is.",
     ["inputs", "histories"], "every depfile of up to 4 (5) of 11 tokens and 3 (4) rules; header names with every special character in 5 places and in pairs, gcc and clang; every history of 3 (4) edits over two targets",
     "A lost dependency is a stale object after a header change; which names are lost depends on particular characters and layouts.",
     SAMU, [("depfile parser, deps log", "src/external/samurai/deps.c")],
     "B05_depfiles.py", CLI, "exploration", CLIN)
prop("B06", "Arguments and file names reach the command they are meant for unchanged",
     "Every string a build description gives to a command (custom_target, generator, run_target, run_command, configure_file, tests, install scripts, compiler "
     "and linker arguments, environment values, option values across regeneration) arrives there as one argument with exactly its bytes, whatever quoting the build file, "
     "the shell and data files need in between. Files and directories of any name that a ninja file can express build, test, install and regenerate.",
     ["inputs"], "every byte, pairs over 40 and triples over 12 (40) hostile characters through 17 argument channels and 5 compiler channels; every such file name; 35 directory names",
     "Tests pass ordinary words; a character is lost or interpreted only in a particular channel.",
     ["src/args.c", "src/backend/ninja/custom_target.c", "src/backend/ninja/build_target.c"],
     [("escaping for ninja and the shell", "src/args.c"), ("custom command lines", "src/backend/ninja/custom_target.c"), ("running commands", "src/platform/posix/run_cmd.c")],
     "B06_argv.py", CLI, "exploration", CLIN)
prop("I01", "Install puts exactly the requested files in place, whatever was there before",
     "After a successful muon install, the tree below DESTDIR and the prefix holds exactly the files, directories and symlinks that the install_* functions and install "
     "keywords ask for, at the paths the directory options define, with the content and mode of their source or the requested install_mode, whatever was at the "
     "destination before; nothing else changes, and a dry run changes nothing. If anything cannot be installed, muon install fails and runs no install script. Install scripts run after "
     "the files are in place, with the documented environment. Invalid install requests fail at setup.",
     ["inputs", "configurations", "fault positions"], "every keyword combination of every install function, prefix x DESTDIR form x directory options, earlier state of the destination, all pairs (triples) of calls, every failing item at every position",
     "Tests install a few trees into empty directories and compare file names only.",
     ["src/cmd_install.c", "src/install.c", "src/functions/kernel/install.c", "src/platform/posix/filesystem.c"],
     [("installing", "src/cmd_install.c"), ("install targets", "src/install.c"), ("install functions", "src/functions/kernel/install.c"), ("copying", "src/platform/posix/filesystem.c")],
     "I01_install.py", CLI, "exploration", CLIN)
prop("C01", "configure_file writes what template and data define, and only when it changes",
     "For every template and configuration data, configure_file either writes exactly the text that the documented substitution rules (variables, backslash "
     "escapes, define lines, the three formats) give, or fails naming the template. Configuration data holds what was set last, whether set, copied or merged. "
     "Outputs have the requested name and mode; after any edit of inputs or values the next build or configuration brings them up to date, and outputs whose text does not change are not touched.",
     ["inputs", "histories"], "every template of up to 4 (6) tokens over nine hostile tokens per format, every byte in every place of a variable, every sequence of up to 2 (3) operations on configuration data, of up to 2 (3) edits for five kinds of output",
     "Tests substitute a handful of templates once; escapes, boundaries and rewriting need particular combinations.",
     ["src/functions/kernel/configure_file.c", "src/functions/configuration_data.c"],
     [("substitution", "src/functions/kernel/configure_file.c"), ("configuration data", "src/functions/configuration_data.c")],
     "C01_configure.py", CLI, "exploration", CLIN)
prop("F04", "A failing system call never looks like success, and its effects can be redone",
     "If any single file, directory or process system call of muon setup, samu, install, test or fmt fails or is cut short, muon neither crashes nor hangs, and either reports "
     "failure or ends in exactly the state of an undisturbed run. After a failure, running the same command again succeeds and ends in that state.",
     ["faults"], "every system call (up to 200) of 11 (13) scenarios x EIO and short transfers (thorough: 4 errors)",
     "Tests run on healthy file systems; each error path is reached only when one particular call fails.",
     ["src/platform/filesystem.c", "src/platform/posix/filesystem.c", "src/platform/posix/run_cmd.c", "src/backend/output.c", "src/cmd_install.c", "src/main.c"],
     [("file system access", "src/platform/filesystem.c"), ("running commands", "src/platform/posix/run_cmd.c"), ("writing build files", "src/backend/output.c")],
     "F04_faults.py", "exhaustive fault enumeration at system call granularity (ptrace) on the real program", "fault-enumeration",
     "The real main() runs under ptrace; one call fails per run. Calls of processes that muon starts are not disturbed. Memory allocation does not fail.")
prop("C09", "muon killed at any point leaves files from which it recovers",
     "If muon setup, samu, install, test or fmt is killed at any point, running the command again succeeds with the result of an undisturbed run. Killed while configuring a changed project again, "
     "the next successful build has the new configuration throughout, in build outputs, tests and installation; otherwise every file it uses is the old or the new one, never a part. "
     "fmt -i leaves each source either as it was or formatted.",
     ["crash points"], "a kill before every file-changing system call (up to 75) and in the middle of every write of 11 (13) scenarios",
     "No test kills muon; what is on disk depends on the moment of death.",
     ["src/backend/output.c", "src/backend/ninja.c", "src/functions/kernel/configure_file.c", "src/cmd_install.c", "src/main.c"],
     [("writing build files", "src/backend/output.c"), ("order of build files", "src/backend/ninja.c"), ("configure_file", "src/functions/kernel/configure_file.c")],
     "C09_crash.py", "exhaustive crash point and torn write enumeration on the real program (ptrace)", "fault-enumeration",
     "The death of the process, not of the machine: what was written is on disk. Children die with it.")

prop("F01", "Joining, splitting and relating paths agrees with what paths mean",
     "For every path, joining (/ and join_paths), fs.parent, name, stem, replace_suffix, relative_to, is_subpath, is_samepath and the like give the result of the path's components: empty "
     "and . elements do not matter, .. is resolved where documented, only the last element has a suffix and a leading dot does not start one, and a joined "
     "relative path leads back to where it was taken from. Length does not matter. (Names that start with two dots or end in one are unspecified for suffixes, as are paths above the root.)",
     ["inputs"], "every path over {a, b, ., /} up to length 7 (8), every pair up to length 4 (5), every triple and quadruple of 11 for joins, lengths around every buffer size",
     "Tests check a handful of clean paths; defects need dots, separators and roots in particular places.",
     ["src/platform/path.c", "src/functions/modules/fs.c", "src/functions/string.c"],
     [("path algebra", "src/platform/path.c"), ("fs module", "src/functions/modules/fs.c")],
     "F01_paths.py", EXPL, "exploration", EXPN)
prop("F03", "The fs module reports and changes the file system truthfully",
     "fs.exists, is_file, is_dir, is_symlink, size, read and hash tell what is there, symlinks, loops and dangling ones included, for any content. After fs.write, copy or mkdir either the tree "
     "is changed exactly as asked and nothing else is, or the call fails and nothing changed. What is not a file cannot be read.",
     ["histories", "inputs"], "every sequence of up to 2 (3) of 40 operations from 7 trees with links; every content length up to 300 (1100) and around buffer sizes",
     "Tests query a few existing files; links, missing parents and sizes at buffer boundaries are not sampled.",
     ["src/functions/modules/fs.c", "src/platform/posix/filesystem.c", "src/platform/filesystem.c", "src/sha_256.c"],
     [("fs module", "src/functions/modules/fs.c"), ("file operations", "src/platform/posix/filesystem.c"), ("reading files", "src/platform/filesystem.c"), ("hash", "src/sha_256.c")],
     "F03_files.py", "explicit-state exploration of operation histories on the real code, against a model of the tree", "exploration",
     "The model of a tree with symlinks is trusted. fs.copy of a symlink onto a directory and wrong encodings are not specified. Single user, single process.")
prop("L07", "Whatever a program does, muon carries it out or says what is wrong",
     "For every build definition muon either configures it and writes its build files or fails with a message about it: no function, method, operator or statement "
     "applied to values of any kind, however many and wherever they are nested, makes muon die of a signal or an assertion, end with an internal error, touch memory "
     "it must not, hang, or fail without a word.",
     ["inputs"], "every function and method muon has with every one of 82 values (all kinds of objects, extreme strings, numbers, lists and dicts) in every positional and "
     "keyword place, bare and nested; every number of arguments; pairs of keywords; every operator, statement and index with every pair of kinds of values",
     "Tests call functions with what they are meant for; a missing check shows only for one kind of value in one place of one function.",
     ["src/functions/*.c", "src/functions/kernel/*.c", "src/functions/modules/*.c", "src/lang/interpreter.c", "src/lang/typecheck.c", "src/args.c", "src/coerce.c"],
     [("argument checking", "src/functions/common.c"), ("type checking", "src/lang/typecheck.c")],
     "L07_misuse.py", "exhaustive bounded enumeration of calls and operations on the real interpreter and backend, each from one configured state (fork), judged by how it ends",
     "exploration",
     "Every program of the stated finite space is run by the code built from the working tree. One call or operation at a time, from one configured project; functions are taken from muon's own list (internal dump_funcs); the address sanitizer "
     "sees a subset in the quick check. Errors of the embedded samurai (lines that start with samu:) count as messages.")
prop("L08", "muon fmt keeps meaning and comments, and is idempotent",
     "For every program that parses and every configuration, the formatted text parses to the same program (files() may be sorted and flattened), has the same comments, "
     "and formatting it again changes nothing.",
     ["inputs", "programs"], "every placement of a line break, blank line or comment (pairs: adjacent, thorough: all) between the tokens of 50 statements, all pairs of operators in every context, 9 configurations",
     "Tests format a few files; comments and line breaks in unusual places are lost or swallow code.",
     ["src/lang/fmt.c", "src/lang/parser.c", "src/lang/lexer.c"],
     [("formatter", "src/lang/fmt.c"), ("comments in the AST", "src/lang/parser.c")],
     "L08_fmt.py", "exhaustive bounded enumeration of layouts, the real parser's AST as oracle", "exploration",
     "Meaning is compared on the AST that muon's own parser prints (L02, L05 and L09 check the parser); script functions are not formatted here.")
prop("B08", "Targets are built from what they are declared to use, and stay up to date",
     "For every graph of libraries and programs, kinds of library and ways of linking or using generated sources and extracted objects, the build succeeds, the program contains exactly the code it was "
     "given, a second build does nothing, an edit rebuilds what depends on it and nothing else, every output can be built alone, and what is installed has the declared names, links and sonames and "
     "runs without the build directory.",
     ["programs", "histories"], "all graphs of 1-2 libraries and chains and diamonds of 3 by kind and way of linking; every edit; 130 combinations of name keywords; 60 ways of using generated files",
     "Tests build fixed projects from scratch; missing edges show only when something is edited or when one output is built alone.",
     ["src/functions/kernel/build_target.c", "src/functions/kernel/dependency.c", "src/backend/ninja/build_target.c", "src/functions/build_target.c", "src/functions/generator.c", "src/functions/both_libs.c"],
     [("targets", "src/functions/kernel/build_target.c"), ("edges of the build graph", "src/backend/ninja/build_target.c"), ("extracted objects", "src/functions/build_target.c")],
     "B08_graphs.py", "exhaustive enumeration of target graphs and edit histories, executed by the real program and the real compiler", "exploration",
     "C with gcc and GNU ld. Unity builds, Windows names and LTO are not covered.")
prop("B09", "Arguments and include directories reach exactly the targets they are for",
     "Whatever combination of global, project, option, environment, target and (nested, partial, subproject) dependency arguments, link arguments and include directories is given, each command has exactly "
     "those meant for its target and language, in the documented order, repeated ones in place; system directories stay system; compile_commands.json lists exactly the compile commands of the build.",
     ["inputs", "programs"], "every subset (quick: up to size 2 and from n-1) of 10 sources of arguments x options x partial dependencies, of 9 include directories, of 14 per-language sources; all repeat sequences up to 3 (4)",
     "Tests use one source of arguments at a time and observe only that the compiler accepts them.",
     ["src/backend/common_args.c", "src/functions/kernel/dependency.c", "src/functions/kernel.c", "src/functions/dependency.c", "src/functions/kernel/build_target.c"],
     [("collecting arguments", "src/backend/common_args.c"), ("dependencies", "src/functions/kernel/dependency.c"), ("partial dependencies", "src/functions/dependency.c")],
     "B09_args.py", CLI, "exploration", CLIN)
prop("B10", "A ninja file means what ninja's manual says",
     "samu gives a ninja file the meaning ninja's manual states: variables are evaluated when defined (in rules: when used), looked up in the build statement, its rule, "
     "the file and the files that subninja it; $-escapes, continued lines, separators, comments and paths are read as stated; explicit, implicit and order-only "
     "inputs and outputs, pools, defaults and required versions likewise; what is wrong is refused with a message. The tools (-t commands, query, targets, compdb, clean) tell "
     "and remove exactly what follows from that.",
     ["inputs"], "40 k files: up to 2 (3) of 32 pieces in 7 places; all structures of a build statement; pairs of 25 paths; sequences of 3 (4) statements over scopes and 11 included files; "
     "rule variables; graphs of 3 statements",
     "Tests only build what muon generates; scoping and escapes show in hand-written files and in unusual names.",
     ["src/external/samurai/parse.c", "src/external/samurai/scan.c", "src/external/samurai/env.c", "src/external/samurai/tool.c"], [("interpreter", "src/external/samurai/parse.c")],
     "B10_manifest.py", "exhaustive bounded enumeration of ninja files; the real samu against a reference interpreter written from ninja's manual", "exploration",
     "Every file of the stated finite space is read by the samu built from the working tree and its commands, queries, targets, compilation database and cleaning compared. "
     "Not covered: dyndep, validations, rules with variables ninja does not know (accepted), tabs where ninja refuses them.")
prop("C03", "Regenerating the build gives exactly what configuring afresh gives",
     "After any history of edits, of what any file read by the configuration says, the next build regenerates itself and the build files, configured files and messages are those of a fresh setup with the same "
     "options and the environment of the first setup; it fails exactly when a fresh setup fails, and recovers once the error is repaired. When nothing changed nothing is regenerated.",
     ["histories"], "all sequences of up to 1 edit (quick; pairs from one setup; thorough: 2 and 3) out of 26 from 9 ways of setting up, with 30 cached compiler checks",
     "Tests configure once. A forgotten dependency or an option that changes its value on the way shows only when the build regenerates.",
     ["src/backend/ninja/rules.c", "src/backend/common_args.c", "src/lang/workspace.c", "src/functions/compiler.c", "src/lang/serial.c", "src/main.c"],
     [("regenerate rule", "src/backend/ninja/rules.c"), ("options kept from the environment", "src/backend/common_args.c"), ("compiler check cache", "src/lang/serial.c")],
     "C03_regen.py", "explicit-state exploration of edit histories on the real program, differential against fresh configuration", "exploration",
     "Fresh configuration by the same program is the oracle (C01, C02 and others check it). Option files, wrap files and directories that did not exist before are not noticed, as in Meson; headers looked at by compiler checks are cached.")
prop("B07", "Command templates stand for the files and directories they name",
     "In custom_target, generator, run_target and configure_file(command:), every @...@ template, alone or inside an argument, is replaced by the file or directory it names (inputs and outputs singly or "
     "all, depfile, private, current and root directories, plain and base names, extra arguments), wherever the command is declared and for every kind and number of inputs; text that is no template "
     "stays as it is, and a template that stands for nothing is refused.",
     ["inputs", "programs"], "all templates of up to 5 (6) parts over 6; 24 keys x 9 forms x 5 places x 12 kinds of inputs, up to 2 (3) of them, x outputs x depfile x preserve_path_from; output and depfile templates",
     "Tests use a few templates with one plain input in one directory.",
     ["src/functions/kernel/custom_target.c", "src/functions/generator.c", "src/backend/ninja/custom_target.c", "src/functions/string.c", "src/functions/kernel/configure_file.c", "src/coerce.c"],
     [("command templates", "src/functions/kernel/custom_target.c"), ("generators", "src/functions/generator.c"), ("template scanner", "src/functions/string.c")],
     "B07_templates.py", CLI, "exploration", CLIN)
prop("L11", "A call never changes the values it is given, nor declarations that share them",
     "Whatever lists, dictionaries, files, dependencies, targets and environments are passed to several declarations, in any order, and whatever is added to them with += afterwards, each call builds exactly "
     "what it builds when it is the only one, every value still prints what it printed before, and later additions reach only what is declared with them.",
     ["programs", "histories"], "each of 102 calls and every ordered pair of them (thorough: with += in between, and triples of 16) sharing 27 values; build files compared with those of each call alone",
     "Tests give each call fresh literals; a call that stores its argument without copying it, or grows it, shows only in the next use.",
     ["src/lang/interpreter.c", "src/lang/object.c", "src/functions/kernel/build_target.c", "src/functions/kernel/dependency.c", "src/functions/kernel/custom_target.c", "src/functions/modules/pkgconfig.c", "src/args.c"],
     [("arguments of calls", "src/lang/interpreter.c"), ("lists and dictionaries", "src/lang/object.c"), ("targets", "src/functions/kernel/build_target.c"), ("dependencies", "src/functions/kernel/dependency.c")],
     "L11_shared.py", CLI + ", differential against each call alone", "exploration", CLIN)
prop("C08", "Lookups of dependencies, programs and subprojects follow the documented order",
     "Whatever is installed, overridden, wrapped or configured before, dependency(), find_program() and subproject() give exactly the documented answer: from the first place that counts, satisfying the "
     "version, linkage and other constraints given, failing exactly when it is required and there is none; the same question later gets the same answer, and a subproject that failed leaves nothing behind.",
     ["inputs", "histories"], "every world up to 2 (thorough: 3) choices away from 5 base cases over 13 dimensions; every pair of 37 lookups; names x places x directories x versions x fallbacks for programs",
     "Tests look up one thing that is there. What counts is the combination of overrides, fallbacks, versions and earlier lookups.",
     ["src/functions/kernel/dependency.c", "src/functions/kernel/subproject.c", "src/functions/kernel.c", "src/functions/meson.c", "src/wrap.c", "src/functions/string.c"],
     [("dependency()", "src/functions/kernel/dependency.c"), ("subproject()", "src/functions/kernel/subproject.c"), ("find_program()", "src/functions/kernel.c")],
     "C08_lookup.py", CLI + " against a model of Meson's lookup", "exploration", CLIN)


prop("C10", "Projects and subprojects affect each other only where meant to",
     "A subproject's variables, targets, arguments, options, tests and installation stay its own; it and the main project may contain the same statements without disturbing one another; and an optional "
     "subproject that fails, at whatever point, leaves the build exactly as if it had failed at once: nothing built, installed, tested, overridden or summarized of it remains.",
     ["inputs", "histories"], "33 statements (thorough: ordered pairs) x 18 ways to fail x 5 ways to ask for the subproject; every statement and option default in either project, before and after, and in both",
     "Tests have one failing subproject. What counts is everything it could have registered before it failed.",
     ["src/functions/kernel/subproject.c", "src/lang/eval.c", "src/lang/workspace.c", "src/functions/kernel.c", "src/backend/ninja.c", "src/backend/common_args.c", "src/options.c"],
     [("subproject()", "src/functions/kernel/subproject.c"), ("eval_project()", "src/lang/eval.c")],
     "C10_subprojects.py", CLI + " against the same build without the statement", "exploration", CLIN)


prop("F02", "Commands get exactly their arguments; their output and status are exact",
     "A command muon runs while configuring or building gets exactly the arguments and the input given; everything it and its descendants write is collected, in full and in order, from both streams, "
     "whatever the sizes and the interleaving; its exit status is reported as it is, a failing or killed command never counts as a success, and scripts run under the interpreter they name.",
     ["inputs", "schedules"], "every script of up to 3 (thorough: 4) steps of a simulated child in every interleaving with muon's system calls; the same scripts as real processes at every place that runs "
     "commands; 256 exit codes; all pairs of 50 arguments",
     "Tests run a few short commands. What counts is output that exceeds a pipe, comes late or from a descendant, and which of the two streams ends first.",
     ["src/platform/posix/run_cmd.c", "src/platform/run_cmd.c", "src/main.c", "src/functions/kernel.c", "src/functions/kernel/configure_file.c", "src/functions/compiler.c",
      "src/functions/external_program.c"],
     [("run_cmd_collect()", "src/platform/posix/run_cmd.c"), ("run_cmd_determine_interpreter()", "src/platform/run_cmd.c"), ("internal exe", "src/main.c")],
     "F02_commands.py", "stateful exploration of the process runner against a simulated child in every interleaving of system calls; enumeration of real child scripts through the command line",
     "exploration", CLIN)


prop("C04", "Each command gets exactly the environment its description gives",
     "The environment of a command is muon's own at that moment, changed by exactly the operations of the env given for it, in order: set, append and prepend with their separators, dicts, lists and "
     "strings alike. Describing or using one environment never changes another, and the documented MESON_ variables name the current project and directory.",
     ["inputs", "histories"], "every sequence of up to 2 (thorough: 3) of 11 operations on fresh, initialized, copied and reused objects; 27 values in 6 forms; 5 environments of muon at setup, build and test",
     "Tests set one variable for one command. What counts is appending to what is or is not there, at configure, build or test time, and objects used at several places.",
     ["src/functions/environment.c", "src/coerce.c", "src/args.c", "src/functions/kernel.c", "src/platform/posix/run_cmd.c", "src/backend/ninja/custom_target.c", "src/lang/serial.c"],
     [("environment_to_dict()", "src/functions/environment.c"), ("coerce_environment_from_kwarg()", "src/coerce.c"), ("env_to_envstr()", "src/args.c")],
     "C04_environment.py", CLI + " of environments", "exploration", CLIN)


prop("T01", "muon test runs exactly the tests asked for, and its verdict is theirs",
     "muon test runs each test that the names, suites and setup given select, once, and no other; with its arguments, working directory, wrapper and timeout; after building what it needs; never beside one "
     "that is not parallel, higher priorities first, no more at once than asked; and it succeeds if and only if every test did, by its protocol, its exit status and should_fail.",
     ["inputs", "histories"], "16 exit statuses x protocols x should_fail x 3 TAP documents; all pairs of 17 name patterns x suites x setups; all lists of up to 3 (thorough: 4) of 6 kinds of tests x 3 worker counts; "
     "13 ways to need a target",
     "Tests run a handful of passing tests. What counts is what a failing, skipped, killed, late or excluded test does to the verdict, and tests of several projects.",
     ["src/functions/kernel.c", "src/formats/tap.c", "src/backend/ninja.c", "src/lang/serial.c", "src/platform/posix/run_cmd.c", "src/coerce.c", "src/args.c", "src/lang/string.c", "src/lang/object.c"],
     [("add_test_common()", "src/functions/kernel.c"), ("ninja_write_tests()", "src/backend/ninja.c"), ("tests_run()", "src/cmd_test.c"), ("str_eql_glob()", "src/lang/string.c")],
     "T01_tests.py", CLI + " of muon test against a model of selection, order and verdict", "exploration", CLIN)


prop("T04", "TAP output is judged as the Test Anything Protocol has it",
     "A test that speaks TAP passes if and only if its document has no failed test, no TODO test that passed, no bail out, and as many tests as it planned; comments, indented subtests, YAML blocks and other "
     "lines do not count; nothing in the document can crash or confuse the reader.",
     ["inputs"], "every document of up to 3 (thorough: 4) lines of 30 kinds and up to 5 (thorough: 6) of 11, with LF, CRLF and no final newline; plans of up to 70000 tests",
     "The suite has a few documents. What counts is the order of plan and tests, directives, and what stops in the middle.",
     ["src/formats/tap.c", "src/formats/lines.c"],
     [("tap_parse()", "src/formats/tap.c"), ("each_line()", "src/formats/lines.c")],
     "T04_tap.py", "exhaustive enumeration of TAP documents through the real parser (ASan) and through muon test, against a reference", "exploration", EXPLN if "EXPLN" in globals() else EXPN)


prop("P01", "A generated pkg-config file lets its users build with what was installed",
     "pkgconfig.generate() writes every field, flag and variable that was asked for, with every variable it uses defined, at the place asked for; and a program that follows the file through pkg-config, "
     "dynamically, with --static or fully static, compiles, links and runs against the installed libraries, whatever those use among themselves.",
     ["inputs", "histories"], "all combinations of up to 2 (thorough: 3) of 15 keywords in both orders; 9 directory layouts; 1787 (thorough: more) graphs of up to 3 libraries x how they are named, built, "
     "installed and consumed with the real pkg-config and gcc",
     "Tests compare a few fixed files. What counts is order and visibility of libraries that use each other, and what one file leaves behind for the next.",
     ["src/functions/modules/pkgconfig.c", "src/functions/kernel/build_target.c", "src/args.c", "src/functions/kernel/install.c", "src/cmd_install.c"],
     [("func_module_pkgconfig_generate()", "src/functions/modules/pkgconfig.c"), ("module_pkgconf_process_libs()", "src/functions/modules/pkgconfig.c")],
     "P01_pkgconfig.py", CLI + " of generate() calls and library graphs, judged by a model and by real consumers", "exploration", CLIN)

prop("C11", "Compiler checks report what the compiler does with what is asked",
     "Every check of a compiler object (headers, symbols, types, members, sizes, alignments, integer values, defines, functions, arguments, attributes, libraries, snippets that compile, link or run) answers what the "
     "compiler does with the code, prefix, arguments, include directories, dependencies and option arguments given; the answer depends on neither the order of the checks, their repetition nor what an earlier configuration "
     "remembers, and a required check that fails ends the configuration.",
     ["inputs", "histories"], "about 1,600 checks each for C and C++ (thorough: 2,300), forwards, backwards, twice and from the cache; 4 required kinds x before x option values; histories of up to 2 (thorough: 3) option and file changes",
     "Tests ask the checks about the system they run on, once. What goes wrong are combinations of ways to say something and answers remembered.",
     ["src/functions/compiler.c", "src/compilers.c", "src/args.c", "src/backend/common_args.c", "src/lang/serial.c", "src/functions/common.c"],
     [("compiler_check()", "src/functions/compiler.c"), ("compiler_check_cache()", "src/functions/compiler.c")],
     "C11_compiler.py", CLI + " against what gcc and g++ do with the same code", "exploration", CLIN)

prop("C12", "Build type, warning, standard and sanitizer options decide each target's flags",
     "Every compile and link command of a target has the flags that the values of its options stand for: buildtype or optimization and debug (whichever is set at the higher place), warning_level, werror, c_std, cpp_std, "
     "b_ndebug, b_sanitize, b_pgo, b_lto, b_colorout, b_staticpic and b_pie, taken from the target's override_options, else the command line, else default_options, and in a subproject from its own where it has them; pic, pie "
     "and gnu_symbol_visibility of the target too. The options of one target have no effect on another.",
     ["inputs", "configurations"], "168 settings of buildtype, optimization and debug from the command line or default_options x 168 override_options; every value and pair of values of ten more options x 30 overrides, in C and C++, in four kinds of targets, in subprojects; pic x pie x visibility; programs that report what they see",
     "Tests build with the default options, and see only that the build succeeds. What counts is one option set at several places, and several targets with different options in one build.",
     ["src/backend/common_args.c", "src/compilers.c", "src/options.c", "src/functions/kernel/build_target.c", "src/backend/ninja/build_target.c"],
     [("get_buildtype_args()", "src/backend/common_args.c"), ("parse_and_set_override_options()", "src/options.c"), ("compiler_gcc_args_optimization()", "src/compilers.c")],
     "C12_flags.py", CLI + " of option values and gcc flags", "exploration", CLIN)
