NOT_APPLICABLE = []

prop("C01", "Future-time verdicts are those of MLTL semantics",
     "For every future-time specification the tool chain accepts and every input trace, every verdict the monitor prints for a formula and a time stamp "
     "equals the value that the formula, as written, has at that time stamp in (finite-interval) MLTL semantics over the input trace.",
     ["programs", "inputs", "histories"], "all formulas over all operators, nestings and intervals, with and without the optimisations; all input traces",
     "The regression tests run a few hundred fixed formulas on a handful of fixed traces of about 20 steps; most of the monitor's state space (queue contents, asynchronous arrival of operands, sharing) is never reached.",
     ENG + ["compiler/c2po/rewrite.py"], [("until, release, boolean operators", "mltl.c"), ("fixed-point scheduling", "engines.c r2u2_step"), ("rewrites and common subexpression elimination", "passes.py, rewrite.py")],
     [("SCQ arena", "verdicts of each subformula", "monitor.h shared_connection_queue_mem")], ["monitor output lines"],
     technique=TRACE, note="Every formula with two operator levels over two atoms and intervals within [0,1] (enumerated by TLC, thorough: [0,2]) on traces containing every window of the formula's horizon; random larger formulas. Every verdict is judged by TLC against spec/MLTL.tla.")

prop("C02", "Past-time verdicts are those of past-time MLTL semantics",
     "For every past-time specification the tool chain accepts and every input trace, every verdict the monitor prints for a formula and a time stamp "
     "equals the value of the formula, as written, at that time stamp under past-time MLTL semantics, where positions before the start of the trace do not exist.",
     ["programs", "inputs", "histories"], "all formulas over all past operators, nestings and intervals, with and without the optimisations; all input traces",
     "Existing tests use single operators over two fixed traces; nested past operators, whose operands arrive at different times, are hardly tested.",
     ENG + ["compiler/c2po/rewrite.py"], [("since, trigger and their temporal blocks", "mltl.c"), ("once/historically rewriting", "passes.py remove_extended_operators")],
     [("temporal blocks", "edge of the last witness", "mltl.h")], ["monitor output lines"],
     technique=TRACE, note="As C01 for the past operators.")

prop("C03", "Each formula's verdict stream covers every time once, in order",
     "The verdicts of each formula form one stream of strictly increasing time stamps in which every line answers exactly the times after the previous line, and no line belongs to a formula that does not exist; "
     "the monitor keeps running for every input.",
     ["programs", "inputs", "histories"], "all specifications with any number of formulas and any sharing among them, all traces of any length",
     "Tests compare fixed outputs of short runs; queue wrap-around, shared subformulas of several readers and long runs are not reached.",
     ENG, [("queue read and write pointers", "shared_connection_queue.c"), ("queue sizing", "passes.py compute_scq_sizes")],
     [("SCQ write/read pointers", "position in the ring buffer", "shared_connection_queue.h")], ["monitor output lines"],
     technique=TRACE, note="Specifications of up to ten formulas, depth six or intervals up to 40, runs up to 400 steps; stream clause of spec/VerdictConf.tla.")

prop("C04", "Verdicts are reported as soon as their deadline passes",
     "For every formula and time i, the verdict for i has been reported when the step i + d has been processed, where d is the formula's worst-case propagation delay (its future horizon; 0 for past-time formulas).",
     ["programs", "inputs", "histories"], "all specifications and all input traces",
     "Tests check outputs of complete runs, and only a few traces need the deadline; a monitor that reports late but correctly passes most of them.",
     ENG, [("fixed-point scheduling", "engines.c r2u2_step"), ("early evaluation", "mltl.c")],
     [], ["monitor output, grouped by processed step"],
     technique=TRACE, note="Deadline clause of spec/VerdictConf.tla; exhaustive small scope plus random formulas with bounds up to 30 and nesting up to 6.")

prop("C05", "Compiled programs lose no verdict in any reachable configuration",
     "For every compiled specification the memory the compiler reserves for each subformula, and the order in which the monitor evaluates, suffice in every configuration the monitor can reach "
     "on traces of any length: no result is overwritten before its readers have used it, no step runs forever, and the verdicts stay right, complete and prompt.",
     ["programs", "histories"], "all input histories of unbounded length for each program explored; programs from small scopes and random ones with shared subformulas",
     "Tests stop after some 20 steps on one input; overflow of a queue needs a particular history, often a long one.",
     ENG, [("queue sizing", "scq.py, passes"), ("queue write compaction and reads", "shared_connection_queue.c")],
     [("queue contents and pointers, temporal blocks, clock", "configuration of the monitor", "monitor.h")], ["monitor output lines"],
     technique="TLA+ model checking of compiled programs over unbounded histories (time renormalisation), configurations replayed on the real monitor",
     note="spec/Monitor.tla runs the instructions of the real binary; TLC visits every reachable configuration for all inputs (MonitorMC.tla), prints a history for each, and those are replayed on the real monitor and judged; exact agreement of outputs with the model is counted. Counterexamples of the model are reported only once reproduced on the real monitor.")

prop("C06", "Optimisations do not change what a specification means",
     "Compiling with rewriting, common subexpression elimination or both, in any order and any number of times, yields a monitor whose verdicts are those of the formulas as written.",
     ["programs", "inputs"], "all specifications, biased to the shapes the optimisations look for; all input traces",
     "Each rewrite rule has one or two syntactic expectations; that the expected text means the same as the input, for every interval relation and operand, is never checked.",
     ["compiler/c2po/rewrite.py", "compiler/c2po/cse.py", "compiler/c2po/transform.py", "compiler/c2po/desugar.py"], [("rewrite rules", "rewrite.py optimize_rewrites"), ("subexpression sharing", "cse.py optimize_cse")],
     observe=["monitor output lines of the compiled binaries"], level="translation_validation",
     technique=TRACE, note="Shape-directed random specifications, command line and scripted pass sequences; every verdict judged by TLC against the formula as written.")

prop("C07", "Transformations keep the meaning and reach the promised form",
     "Every transformation command leaves the meaning of each formula unchanged and produces the form its documentation promises (negation normal form, boolean normal form, binary operators only, no extended or release operators, operands ordered by delay).",
     ["programs", "inputs"], "all specifications and all sequences of transformation commands; all input traces",
     "Tests compare a dozen outputs with recorded texts, one of which is not even equivalent to its input.",
     ["compiler/c2po/transform.py", "compiler/c2po/cpt.py"], [("transformations", "transform.py"), ("tree replacement and traversal", "cpt.py replace, preorder, postorder")],
     observe=["print_prefix output", "monitor output of the compiled result"], level="translation_validation",
     technique="TLA+ equivalence and form check (EquivConf.tla) of printed results, trace validation of compiled results",
     note="The printed specification is compared with the given one in TLC (meaning on random traces, promised form as a predicate over the tree), and transformed programs are run on the real monitor.")

prop("C08", "Atomic expressions have the value their operators define",
     "Every expression over typed inputs (booleans, integers, floats; arithmetic, bitwise, comparison and logical operators, prev, abs, sqrt, pow, TAU), used as an atom of a formula under -bz, "
     "has at each step the value that its operators define with C arithmetic on the inputs of that step (and of the step before for prev), however expressions share parts and whether or not optimisations are on.",
     ["programs", "inputs"], "all well-typed expressions over inputs whose evaluation stays within 32-bit integers / exactly representable floats; all input traces",
     "Tests use one expression per operator with a few values; sharing, nested operators, negative numbers, type mixes and values that change from step to step are not covered.",
     ["monitors/c/src/engines/booleanizer.c", "monitors/c/src/engines/booleanizer.h", "compiler/c2po/assemble.py", "compiler/c2po/passes.py", "compiler/c2po/type_check.py"],
     [("booleanizer instructions", "booleanizer.c"), ("operand kinds, value types and constants", "assemble.py gen_bz_instruction")],
     [("value buffer and prev values", "one value per instruction", "monitor.h value_buffer")], ["monitor output lines"],
     technique=TRACE, note="Typed random expressions, shallow and deep, under random temporal formulas; spec/Booleanizer.tla computes every atom from the inputs, spec/VerdictConf.tla judges every verdict. Floats are kept to multiples of 1/256 so that no rounding can occur.")

prop("C09", "Surface constructs mean what the language says",
     "Definitions, formula labels, arrays and slices, structures, enumerations and set aggregation (foreach, forsome, forexactly, foratleast, foratmost), nested in any way that type-checks, "
     "give formulas whose verdicts are those of the program read denotationally: a name stands for the value of its expression, an aggregation quantifies or counts over the elements of its set, a comparison of arrays compares index by index.",
     ["programs", "inputs"], "all well-typed programs over these constructs, also with names that shadow each other and aggregations over one element; all input traces",
     "Tests print a few expansions; combinations (aggregation over slices of members of structures in arrays, definitions of definitions, labels inside temporal operators) are not covered and several of them crashed or lost verdicts.",
     ["compiler/c2po/desugar.py", "compiler/c2po/type_check.py", "compiler/c2po/cpt.py", "compiler/c2po/parse_c2po.py"],
     [("expansion, access resolution, unrolling", "desugar.py"), ("typing and scopes", "type_check.py"), ("substitution, traversal with bound variables", "cpt.py rename, postorder")],
     observe=["monitor output lines"], technique=TRACE,
     note="Random typed programs are generated as text and as tree; spec/Surface.tla evaluates the tree with an environment (no expansion), spec/VerdictConf.tla judges every verdict of the real monitor. Restricted to what the compiler supports: array comparisons and logical operators not below the booleanizer's operators.")

prop("C10", "The monitor library serves any number of monitors and reloads",
     "A process may hold several monitors and load specifications, set signals with any of the typed functions, step and reload in any order: each monitor behaves as if it were alone, "
     "a freshly loaded specification is monitored from time 0 whatever ran there before, a signal keeps its value until set again, and a callback receives exactly the verdicts that are written.",
     ["histories", "inputs", "programs"], "all interleavings of loads, resets, signal updates and steps over any number of monitors",
     "The library tests use one monitor, one specification and one load; reloading and interleaving, where state of the previous specification or of another monitor could leak, are not tested.",
     ["monitors/c/src/lib.c", "monitors/c/src/r2u2.h", "monitors/c/src/internals/process_binary.c", "monitors/c/src/memory/monitor.c"] + ENG[:1],
     [("typed signal functions and stepping", "lib.c"), ("loading and configuring", "process_binary.c, engines.c"), ("resets", "monitor.c")],
     [("all monitor arenas", "state of one monitor", "monitor.h")], ["output file, callback"],
     technique=TRACE, note="Random interleavings over one to five monitors of a pool of 300 compiled specifications; spec/FleetConf.tla folds the events of each monitor into eras (load to load) and judges each era with spec/VerdictConf.tla.")

prop("C11", "Files to verdicts on the command line",
     "Compiled from its specification, map file or trace header and options by the command line or an equivalent command script, and run by the r2u2 program on a trace file or standard input, a specification yields exactly the verdicts of its formulas over the signals that the mapping selects: "
     "map entries (scalars, elements and ranges of arrays, later entries override), trace headers, generated maps (in order of declaration), @T lines (the values hold from the line before up to T), numbers in any valid spelling, comments, line endings, and M as the mission time.",
     ["programs", "inputs"], "all well-formed specification, map and trace files over booleans, integers, floats, arrays, structures and enumerations, all orders of columns and all options that do not change the meaning",
     "The tests use a handful of maps with one-digit columns in order of use, no @ line, one spelling of each number; every link of the chain can be wrong for a layout they do not contain.",
     ["compiler/c2po/map.py", "compiler/c2po/trace.py", "compiler/c2po/main.py", "compiler/c2po/assemble.py", "compiler/c2po/parse_mltl.py", "monitors/c/src/cli/main.c", "monitors/c/src/cli/csv_trace.c"],
     [("map files and generated maps", "map.py"), ("trace headers", "trace.py"), ("reading of traces", "csv_trace.c"), ("main loop", "main.c"), ("mission time", "parse_c2po.py, parse_mltl.py")],
     [("signal vector", "values per column between lines", "csv_trace.c, monitor.h")], ["output of r2u2"],
     technique=TRACE, note="Random boolean, booleanizer and surface programs with random maps, headers and traces through c2po (command line or script) and the r2u2 program; spec/FrontConf.tla maps columns and lines to values of the variables over time and judges the printed verdicts with spec/VerdictConf.tla.")

prop("C12", "Names and contract states are reported for the right specifications",
     "A monitor built with R2U2_AUX_STRING_SPECS reports every verdict under the label of its specification (its number or the name generated from it when it has no label or the binary holds no names), "
     "and for every assume-guarantee contract reports each time at which it is inactive (assumption false), invalid (assumption true, guarantee false) or verified (both true), no other, in order and as early as the verdicts of its parts, "
     "for any number and mix of labels, contracts and FTSPEC and PTSPEC sections in any order, also when several specifications are loaded one after the other; a name too long to be stored is an error.",
     ["programs", "inputs"], "all specifications with labels, contracts and sections in any order, all input traces",
     "No test builds the monitor with this option; the compiler tests compare the stored names for a few files with one section.",
     ["monitors/c/src/engines/aux_info.c", "monitors/c/src/internals/process_binary.c", "monitors/c/src/engines/mltl.c", "compiler/c2po/assemble.py", "compiler/c2po/desugar.py"],
     [("names and contract reports", "aux_info.c"), ("reading of auxiliary data", "process_binary.c"), ("auxiliary data", "assemble.py pack_aliases"), ("contracts", "desugar.py resolve_contracts")],
     [("aux_info_arena", "names by formula number, contracts", "aux_info.h")], ["monitor output lines"], technique=TRACE,
     note="Random specifications with labels, contracts and mixed sections, loaded in sequence into monitors built with the option; spec/AuxConf.tla assigns numbers and names and derives the states of each contract from the columns of its parts.")

prop("C13", "Generated bounds files are large enough",
     "A bounds file that C2PO writes for a specification (write_bounds_c or --write-bounds) gives every arena of the C monitor at least the space that the compiled specification needs, "
     "and a monitor built with it loads and runs that specification without any access outside its memory, with the same verdicts, names and contract reports as with larger limits.",
     ["programs", "inputs"], "all specifications with all maps, trace headers, options and contracts; traces with the columns that the mapping names",
     "No test builds a monitor with a generated bounds file; a size that is one too small corrupts memory only for particular specifications.",
     ["compiler/c2po/assemble.py", "monitors/c/src/memory/monitor.h", "monitors/c/src/internals/process_binary.c", "monitors/c/src/memory/shared_connection_queue.c"],
     [("bounds", "assemble.py compute_bounds, write_bounds_c"), ("loading", "process_binary.c"), ("queues and temporal blocks", "shared_connection_queue.c")],
     [("all monitor arenas", "memory of the monitor", "monitor.h R2U2_DEFAULT_MONITOR")], ["bounds file, output of the monitor"], technique=TRACE,
     note="spec/Capacity.tla computes the space needed from the decoded binary and judges each bounds file; monitors are built with a sample of the files under AddressSanitizer, run, and judged by spec/FrontConf.tla or spec/AuxConf.tla.")

prop("C14", "Operators group by strength; only well-formed, well-typed programs compile",
     "A specification is read as its tokens say under the documented binding strengths and groupings of the operators, whatever parentheses are left out and however it is laid out, and its verdicts are those of that reading; "
     "a token sequence that is not a specification, contains an illegal character, or combines operands of types an operator does not take (or mixes tenses, or uses operators of the booleanizer without it) is rejected with a non-zero exit code and no binary.",
     ["programs", "inputs"], "all token sequences over the operators of the two input languages (C2PO and MLTL), all inputs",
     "The tests parenthesise almost everything and try a handful of ill-typed programs; a precedence table has a case per pair of operators and a type checker one per operator and operand type.",
     ["compiler/c2po/parse_c2po.py", "compiler/c2po/parse_mltl.py", "compiler/c2po/type_check.py", "compiler/c2po/types.py", "compiler/c2po/main.py"],
     [("precedence tables and grammars", "parse_c2po.py, parse_mltl.py"), ("type rules", "type_check.py")],
     observe=["exit code, binary, monitor output lines"], technique=TRACE,
     note="spec/Syntax.tla parses each generated token sequence by binding strength, types the tree and evaluates it; accepted ones are run and their verdicts judged, others must be rejected. Token sequences are also mutated (deleted, doubled, exchanged, illegal characters).")

prop("C15", "check_sat and check_equiv answer correctly",
     "When check_sat or check_equiv (with any of the encodings) answers, the answer is right: 'sat' only for formulas that some trace satisfies, 'unsat' only for those that none does, also for the conjunction of a program; "
     "'equivalent' only for pairs of templates that agree for all values of the symbolic bounds allowed by the constraints, 'not equivalent' only if they do not.",
     ["programs"], "all specifications over booleans and integers that an encoding accepts, all interval bounds, all equivalence queries",
     "The tests check a few satisfiable formulas per encoding; an encoding can be wrong for particular bounds, nestings or trace ends.",
     ["compiler/c2po/sat.py", "compiler/c2po/parse_equiv.py", "compiler/c2po/command.py"],
     [("encodings", "sat.py to_uflia_smtlib2, to_qf_uflia_smtlib2, to_qf_bv_smtlib2"), ("equivalence queries", "parse_equiv.py, sat.py")],
     observe=["answers printed by the commands"], technique="TLA+ trace validation with TLC (answers of the solvers against enumeration of all traces in TLC)",
     note="spec/Sat.tla decides each formula by enumerating all traces up to its horizon (integers from -6 to 6, which contain every order of the terms used). Timeouts and refusals are counted, not judged.")

prop("C16", "Command scripts act on one state; push and pop restore it; failures are clean",
     "In a script, every command acts on the current state (the program read last with the transformations applied to it, the settings, the signal mapping) and nothing else: two scripts that reach the same state see the same effects of the same command, "
     "whatever they did before, in whatever process; push and pop restore the state of the push exactly; a command that cannot be executed (unknown, malformed, wrong arguments, missing or ill-formed file, a guard that does not hold) leaves the state alone, "
     "and never takes the program down; the guards reject commands before their time and let valid ones pass; the exit code is 0 iff no command failed and tells the last failure; and what is compiled monitors the current program.",
     ["histories", "programs"], "all command scripts over all programs, maps and settings",
     "The tests run scripts of fixed shape, one program each; state left by an earlier program or shared with a saved one shows only in particular sequences.",
     ["compiler/c2po/main.py", "compiler/c2po/command.py", "compiler/c2po/cpt.py", "compiler/c2po/atomics.py", "compiler/c2po/scq.py", "compiler/c2po/assemble.py", "compiler/c2po/map.py", "compiler/c2po/trace.py"],
     [("interpreter and stack", "main.py"), ("commands and guards", "command.py"), ("copies of program and context", "cpt.py Context.deepcopy, deepcopy_program_with_context")],
     [("program, context, stack", "state of the interpreter", "main.py")], ["output, files and exit code per command"], technique=TRACE,
     note="Families of scripts that share programs and sub-sequences; spec/Session.tla is the state machine of the interpreter, requires outputs to be a function of state and command across the scripts of a family, and judges guards, failures, exit codes and the verdicts of the binaries (spec/FrontConf.tla).")

prop("C17", "Exactly the well-formed files compile, and mean what they say",
     "A specification file is accepted exactly if it is well-formed: its sections and declarations are complete, every symbol is declared once and used in its scope, definitions and set variables included, "
     "expressions, structures, enumerations, contracts and initial values have the types their operators, parameters and sections ask for, tenses are not mixed, bounds are representable and ordered and sets are not empty. "
     "Every other file is refused with a message and a non-zero exit code, leaves no binary, and never makes the compiler crash, hang or fail internally; "
     "what an accepted file monitors are the formulas that its text denotes, contracts (three formulas each) and the mission time M included.",
     ["programs", "inputs"], "all specification files of the C2PO language, with and without booleanizer and mission time, all inputs",
     "The tests pin the messages for a few dozen malformed files; each rule of well-formedness has countless ways of being broken, and each must neither be missed nor hit well-formed files.",
     ["compiler/c2po/parse_c2po.py", "compiler/c2po/type_check.py", "compiler/c2po/types.py", "compiler/c2po/desugar.py", "compiler/c2po/sly/yacc.py", "compiler/c2po/main.py"],
     [("grammar and recovery from errors", "parse_c2po.py, sly/yacc.py"), ("scopes, declarations, types", "type_check.py type_check_section, type_check_expr"), ("translation", "desugar.py")],
     observe=["exit code, messages, binary, monitor output lines"], technique=TRACE,
     note="spec/Files.tla reads the tokens of whole files (sections, declarations, scopes, types, tenses, bounds), decides whether they are well-formed, ill-formed or not judged, and evaluates the accepted ones. Files are generated from typed programs, with faults of twenty kinds planted; mutated token sequences are included.")

prop("C18", "What C2PO writes can be read again and means the same",
     "At every stage of a script, write_c2po writes a specification that parse_c2po reads again, and for formulas over booleans write_mltl one that parse_mltl reads again; "
     "what is read back has the names, contracts and verdicts of the program that was written, also after transformations, and also when it is written and read once more. "
     "(After desugaring, counts of formulas and other things without syntax may be refused when read, but not misread.)",
     ["programs", "inputs", "histories"], "all programs over the operators and types of C2PO, all transformations before writing, all inputs",
     "No test reads back what was written, except for a few files compared as text; each operator, type, declaration and nesting has its own way of being printed.",
     ["compiler/c2po/serialize.py", "compiler/c2po/cpt.py", "compiler/c2po/types.py", "compiler/c2po/command.py"],
     [("printing of programs", "cpt.py to_infix_str, to_mltl_std, Program.__str__"), ("writing", "serialize.py write_c2po, write_mltl")],
     observe=["files written, exit code, monitor output lines"], technique=TRACE,
     note="Programs are written and re-read at random stages, once or twice, compiled, run, and judged from the original text: boolean programs by spec/VerdictConf.tla, whole files by spec/Files.tla, named formulas and contracts by spec/AuxConf.tla.")

prop("C19", "The generated monitoring code computes its formula",
     "The C program that generate_sabre_code writes for a future-time formula over signals a0, a1, ... compiles, reads the trace (columns of text, or raw words), and prints, word after word, "
     "the formula's value at every step: at every word size, for every interval (shorter or longer than a word), every nesting, and every number of columns; no word is missing once the words that its intervals reach into have been read, "
     "and none is printed that they could still change. What cannot be generated (a formula that does not exist, past time, signals without a column, too few columns) is refused with an error and without a program.",
     ["programs", "inputs"], "all future-time formulas without release, all word sizes, all traces",
     "No test generates or runs this code; it evaluates intervals by shifting and combining words, with a case for each relation of the bounds to the word size and to powers of two.",
     ["compiler/c2po/sabre.py", "compiler/c2po/command.py"],
     [("code generation", "sabre.py gen_code"), ("the command", "sabre.py generate_sabre_code")],
     observe=["words printed by the compiled program"], technique=TRACE,
     note="spec/Sabre.tla evaluates the formula by MLTL.tla over the trace and judges each word printed, and each refusal; programs are compiled with gcc.")

prop("C20", "Generated traces suit the program, and running them gives their verdicts",
     "generate_trace writes a trace with the requested number of lines, whose header names every signal that the program uses at the column of the signal mapping in force, whether that comes from a map, a trace or generate_map, "
     "and whose values have the types of the signals: 0 or 1 for booleans, whole numbers within the requested range for integers, numbers with the requested number of decimals within the range for floats. "
     "The same seed gives the same trace. run_r2u2 over the program's binary and this trace writes exactly the verdicts of the trace to its output.",
     ["programs", "inputs", "histories"], "all programs, signal mappings, lengths, ranges, precisions and seeds, at every stage of a script after the mapping is known",
     "The tests generate a trace for one file of booleans and only look at the exit code; whether the columns agree with a mapping that does not follow the order of declaration, and the types with the columns, depends on the combination.",
     ["compiler/c2po/trace.py", "compiler/c2po/map.py", "compiler/c2po/r2u2.py", "monitors/c/src/main.c"],
     [("generation", "trace.py generate_trace"), ("the columns", "map.py, trace.py parse_trace_file"), ("running", "r2u2.py run_r2u2")],
     observe=["trace files, monitor output files, exit code"], technique=TRACE,
     note="spec/GenTrace.tla judges the shape of each generated trace against the program's variables, types and mapping, and takes its cells as the inputs of spec/FrontConf.tla, which judges what run_r2u2 wrote.")
