"""Author of properties.jsonl (kept so the file can be regenerated)."""
import json, os
G = "acaciamc/mccmdgen/generator.py"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe, hook_needed=None)))

T = "The existing tests only check that a handful of fixed programs compile (the output is never executed)"

prop("C01", "Integer code computes the source expression in 32-bit arithmetic",
 "For every program, when the generated functions run, every integer expression, assignment, augmented assignment and comparison yields exactly the value its source denotes: 32-bit wrapping + - *, C-style truncating / and %, unary + and -, usual precedence and grouping. This holds whatever mix of literals, variables and nested sub-expressions the operands are, including when the target also occurs in the expression, and no legal combination is refused or crashes the compiler.",
 ["programs", "inputs"], "all integer expressions and targets, all nesting shapes, all int32 operand values without division by zero",
 T + "; no test looks at the value any generated arithmetic leaves on a scoreboard.",
 ["acaciamc/objects/integer.py", G, "acaciamc/mccmdgen/cmds.py", "acaciamc/compiler.py"],
 [("IntLiteral / IntVar / IntOpGroup operator tables", "acaciamc/objects/integer.py"), ("need-temporary test in IntOpGroup.export", "acaciamc/objects/integer.py"), ("temporary score allocation per statement", "acaciamc/compiler.py:allocate_tmp, " + G + ":visit")],
 ["scores left by the generated mcfunctions"],
 [("acaciaN score holders", "variables, temporaries and integer constants", "acaciamc/mccmdgen/cmds.py:FunctionsManager")])

prop("C02", "Boolean expressions have the truth value the source denotes",
 "When the generated functions run, every boolean expression - comparisons and chained comparisons, and/or/not in any nesting, equality between booleans, conversions to int - has the truth value of the source expression in every context it is used in (condition, assignment, argument, display). This includes comparisons against extreme integer constants and conditions whose operands overlap the variable being assigned.",
 ["programs", "inputs"], "all boolean expression shapes over int and bool variables and literals, all operand values",
 T + "; the range merging, inversion and literal short-cuts are exercised on fewer than ten shapes and the truth value is never observed.",
 ["acaciamc/objects/boolean.py", "acaciamc/objects/integer.py", G],
 [("and-group / or-expression construction and range merging", "acaciamc/objects/boolean.py:new_and_group"), ("conversion to execute sub-commands", "acaciamc/objects/boolean.py:as_execute"), ("chained comparison splitting", G + ":visit_CompareOp")],
 ["scores and branch events produced by the generated mcfunctions"])

prop("C03", "Control flow executes exactly the statements the source selects",
 "Running the generated functions performs exactly the sequence of effects the source prescribes: exactly one branch of each if/elif/else, each while body as often as its condition - re-evaluated before every iteration - is true, each compile-time for body once per item in order. What a branch or body changes never affects which branch of the same statement runs.",
 ["programs", "inputs"], "all nestings of if/elif/else, while, for, all conditions, all initial values with terminating loops",
 T + "; the order and number of executed effects is never observed.",
 [G, "acaciamc/mccmdgen/optimizer.py", "acaciamc/objects/boolean.py"],
 [("if/else lowering to conditional function calls", G + ":visit_If"), ("while lowering to recursion", G + ":visit_While"), ("for unrolling", G + ":visit_For")],
 ["ordered log of marker commands and snapshots"])

prop("C04", "Calls deliver arguments, references, defaults and results faithfully",
 "A call binds positional, keyword and default arguments exactly as declared; by-value parameters are private copies, reference parameters and reference results denote the caller's variable, const parameters are usable at compile time, and the call's value is the last result executed. This holds for ordinary and inline functions, any number of calls in one expression, and nested calls.",
 ["programs", "inputs"], "all signatures, argument spellings, call nestings and function bodies",
 T + "; no test observes the value a call returns, nor two calls of one function inside one expression.",
 ["acaciamc/objects/functions.py", G],
 [("argument matching", "acaciamc/objects/functions.py:ArgumentHandler"), ("argument and result variables", "acaciamc/objects/functions.py:AcaciaFunction"), ("inline expansion", G + ":call_inline_func")],
 ["scores after each call"])

prop("C05", "Compile-time evaluation agrees with run-time evaluation",
 "Any computation gives the same answer whether it is carried out by the compiler (literal folding, constants, compile-time functions) or by the generated commands on run-time variables holding the same values. A compile-time computation that would overflow 32 bits or divide by zero is rejected with a diagnostic rather than folded to a wrong value.",
 ["programs", "inputs"], "all integer/boolean expressions and compile-time function bodies, all operand values",
 T + "; folding and execution are never compared.",
 ["acaciamc/mccmdgen/ctexecuter.py", "acaciamc/mccmdgen/ctexpr.py", "acaciamc/objects/integer.py", "acaciamc/objects/boolean.py", "acaciamc/objects/float_.py"],
 [("literal operator implementations", "acaciamc/objects/integer.py:IntLiteral"), ("compile-time executer", "acaciamc/mccmdgen/ctexecuter.py")],
 ["scores assigned from folded and from run-time versions of one computation"])

prop("C06", "The optimizer never changes observable behaviour",
 "For every program, the optimized and the unoptimized output, at every inlining threshold, produce the same ordered observable effects and final values for the main function, every interface and every game tick. Every main, init, tick and interface function that issues a command without optimization still exists.",
 ["programs", "configurations", "histories"], "all programs, all inlining thresholds, optimizer on or off, histories of main, interface and tick invocations",
 "test_optimize.py checks one hand-made file graph; whether an inlined body still runs under its original condition depends on what that body writes, in every program.",
 ["acaciamc/mccmdgen/optimizer.py", "acaciamc/mccmdgen/cmds.py", "acaciamc/compiler.py"],
 [("single-reference inlining with condition snapshot", "acaciamc/mccmdgen/optimizer.py:opt_function_inliner"), ("dead / empty function removal", "acaciamc/mccmdgen/optimizer.py"), ("removal of redundant 'as @s'", "acaciamc/mccmdgen/optimizer.py:opt_execute_as_ats"), ("read/write sets of commands", "acaciamc/mccmdgen/cmds.py:scb_did_assign")],
 ["event logs of both outputs in the command VM"])

prop("C07", "Output options change names and layout only, never behaviour",
 "Choosing another scoreboard prefix, entity tag prefix, root folder, internal folder, main or init file name, splitting the init file, or adding debug comments leaves the ordered observable effects and final values unchanged. Compiler-owned scoreboards, tags and files carry the chosen names, so two packs with different names do not interfere in one world.",
 ["configurations", "programs"], "all combinations of naming and layout options, all programs",
 "The tests run every program under one configuration.",
 ["acaciamc/compiler.py", "acaciamc/mccmdgen/cmds.py", "acaciamc/cli.py"],
 [("output path template", "acaciamc/compiler.py:OutputManager"), ("objective naming", "acaciamc/mccmdgen/cmds.py:FunctionsManager"), ("tag naming", "acaciamc/compiler.py:allocate_entity_tag")],
 ["event logs under each configuration", "objective, tag and file names used"])

prop("C08", "Every emitted pack is closed and well formed",
 "Every function that a generated file, tick.json or schedule refers to is itself generated; every compiler-owned scoreboard is created before use; every emitted command is syntactically valid with integers in the 32-bit range; and tick.json is present exactly when there is per-tick work. During execution no compiler-owned score is read before it was written.",
 ["programs", "configurations", "histories"], "all accepted programs that initialise their variables, all configurations, main then interfaces and ticks in any order",
 T + "; a dangling function reference, an uninitialised read or an out-of-range literal compiles silently.",
 ["acaciamc/compiler.py", "acaciamc/mccmdgen/cmds.py", "acaciamc/mccmdgen/optimizer.py", G],
 [("file registration", "acaciamc/compiler.py:add_file"), ("init generation", "acaciamc/mccmdgen/cmds.py:generate_init"), ("command resolution", "acaciamc/mccmdgen/cmds.py:resolve")],
 ["all emitted files (every line parsed)", "VM read/write monitors"])

prop("C09", "Compilation is deterministic",
 "Compiling the same sources with the same options yields byte-identical output files, whatever the process, hash seed, working directory, previous compilations in the same process, or order of directory entries.",
 ["programs", "configurations", "histories"], "all programs and options; repeated, interleaved and fresh-process compilations under different hash seeds",
 "The tests compile each program once in one environment (fixed hash seed).",
 ["acaciamc/compiler.py", "acaciamc/mccmdgen/optimizer.py", G, "acaciamc/objects/entity_template.py"],
 [("sequential id allocation", "acaciamc/compiler.py"), ("file graph traversal", "acaciamc/mccmdgen/optimizer.py:opt_dead_functions")],
 ["output trees from independent processes"])

prop("C10", "Every faulty program gets a located diagnostic, never an internal crash",
 "For every source text the compiler either accepts it or reports a compile error naming the offending file and a line and column inside the source; it never fails with an internal exception or hangs, also when nesting or self-reference exceeds what it can handle (only a program's own endless compile-time loop may keep it busy). A program with a single static fault is rejected with the error attributed to the statement at fault, at the line of the faulty part, in its own file.",
 ["inputs", "programs"], "all source texts: well-formed programs, single-fault mutants, token-level and byte-level mutations",
 "The tests contain no rejected program at all.",
 ["acaciamc/error.py", "acaciamc/tokenizer.py", "acaciamc/parser.py", G, "acaciamc/tools/axe.py", "acaciamc/objects/functions.py"],
 [("error location fixing", G + ":fix_error_location"), ("invalid operand protocol", "acaciamc/mccmdgen/utils.py:InvalidOpError"), ("argument conversion errors", "acaciamc/tools/axe.py")],
 ["exception class, location and message of each compilation"])

prop("C11", "Layout and comments do not change the meaning of a program",
 "Inserting or removing comments, blank lines, trailing blanks, line continuations, line breaks inside brackets, redundant parentheses or spaces, or changing the indentation width consistently, leaves the generated output unchanged. Block structure follows indentation: inconsistent indentation or bad spacing is rejected, not guessed.",
 ["inputs", "programs"], "all programs and all layout rewritings that the language defines as neutral",
 "test_ast.py compares a dozen fixed snippets.",
 ["acaciamc/tokenizer.py", "acaciamc/parser.py"],
 [("indent stack and continuation handling", "acaciamc/tokenizer.py"), ("expression grammar", "acaciamc/parser.py")],
 ["output trees of original and re-laid-out program"])

prop("C12", "Commands, strings and displayed text reach the game verbatim",
 "A raw command is emitted exactly as written with each ${...} replaced by the value of its constant expression and each escape by its character; strings keep their exact characters through constants, concatenation, formatting and JSON; and text shown by the print module is exactly the format string with its placeholders replaced by the current run-time values.",
 ["inputs", "programs"], "all characters and escapes, all placeholder shapes, one-line and multi-line commands, all run-time values",
 T + "; no test inspects an emitted command or shown text.",
 ["acaciamc/tokenizer.py", "acaciamc/parser.py", G, "acaciamc/modules/print.py", "acaciamc/mccmdgen/cmds.py", "acaciamc/objects/string.py"],
 [("escape and ${} handling", "acaciamc/tokenizer.py"), ("formatted string rendering", G + ":visit_FormattedStr"), ("rawtext construction", "acaciamc/modules/print.py")],
 ["emitted command lines and rendered tellraw/titleraw text"])

prop("C13", "Each imported module runs once, first, and exposes exactly its names",
 "However many files import a module, in whatever form and nesting, its top-level code runs exactly once per run of the main program, at its first import, and all importers share its variables and functions. Only names the module itself defines publicly are importable; private and re-imported names are not; circular and missing imports are diagnosed.",
 ["programs", "histories"], "all import graphs, import forms, alias choices, and repeated runs of the main function",
 "One fixed two-file import is compiled; repeated, diamond and conditional imports and re-runs are never executed.",
 ["acaciamc/compiler.py", G, "acaciamc/objects/module.py", "acaciamc/mccmdgen/symbol.py"],
 [("module cache with loaded flag", "acaciamc/compiler.py:parse_module"), ("import statements", G + ":visit_Import"), ("export rules", G + ":parse_as_module")],
 ["ordered marker log; importability of each name"])

prop("C14", "Struct values are independent copies with exactly their declared fields",
 "Every struct value has exactly its own and inherited fields; constructing, assigning, passing, returning or swapping structs copies every field from the values before the operation, and changing one struct never changes another. Assignability follows the declared inheritance.",
 ["programs", "inputs"], "all struct hierarchies and nestings, all sequences of construct/assign/pass/return/swap",
 T + "; no test reads a field after an assignment.",
 ["acaciamc/objects/struct.py", "acaciamc/objects/struct_template.py", G],
 [("field-wise copy", "acaciamc/objects/struct.py:export"), ("constructor initialisation", "acaciamc/objects/struct_template.py")],
 ["scores of every field after each statement"])

prop("C15", "An entity variable denotes exactly the entity it was last given",
 "Creating an entity summons exactly one, of the type, name and position its constructor states, and runs the constructor chain; an entity variable refers to exactly the entity last assigned to it, through assignment, swap, arguments, results, casts and self. Fields and tags of one entity are never changed through a reference to another.",
 ["programs", "histories"], "all creation/assignment/call/field-update sequences over several templates and entities",
 T + "; no test has an entity in it at run time.",
 ["acaciamc/objects/entity.py", "acaciamc/objects/entity_template.py", G, "acaciamc/objects/functions.py"],
 [("one tag per entity variable", "acaciamc/objects/entity.py:TaggedEntity"), ("summon-then-tag constructor protocol", "acaciamc/objects/entity_template.py:default_entity_new"), ("fields as per-entity scores", "acaciamc/objects/integer.py:new_var_as_field")],
 ["entities, tags and scores in the VM world"])

prop("C16", "Method calls run the implementation selected by the entity's real template",
 "A virtual method call runs exactly once, on that entity, the implementation of the nearest template in the entity's own method resolution order, whatever the static type of the reference and wherever the override is declared; non-virtual and static methods and explicit casts resolve statically. Arguments and results are delivered as in ordinary calls, and invalid override or inheritance combinations are rejected.",
 ["programs", "histories"], "all template hierarchies including multiple inheritance, all override patterns, all call sites",
 T + "; dynamic dispatch only exists at run time.",
 ["acaciamc/objects/entity_template.py", "acaciamc/objects/functions.py", "acaciamc/modules/builtins.py"],
 [("runtime template id and dispatcher function", "acaciamc/objects/functions.py:BoundVirtualMethod"), ("C3 linearisation", "acaciamc/objects/entity_template.py:EntityTemplate"), ("upcast", "acaciamc/modules/builtins.py")],
 ["marker log per entity"])

prop("C17", "Entity groups behave as mathematical sets of entities",
 "Under any sequence of add, remove, select, drop, filter, extend, subtract, intersect, copy, clear, assignment, += and -=, a group contains exactly the entities set algebra prescribes, size, emptiness and membership agree with it, and no other group or variable changes. Iterating runs the body exactly once for every member at loop start, with the loop variable denoting that member.",
 ["programs", "histories"], "all operation sequences over several groups and entities in the world",
 T + "; membership is only observable in a running world.",
 ["acaciamc/objects/entity_group.py", "acaciamc/objects/extern_egroup.py", G],
 [("one tag per group", "acaciamc/objects/entity_group.py"), ("iteration body run as each member", G + ":visit_For")],
 ["tags on world entities, logged sizes and iteration markers"])

prop("C18", "Entity filters select exactly the entities meeting all conditions in order",
 "A filter chain selects exactly the entities that satisfy every condition added, each evaluated in the stated context, with limiting conditions (nearest, farthest, random) choosing only among the entities that passed the conditions before them. Building on a filter never alters the original, and evaluating one leaves no marks that could influence a later evaluation.",
 ["inputs", "histories"], "all chains of filter methods and arguments, all worlds of entities",
 T + "; a filter is only a selector string until it runs against entities.",
 ["acaciamc/objects/entity_filter.py", "acaciamc/mccmdgen/mcselector.py", "acaciamc/modules/world.py"],
 [("staged selectors with temporary tags", "acaciamc/objects/entity_filter.py:dump"), ("copy-on-write filter methods", "acaciamc/tools/__init__.py:transform_immutable")],
 ["selected entity sets in VM worlds; residual tags"])

prop("C19", "Scheduled work runs exactly at its tick",
 "A delayed task runs exactly once, the requested number of ticks after its latest request, unless cancelled or re-requested first, and reports a pending request truthfully; a registered loop runs every given number of ticks from the first tick on. Tasks and loops do not disturb each other.",
 ["histories", "programs"], "all interleavings of request/cancel/query across ticks for several tasks and loops",
 "No test executes tick.mcfunction.",
 ["acaciamc/modules/schedule.py", "acaciamc/compiler.py"],
 [("countdown score per task", "acaciamc/modules/schedule.py:Task"), ("tick file", "acaciamc/compiler.py:file_tick")],
 ["per-tick marker log"])

prop("C20", "Compile-time lists and maps follow their sequence and mapping semantics",
 "List and map construction, indexing, slicing, ranges, repetition, iteration, membership, size and the mutating operations available at compile time give the results of the corresponding mathematical sequence or mapping, with out-of-range or missing keys diagnosed. Operations that return a new container leave their operands unchanged.",
 ["inputs", "programs"], "all operation sequences and arguments, negative, zero and out-of-range ones included",
 "The tests use a handful of calls with one argument tuple each.",
 ["acaciamc/objects/list_.py", "acaciamc/objects/map_.py", "acaciamc/mccmdgen/ctexecuter.py"],
 [("list methods", "acaciamc/objects/list_.py"), ("map methods and key hashing", "acaciamc/objects/map_.py")],
 ["unrolled values and sizes in output"])

prop("C21", "Positions, rotations and offsets denote the stated place",
 "A command placed at a position runs at exactly the world coordinates, dimension, rotation and anchor obtained by applying the position's steps in the order written to the entities' current state. Deriving a position, rotation or offset from another never alters the original.",
 ["inputs", "histories"], "all chains of position/rotation/offset constructors and methods, all entity placements",
 T + "; positions are never evaluated.",
 ["acaciamc/objects/position.py", "acaciamc/objects/position_offset.py", "acaciamc/objects/position_absolute.py", "acaciamc/objects/rotation.py"],
 [("execute context list", "acaciamc/objects/position.py:Position"), ("immutable copy decorator", "acaciamc/tools/__init__.py:transform_immutable")],
 ["execution context of the final command in the VM"])

prop("C22", "The command line reports truthfully and touches only its own output",
 "The command exits 0 exactly when the pack was written completely, otherwise it prints a diagnostic naming the faulty file or option and exits non-zero; if the options are invalid or the program cannot be compiled or encoded, previously generated files stay as they were. It never writes or deletes anything outside the pack's own files in the requested output folder and root folder, even when writing fails half way. Replacing old output removes only the old pack's root folder.",
 ["inputs", "configurations", "fault_sequences"], "all option combinations, faulty sources, unwritable or missing outputs, pre-existing files",
 "The tests invoke the command line only on programs that compile, into a fresh folder.",
 ["acaciamc/cli.py", "acaciamc/compiler.py"],
 [("output ordering: compile, remove old, write", "acaciamc/cli.py:run"), ("path construction", "acaciamc/compiler.py:output")],
 ["exit status, stderr, file tree before and after"])

prop("C23", "The math module's results equal their mathematical definitions",
 "pow, min, max, mod and floordiv return the mathematically defined value (floor-based for mod and floordiv, wrapped to 32 bits) for constant, variable and mixed arguments alike (constant results outside 32 bits are refused), without changing their arguments; randint only returns values within its inclusive bounds and can return each of them.",
 ["inputs", "programs"], "all argument kinds and values, any nesting in larger expressions",
 "The tests compile one call of each function and never run it.",
 ["acaciamc/modules/math.py", "acaciamc/modules/_math.aca", "acaciamc/objects/integer.py"],
 [("operation lists on integer expressions", "acaciamc/modules/math.py"), ("run-time implementations", "acaciamc/modules/_math.aca")],
 ["scores after evaluation"])

prop("C24", "Interfaces and main are exactly the entry points the source declares",
 "Each interface with a command in it produces one function file at its declared path under the root folder whose execution performs exactly its body with the program's current global state, any number of times and in any order after main; running main again starts the program afresh. Paths that are malformed, reserved or duplicated are rejected.",
 ["programs", "histories", "inputs"], "all interface paths and bodies, all sequences of main and interface invocations",
 T + "; entry points are never invoked.",
 [G, "acaciamc/compiler.py", "acaciamc/parser.py", "acaciamc/mccmdgen/optimizer.py"],
 [("interface path checks and registration", G + ":visit_InterfaceDef"), ("reserved paths", "acaciamc/compiler.py:is_reserved_path"), ("entry files kept by the optimizer", "acaciamc/compiler.py:entry_files")],
 ["file tree; VM state after invocation sequences"])

prop("C25", "World-module calls issue the documented Minecraft command",
 "Each function of the world module issues exactly the Minecraft command it documents, with every argument in its documented place and form, on exactly the given entities or at the given position, and nothing else; judgements return the truth of the tested condition. Arguments outside the documented domain are rejected with a diagnostic.",
 ["inputs", "programs"], "all world functions, optional arguments given or omitted, all target kinds",
 "The tests compile some calls without looking at the command.",
 ["acaciamc/modules/world.py"],
 [("one registered implementation per function", "acaciamc/modules/world.py:_register")],
 ["command log with execution context"])

prop("C26", "Statements change only the variables they name, and names follow scope",
 "Executing a statement changes no live variable, field, entity or group other than those it names, however many variables, temporaries, functions, templates and modules are alive. A name refers to the innermost enclosing definition; names local to a function, loop, interface or module are neither visible nor modified outside.",
 ["programs", "inputs"], "all programs; snapshots of all live storage after every statement",
 T + "; storage collisions only show in values of unrelated variables at run time.",
 ["acaciamc/compiler.py", G, "acaciamc/mccmdgen/symbol.py", "acaciamc/mccmdgen/cmds.py"],
 [("storage allocation and temporary reuse", "acaciamc/compiler.py:allocate_tmp"), ("scope chain", "acaciamc/mccmdgen/symbol.py"), ("contexts", G + ":Context")],
 ["snapshots of all variables after each statement"])

prop("C27", "Generated music plays every note of its MIDI file on time",
 "While a Music object plays, every listener hears exactly the audible notes of its MIDI file, each on the game tick nearest to its time in the file (tempo changes and speed applied, simultaneous notes together), with the sound of its channel's current instrument and the documented volume and pitch, and nothing else, whatever chunk_size is. play, stop, repetition and LENGTH act as documented from any state and several musics do not disturb each other. Unreadable files and arguments outside the documented domain are rejected with a diagnostic.",
 ["inputs", "histories"], "all MIDI files of type 0 and 1, all Music arguments, all histories of play, stop and ticks",
 "No test uses the music module.",
 ["acaciamc/modules/music.py"],
 [("message loop and tick conversion", "acaciamc/modules/music.py:Music.main_loop"), ("one timer per music", "acaciamc/modules/music.py:Music.__init__")],
 ["playsound commands with tick and executing player"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
