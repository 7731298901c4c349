#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it; both files are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe))


G = "TLA+ spec checked with TLC; its behaviours and expected observations are replayed into the real code"
GV = "TLA+ spec checked with TLC; its programs are replayed into the real code and TLC judges what came out"
TRUST = (" Bounded: exhaustive within the model's constants, sampled beyond them. Trusted: TLC, the harness's translation "
         "between the specification's values and the crate's public types.")

prop("C01", "A saved bundle loads back as the same bundle",
     "Any script bundle that is written out and read back yields the same strings, definitions, fields, flags, attributes, "
     "source references and code, each under the same index. Writing the reloaded bundle gives the same bytes again, and "
     "no information is dropped, merged or reordered on the way.",
     ["inputs", "histories"], "every bundle: every definition kind, every combination of flags and optional parts, every string, every order of entries",
     "The tests round-trip one predefined bundle and a handful of single values; optional parts are tied to flag bits, so the failing combinations are not the sampled ones.",
     ["core/src/bundle.rs", "core/src/definition.rs", "core/src/encode.rs", "core/src/decode.rs"],
     [("ScriptBundle::save / ScriptBundle::load", "core/src/bundle.rs"), ("Encode/Decode for the definition kinds", "core/src/definition.rs"),
      ("packed integers, length-prefixed strings", "core/src/encode.rs, core/src/decode.rs")],
     G, "RsBundle.tla specifies the whole file as a sequence of typed tokens; TLC enumerates definitions and pools, the harness builds each with the real API, saves, loads and compares every part." + TRUST)
prop("C02", "The bundle file has the documented layout, byte for byte",
     "A written bundle has the layout the game reads: magic, version, header with counts, offsets, sizes and checksums that describe exactly "
     "the sections that follow, deduplicated string data, and each definition encoded with the fields and tags its kind and flags call for. "
     "A bundle laid out this way by other means is read correctly and written again as the same bytes.",
     ["inputs"], "every bundle, every definition kind and flag combination, every string and integer width",
     "A round trip through the same code cannot see a layout error made symmetrically in reader and writer; only the game would.",
     ["core/src/bundle.rs", "core/src/definition.rs", "core/src/encode.rs", "core/src/bytecode.rs"],
     [("Header, TableHeader, save()", "core/src/bundle.rs"), ("per-kind encoders", "core/src/definition.rs"), ("encode_packed", "core/src/encode.rs")],
     G, "The specification computes the bytes independently; the harness compares them to what save() writes and feeds them to load()." + TRUST)
prop("C03", "Damaged bundles and failing I/O are reported, never swallowed",
     "Reading a bundle that is truncated anywhere, or whose magic, definition tags, visibility or type tags or opcodes are not known ones, ends in an error value: no panic, no partial result. "
     "Writing to a stream that fails at any point is reported as an error, and a stream that only splits its reads or writes changes nothing.",
     ["fault_sequences", "inputs"], "every truncation point, every damaged tag, every position at which a stream fails or splits an operation",
     "Fault positions are a cross product with the inputs; the tests only read intact data from memory.",
     ["core/src/bundle.rs", "core/src/decode.rs", "core/src/encode.rs", "core/src/definition.rs", "core/src/bytecode.rs", "core/src/io.rs"],
     [("io::Result propagation", "core/src/decode.rs, core/src/encode.rs"), ("tag checks", "core/src/definition.rs, core/src/bytecode.rs"), ("header checks", "core/src/bundle.rs")],
     G, "Fault actions of the specification (cut, damaged tag, failing or splitting stream at every operation) are replayed against the real reader and writer." + TRUST)
prop("C04", "Interning a string gives one stable index per distinct string",
     "Adding a string that is already present, loaded from a file or added before, returns its existing index; adding a new one returns a fresh index and leaves "
     "every earlier index meaning what it meant. Looking up an index gives exactly the string it was given out for, and an index never given out is an error.",
     ["histories"], "every sequence of adds, lookups, saves and reloads on each of the string pools",
     "It is a property of histories that mix loading, adding and saving; tests sample one short history.",
     ["core/src/bundle.rs"], [("Strings::add / Strings::get", "core/src/bundle.rs")],
     G, "RsPool.tla is a state machine over pool histories with invariants; every history is stepped through the real pool and compared after each step." + TRUST)
prop("C05", "Definitions keep their index, and lookups find exactly the right one",
     "Adding, reserving, replacing, renaming or swapping definitions changes only the entries named; every other index keeps its definition, name and kind. "
     "Lookups by index, by kind and by name return the entry the history put there or an error, never another one.",
     ["histories"], "every sequence of pool operations",
     "Depends on operation histories; tests only look definitions up in a freshly loaded pool.",
     ["core/src/bundle.rs", "core/src/definition.rs"],
     [("add_definition, reserve, put_definition, swap_definition, rename", "core/src/bundle.rs"), ("function/field/class/... accessors", "core/src/bundle.rs")],
     G, "RsPool.tla is a state machine over pool histories with invariants; every history is stepped through the real pool and compared after each step." + TRUST)
prop("C06", "Every instruction survives encoding and decoding, at the right size",
     "Every instruction with every operand value is written as its opcode followed by its operands in the game's format, reads back as the same instruction, and counts with "
     "its in-memory size in jump distances and in the code block's length. A code block decodes to exactly the instructions it was made of.",
     ["inputs"], "every opcode, boundary operand values, every sequence of instructions",
     "The tests round-trip a few hand-written code blocks; there are 104 opcodes with distinct operand layouts and jump biases.",
     ["core/src/bytecode.rs"], [("Instr encode/decode/size", "core/src/bytecode.rs"), ("Code encode/decode", "core/src/bytecode.rs")],
     G, "One table in RsCode.tla gives opcode, operands, sizes and biases; the bytes are computed by the specification and compared to the real encoder and decoder." + TRUST)
prop("C07", "Code locations and cursor moves always land on instruction boundaries",
     "Iterating over code gives every instruction with its true location, and a cursor always reports the location and instruction it stands at. Seeking, absolutely or "
     "relatively, lands exactly on the instruction at that location or fails leaving the cursor usable, and a range yields exactly the instructions between its two ends.",
     ["histories", "inputs"], "every code block and every sequence of pops, peeks, seeks and ranges",
     "It is a state machine driven by arbitrary operation sequences; tests use it only through decompilation of fixed functions.",
     ["core/src/bytecode.rs"], [("CodeCursor, Code::iter, Location, Offset", "core/src/bytecode.rs")],
     G, "The cursor is a state machine in GenCode.tla; every bounded operation history is replayed on the real cursor, on blocks up to 60 KB." + TRUST)
prop("C08", "Resolved jumps reach the label they were written for",
     "When labels are replaced by jump distances, every operand of every jumping instruction leads from the instruction's own location to its label, forwards or backwards, "
     "up to the limits of the format; everything else is left untouched.",
     ["inputs"], "every jumping instruction, every pair of labels and every location that the format can express",
     "Tests compile functions with short forward jumps only; sign and limit cases are at the far ends of the range.",
     ["core/src/bytecode.rs"], [("Instr::resolve_labels, Location::relative, Offset::absolute", "core/src/bytecode.rs")],
     G, "Resolution is specified on the operand table of RsCode.tla; every jumping opcode is replayed over boundary locations and label pairs." + TRUST)
prop("C09", "Remapping references rewrites every reference and nothing else",
     "Applying a renumbering of names, strings or definitions to a pool replaces each index by its new value wherever it occurs in definitions and code and leaves "
     "all other operands, flags and entries as they were. Applying a swap twice restores the pool.",
     ["inputs", "programs"], "every definition kind, every instruction that carries an index, every renumbering",
     "There are dozens of places that carry an index of one of several kinds; a missed one shows only for that kind and instruction. Tests check none of them.",
     ["core/src/mapper.rs", "core/src/bytecode.rs"], [("PoolMapper, Instr index mapping", "core/src/mapper.rs")],
     G, "RsMapper.tla applies the renumbering to the specification's pool; the harness compares the real pool entry by entry." + TRUST)
prop("C17", "Every scripted definition is listed once, under its own source file",
     "When a bundle is dumped into files, each scripted function puts its class, or itself when it is global, exactly once into the file it came from, and the definitions of a file come in the order of their first line. "
     "Enums, classes without scripted functions and native global functions are listed as orphans; nothing is lost, and nothing is listed under a file it does not come from.",
     ["inputs"], "every assignment of files, lines, parents and nativeness to definitions",
     "Grouping depends on combinations of parent, source and flags; no test exercises it.",
     ["decompiler/src/files.rs", "core/src/definition.rs"], [("FileIndex::from_pool, iter, orphans", "decompiler/src/files.rs"), ("Definition::source, first_line", "core/src/definition.rs")],
     G, "RsFiles.tla specifies the listing; TLC enumerates pools of classes, functions and files." + TRUST)
prop("C18", "Command-line options mean the same in every order and spelling",
     "After the scripts folder, every option may come in any order and sets exactly its own setting to the value given; a setting not mentioned keeps its default, and warning switches are collected in order. "
     "Unknown options, options without their value, values out of range, a repeated option and a second cache file are refused wherever they stand.",
     ["inputs", "configurations"], "every sequence of option groups and values",
     "Orders and combinations are exponential; tests give one or two command lines each.",
     ["scc/cli/src/opts.rs"], [("Opts parsing", "scc/cli/src/opts.rs")],
     G, "RsOpts.tla is a state machine that consumes option groups; its final option record is compared with the real parser's." + TRUST)
prop("C19", "Type names keep their structure through every spelling",
     "A type's stored spelling reads back as the same nested type for any depth of references, weak references, script references and arrays, and its printed and mangled spellings show that structure, "
     "the mangled one ignoring references and weak references only.",
     ["inputs"], "every nesting of type constructors and base names",
     "Nesting is unbounded; tests use a couple of one-level types.",
     ["core/src/ast.rs"], [("TypeName::repr, from_repr, pretty, mangled", "core/src/ast.rs")],
     G, "RsTypes.tla builds every type up to a depth and the spellings expected." + TRUST)
prop("C20", "Arguments broken up by quoting are put back together, others are left alone",
     "When the game quotes paths on the command line and a path ending in a backslash makes the operating system split the line wrongly, the arguments are put back to exactly those the game meant, however many such paths there are and whatever surrounds them. "
     "Arguments that came through without a stray quote are left unchanged.",
     ["inputs"], "every command line of options and quoted paths, with and without spaces and trailing backslashes",
     "The damage depends on which paths end in a backslash and contain spaces and on their order; tests have a few fixed lines.",
     ["scc/cli/src/opts.rs"], [("fix_args", "scc/cli/src/opts.rs")],
     G, "RsOpts.tla specifies how the line is written and how the operating system splits it; TLC enumerates argument lists and the repair must give them back." + TRUST)

prop("C10", "Decompiled statements do what the bytecode does",
     "For every function body as the compiler lays it out - nested ifs, else branches, loops, switches with shared, empty, falling-through and default cases, breaks and returns anywhere, unreachable code after them - the decompiled "
     "statements evaluate the same expressions in the same order as the bytecode, under every outcome of every condition and case, and end the same way. Nothing is duplicated, dropped, moved into or out of a branch, or left as a goto. "
     "(Bodies whose bytecode does not show where a switch ends are outside the claim; see DESIGN.md.)",
     ["programs"], "every nesting of control-flow statements, every run of each",
     "Structured control flow is reconstructed from jump distances by heuristics; each nesting is a different jump pattern, and the tests decompile a few dozen flat functions.",
     ["decompiler/src/lib.rs", "core/src/bytecode.rs"], [("consume_path, consume_conditional_jump, consume_switch, resolve_jump", "decompiler/src/lib.rs"), ("CodeCursor", "core/src/bytecode.rs")],
     GV, "RsFlow.tla defines a virtual machine over bytecode and a source machine over statements; TLC generates programs, the real decompiler decompiles each, and TLC explores the product of the two machines (bisimulation through every branch)." + TRUST)
prop("C11", "Decompiled expressions are the expressions the bytecode computes",
     "Every expression in bytecode is decompiled to the source expression it computes: constants with their value and kind, locals, parameters, fields and enum members by name on the right receiver, calls of every sort (static, on a class, "
     "virtual, on a receiver, on this, super, casts, omitted and short-circuited arguments) with the arguments in order, every built-in operation under its own name with its own operands, and nothing else.",
     ["programs"], "every expression instruction with every operand shape, nested to any depth",
     "About 100 instructions nest freely; tests decompile a few fixed functions.",
     ["decompiler/src/lib.rs", "core/src/bytecode.rs"], [("consume_with", "decompiler/src/lib.rs"), ("IntrinsicOp names and argument counts", "core/src/bytecode.rs")],
     G, "RsLang.tla gives the bytecode of an expression tree, reads it back, and gives the source it stands for; the decompiler's syntax tree is compared with it." + TRUST)

prop("C12", "Locals are declared once, with their type, before they are used",
     "The body of a decompiled function declares each of the function's locals exactly once, outside of any block, with its type, and nothing else. No expression mentions a local before its declaration is complete, and "
     "the declarations, read as the assignments they make, leave exactly the statements of the bytecode in their order. (Locals of one name must be of one type; see the known findings.)",
     ["programs"], "every list of locals and every order of assignments to and uses of them",
     "Declarations are merged with leading assignments; whether that is sound depends on what each of them mentions. Tests decompile a few bodies that happen to be in the right order.",
     ["decompiler/src/lib.rs"], [("Decompiler::decompiled, merge_declarations", "decompiler/src/lib.rs")],
     GV, "RsLocals.tla states when a body declares its locals rightly; TLC generates bodies of assignments and uses, and judges what the real decompiler makes of them." + TRUST)
prop("C13", "Printed expressions read back as the expressions they were printed from",
     "The text of a decompiled function parses, by redscript's own grammar, to the expressions the decompiler found: every operator has the operands it had, whatever is nested in whatever, with parentheses wherever precedence or associativity "
     "need them; numbers keep their type and exact value, strings, names, resources and record ids their kind and contents; names, arguments and type arguments stay in place. Only the implicit conversions that are left out on request vanish.",
     ["programs"], "every expression tree: every operator in every operand position of every other, every literal",
     "Whether parentheses are needed depends on pairs of operators and sides, and on literals in odd places; the printer has no tests.",
     ["decompiler/src/print.rs", "core/src/ast.rs"], [("write_expr_nested, write_call, write_binop, ParentOp", "decompiler/src/print.rs"), ("BinOp::precedence, associative", "core/src/ast.rs")],
     GV, "RsText.tla is the grammar of redscript (precedence climbing over tokens); TLC generates bytecode, the real decompiler prints it, and TLC parses the text and compares the trees." + TRUST)
prop("C14", "Printed statements read back as the statements they were printed from",
     "The text of a decompiled function parses to the block structure the decompiler found: the same statements in the same order inside the same branches, loops, cases and defaults; nothing is left out but empty statements. "
     "Every statement, label and closing brace starts its own line, indented by two spaces for every brace and case it is inside of.",
     ["programs"], "every nesting of statements",
     "Any nesting may occur; the printer has no tests.",
     ["decompiler/src/print.rs"], [("write_seq, write_expr_nested, write_indent", "decompiler/src/print.rs")],
     GV, "RsText.tla is the grammar of redscript statements; TLC parses the printed text of generated programs and compares it with the decompiler's tree." + TRUST)

prop("C15", "Printed definitions show what the definitions are",
     "Every definition prints as a declaration with its own name, type and modifiers: a class with its visibility, abstract, final, importonly or native, struct or class, base, and its fields and then its methods in order; a field with its runtime properties and defaults in order; "
     "a function with its name without the signature, its parameters in order with their out, opt and const, and its return type (Void when it has none), and a body exactly when it has one; an enum with its members and their values in order. "
     "Types show their full nesting, arrays of fixed length their length. Each declaration starts its own line, indented by two spaces for every brace it is inside of.",
     ["inputs"], "every definition kind, every combination of flags, visibilities, types and members",
     "Each flag, list and type constructor is a separate place in the printer, which has no tests.",
     ["decompiler/src/print.rs", "core/src/definition.rs"], [("write_definition, format_type, format_param", "decompiler/src/print.rs"), ("Visibility", "core/src/definition.rs")],
     GV, "RsDecl.tla states the declaration a definition shows as and reads declarations; TLC generates pools, the real printer prints every definition in them, and TLC reads the text and compares." + TRUST)
prop("C16", "Bytecode listings show every instruction at its location",
     "The bytecode listing of a function shows its locals in order with their types, and then every instruction of its body in order, each on its own line with its true location, its name and all of its operands.",
     ["inputs"], "every instruction with every operand value, in every block",
     "The printer has no tests, and locations accumulate over the sizes of all instructions before.",
     ["decompiler/src/print.rs", "core/src/bytecode.rs"], [("OutputMode::Bytecode", "decompiler/src/print.rs"), ("Code::iter", "core/src/bytecode.rs")],
     G, "The listing follows from the instruction table of RsCode.tla; TLC generates functions, and every line of the real listing is compared." + TRUST)

prop("C21", "Compiled functions do what their source says",
     "For every well-typed program, running the bytecode the compiler emits for a function makes the same native calls with the same argument values in the same order as the source does, leaves the same values in variables, fields, array elements and out parameters, "
     "and returns the same value, under every outcome of every condition: branches, loops, switches with shared, empty, falling-through, last and default cases, breaks, early returns, shadowed and block-local variables, method calls on objects of a base or derived class, super calls, "
     "operators that evaluate their right side only when needed, conditional expressions, omitted optional arguments, string interpolation, casts and the implicit conversions between strong and weak references, script references and variants. Every jump lands on an instruction, and every call, context, branch and skipped operand ends where its operands end.",
     ["programs"], "every program of the language, every run of each",
     "Desugaring, type inference, conversions and jump layout interact freely; the tests compile a few dozen fixed functions and compare instructions, none runs them (and the crate's tests need dependencies that are not installed).",
     ["compiler/src/typechecker.rs", "compiler/src/assembler.rs", "compiler/src/sugar.rs", "compiler/src/scope.rs", "compiler/src/unit.rs", "compiler/src/parser.rs"],
     [("Assembler::assemble, Switch, While, Conditional", "compiler/src/assembler.rs"), ("TypeChecker::check, insert_conversion", "compiler/src/typechecker.rs"), ("Desugar: for-in loops, interpolated strings, array literals", "compiler/src/sugar.rs")],
     GV, "RsSrc.tla is a source machine for the language, RsVm.tla a machine for the bytecode; TLC draws programs, the real compiler (with stand-ins for its parser-generator and two container crates) compiles them, and TLC explores both machines through every answer of the native functions and compares the traces." + TRUST)
prop("C23", "Mods wrap, replace and add without disturbing one another",
     "For every bundle and every sequence of mods compiled on top of it, in one or several runs of the compiler: a call of a wrapped method, from code compiled before or after, on an object of the class or of a class derived from it, runs the wrapper added last; "
     "wrappedMethod inside a wrapper runs what the method was before that wrapper (the previous wrapper, the replacement, or the original), with the arguments given to it, and gives back its result and its out parameters; "
     "a replaced method or function runs the replacement wherever it is called; an added method is found by name on its class and the classes derived from it, overriding an inherited one of the same signature, and an added field is there in every object; nothing else changes.",
     ["programs", "histories"], "every base program, every sequence of annotated functions, every run",
     "Wrapping swaps definitions through two maps and renumbers locals; chains across compilations only go wrong for particular combinations of stages, annotations and callers; the tests compile a handful of fixed files in one run and look at instructions.",
     ["compiler/src/unit.rs", "compiler/src/typechecker.rs"],
     [("CompilationUnit::determine_function_location", "compiler/src/unit.rs"), ("construct_proxy, remap_locals, finish", "compiler/src/unit.rs")],
     GV, "GenWrap.tla draws a program and up to seven changes to it in up to two further compilations, and says what each function then is; the real compiler compiles each stage on the saved bundle of the one before; TLC runs source and bytecode side by side as for C21." + TRUST)
prop("C24", "Compiling leaves a sound bundle, and the rest of it as it was",
     "For every bundle and every set of sources that compiles: in the bundle that results, every reference (types, bases, members, parameters, locals, source files, operands of instructions) is to a definition of the right kind; what a definition lists as its own has it as its parent and the other way round; "
     "code uses only its own function's locals and parameters; every class comes after its base class, in whatever order and over however many compilations they are declared, with its own members and everything that refers to it following it to its place; an overriding method overrides one of a base class; types of one name are one type. "
     "Every definition that was there before and that no annotation names is the same as before, in the same place; classes lose no member. Each function, method and class is reported with the line it is declared on. Compiling the same sources on the same bundle again gives the same bytes and diagnostics.",
     ["programs", "histories"], "every set of sources, every order of their declarations, every bundle compiled onto",
     "The game crashes on a bundle with an early subclass or a dangling index; classes are moved, functions swapped and locals renumbered after compilation, so that damage shows only for particular orders and combinations; the tests never look at a whole pool.",
     ["compiler/src/unit.rs", "core/src/mapper.rs", "compiler/src/source_map.rs", "compiler/src/scope.rs"],
     [("CompilationUnit::cleanup_pool, finish, remap_locals", "compiler/src/unit.rs"), ("PoolMapper::map", "core/src/mapper.rs"), ("Files::lookup", "compiler/src/source_map.rs")],
     GV, "GenHier.tla enumerates every hierarchy of up to 5 classes in every order of declaration and every split over two compilations; GenProg and GenWrap draw programs and mods; the harness dumps the bundle after every compilation as a graph, which TLC checks against the invariants in RsImage.tla." + TRUST)
prop("C25", "Declarations define what they say, and names mean what is visible",
     "For every set of files, compiled in one run or several: each declaration whose @if conditions hold, and no other, defines one class, struct, enum, function, method or field of its full name (module and signature), of its visibility, with exactly the flags its qualifiers mean, "
     "its base class, members in order, parameters with their types and qualifiers, result, locals, enum values, runtime properties, default value (as its text means) and source file and line. "
     "A name of a type, base, function or enum in it means the declaration that is visible in its file: one of its own module, one outside of modules, or a public one that an active import brings in. "
     "Members added by annotation are members of the class they name. ModuleExists is true of the modules of the compilation.",
     ["programs"], "every set of files of declarations, in every module structure, under all qualifiers and conditions",
     "Visibility, import and condition rules combine with every kind of declaration; the tests compile single files of one module and hardly look at definitions at all.",
     ["compiler/src/unit.rs", "compiler/src/symbol.rs", "compiler/src/scope.rs", "compiler/src/cte.rs", "compiler/src/parser.rs", "compiler/src/source_map.rs"],
     [("define_symbol, define_class, define_function, define_field, define_enum, compile_default", "compiler/src/unit.rs"), ("SymbolMap::populate_import, FunctionSignature", "compiler/src/symbol.rs"), ("cte::Context", "compiler/src/cte.rs"), ("lang grammar", "compiler/src/parser.rs")],
     GV, "RsDefs.tla says what declarations define and what is visible where; GenDefs.tla enumerates every declaration under every choice of qualifiers and draws files in modules with imports and conditions; the real compiler compiles them, and TLC compares every definition of the saved bundle." + TRUST)
prop("C26", "The game's own scripts survive every history of compilations, updates, failures and crashes",
     "For every history of an installation (compilations that succeed or fail, into the game's own bundle, a bundle or output of the user's choice; game updates; files removed or put there), and for a run that stops or whose writes fail at any point: "
     "each run does exactly what the stamp, backup and bundle files it finds call for. In particular: whatever compiles ends up in the output, on top of the game's own scripts of today, never on top of an earlier output; "
     "what does not compile, and a run that fails, leaves the game's scripts in the bundle or its backup; a run that says it succeeded left a complete output with its own stamp; after a run that stopped, the next one works as if it had not happened, "
     "and never takes a half-written file for the game's. When the game's scripts are not to be had, the run says so and writes nothing.",
     ["histories", "crash points"], "every history of runs, updates and removals; every call at which a run can be stopped or fail",
     "scc/lib has no tests at all; what goes wrong here goes wrong in the second or third run, after an update, a failed compilation or a crash in between, and costs the user the game's files.",
     ["scc/lib/src/lib.rs", "scc/lib/src/timestamp.rs", "scc/lib/src/api.rs"],
     [("try_compile, try_compile_files", "scc/lib/src/lib.rs"), ("get_base_bundle_path, add/check_redscript_signature_def", "scc/lib/src/lib.rs"), ("CompileTimestamp", "scc/lib/src/timestamp.rs")],
     "TLA+ state machine (TLC), histories replayed into scc-lib, crash points enumerated with a preloaded shim",
     "RsScc.tla describes an installation and a run as a sequence of file operations; TLC checks that a user who deletes nothing never loses the game's scripts and always gets what she compiles (also when runs stop anywhere), enumerates every history up to a length and draws long ones, "
     "and the harness replays each in a scratch directory and compares what every bundle contains; for crash points, a run is stopped at (or half way through, or fails from) each call that changes files, and what it leaves, and what the next run makes of it, must be one of the states of the specification's run." + TRUST)
prop("C27", "Every mistake in a program is reported where it is, and nothing else is",
     "For every program, including ones with mistakes of the kinds people make (values of the wrong type, names of nothing, arguments too many, too few or in the wrong order, no function or more than one that fits, members and methods that are not there, "
     "this or super where there is none, a return, break or cast that cannot be, redefined locals): the compiler says exactly what there is to say, each thing once, with its kind, the file and the line it is about, shown with that line and a mark under the words meant. "
     "A program without mistakes compiles; a mistake in one function does not keep others from being checked; what is only remarked upon (an unused local, a method that returns nothing on some path, a deprecated form) stops nobody; the compiler never panics.",
     ["inputs"], "every program, with any number of mistakes, in any number of files",
     "The tests have about a dozen wrong programs and look at one diagnostic each; what is valid depends on every combination of types, conversions, overloads and contexts, and a missing or spurious complaint shows only where they meet.",
     ["compiler/src/typechecker.rs", "compiler/src/scope.rs", "compiler/src/unit.rs", "compiler/src/diagnostics.rs", "compiler/src/diagnostics", "compiler/src/source_map.rs", "compiler/src/assembler.rs"],
     [("TypeChecker", "compiler/src/typechecker.rs"), ("Scope::convert, Scope::lub", "compiler/src/scope.rs"), ("Diagnostic, UnusedLocals, ReturnValueCheck", "compiler/src/diagnostics.rs"), ("Files::lookup", "compiler/src/source_map.rs")],
     "TLA+ specification of the type checker (TLC), judging the recorded diagnostics of generated programs",
     "RsCheck.tla specifies what types expressions have, which conversions there are, which function a call means and what is said about what is wrong; GenCheck.tla draws programs with none to three mistakes; the harness compiles each and records every diagnostic with its place and its display, and TLC compares." + TRUST)
#MORE


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]} if p["state"] else {}),
                            **({"observe_at": list(p["observe"])} if p["observe"] else {}), "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
                     "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "model_checking", "level_note": p["note"]}
                    for p in P if p["id"] not in {n["property"] for n in NA}],
         "not_applicable": NA,
         "notes": "No hooks: the harness crates use public items of the crates only. Specification: spec/*.tla (TLA+, TLC)."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
