TECH = "static analysis of the compiler's own MIR: path-sensitive must-pass dataflow over resolved calls"
NOTE = "Decides the property from the MIR of the current /repo tree (rustc_private driver, resolved callees, helpers that did not exist when the rules were written are looked through). Sound for the rule instances enumerated in the evidence; values are tracked by provenance only, so a wrong computation inside a callee that no rule names is not seen."
P = []
NA = []


def p(id, title, statement, over, qtext, why, files, mech, note=NOTE, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, **kw))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason))


p("C04", "Compiler passes reach every sub-expression",
  "When the compiler runs a pass over a unit, the pass is applied to the unit, to its body and to every expression and statement nested anywhere inside it, whatever the kinds of the enclosing expressions. No construct lets the expressions inside it escape a pass.",
  ["programs"], "all programs: every nesting of every expression and statement kind",
  "Tests sample a few nestings; a child skipped under one expression kind only shows for a program that needs the pass exactly there.",
  ["spade-hir-lowering/src/passes/pass.rs"], [("pass driver", "spade-hir-lowering/src/passes/pass.rs")])
p("C06", "Typing rules of expressions",
  "If type inference accepts an expression, its type and the types of its operands satisfy the typing rule of that expression kind: literals, tuples, arrays, indexing, field access, operators, conditionals, matches, blocks, casts, pipeline references and lambdas. Every equation, size relation and deferred requirement the rule consists of is imposed on every accepting path.",
  ["programs"], "all programs: every expression kind, operator and literal kind, on every path through inference",
  "Tests check some ill-typed programs are rejected; an equation that is not imposed for one operator or on one path accepts programs no test contains.",
  ["spade-typeinference/src/expression.rs", "spade-typeinference/src/lib.rs"], [("type inference", "spade-typeinference/src/expression.rs")])
p("C07", "Typing rules of calls, statements, patterns and units",
  "If type inference accepts a call, statement, pattern or unit, then arguments have the types of the callee's parameters, the result has the declared type, bindings and registers agree with their patterns, annotations, clocks, resets and initial values, and the body of a unit has the declared output type.",
  ["programs"], "all programs: every call kind, statement kind, pattern kind and unit kind",
  "As for expressions: each rule is imposed by one unification on one path, and only a program violating exactly that rule would reveal its absence.",
  ["spade-typeinference/src/lib.rs", "spade-typeinference/src/expression.rs"], [("type inference of statements, patterns and units", "spade-typeinference/src/lib.rs")])
p("C08", "Ports cannot be used as data, pipeline depths are checked",
  "Values used where hardware needs plain data (conditions, match scrutinees and results, array elements, registers) are required to be data rather than ports, and the depth written at an instantiation of a pipeline, the depth of its definition and the number of stages in its body are required to agree.",
  ["programs"], "all programs using ports or pipelines",
  "Each requirement is imposed at one place for one construct; a test exists for only some of them.",
  ["spade-typeinference/src/lib.rs", "spade-typeinference/src/expression.rs"], [("data constraints and depth requirements", "spade-typeinference/src/lib.rs")])
p("C05", "Linear resources are used exactly once",
  "A value containing an inverted wire or an inout, on its own or nested in tuples, structs and arrays, that a unit receives or creates is used exactly once in that unit: leaving any part of it unused, or using any part of it twice, in whatever construct, is a compile error.",
  ["programs"], "all programs: every construct that can move, alias, project or drop a linear value, and every nesting of linear parts",
  "Which of a value's parts is dropped or duplicated and in which construct is an unbounded space; tests sample a few.",
  ["spade-hir-lowering/src/linear_check/mod.rs", "spade-hir-lowering/src/linear_check/linear_state.rs"], [("linearity check", "spade-hir-lowering/src/linear_check/mod.rs")])
TNOTE = "Decides the property by extracting, from the MIR of the current /repo tree, the symbolic text or value the generator produces for every case (conditions and result), and comparing it as normalised polynomials and templates with the specified table. What the runtime library (formatting, big integers, joins) does is taken as given."
TTECH = "static analysis of the compiler's own MIR: symbolic extraction of case tables (conditions -> generated text), compared with a specification"
p("C11", "Operators are emitted with their meaning",
  "Every operator of the intermediate representation is emitted as the Verilog expression that computes it: the right operator symbol, the operands in their order, signed arithmetic and comparison exactly for the signed operators, extension and truncation to the right width, the defined constant for comparisons of values without bits, and the result assigned to the name of the value.",
  ["programs"], "all operators, operand and result sizes",
  "Golden-output tests fix a few operators at a few widths; a swapped operand, a lost $signed or a boundary width differs only for inputs they do not contain.",
  ["spade-mir/src/codegen/mod.rs"], [("expression code", "spade-mir/src/codegen/mod.rs")], note=TNOTE, tech=TTECH)
p("C31", "Bit layout of compound values is consistent",
  "For every type, the number of forward and backward bits is the one its members need, building a tuple, struct, array or enum value places each member that has bits at its own position, and reading, indexing, slicing or matching selects exactly the bits of that member, in the forward and in the backward direction.",
  ["programs"], "all types, nestings, member indices and sizes, including members without bits",
  "The layout is arithmetic over unbounded sizes; tests contain a few shapes, and a wrong offset shows only for shapes with particular zero-, one- or many-bit members.",
  ["spade-mir/src/codegen/mod.rs", "spade-mir/src/types.rs", "spade-mir/src/enum_util.rs"], [("layout", "spade-mir/src/codegen/mod.rs"), ("type sizes", "spade-mir/src/types.rs")], note=TNOTE, tech=TTECH)
p("C32", "Statements, instances and modules are emitted completely",
  "In the generated Verilog every value with bits is declared with the size of its type and driven by exactly its own operation in both directions, registers update on the rising edge of their clock and take their reset and initial values, an instance connects every operand and result that has bits to the matching port, and a module has a correctly sized port in the right direction for every parameter and output that has bits and contains the code of all its statements.",
  ["programs"], "all statements, instances and entities, with every combination of presence of forward and backward bits, resets and initial values",
  "Golden tests cover the usual combinations; the rarely used ones (ports without bits, ports in both directions, no_mangle, inout) are each a separate path.",
  ["spade-mir/src/codegen/mod.rs", "spade-mir/src/verilog.rs"], [("statement and module code", "spade-mir/src/codegen/mod.rs")], note=TNOTE, tech=TTECH)
p("C33", "Expressions are lowered to the operation they mean",
  "In the intermediate representation every expression is computed by the operation its source means: each binary and unary operator by its own operator on its operands in order, signed exactly when the operands are signed; literals by constants of their value; tuples, arrays, indexing, fields, conditionals and matches by the corresponding construction, selection or projection of their own parts with their own type; a variable, a pipeline reference or a block is the value it names; and all parts are computed too.",
  ["programs"], "all programs: every expression kind and operator on every path through the lowering",
  "Tests compare the result for a few expressions of each kind; a swapped or wrong operand, operator, index or type on one path differs only for programs they do not contain.",
  ["spade-hir-lowering/src/lib.rs"], [("expression lowering", "spade-hir-lowering/src/lib.rs")], note=TNOTE, tech=TTECH)
p("C34", "Patterns bind and test the right parts",
  "A pattern binds each of its names to exactly the part of the matched value that is at the position of the name, through any nesting of tuples, arrays, structs, enum variants and named sub-patterns, and a match arm is taken exactly if every literal and variant in its pattern equals the value at its position and its guard, if any, holds.",
  ["programs"], "all programs: every pattern kind, nesting and guard",
  "Tests contain few nested patterns; an index, variant or condition lost for one kind of pattern or only together with a guard shows only for programs that contain just that.",
  ["spade-hir-lowering/src/lib.rs"], [("pattern lowering", "spade-hir-lowering/src/lib.rs")], note=TNOTE, tech=TTECH)
p("C35", "Statements and units are lowered completely",
  "Every statement of a unit is represented in the generated code by the statement it means: bindings and registers with the pattern, clock, reset, initial value and input they were written with, assertions and `set` with their operands, stage markers by moving to the next stage; patterns that do not match all values, initial values that are not constants and unused values are rejected; and a unit has all its parameters in order, its whole body and the value of its body as its output.",
  ["programs"], "all programs: every statement kind with every combination of its optional parts",
  "Tests exercise the usual combinations; a part that is lost only for one combination needs a program using it.",
  ["spade-hir-lowering/src/lib.rs", "spade-mir/src/types.rs"], [("statement and unit lowering", "spade-hir-lowering/src/lib.rs")], note=TNOTE, tech=TTECH)
p("C36", "Calls become the operation or instance they name",
  "A call in any program is lowered to what its callee is: a unit built into the compiler (core/std arithmetic, comparison, conversion, port and memory intrinsics) becomes exactly its operation on its arguments in order, with conversions between sizes that do not fit rejected; a struct or enum constructor becomes the construction of that struct or variant; a unit or extern unit becomes an instance of it, with its generic parameters and all its arguments in order; a unit is instantiated only as what it is (function, entity, pipeline) and an unsafe unit only in an unsafe block.",
  ["programs"], "all programs: every intrinsic, every kind of callee, every combination of call kind and unit kind",
  "Tests call most intrinsics on a few sizes; one that is dispatched wrongly, loses an argument or skips its size check is wrong only for the programs that call it so.",
  ["spade-hir-lowering/src/lib.rs"], [("call lowering", "spade-hir-lowering/src/lib.rs")], note=TNOTE, tech=TTECH)
p("C13", "A match that is accepted covers every value",
  "If the compiler accepts a match, then for every value of the matched type some branch without a guard has a pattern which matches it, and if it accepts a let or reg, its pattern matches every value. This holds for any nesting of integers, booleans, tuples, arrays, structs, enums and names; a match, let or reg which leaves out a value is an error.",
  ["programs"], "all types and all sets of patterns, any nesting and any order of branches",
  "Tests try some dozens of matches; a boundary between ranges that is off by one, a constructor that is not counted or a column that is skipped lets through only particular combinations of patterns.",
  ["spade-hir-lowering/src/pattern.rs", "spade-hir-lowering/src/usefulness.rs", "spade-hir-lowering/src/lib.rs"], [("usefulness", "spade-hir-lowering/src/usefulness.rs"), ("constructors", "spade-hir-lowering/src/pattern.rs"), ("refutability", "spade-hir-lowering/src/lib.rs")], note=TNOTE + " That the algorithm so specified is exhaustive is the published argument for it (Maranget; rustc).", tech=TTECH)
p("C02", "No error the compiler finds is forgotten",
  "Whenever any part of the compiler finds an error in a program (a diagnostic, a failed unification, a failed name lookup), the error is handed to the caller, reported or stored in a list of errors, and everything in such a list is reported; no error is dropped while the compilation carries on, apart from lookups and trials whose failure is an expected outcome.",
  ["programs"], "all functions of the compiler and all paths through them on which an error exists",
  "Tests check that particular errors are reported; an error swallowed on one path (an ignored result, a list that is not read) only shows for the program which takes this path.",
  ["spade-parser/src", "spade-ast-lowering/src", "spade-typeinference/src", "spade-hir-lowering/src", "spade-compiler/src", "spade-diagnostics/src/diag_list.rs"], [("error lists", "spade-diagnostics/src/diag_list.rs"), ("driver", "spade-compiler/src/lib.rs"), ("monomorphisation", "spade-hir-lowering/src/monomorphisation.rs")],
  note="Decides the property as an ownership rule on the elaborated drops in the MIR of the current /repo tree: an error value that is destroyed on a path which then succeeds is a violation unless it was lent to a reporting function or its origin is one of the listed trials. Error types not listed (I/O of the tools) are outside.",
  tech="static analysis of the compiler's own MIR: linear-type (must-use) discipline on error values over elaborated drops, plus a read-after-fill rule on lists of errors")
p("C01", "A program with an error never builds",
  "If the compiler reports an error, it exits with a failure, prints the error, and writes no Verilog, no Verilator wrapper, no MIR and no item list; errors that occur while writing these files fail the build as well; a diagnostic keeps the severity it was created with, a warning never stands in for an error, and a build without errors succeeds. (The state dump for tools is written even for failed builds.)",
  ["programs", "faults"], "all programs, all errors in any phase, all failures to write an output file",
  "A test checks that one program fails; that no phase's error can be reported after the decision to write, be demoted, or be cleared again is a fact about all paths through the driver.",
  ["spade-compiler/src/lib.rs", "spade-compiler/src/main.rs", "spade-compiler/src/error_handling.rs", "spade-diagnostics/src/lib.rs", "spade-diagnostics/src/diagnostic.rs"], [("error handler", "spade-compiler/src/error_handling.rs"), ("driver", "spade-compiler/src/lib.rs"), ("severity", "spade-diagnostics/src/diagnostic.rs")],
  note="Decides the property by typestate rules on the MIR of the current /repo tree: the error handler moves from good to failed only, every report moves it, and writing an output or returning success requires having asked for the state after the last report. Whether each phase detects all its errors is the matter of the other properties.",
  tech="static analysis of the compiler's own MIR: typestate of the error handler, path-sensitive must-ask-after-report dataflow, enumeration of all writers of the state")
p("C15", "Every requested unit instance is compiled exactly once",
  "For every unit that a compiled unit instantiates, with every combination of types and numbers it is instantiated with, the compiler generates exactly one module, whatever the order or number of threads: a first request is recorded and queued under one lock, a repeated request yields the name that was recorded, the workers stop only when no unit is queued or being compiled, every unit taken from the queue is compiled with all its parameters bound, in order, to the requested types, under the name the instances use, after every rewriting pass and every check of the compiler. Units without parameters are always compiled.",
  ["schedules", "programs"], "all interleavings of the compiling threads, all programs and instantiations",
  "The tests run one schedule of a few threads; a lost wake-up, a lock that is released between the lookup and the insertion, or a pass that is skipped on one path only shows in a rare interleaving or program.",
  ["spade-hir-lowering/src/monomorphisation.rs"], [("work queue", "spade-hir-lowering/src/monomorphisation.rs"), ("instantiation", "spade-hir-lowering/src/monomorphisation.rs")], note="Decides the property by atomicity, ordering and must-pass rules on the MIR of the current /repo tree, for all paths. That the termination counter is correct is decided from the order of its updates (counted up before the unit becomes visible, counted down after the unit's own requests), not by exploring interleavings.", tech="static analysis of the compiler's own MIR: lock-scope and ordering rules for the shared queue, path-sensitive must-pass rules and value tracing for the instantiation")
p("C03", "The output has the code of every unit, in an order of its own",
  "The Verilog file contains the code of every unit that was compiled without an error, apart from those marked to be inlined, and of every unit once; neither collecting the results of the worker threads nor inlining, nor generating code in parallel drops one, and the order of the units in the file follows their names and parameters and not the order in which threads finished.",
  ["schedules", "programs"], "all interleavings of the compiling threads, all programs",
  "Tests see whatever order the threads happened to finish in; a result dropped on one path only shows for units that take it.",
  ["spade-hir-lowering/src/monomorphisation.rs", "spade-compiler/src/lib.rs", "spade-hir-lowering/src/inline.rs"], [("results", "spade-hir-lowering/src/monomorphisation.rs"), ("code generation", "spade-compiler/src/lib.rs")], note="Decides the property by tracing the values from the worker's result to the file on the MIR of the current /repo tree. The identifiers inside the names of instances depend on the order of requests (recorded in DESIGN.md); the order of the units does not.", tech="static analysis of the compiler's own MIR: value tracing from the results of the workers to the written file, must-pass-through-sort rule")
p("C10", "The program is represented as it is written",
  "Name resolution and desugaring keep what a program says: every expression, statement, pattern and argument becomes the construct it is with its own parts in their places and all of them; every operator becomes the primitive operation or the trait method with its meaning; expressions in types and number parameters become the operation on numbers they mean; a name means what is declared where it is written (a let cannot see its own names, the branches of a match and the blocks have their own scope, code in an unsafe block and no other is unsafe); members named in a struct pattern are the members of these names, and missing, unknown or repeated members are errors.",
  ["programs"], "all programs: every syntactic construct with every combination of its optional parts",
  "Tests lower a few expressions of each kind; swapped parts, a part lost when an optional one is absent, or a scope left open shows only for programs that contain just that.",
  ["spade-ast-lowering/src/lib.rs"], [("AST lowering", "spade-ast-lowering/src/lib.rs")], note=TNOTE, tech=TTECH)
p("C09", "Inlining, alias removal and renaming change no connection",
  "Where a unit is inlined, its statements refer to the operands of the call in place of its inputs, to names of their own for everything else, and its result stands for the result of the call; removing aliases replaces a name only by a value it is an alias of, keeps the names of inputs and outputs and removes nothing else; renaming gives every place a name occurs in the new name of that name, and every defined name gets one, with the type it was defined with.",
  ["programs"], "all units, all nestings of inlined units, all places in statements where a name can occur",
  "Tests inline a few small units; a kind of statement or an operand that keeps its old name is wrong only for units that contain it.",
  ["spade-hir-lowering/src/inline.rs", "spade-mir/src/aliasing.rs", "spade-mir/src/renaming.rs", "spade-mir/src/type_list.rs"], [("inlining", "spade-hir-lowering/src/inline.rs"), ("aliases", "spade-mir/src/aliasing.rs"), ("renaming", "spade-mir/src/renaming.rs")], note=TNOTE, tech="static analysis of the compiler's own MIR: enumeration of all name-carrying places from the type definitions, must-visit dataflow over all paths, value tracing of the replacement")
p("C27", "Distinct things have distinct Verilog identifiers",
  "In a generated module no two values, ports, instances or temporaries have the same identifier: before a value is named all identifiers of ports, instances and temporaries are reserved, a value only gets a name none of whose identifiers is taken, and its identifiers are taken from then on; an identifier is written the same wherever it occurs, escaped exactly if it is written by the user, and inputs that are not to be mangled keep their names.",
  ["programs"], "all units, all names a user can write",
  "The names that clash (`x_n1` next to a second `x`) have to be thought of; tests contain names their authors thought of.",
  ["spade-mir/src/renaming.rs", "spade-mir/src/codegen/util.rs", "spade-mir/src/unit_name.rs"], [("naming", "spade-mir/src/renaming.rs"), ("identifiers", "spade-mir/src/codegen/util.rs"), ("instances", "spade-mir/src/unit_name.rs")], note=TNOTE, tech=TTECH)
p("C37", "Optimising passes keep the behaviour of registers and wires",
  "Splitting a register of a compound type yields one register per member with the same clock and reset condition, that member's part of the value and of the reset value, and the original value as their composition; gating a register of an option-like type keeps the tag and payload of value and reset value and holds the payload only while the tag is clear; registers with initial values and all other statements are kept; a wire is merged into another one only if it is the same pure operation on the same operands, and it carries a part that flows backwards.",
  ["programs"], "all registers of all types, all statements",
  "Tests run each pass on two or three registers; the combination with resets, nested types or initial values is where a member gets the wrong part.",
  ["spade-mir/src/passes"], [("register splitting", "spade-mir/src/passes/split_compound_regs.rs"), ("clock gating", "spade-mir/src/passes/auto_clock_gating.rs"), ("duplicate wires", "spade-mir/src/passes/deduplicate_mut_wires.rs")], note=TNOTE, tech=TTECH)
p("C14", "Values in a pipeline are used in the stage in which they exist",
  "A value that is used in a stage of a pipeline is the value of that stage: an expression is available when all values it is made of are, which must be at the same time, and an instance of a pipeline adds its depth; a value that is not yet there in a stage cannot be used in it; from each stage to the next every live value is registered, held while the stage is stalled; a reference to another stage reads the value of that stage, which must be one of the pipeline; the number of `reg`s is the declared depth and the result is there in the last stage.",
  ["programs"], "all pipelines: any number of stages, nested pipelines of any depth, labels and references",
  "Tests compile a few pipelines; a part of an expression whose latency is not counted gives a circuit that reads the value of another cycle, without an error.",
  ["spade-hir-lowering/src/pipelines.rs", "spade-hir-lowering/src/substitution.rs", "spade-typeinference/src/lib.rs", "spade-hir-lowering/src/passes/flatten_regs.rs"], [("availability", "spade-hir-lowering/src/pipelines.rs"), ("stages", "spade-hir-lowering/src/substitution.rs"), ("depth", "spade-typeinference/src/lib.rs")],
  note=TNOTE + " One known finding: values bound inside nested blocks.", tech=TTECH)
p("C38", "A stalled pipeline loses and repeats nothing",
  "In a pipeline with conditions on its `reg`s, a stage moves on only if its condition and those of all later stages hold: a stage has an enable signal exactly if it or a later stage has a condition, which is the conjunction of these; `stage.ready` is this signal, and `stage.valid` follows the values through the stages, is kept while a stage is stalled and cleared where a stage stalls and the one after it does not.",
  ["programs", "histories"], "all pipelines: every pattern of conditions on their stages, all sequences of stalls",
  "Tests use two or three stages with one condition; the order in which signals are combined matters only for particular patterns of stages with and without conditions.",
  ["spade-hir-lowering/src/pipelines.rs"], [("signals", "spade-hir-lowering/src/pipelines.rs")], note=TNOTE, tech=TTECH)
p("C26", "Literals fit their type and stated bounds hold",
  "In every unit that is accepted, for each set of generic arguments it is used with, an integer literal or pattern lies in the range of its integer type; a `where` clause over sizes holds with its own operator; range indices are ordered and end within the array, indexed arrays are not empty, pipeline depths and stage offsets are in range. A bound that cannot be decided yet is kept and examined again after every unification, and the unit is only accepted after a final examination of all of them.",
  ["programs"], "all literals, widths and bounds, all instantiations of generic units, all orders in which sizes become known",
  "Tests use a few literals near a few boundaries; whether a bound is decided at all depends on when the type becomes known, and a bound that is dropped or compared wrongly lets through a truncated value.",
  ["spade-typeinference/src/requirements.rs", "spade-typeinference/src/lib.rs"], [("requirements", "spade-typeinference/src/requirements.rs"), ("collection", "spade-typeinference/src/lib.rs")], note=TNOTE, tech=TTECH)
p("C20", "Expressions are grouped and read as written",
  "Binary operators group by their precedence (loosest to tightest: `||`, `&&`, `^^`, equality, comparison, `|`, `^`, `&`, shifts, additive, multiplicative), operators of the same group to the left, prefix operators tighter than all, custom infix operators loosest and to the right; each operator token stands for its own operator, with its operands in the order of the text; a number has the value of its digits in its radix, with the sign in front of it and the type of its suffix; each primary expression becomes its own kind of node with the parts that were parsed, and can be followed by suffixes.",
  ["inputs"], "all expressions: every combination and nesting of operators, every token, every number",
  "Tests parse a dozen combinations; there are hundreds of pairs of operators, and one in the wrong group changes the meaning of programs without an error.",
  ["spade-parser/src/expression.rs", "spade-parser/src/lib.rs", "spade-ast/src/token.rs"], [("expressions", "spade-parser/src/expression.rs"), ("literals", "spade-ast/src/token.rs")], note=TNOTE, tech=TTECH)

p("C21", "Arguments reach the parameters they name",
  "In every call, construction and turbofish, the n-th positional argument is bound to the n-th parameter with its type; a named argument (also in short form) to the parameter of that name, wherever it is written; a parameter without an argument to its own default. A name given twice, a name that no parameter has, an argument too many and a parameter without argument or default are errors. The resulting list is in the order of the parameters, and the types of a turbofish are unified with the type parameters they were bound to.",
  ["programs"], "all parameter lists and argument lists, any order of names and any set of defaults",
  "Tests permute a few names; an argument that ends up at the wrong parameter of the same type gives wrong hardware without an error.",
  ["spade-hir/src/param_util.rs", "spade-hir/src/lib.rs", "spade-typeinference/src/lib.rs"], [("matching", "spade-hir/src/param_util.rs"), ("type arguments", "spade-typeinference/src/lib.rs")], note=TNOTE, tech=TTECH)

na("C40", "The generated Verilog behaves as the program",
  "For every program, simulating the generated Verilog gives in every cycle the values the Spade program denotes.",
  ["programs", "histories"], "all programs, all input sequences", "Tests simulate some programs.", ["spade-mir/src/codegen/mod.rs"], [("code generation", "spade-mir/src/codegen/mod.rs")],
  "The end-to-end equivalence needs a semantics of Verilog and of every program at run time; static analysis decides the steps of it instead (C06-C14, C31-C38).")
na("C41", "The compiler neither crashes nor runs for ever",
  "For every input the compiler ends with output or diagnostics, without a panic or endless recursion.",
  ["programs"], "all inputs", "Tests run a few inputs.", ["spade-hir-lowering/src/monomorphisation.rs", "spade-compiler/src/lib.rs"], [("driver", "spade-compiler/src/lib.rs")],
  "Termination of type inference, trait search and monomorphisation depends on run-time sizes of the program; hundreds of `unwrap`, `panic!` and index operations are guarded by invariants of run-time data (symbol table contents) that no static argument in reach establishes. Some are reachable by design (bail-outs with `diag_bail!`).")
na("C42", "The language server shows what the compiler finds",
  "Diagnostics, hover and definitions in the editor agree with the compiler.",
  ["histories"], "all edit histories", "The crate has few tests.", ["spade-language-server/src/backend.rs"], [("server", "spade-language-server/src/backend.rs")],
  "The crate cannot be built with what is installed offline (missing dependencies), so there is no type-checked program to analyse; the same holds for the surfer plugin.")
na("C43", "The standard library does what its documentation says",
  "Every function, port and trait implementation of the core and standard library (FIFOs, synchronisers, conversions, operators) behaves as documented.",
  ["programs", "histories"], "all uses", "Tests simulate a few of them.", ["spade-compiler/core/ops.spade"], [("core", "spade-compiler/core"), ("stdlib", "spade-compiler/stdlib")],
  "It is written in Spade; deciding the behaviour of its registers over time needs model checking or simulation of the circuits, not an analysis of the Rust source.")
na("C44", "The same source always gives the same text",
  "Two compilations of the same source write byte for byte the same output, whatever the scheduling of the threads.",
  ["schedules"], "all schedules", "Tests compare one run with a snapshot.", ["spade-hir-lowering/src/monomorphisation.rs"], [("workers", "spade-hir-lowering/src/monomorphisation.rs")],
  "Not true as stated by design: temporaries are numbered from a counter shared by the worker threads, so names can differ between runs; that the order and contents of the units do not depend on the schedule is claimed in C03 and C15. Byte equality after renaming would quantify over run-time interleavings of the numbering.")
