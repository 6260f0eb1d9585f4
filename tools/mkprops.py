"""Writes /verif/properties.jsonl (kept as a script to keep the lines readable)."""
import json, os
P = []
PY="libpyclingo/clingo/"; HH="libclingo/clingo.hh"; LUA="libluaclingo/luaclingo.cc"; H="libclingo/clingo.h"; CC="libclingo/src/control.cc"
def p(id, title, stmt, over, text, why, files, mech, state=(), obs=("Python API", "C++ API", "Lua API")):
    P.append(dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(obs), hook_needed=None)))

p("S01", "Symbols are totally ordered, comparable and hashable by structure",
  "In Python, C++ and Lua, a symbol built from a number, string, function, tuple, infimum or supremum reports exactly the type, name, sign, number, string and arguments it was built from. Two symbols (and two predicate signatures) compare equal exactly if they have the same structure, equal ones hash equally, and all six comparison operators agree with one strict total order (infimum < numbers < constants < strings < compound terms by sign, arity, name and arguments < supremum), whatever other symbols exist. Lua sequences of arguments are read in index order however the table stores them; the members of an ordered enumeration of the Python module have their documented values, order by them, and do not order with members of another one.",
  ["inputs"], "all pairs of symbols up to nesting depth 2 over a boundary alphabet, in each language, and all ways to construct them",
  "tests compare a handful of symbols; a wrong comparison or accessor shows only on particular pairs (sign, arity, prefix names, 32 bit boundaries)",
  [PY+"symbol.py", HH, LUA, "libgringo/src/symbol.cc"],
  [("Symbol comparison and hashing", PY+"symbol.py: class Symbol"), ("operators on Symbol/Signature", HH+": operator<, operator=="), ("symbol metatable", LUA+": struct Term"), ("Symbol::less", "libgringo/src/symbol.cc")])
p("S02", "Symbols print to text that parses back to the same symbol",
  "The text of every symbol, as printed in Python, C++ and Lua, parses back (as a term) to an equal symbol, for every string content including quotes, backslashes and line breaks; Python's repr of a symbol evaluates to an equal symbol. Parsing an arithmetic ground term yields the value that integer arithmetic defines, and parsing a malformed or undefined term fails with an exception.",
  ["inputs"], "all strings up to length 4 over the escape alphabet, all nested symbols over the alphabet, all arithmetic terms up to depth 2",
  "escaping and evaluation go wrong on specific characters, signs or operators that no listed test uses together",
  [PY+"symbol.py", HH, LUA, "libgringo/src/symbol.cc", "libgringo/src/term.cc"],
  [("str/repr", PY+"symbol.py: Symbol.__str__/__repr__"), ("parse_term", PY+"symbol.py: parse_term; "+HH+": parse_term; "+LUA+": parseTerm"), ("quote/unquote", "libgringo/gringo/utility.hh")])
p("E01", "A failing library call surfaces as an error, wherever it happens",
  "If any call into the solver library that can fail does fail during an operation started through Python or C++, that operation raises an error carrying the library's message (Python: MemoryError for allocation failures, RuntimeError otherwise; C++: bad_alloc, logic_error or runtime_error by kind), instead of returning a result. Invalid calls (wrong type or number of arguments, values out of range, unknown names) raise errors as well. The object remains usable and can be closed or freed afterwards.",
  ["fault_sequences"], "every library call of every operation in the catalogue fails once, with every error kind, with and without a message; every ordered pair of invalid Python calls of a catalogue on one object",
  "tests only fail calls that user input makes fail; each wrapper call site has its own error path",
  [PY+"_internal.py", PY+"control.py", PY+"ast.py", HH, LUA],
  [("_handle_error", PY+"_internal.py"), ("Detail::handle_error", HH), ("handle_c_error", LUA)])
p("E02", "An exception in a user callback reaches the caller unchanged",
  "In Python and C++, an exception raised by a user callback (ground context function, model handler, observer, propagator or heuristic, statement or symbol callback) ends the operation that invoked it and is rethrown to the caller of that operation with its type, message and (in Python) identity intact; script functions and asynchronous searches report it as a runtime error. It is never swallowed or replaced, no later callback overwrites the first exception, and the control object works normally afterwards.",
  ["fault_sequences", "schedules"], "every callback invocation of every scenario raises once or again, in Python and C++",
  "tests raise from few callbacks at the first invocation; each trampoline has its own path and later invocations or threads take other paths",
  [PY+"_internal.py", PY+"control.py", PY+"propagator.py", PY+"backend.py", HH, LUA],
  [("error handlers of callbacks", PY+"_internal.py: _CBData/_Error"), ("AssignOnce, ClingoPropagateInit..", HH+": Detail"), ("lua callbacks", LUA)],
  [("stored exception", "first exception raised by a callback of the running operation", PY+"_internal.py: _Error")])
p("E03", "Library resources are acquired and released in balance",
  "Along every path, including those ended by an error or exception, each control object, solve handle, syntax-tree reference, backend session and program-builder session that the Python and C++ bindings obtain is given back exactly once: never twice, never left open after its owner is gone. A copied, moved-from or self-assigned owner keeps this balance.",
  ["histories", "fault_sequences"], "all sequences of up to 3-4 create/copy/move/assign/clear/drop operations per owner kind, and every library call failing once in each scenario",
  "leaks and double releases do not show in return values; tests do not count references",
  [PY+"_internal.py", PY+"ast.py", PY+"control.py", PY+"solving.py", HH, LUA],
  [("Control/SolveHandle/Backend/ProgramBuilder/AST owners", HH), ("__del__/__exit__", PY)],)
p("E04", "Errors in Lua are raised, never swallowed, and leave nothing open",
  "In the Lua module, a library call that fails makes the operation that made it raise a Lua error carrying the library's message verbatim (also if it contains format characters, or a description of the error code if there is none); an error raised by a Lua callback (model handler, observer, propagator, heuristic, ground context) ends the operation that invoked it and is raised to its caller with its message; and so does an invalid call (wrong type or number of arguments, unknown field, asynchronous solving, callbacks together with iteration). Whatever failed, solve handles opened by the operation are closed, controls and backends are released exactly once (closing twice or using a closed backend raises an error instead of crashing), queries answer as before, and the control remains usable.",
  ["fault_sequences"], "every library call of every operation of the scenarios fails once with every kind of error; every callback invocation raises every kind of Lua value; every ordered pair of invalid calls of a catalogue on one object",
  "the C++ frames of the module are left by longjmp; the tests raise hardly any error, and leaks and open handles do not show in results",
  [LUA],
  [("handle_c_error, handle_lua_error", LUA), ("SolveHandle, ControlWrap::solve", LUA), ("Backend", LUA), ("Propagator, GroundProgramObserver", LUA)],
  [("solve handle", "opened by solve and closed on every path", LUA+": ControlWrap::solve")])
p("C01", "Solving enumerates exactly the stable models, in every mode",
  "For every ground or non-ground program, the models reported with the default, callback, yielding and asynchronous ways of solving are exactly the program's stable models, each once, and the result flags (satisfiable, unsatisfiable, exhausted, interrupted, unknown) match what was found. Stopping early or limiting the number of models yields a prefix and is reported as not exhausted.",
  ["programs", "configurations", "schedules"], "all programs of up to 3 rules over 2-3 atoms from the rule alphabet (choice, disjunction, constraint, negation, cardinality), every solve mode, model limit and search order",
  "each test solves one program in one mode; the statement quantifies over programs, modes and search orders",
  [PY+"control.py", PY+"solving.py", HH, LUA, CC, "libclingo/src/clingocontrol.cc"],
  [("solve", PY+"control.py: Control.solve"), ("SolveHandle", PY+"solving.py; "+HH), ("solve", LUA+": ControlWrap::solve")])
p("C02", "Assumptions restrict models and cores explain unsatisfiability",
  "Solving under assumptions given as symbols or literals, each with a sign, yields exactly the stable models that satisfy all of them; a positive assumption on an unknown atom admits no model and a negative one admits all. If there is none, the reported core is a subset of the assumptions that already rules out all models, and assumptions do not affect later calls.",
  ["inputs", "histories"], "all assumption sequences up to length 3 over known and unknown atoms in both forms and signs, for each program of the alphabet, and all pairs of consecutive calls",
  "tests use one or two assumptions on known atoms",
  [PY+"control.py", PY+"core.py", HH, LUA, "libclingo/src/clingocontrol.cc"],
  [("assumption conversion", PY+"control.py: Control.solve; "+HH+": Control::solve; "+LUA+": solve"), ("core", PY+"solving.py: SolveHandle.core")])
p("C03", "Multi-shot histories behave like the program they describe",
  "After every history of adding program parts, grounding them with arguments, assigning or releasing externals, and solving, the models are those of the accumulated program: each grounded part contributes its rules, an external has the truth value last assigned until it is defined or released, and a released or defined one is no longer affected by assignments. The external status reported for an atom agrees with this state.",
  ["histories"], "all histories up to length 5 over {add, ground part(k), assign external true/false/free, release, solve, cleanup} against a reference model",
  "tests walk a few fixed histories; the interplay depends on order",
  [PY+"control.py", PY+"symbolic_atoms.py", HH, LUA, "libclingo/src/clingocontrol.cc", "libgringo/src/output/output.cc"],
  [("assign_external/release_external/ground/cleanup", PY+"control.py; "+HH+"; "+LUA)],
  [("external table", "truth value of each undefined external", "libclingo/src/clingocontrol.cc")])
p("C04", "A solve handle follows its protocol for every order of operations",
  "For every order of next/resume, model, wait, get, cancel, core, last and close on a handle (synchronous or asynchronous, yielding or not), models come in sequence without repetition or loss, get returns the same final result however the search was driven, cancelling ends the search without further models, and waiting reports true exactly once the handle is ready. Leaving the handle's scope always closes the search so that the control can be used again.",
  ["histories", "schedules"], "all operation sequences up to length 4-5 for each mode, for every point at which the background search may have progressed",
  "tests use the canonical order of operations only; background progress is a matter of scheduling",
  [PY+"solving.py", HH, LUA, "libclingo/src/clingocontrol.cc"],
  [("SolveHandle", PY+"solving.py; "+HH+"; "+LUA)],
  [("handle state", "running, model available, finished", "libclingo/src/clingocontrol.cc")])
p("C05", "A model reports exactly its contents",
  "For every stable model, each combination of display filters (atoms, terms, theory, shown, complement) selects exactly the matching symbols, membership and literal truth queries agree with them for known and unknown symbols of either sign, and cost, priorities, number, thread, type and optimality state the facts of that model. Symbols added to a model appear in exactly that model's output.",
  ["programs", "inputs"], "all stable models of the program alphabet with show statements, theory symbols, minimization and brave/cautious modes, all 2^5 filter combinations, all symbols of the alphabet",
  "tests check a few filters on one model",
  [PY+"solving.py", HH, LUA, "libclingo/src/clingocontrol.cc"],
  [("Model", PY+"solving.py: class Model; "+HH+": class Model; "+LUA+": struct Model")])
p("C06", "Clauses added during model enumeration constrain the remaining search",
  "A clause or nogood added while a model is being processed, given as literals or symbols with signs, removes exactly the models that violate it from the rest of the current search and nothing else; it has no effect on later searches. Symbolic and literal forms of the same clause have the same effect, and unknown symbols count as false.",
  ["inputs", "histories"], "all clauses and nogoods of up to 2 literals over known and unknown atoms, in both forms, added at each model, for every search order",
  "tests add one clause in one form",
  [PY+"solving.py", HH, LUA],
  [("SolveControl.add_clause/add_nogood", PY+"solving.py; "+HH+"; "+LUA)])
p("C07", "Backend statements mean what the same statements mean in a program",
  "A program built statement by statement through the backend (rules, choice rules, weight rules, minimize, project, external, assume, heuristic, acyclicity edges, theory terms and atoms) has exactly the models, costs, projections and theory atoms of the corresponding textual program, and every statement reaches registered observers with exactly the values given. Atoms added for the same symbol are the same atom.",
  ["programs", "inputs"], "all statement sequences up to length 3 over the statement alphabet with boundary arguments, each default and given optional argument",
  "tests add one statement of each kind with one set of arguments",
  [PY+"backend.py", HH, LUA, "libclingo/clingo/backend.hh" if False else "libgringo/gringo/backend.hh", CC],
  [("Backend", PY+"backend.py: class Backend; "+HH+": class Backend; "+LUA+": struct Backend")])
p("C08", "An observer sees exactly the ground program",
  "Replaying every statement an observer receives (in all languages and with all its optional parameters) yields a program with the same models, costs and theory atoms as the observed one, for every multi-shot history; each step is bracketed by one begin and one end notification, and init comes once first. If replacing was requested the solver itself sees nothing, otherwise observation changes nothing.",
  ["programs", "histories"], "all programs of the alphabet covering all statement kinds and all histories of two steps, replayed against the brute-force semantics",
  "tests check the event list of few programs",
  [PY+"backend.py", PY+"control.py", HH, "libclingo/src/control.cc"],
  [("Observer trampolines", PY+"backend.py; "+HH+": Detail::Observer..; "+LUA)])
p("C09", "Propagators see every assignment change, consistently",
  "For every search, a propagator is told of exactly the watched literals that become true, in trail order and once per level, undo is called in reverse for exactly what was reported, and a check happens at each required fixpoint or total assignment; each thread's calls concern only that thread. At each call the assignment view (values, levels, decisions, fixedness, trail and its per-level ranges, sizes, totality) is mutually consistent and agrees with these events.",
  ["schedules", "programs"], "all search orders (variable, sign and thread choices) of the program alphabet, with every set of watches, check mode and undo mode",
  "the solver picks one search order in tests; the events are a function of the order",
  [PY+"propagator.py", HH, LUA, CC],
  [("Assignment/Trail/PropagateControl", PY+"propagator.py; "+HH+"; "+LUA), ("propagator trampolines", PY+"propagator.py; "+HH+"; "+LUA)],
  [("trail", "literals assigned true in order, partitioned by level", H)])
p("C10", "Constraints added by propagators hold in exactly the intended scope",
  "Clauses, literals, weight constraints and minimize literals added during propagator initialization, and clauses or nogoods added during search, constrain the models exactly as their logical meaning says: all models of the program satisfying them are found and no others, for every clause type (static, tagged) and for conflicting, unit, satisfied and redundant cases. The returned flag says whether propagation may continue.",
  ["inputs", "schedules"], "all clauses up to 2 literals and weight constraints with up to 2 weighted literals, bounds and types over the alphabet, in every search order",
  "tests add a few constraints in the order one search produces",
  [PY+"propagator.py", HH, LUA, CC],
  [("PropagateInit/PropagateControl", PY+"propagator.py; "+HH+"; "+LUA)])
p("C11", "Heuristic decisions are offered and honoured without changing the answers",
  "A registered decision heuristic is asked at each decision with a free fallback literal and the deciding thread's assignment, a returned free literal is the next decision, and returning nothing keeps the fallback. Whatever the heuristic answers, the set of models is the same.",
  ["schedules"], "all answer sequences of the heuristic up to the depth of the search, in each language",
  "tests run one fixed heuristic",
  [PY+"propagator.py", HH, LUA],
  [("decide", PY+"propagator.py: pyclingo_propagator_decide; "+HH+": Heuristic; "+LUA)])
p("A01", "Parsing, printing and rebuilding syntax trees preserves the program",
  "Every statement of the language parses to a syntax tree whose text parses to an equal tree, and a program added through the program builder (directly, or after copying the trees) has the same answer sets as the program text it was parsed from. Every statement of the input is delivered in order, exactly once, from strings and from files alike.",
  ["programs"], "all statements of a grammar covering every node type, each optional part present or absent, each enumeration value, nested to depth 2",
  "tests list some statements; combinations of optional parts and node types are not covered",
  [PY+"ast.py", HH, "libclingo/src/astv2.cc", "libclingo/src/astv2_parse.cc", "libclingo/src/astv2_str.cc", "libclingo/src/astv2_build.cc"],
  [("parse_string/parse_files/ProgramBuilder", PY+"ast.py; "+HH+": AST"), ("printer", "libclingo/src/astv2_str.cc")], obs=("Python API", "C++ API"))
p("A02", "Syntax-tree nodes are values with shared or deep copies as asked",
  "Nodes constructed from attributes return exactly these attributes; equality, ordering and hashing depend on content but not location; a shallow copy shares children, and a deep copy shares nothing. Setting an attribute changes exactly that attribute of exactly that node, wrong attribute names or types are rejected without effect, and optional children can be set and cleared.",
  ["inputs", "histories"], "every node type and attribute with every value of the attribute's alphabet, all pairs of nodes, and all set/copy histories up to length 3",
  "tests touch some attributes of some types",
  [PY+"ast.py", HH, "libclingo/src/astv2.cc"],
  [("AST attributes", PY+"ast.py: class AST; "+HH+": class Node")], obs=("Python API", "C++ API"))
p("A03", "Syntax-tree sequences behave like ordinary lists",
  "Sequences of nodes or strings inside a syntax tree give the same results as the language's ordinary list for every sequence of reads, assignments, insertions, deletions, appends, pops and slices with positive, negative and out-of-range positions, including the errors raised. Changes are visible in the tree they belong to and nowhere else (assignment to slices is not offered).",
  ["histories"], "all histories up to length 3 over all list operations and all positions in [-4,4] on lists of length 0-3, against the language's list",
  "tests try few positions and no histories",
  [PY+"ast.py", PY+"util.py", HH],
  [("ASTSequence/StrSequence", PY+"ast.py"), ("SlicedMutableSequence", PY+"util.py"), ("NodeVector/StringVector", HH)], obs=("Python API", "C++ API"))
p("A04", "Transformers rewrite exactly what they are told to rewrite",
  "A transformer visits every node of a tree, dispatches by node type, passes on all extra arguments, and returns a tree in which exactly the nodes replaced by visitor results differ; untouched trees are returned as the same object and the original tree is never modified by a replacement. Unpooling a statement yields statements without pools that together have the same answer sets.",
  ["programs", "inputs"], "every node type as the rewritten type for every statement of the grammar; all pool shapes up to 2x2 in every position",
  "tests rewrite variables in one rule",
  [PY+"ast.py", HH, "libclingo/src/astv2.cc"],
  [("Transformer", PY+"ast.py: class Transformer"), ("unpool", PY+"ast.py: AST.unpool; "+HH+": Node::unpool")], obs=("Python API", "C++ API"))
p("D01", "Configuration entries read back what was set and describe themselves",
  "The configuration is a tree whose every entry, reached by any path form in Python, C++ and Lua, reports its kind, keys, length, description and value consistently; setting a value is read back, affects exactly that entry, and invalid entries or values are rejected with an error and without effect. Settings take effect in the next search.",
  ["configurations", "histories"], "every entry of the tree by every access path, all set/get pairs over the value alphabet, and all histories of two settings",
  "tests set two or three keys",
  [PY+"configuration.py", HH, LUA, CC],
  [("Configuration", PY+"configuration.py; "+HH+": class Configuration; "+LUA+": struct Configuration")])
p("D02", "Statistics trees return exactly what was stored",
  "Statistics given by a user callback in Python or C++ as numbers, arrays, maps or (in Python) functions of the old value, nested to any depth and updated over several solve calls, are found again under the user step and accumulated trees with the same shape and values, read through Python, C++ or Lua; updating follows the stated merge rules. Solver statistics converted by the binding agree with element-wise access.",
  ["inputs", "histories"], "all trees up to depth 2 and width 2 over the value alphabet, all pairs of trees in consecutive steps",
  "tests store one nested value",
  [PY+"statistics.py", HH, LUA, CC],
  [("StatisticsMap/Array", PY+"statistics.py; "+HH+": UserStatistics; "+LUA)])
p("D03", "Applications parse options, messages and exit codes faithfully",
  "An application run through the bindings receives exactly its files and options: parsers and flags are called once per occurrence with the given text, multi options accumulate, validation runs after parsing, and a failed parser or validator stops the run with a message before the main function runs (a failed parser with an error code). The model printer, logger, name, version and message limit of the application are the ones used, and the exit code is the one of the run.",
  ["configurations", "inputs"], "all command lines up to 3 arguments over the option alphabet, for each combination of overridden application functions",
  "tests run one command line",
  [PY+"application.py", HH, "app/clingo/main.cc", "libclingo/src/clingo_app.cc"],
  [("clingo_main", PY+"application.py; "+HH+": Application")], obs=("Python API", "C++ API", "clingo executable"))
p("D04", "External functions receive the terms and supply the values of the program",
  "A term with an external function in a program is evaluated by calling the context's method or the embedded script's function (Python and Lua) with exactly the argument symbols, and is replaced by each of the returned symbols in turn, whether one or several are returned; the context takes precedence over scripts, and earlier registered languages over later ones. A missing function drops the instance and is reported, and a failing function or one that returns something else stops grounding with its error.",
  ["inputs", "configurations"], "all functions over the return-shape alphabet, argument tuples up to length 3 over the symbol alphabet, and all combinations of context, Python and Lua definitions",
  "tests call a couple of functions",
  [PY+"control.py", PY+"script.py", HH, LUA, "libpyclingo/pyclingo.c", "libclingo/src/scripts.cc"],
  [("ground callback", PY+"control.py: pyclingo_ground_callback; "+HH+"; "+LUA), ("scripts", "libpyclingo/pyclingo.c; "+LUA+"; libclingo/src/scripts.cc")])
p("D05", "Theory atoms and terms show exactly the theory part of the program",
  "The theory atoms seen through Python, C++ and Lua are exactly those of the grounded program: names, arguments, elements with tuples and conditions, guards and literals, and every theory term has the type, name, number and arguments of its text and prints as it. Conditions and literals refer to the program literals they stand for.",
  ["programs", "inputs"], "all theory terms up to depth 2 over the theory alphabet, all theory atoms with 0-2 elements, 0-2 conditions and optional guard",
  "tests inspect a few atoms",
  [PY+"theory_atoms.py", HH, LUA, CC, "libgringo/src/output/theory.cc"],
  [("TheoryTerm/TheoryElement/TheoryAtom", PY+"theory_atoms.py; "+HH+"; "+LUA), ("TheoryParser/TheoryData", "libgringo/src/output/theory.cc")])
p("D06", "The symbolic-atom view lists exactly the atoms of the ground program",
  "Iterating all atoms, atoms by signature, looking up a symbol, counting, and listing signatures agree with each other and with the grounded program in Python, C++ and Lua: each derivable, external or choosable atom appears once with the right fact and external status and a literal that has its truth value in every model. Unknown symbols and signatures are reported absent.",
  ["programs", "histories"], "all programs and two-step histories of the alphabet with classical negation, arities 0-2, facts, choices and externals",
  "tests look up few atoms",
  [PY+"symbolic_atoms.py", HH, LUA, CC],
  [("SymbolicAtoms", PY+"symbolic_atoms.py; "+HH+"; "+LUA)])
p("D07", "Messages reach the logger completely and within the limit",
  "Every warning or error raised while parsing, grounding or checking is passed to the control's logger with its code and text, in order and only to that logger, at most as many as the message limit allows (the first error is reported even if the limit is used up, and further messages then stop the operation); a later operation is not affected by earlier messages. With a logger set nothing is printed to the console.",
  ["inputs", "configurations"], "all inputs of the message alphabet (each warning kind, errors), limits 0-3, with and without logger, in every operation that logs",
  "tests check single messages",
  [PY+"core.py", PY+"control.py", HH, LUA, "libgringo/gringo/logger.hh"],
  [("logger trampolines", PY+"_internal.py/control.py; "+HH)])
p("D08", "Utility containers of the C++ interface have value semantics",
  "Variants, optionals, spans, iterators and ranges of the C++ interface behave as their value model demands for every sequence of construct, copy, move, assign, self-assign, swap, emplace, compare and access operations: each contained value is constructed and destroyed exactly once and reads back the last one stored. Iterating any sequence view forward, backward, by offset or by index visits the same elements.",
  ["histories"], "all operation sequences up to length 4 over two or three objects with instance-counting element types",
  "no test counts instances or tries self assignment",
  [HH], [("Variant, Optional, Span, ValuePointer, iterators", HH)], obs=("C++ API",))
p("D09", "The theory wrapper forwards calls and answers of a theory unchanged",
  "For every sequence of operations on theories wrapped with the Python class Theory, the underlying C theory receives exactly the corresponding calls with the given control, statement, model, statistics, keys and values. Symbol lookup, values (integers, doubles and symbols including boundary ones) and iteration over the assignment of each thread return exactly what the theory stores, absent symbols yield None, and rewriting hands every statement to the callback. A failing call raises an error with the theory's message, an exception of the rewriting callback reaches the caller unchanged, and a theory is destroyed at most once and never while referenced.",
  ["inputs", "histories", "fault_sequences"], "all assignment tables over a boundary alphabet, all operation sequences up to length 5 over two theories and controls, every call failing with every error code",
  "there are no tests of this class; the union of value types, index 0 and error paths need a theory with just these answers",
  [PY+"theory.py"],
  [("Theory", PY+"theory.py: class Theory"), ("rewrite callback", PY+"theory.py: __define_rewrite"), ("value conversion", PY+"theory.py: get_value")], obs=("Python API",))
p("D10", "Enumerations and plain values mean the same in every interface",
  "Every member of every enumeration of the Python, C++ and Lua interfaces carries the value of the C interface, is found by its name and value, prints as documented, and compares with the other members of its enumeration by these values under all operators, while comparing the order of members of different enumerations is an error. The flags and the text of a solve result are those of its bits for all sixteen bit sets, and symbolic literals and locations of the C++ interface return and print exactly what they were made of.",
  ["inputs"], "all members of all enumerations, all pairs of members, all bit sets of results, all locations over two files and three lines and columns",
  "tests use single members; swapped values surface only in the combination of two interfaces",
  [HH, PY+"core.py", PY+"solving.py", PY+"ast.py", "libluaclingo/luaclingo.cc"],
  [("OrderedEnum", PY+"core.py: class OrderedEnum"), ("SolveResult", PY+"solving.py: class SolveResult"), ("enumerations", HH)], obs=("Python API", "C++ API", "Lua API"))
p("G01", "Grounding preserves the meaning of the program",
  "For every safe program with variables, arithmetic, intervals, pools, comparisons, conditional literals, aggregates and recursion, the answer sets are those of its naive instantiation over the terms the rules can produce; arithmetic and comparisons follow integer and term-order semantics and undefined operations drop the instance with a message. The result does not depend on the order of rules or of program parts grounded together.",
  ["programs"], "all programs of up to 3 rules from the non-ground rule alphabet against a naive reference grounder",
  "tests sample programs; grounding optimizations interact",
  ["libgringo/src/ground/", "libgringo/src/input/", "libgringo/src/output/", "libgringo/src/term.cc"],
  [("instantiation", "libgringo/src/ground/instantiation.cc"), ("simplification/rewriting", "libgringo/src/input/program.cc")], obs=("Python API", "clingo executable"))
p("G02", "Text, aspif and reified output describe the same ground program",
  "Grounding to text, to the intermediate format or to reified facts, and reading that output back, yields a program with the same answer sets, costs, projections and theory atoms as solving directly. Reified facts describe each statement of the intermediate format exactly once, step by step.",
  ["programs"], "all programs of the statement alphabet, each output format, one and two incremental steps",
  "tests compare fixed outputs of single programs",
  ["libgringo/src/output/", "libreify/", "libclingo/src/gringo_app.cc", "app/reify/main.cc"],
  [("backends", "libgringo/gringo/output/backends.hh"), ("Reifier", "libreify/src")], obs=("gringo, reify and clingo executables built from the sources",))
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80, (x["id"],len(x["title"]))
    assert x["statement"].count(". ")<=2, x["id"]
print(len(P))
