M = "include/marco/Modeling/"
L = "lib/Modeling/"
WIP = "check under construction (this entry moves to checks as soon as its harness is in place)"
SAN = " under AddressSanitizer+UBSan with the library's assertions on"
TRUST = (" Trusted: the reference oracle in /verif/harness, clang's sanitizers, LLVM's ADT. Not exhaustive: reach is "
         "that of the generated workloads.")

prop("C01", "Index sets behave exactly like mathematical sets of integer tuples",
     "After any history of operations, an index set denotes exactly the set of points the history describes: membership, "
     "size, emptiness, iteration (each point exactly once), union, difference, intersection, complement, overlap, "
     "inclusion, equality, prefix/suffix/selected-dimension projection, appending and slicing agree with plain set "
     "arithmetic. The order in which ranges were inserted, how the points were cut into ranges, and whether the set "
     "holds one range or thousands never change the answer, and operands other than the one being modified never change.",
     ["inputs", "histories"],
     "every sequence of constructions, additions, removals and queries over sets of any rank and size",
     "The unit tests check about a hundred fixed small sets; the defects live in particular shapes of the R-tree reached "
     "only by long histories of insertions and removals.",
     [M + "IndexSet.h", M + "RTree.h", M + "MultidimensionalRange.h", L + "IndexSet.cpp"],
     [("IndexSet/IndexSetList/IndexSetRTree", L + "IndexSet.cpp"), ("RTree", M + "RTree.h")],
     technique="model-based runtime monitoring: random histories against a std::set reference" + SAN,
     note="Random and adversarial histories; every query compared with a reference set after each step." + TRUST)

prop("C02", "Ranges, boxes and points obey interval and box algebra",
     "For half-open integer ranges, multidimensional ranges and points, containment, overlap, intersection, merging, "
     "difference, size, ordering, equality and inequality, iteration, slicing and dimension projection agree with "
     "enumerating the points they denote. A merge is offered exactly when the union is itself a range, a subtraction "
     "returns pairwise disjoint pieces covering exactly the difference, and comparison operators are mutually consistent.",
     ["inputs"], "every pair of ranges, boxes and points with representable bounds",
     "Tests fix one example for each relative position; the number of relative positions grows exponentially with rank.",
     [M + "Range.h", M + "MultidimensionalRange.h", M + "Point.h", L + "Range.cpp", L + "MultidimensionalRange.cpp",
      L + "Point.cpp"],
     [("Range", L + "Range.cpp"), ("MultidimensionalRange", L + "MultidimensionalRange.cpp"), ("Point", L + "Point.cpp")],
     technique="runtime monitoring against point enumeration" + SAN,
     note="Dense enumeration of small ranges plus random boxes." + TRUST)

prop("C03", "The R-tree container keeps its content and its structural invariants",
     "Through any history of insertions, bulk loads, moves, copies and removals, the R-tree holds exactly the objects "
     "inserted and not removed, iterates over each once, and answers containment and overlap searches as a linear scan "
     "would. After each operation every node's bounding box is the tight cover of what is below it, every node other "
     "than the root holds between the minimum and the maximum number of entries, leaves are all at the same depth and "
     "parent links are right.",
     ["histories"], "every history of operations, every fan-out configuration",
     "Tests insert a handful of objects in a fixed order and remove almost none; splits, collapses and re-insertion "
     "depend on long histories.",
     [M + "RTree.h", L + "IndexSet.cpp"], [("RTree insert/remove/split/collapse/bulk load", M + "RTree.h")],
     technique="structural invariant monitor after every operation of random histories" + SAN,
     note="The tree is walked and checked after every operation." + TRUST)

prop("C04", "Access functions map and inverse-map index sets exactly pointwise",
     "The image of an iteration space under an access function is exactly the union of the images of its points, "
     "whichever representation (affine, constant, rotation-translation, generic with indirect index sets) is used and "
     "however the iteration space is cut into ranges. The inverse image of a set of accessed elements, restricted to an "
     "iteration space, contains exactly those iteration points whose image lies in that set; for points reaching several "
     "elements, it contains every point whose whole image lies in the set and none whose image misses it.",
     ["inputs"], "all access functions built from constants, dimensions, sums, differences, products, divisions and "
     "index sets; all iteration and accessed spaces",
     "Tests map a few hand-written functions over one or two spaces.",
     [M + "AccessFunction.h", M + "AccessFunctionGeneric.h", M + "AccessFunctionRotoTranslation.h",
      M + "DimensionAccess.h", L + "AccessFunctionGeneric.cpp", L + "AccessFunctionRotoTranslation.cpp"],
     [("AccessFunction::map/inverseMap", L + "AccessFunction.cpp"), ("DimensionAccess*::map", L + "DimensionAccess.cpp")],
     technique="runtime monitoring of map/inverseMap against pointwise evaluation of expression trees" + SAN,
     note="Random expression trees, built through every public constructor, compared point by point." + TRUST)

prop("C05", "Combining, converting and comparing access functions preserves meaning",
     "Composing two access functions gives the function whose image at each point is the image of the first's image (a "
     "superset of it when a multivalued result of the first is used more than once by the second); "
     "changing the number of dimensions, cloning, canonicalising into a specialised kind and exporting as an affine map "
     "never change what a function maps. Two functions that compare equal map every point alike.",
     ["inputs"], "all pairs of access functions of every kind",
     "Tests compose a few pairs of fixed functions.",
     [M + "AccessFunction.h", M + "DimensionAccess.h", L + "AccessFunction.cpp", L + "AccessFunctionGeneric.cpp"],
     [("AccessFunction::build/combine/withGivenDimensions", L + "AccessFunction.cpp")],
     technique="runtime monitoring of algebraic operations against pointwise evaluation" + SAN,
     note="Random pairs of functions; image of each point before and after." + TRUST)

prop("C06", "The incidence matrix (MCIM) behaves as a boolean matrix",
     "A multidimensional coefficient incidence matrix filled from access functions or element by element denotes exactly "
     "one boolean matrix over scalar equations and scalar variables. Setting, clearing, reading, adding, subtracting, "
     "row and column filtering, flattening, emptiness and equality agree with that matrix, whatever the order of the "
     "updates.",
     ["inputs", "histories"], "all equation/variable index spaces and access functions, all histories of updates",
     "Tests use a few two-dimensional matrices, each built one way.",
     [M + "MCIM.h", M + "MCIMGroup.h", M + "MCIMUtils.h", L + "MCIM.cpp", L + "MCIMGroup.cpp"],
     [("MCIM", L + "MCIM.cpp"), ("MCIMGroup", L + "MCIMGroup.cpp")], technique="model-based runtime monitoring: random update histories against a boolean matrix" + SAN,
     note="Every cell read back after every operation." + TRUST)

prop("C07", "Local matching solutions are valid and jointly cover the incidence matrix",
     "Each solution produced for the local matching problem of an incidence matrix selects only set elements of the "
     "matrix, with every scalar equation and every scalar variable used at most once, and the number of solutions "
     "announced is the number produced. Together the solutions cover every set element of the matrix.",
     ["inputs"], "all incidence matrices and all access function sets with their iteration spaces",
     "Tests check a few fixed matrices.",
     [M + "LocalMatchingSolutions.h", L + "LocalMatchingSolutions.cpp", L + "LocalMatchingSolutionsVAF.cpp",
      L + "LocalMatchingSolutionsMCIM.cpp"],
     [("LocalMatchingSolutions", L + "LocalMatchingSolutions.cpp")], technique="runtime monitoring of the produced solutions against the boolean matrix" + SAN,
     note="All solutions of each generated matrix checked." + TRUST)

prop("C08", "Matching succeeds exactly when every scalar can be matched, with a valid result",
     "When the matching of array equations with array variables reports success, every scalar equation is assigned one "
     "scalar variable it really accesses, through an access it owns, and no scalar variable is assigned twice. When a "
     "perfect matching of the scalarised system exists, matching reports success.",
     ["inputs"], "all systems of array equations and variables with affine, constant and indirect accesses",
     "No test runs the matching algorithm at all.",
     [M + "Matching.h", M + "LocalMatchingSolutions.h", M + "MCIM.h"], [("MatchingGraph::match", M + "Matching.h")],
     technique="runtime monitoring of match() on generated array systems against bipartite matching of the scalarised system" + SAN,
     note="Systems with affine, constant, permuted and multivalued accesses, with and without perfect matchings; every result validated scalar by scalar." + TRUST)

prop("C09", "Pre-matching simplification never loses or invents a matching",
     "Simplification before matching (leaf elimination and scalarisation, whatever its options and thresholds) assigns "
     "equations to variables only where the assignment is valid, and never turns a system that has a perfect scalar "
     "matching into one that has none; when it reports that the system is unmatchable, no perfect scalar matching exists.",
     ["inputs"], "all systems of array equations and variables",
     "No test runs the simplification.", [M + "Matching.h"], [("MatchingGraph::simplify", M + "Matching.h")], technique="runtime monitoring of simplify() under every option combination against bipartite matching of the scalarised system" + SAN,
     note="Leaf simplification and scalarisation thresholds crossed with generated systems; matchability and validity checked after each." + TRUST)

prop("C10", "Dependency and matching runs are race free under threads",
     "With multithreading enabled, graph construction and matching are free of data races and lock-order "
     "inversions, terminate, and their results stay valid under every thread interleaving.",
     ["schedules"], "all interleavings of the worker threads",
     "Tests neither run these algorithms nor use a race detector.",
     [M + "Matching.h", M + "DependencyGraph.h", M + "ArrayEquationsDependencyGraph.h",
      M + "ScalarEquationsDependencyGraph.h"],
     [("mlir::parallelForEach sections", M + "Matching.h")], technique="runtime monitoring: ThreadSanitizer and the oracles of C08-C09 and C11-C15 on runs with four threads, delayed at random around every lock" + SAN,
     note="Every case runs with its own seed of delays at the locks; lock orders are recorded to count the distinct schedules. libMLIR and libLLVM are not instrumented; the scheduler has no parallel section of its own." + TRUST)

prop("C11", "The array-equation dependency graph has exactly the real dependencies",
     "In the dependency graph over array equations, one equation depends on another exactly when some scalar it reads is "
     "written by the other.",
     ["inputs"], "all systems of array equations with arbitrary read and write accesses",
     "No test builds this graph.", [M + "ArrayEquationsDependencyGraph.h", M + "DependencyGraph.h"],
     [("ArrayEquationsDependencyGraph", M + "ArrayEquationsDependencyGraph.h")], technique="runtime monitoring: scalar dependencies recomputed by enumeration" + SAN,
     note="Edges and the map of the writes compared with the scalars each access touches, for matched and arbitrary systems." + TRUST)

prop("C12", "The scalar-equation dependency graph has exactly the real dependencies",
     "The scalar dependency graph has one vertex for each scalar equation of the system and an edge from one to another "
     "exactly when the former reads the scalar the latter writes, also when one access of it reaches several elements.",
     ["inputs"], "all systems of array equations", "No test builds this graph.",
     [M + "ScalarEquationsDependencyGraph.h"], [("ScalarEquationsDependencyGraph", M + "ScalarEquationsDependencyGraph.h")],
     technique="runtime monitoring: scalar dependencies recomputed by enumeration" + SAN,
     note="Vertices and edges compared with the reference scalar system; each equation determines one scalar per index." + TRUST)

prop("C13", "Strongly connected components partition the equations, dependencies first",
     "The strongly connected components reported for a dependency graph partition its vertices, two vertices share a "
     "component exactly when each reaches the other, and components come in an order in which dependencies precede "
     "dependents. A graph whose entry points are chosen explicitly reports exactly the vertices reachable from them.",
     ["inputs"], "all dependency graphs", "No test runs it.",
     [M + "DependencyGraph.h", M + "SCCsDependencyGraph.h", M + "ArrayEquationsDependencyGraph.h"],
     [("getSCCs", M + "DependencyGraph.h")], technique="runtime monitoring: components and order checked against a reachability oracle" + SAN,
     note="Equation graphs, scalar graphs, variable graphs and graphs of components." + TRUST)

prop("C14", "Cycle decomposition covers every scalar equation once and finds every loop",
     "Decomposing a system of array equations by dependency yields pieces that cover each scalar equation exactly once, "
     "two scalar equations that depend on each other in a loop end up in the same piece, pieces can be computed one "
     "after the other, and array equations that are not in a loop even as a whole are never joined. The search ends.",
     ["inputs"], "all systems of array equations", "No test runs it.", [M + "DependencyGraph.h"],
     [("DependencyGraph", M + "DependencyGraph.h")], technique="runtime monitoring: pieces checked against the scalar dependency graph" + SAN,
     note="Cover, loops, order and separation of the pieces; also equations with several writes (cover only)." + TRUST)

prop("C15", "A schedule runs every equation once and never reads a value before it is written",
     "Executing the scheduled blocks in the order and loop direction given by the scheduler evaluates each scalar "
     "equation exactly once, and, outside blocks reported as algebraic loops, no scalar is read before the equation that "
     "determines it has been evaluated.",
     ["inputs"], "all matched systems of array equations", "No test runs the scheduler.",
     [M + "Scheduling.h", M + "SCCsDependencyGraph.h", M + "ScalarEquationsDependencyGraph.h"],
     [("Scheduler::schedule", M + "Scheduling.h")], technique="trace monitoring: the schedule is replayed scalar by scalar" + SAN,
     note="Every read of every executed scalar equation is checked against what was executed before; systems, recurrences and the decomposition-to-schedule pipeline." + TRUST)

prop("C16", "Index reduction ends and differentiates exactly what it must",
     "On every structurally non-singular system, scalar or array, Pantelides index reduction ends and differentiates "
     "each scalar equation exactly the smallest number of times after which the equations of highest order can be "
     "perfectly matched to the derivatives of highest order; no derivative is requested twice, and each variable is "
     "differentiated exactly up to the order these equations mention.",
     ["inputs"], "all structurally non-singular DAE systems", "No test runs it.", [M + "Pantelides.h"],
     [("PantelidesGraph", M + "Pantelides.h")], technique="runtime monitoring: differentiations compared with the canonical offsets of the scalar system" + SAN,
     note="The callbacks record every derivative requested; for every scalar equation and variable the final order must be the one given by an independent signature-matrix method." + TRUST)

prop("C17", "Graph containers hold what was put in them",
     "Directed and undirected graphs return exactly the vertices and edges added, each once, with the properties "
     "given; incidence, adjacency and filtered iteration agree with the list of added and removed objects, and "
     "descriptors keep identifying their objects, also as keys of ordered and hashed containers.",
     ["histories"], "all histories of vertex and edge insertions and removals", "Tests add three or four vertices.",
     [M + "Graph.h"], [("Graph", M + "Graph.h")], technique="runtime monitoring: containers compared with the log of insertions" + SAN,
     note="Every vertex and edge inserted is logged with its descriptor and property; after every few insertions all iterators, filters and queries are compared with the log." + TRUST)

prop("C18", "Graph dumps list every vertex and edge exactly once",
     "The Mermaid dump of a graph contains one node statement for each vertex, with its own identifier, and one edge "
     "statement for each edge, between the identifiers of its ends and in its direction, and nothing else.",
     ["inputs"], "all graphs", "No test dumps a graph.", [M + "GraphDumper.h"], [("GraphDumper", M + "GraphDumper.h")],
     technique="runtime monitoring: dumps parsed and compared with the log of insertions" + SAN,
     note="Dumps are parsed by an independent reader of the Mermaid format." + TRUST)

prop("C19", "The lexer ends on every input and its tokens tile the text",
     "On every byte string the BaseModelica lexer ends, without crashing, in an end-of-file or error token, and on text "
     "made of valid tokens separated by whitespace and comments it returns exactly these tokens. Malformed text gives "
     "an error token where it starts. Token locations are in bounds (an error token may reach the end-of-file position), "
     "increase, do not overlap, and delimit exactly the text of the token.",
     ["inputs"], "all source texts", "Tests lex single tokens and short sequences.",
     ["lib/Parser/BaseModelica/StateMachine.cpp", "include/marco/Lexer/Lexer.h"],
     [("Lexer", "include/marco/Lexer/Lexer.h"), ("LexerStateMachine", "lib/Parser/BaseModelica/StateMachine.cpp")],
     technique="runtime monitoring: the token stream of the real lexer compared with an independent maximal-munch tokeniser" + SAN,
     note="The tokeniser is written from the lexical grammar; texts are bytes, token sequences with every kind of gap between them, and mutants of both." + TRUST)

prop("C20", "Literals evaluate to the value they are written as",
     "Integer, real and string literals evaluate to the value the Modelica language gives to the text, and literals "
     "out of range are error tokens.",
     ["inputs"], "all literals", "Tests check a dozen literals.",
     ["include/marco/Lexer/Modules/IntegerLexer.h", "include/marco/Lexer/Modules/FloatLexer.h",
      "include/marco/Lexer/Modules/NumbersLexer.h"],
     [("IntegerLexer", "lib/Lexer/Modules/IntegerLexer.cpp"), ("FloatLexer", "lib/Lexer/Modules/FloatLexer.cpp")], technique="runtime monitoring: literal values compared with exact conversions of their text" + SAN,
     note="Integers are compared in decimal, reals with the correctly rounded strtod, strings with an independent reading of the escapes." + TRUST)

prop("C21", "The parser ends on every input with an AST or a diagnostic",
     "On every source text, malformed ones included, the BaseModelica parser terminates without crashing and returns "
     "either an AST or an error with a diagnostic. It accepts exactly the token sequences of the supported grammar, and the "
     "diagnostic of a rejection is located at the first offending token.",
     ["inputs"], "all source texts, at moderate nesting depth", "Tests cover valid programs only.",
     ["lib/Parser/BaseModelica/Parser.cpp"], [("Parser", "lib/Parser/BaseModelica/Parser.cpp")], technique="runtime monitoring: the real parser against an independent recogniser on bytes, token sequences and mutated programs" + SAN,
     note="Acceptance is compared with a recursive-descent recogniser written from the grammar, and each diagnostic with the first offending token." + TRUST)

prop("C22", "Well-formed programs are accepted and parsed into the structure they spell",
     "Every program derived from the supported grammar is accepted, and the AST reproduces its structure: operator "
     "precedence and associativity, order of elements, prefixes, dimensions, modifications, sections and nesting.",
     ["programs"], "all programs derivable from the supported grammar", "Tests parse one construct at a time.",
     ["lib/Parser/BaseModelica/Parser.cpp", "lib/AST/BaseModelica"], [("Parser", "lib/Parser/BaseModelica/Parser.cpp")],
     technique="runtime monitoring: the AST of the real parser compared, through its accessors, with the structure derived by an independent parser" + SAN,
     note="Programs are derived from the grammar and spelled with every kind of gap between the tokens." + TRUST)

prop("C23", "AST locations delimit the text of the construct",
     "The source location attached to every AST node lies inside the text and starts at the first character of what it "
     "stands for. Expressions, equations, statements, modifications, arguments, subscripts, annotations and iterators are "
     "located at exactly the text that spells them, children within their parents; classes at their header, up to the "
     "name; members and types at their names; sections at their keyword.",
     ["programs"], "all programs", "Tests check a few one-line programs.",
     ["lib/Parser/BaseModelica/Parser.cpp"], [("Parser", "lib/Parser/BaseModelica/Parser.cpp")], technique="runtime monitoring: the locations in the AST compared with the extents of the constructs in the derivation" + SAN,
     note="Extents come from the offsets of the tokens in an independent parse; the mapping is in the statement." + TRUST)

prop("C24", "Cloned ASTs are equal to, and independent of, the original",
     "Cloning any AST yields a tree that has the same structure, JSON form and locations, with each node's parent "
     "set inside the clone, and which outlives the original.",
     ["programs"], "all ASTs", "No test clones ASTs.", ["lib/AST/BaseModelica"], [("ASTNode::clone", "lib/AST")], technique="runtime monitoring: clones compared with their originals before and after these are destroyed, under AddressSanitizer" + SAN,
     note="Trees are compared through every accessor, the JSON form and the parents." + TRUST)

prop("C25", "The variable filter parser accepts exactly its grammar and never crashes",
     "On every filter string the parser terminates without crashing. It accepts exactly the sequences of `name`, "
     "`name[lower:upper,...]` with integers or `$` as bounds, `der(name)` and `/regex/` with a valid non-empty expression, "
     "with any number of semicolons between them, and rejects anything else with an error at the first offending token.",
     ["inputs"], "all filter strings", "The few unit tests try well-formed filters only (and are not built here).", ["lib/VariableFilter"],
     [("VariableFilter::Parser", "lib/VariableFilter/Parser.cpp")], technique="runtime monitoring: the real filter parser against an independent recogniser on bytes, token sequences and mutated filters" + SAN,
     note="VariableFilter.cpp is compiled with a shim that gives it the diagnostic classes of the LLVM it was written for. Which regular expressions are valid is asked of llvm::Regex." + TRUST)

prop("C26", "Variable filters select exactly the variables and elements they name",
     "Given an accepted filter, a variable, array element or derivative is selected exactly when some clause of the filter names it: "
     "by name, by subscript ranges (unbounded ends included; ranges beyond the rank are ignored, missing ones select "
     "everything), as a derivative, or by a regular expression found in the name or in `der(name)`. A filter without "
     "clauses selects all variables.",
     ["inputs"], "all filters and variables", "The few unit tests try one clause at a time (and are not built here).", ["lib/VariableFilter"],
     [("VariableFilter", "lib/VariableFilter/VariableFilter.cpp")], technique="runtime monitoring: the selections of the real filter compared, element by element, with the union of its clauses" + SAN,
     note="Subscripts are 1-based and inclusive. Derivatives are selected as a whole. Expressions are matched by an independent matcher." + TRUST)

prop("C27", "Commands and input kinds are built as given",
     "Input kinds follow from file extensions as documented, and a command runs its executable with exactly the "
     "non-empty arguments given, in order, with the requested redirections, reporting its exit status (-1 if it could not be "
     "run, -2 if it was killed), and leaves no open file or process behind.",
     ["inputs"], "all arguments and extensions", "No test covers this part.", ["lib/IO"],
     [("InputKind", "lib/IO/InputFile.cpp"), ("Command", "lib/IO/Command.cpp")], technique="runtime monitoring: a shell run by Command reports the arguments, input, outputs and status it saw; descriptors and children counted" + SAN,
     note="Empty arguments are left out, which is deliberate in the code. Statuses 126 and 127 are reserved by LLVM and not tried." + TRUST)

prop("C28", "Modeling dialect attributes survive printing and parsing",
     "Every range attribute and every index set property (alone or in a list) has the same contents after it is printed and parsed, in pretty "
     "and generic form, written and read as bytecode, cloned, or converted to an attribute and back; equal contents are "
     "equal and hash alike; malformed text is rejected with a message.",
     ["inputs"], "all attribute contents", "No unit test covers it.", ["lib/Dialect/Modeling"],
     [("Modeling attributes", "lib/Dialect/Modeling/Attributes.cpp")], technique="runtime monitoring: attributes and properties with random contents through the real printer, parser, bytecode writer and reader, and cloning, compared element by element; an independent recogniser of the syntax" + SAN,
     note="The dialect has no operations of its own, so a test dialect holds its properties. An emptied set keeps the rank it had, which its text does not show; that rank is not judged." + TRUST)

prop("C29", "Solver dialect operations survive printing, parsing and cloning",
     "Operations of the SUNDIALS, IDA and KINSOL dialects verify when built consistently; have, through their accessors, the attributes, operands, functions and function "
     "arguments they were built with; keep them when printed and parsed, written and read as bytecode, or cloned; are never "
     "dropped, merged or reordered by the optimiser, except for reads of the time with no change in between; and are "
     "rejected with a message when an attribute, operand, result, parent or block argument is inconsistent.",
     ["inputs"], "all operations of the dialects", "No unit test covers it.", ["lib/Dialect/IDA", "lib/Dialect/KINSOL"],
     [("dialect operations", "lib/Dialect")], technique="runtime monitoring: random modules built through the real builders, then printed, parsed, written as bytecode, cloned and optimised, described through the accessors and compared with what was built" + SAN,
     note="The dialects do not verify the operands of a return against the signature, which is documented but not enforced and is not claimed." + TRUST)

prop("C31", "The facts the compiler reads from declarations are those written",
     "The queries by which the compiler learns about declarations answer what the source says. For a variable: its value, its "
     "start value and whether it is `each`, whether it is fixed (a boolean, a uniform array of booleans or `fill` of a boolean; false when "
     "absent; unknown for anything else), its variability, direction, type, rank and whether its shape is constant. For a function: its "
     "argument and result types in order, whether to inline it, its derivative and order, and its inverses. For a record: the types of "
     "its components. Other modifications and annotations, their order, nesting and malformed variants included, make no difference and never crash.",
     ["programs"], "all declarations", "Tests look at one declaration at a time.", ["lib/AST/BaseModelica"],
     [("Member, Modification", "lib/AST/BaseModelica/Modification.cpp"), ("Annotation", "lib/AST/BaseModelica/Annotation.cpp"),
      ("Function, Record, Type", "lib/AST/BaseModelica/Function.cpp")], technique="runtime monitoring: declarations and annotations with known contents through the real parser and the real queries, on the original tree and on clones, const and not, against what was written" + SAN,
     note="Derivative and inverse annotations are well-formed in the workload; a malformed one has no agreed meaning." + TRUST)

prop("C32", "The JSON export of an AST contains the whole program",
     "The JSON form of the AST, which the compiler writes on request, is well-formed JSON from which the program can be reconstructed: every class, "
     "member, type, dimension, modification, annotation, equation, statement, branch, condition and expression is there with all its "
     "attributes, once and in order.",
     ["programs"], "all ASTs", "Tests look for the kind of the root only.", ["lib/AST/BaseModelica"],
     [("ASTNode::toJSON", "lib/AST/BaseModelica")], technique="runtime monitoring: the JSON text the compiler would write for a parsed program is parsed and read back into a tree, which is compared with the one the accessors show" + SAN,
     note="JSON has one kind of number, so whether an integral constant is real is not judged; programs that are not valid UTF-8 are left out." + TRUST)

prop("C33", "Simplifying an expression of the compiler's language does not change its value",
     "Whatever the compiler does to simplify operations of the BaseModelica dialect (folding of constants, canonicalisation, merging of equal "
     "operations), the values of Boolean, Integer and Real expressions stay those which the operations denote, for all arguments for which they are defined: "
     "arithmetic, powers, comparisons, logic, selection, conversions and the mathematical functions, on every combination of operand types.",
     ["programs", "inputs"], "all expressions and arguments", "Tests look at the folding of a few constants.", ["lib/Dialect/BaseModelica/IR"],
     [("fold methods", "lib/Dialect/BaseModelica/IR/Ops.cpp"), ("attributes", "lib/Dialect/BaseModelica/IR/Attributes.cpp")],
     technique="runtime monitoring: random functions on scalars, executed by an interpreter of the operations before and after the real canonicaliser and CSE, on several arguments" + SAN,
     note="Arguments outside the domain of an operation, and comparisons of values which rounding could decide, are not judged. The dialect is built "
          "with small additions of ours for the installed MLIR 20 (harness/shim): the sources themselves are /repo's." + TRUST)

prop("C34", "The schedules the compiler produces compute the solution of the model",
     "Whatever the passes between the lowered model and the schedule of explicit equations do (inlining, common subexpressions, promotion of "
     "constants, elimination of read-only variables, materialisation of derivatives, matching, detection and solution of cycles, splitting, "
     "time integration, scheduling, parallelisation), with any of their options, the initialization and every step executed from their result give each "
     "variable which is left the value the equations of the model determine, in every execution order that the schedule allows; outputs are "
     "never removed; and every block of the schedule declares all the elements it writes and reads.",
     ["programs", "configurations", "schedules"], "all models with a unique solution, all options", "Tests look at the text of the IR after one pass.",
     ["lib/Dialect/BaseModelica/Transforms", "lib/Codegen/Lowering"],
     [("Matching, SCCDetection, SCCSolvingBySubstitution, EulerForward, Scheduling, EquationExplicitation, ScheduleParallelization and the others", "lib/Dialect/BaseModelica/Transforms"),
      ("equations and algorithms", "lib/Dialect/BaseModelica/IR/EquationInstanceOp.cpp")],
     technique="runtime monitoring: random models with a known solution are taken from source text through the real parser, lowering and passes; the equations are evaluated at the solution after the stages, and the resulting schedules are executed by an interpreter which monitors the accesses of every block and runs what may be parallel in random order" + SAN,
     note="The sequence of the passes is that of the compiler driver, which cannot be built here, up to the solvers: models which need KINSOL are only checked up to the "
          "equations, and IDA is not covered. Time integration is forward Euler. The reals compare within 1e-6; models on the edge of a comparison are not judged." + TRUST)

BM = ("the generated code needs the simulation runtime library, which is not in this repository, and the conversion to LLVM, parts of which "
      "do not compile with the installed LLVM/MLIR 20 (bufferisation interfaces, AllToLLVM), so no execution of a simulation can be produced here; "
      "the parts of the pipeline that can be executed have their own properties")
prop("C30", "The compiler pipeline preserves the meaning of the model",
     "The simulation code generated for a model computes the same trajectories, within tolerance, whatever "
     "optimisation, matching, scheduling and solver options are chosen.",
     ["programs", "configurations"], "all models and option sets", "Only end-to-end runs can show it.",
     ["lib/Codegen", "lib/Transforms", "lib/Dialect/BaseModelica", "lib/Frontend"], [("passes", "lib/Dialect/BaseModelica/Transforms")],
     na=BM)
