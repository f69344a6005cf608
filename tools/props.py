"""The properties, and for each one the check that decides it."""


def P(id, title, statement, over, text, why, files, mech, check=None, observe=None, na=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe or [], "hook_needed": None}}
    if check:
        d["check"] = {"technique": check[0], "level": check[1], "note": check[2]}
    if na:
        d["na"] = na
    return d


PARSER = "pyverilog/vparser/parser.py"
LEXER = "pyverilog/vparser/lexer.py"
AST = "pyverilog/vparser/ast.py"
CODEGEN = "pyverilog/ast_code_generator/codegen.py"
TV = "model_checking"

PROPS = [
 P("C01", "Expressions parse with IEEE 1364 precedence, associativity and operand order",
   "For every expression of the supported language, parsing yields exactly the tree that IEEE 1364 operator precedence "
   "and left associativity give it: unary operators bind tightest, the conditional operator is weakest and groups to the "
   "right, parentheses override, and operands, selects, concatenations, repetitions, literals and call arguments keep "
   "their text and their order. An indexed part select [b+:w] or [b-:w] denotes the same bits as the range it stands for.",
   ["inputs"], "all expressions (all operator pairs and nestings, all operand positions)",
   "The tests compare a handful of printed trees; precedence involves every pair of the 24 binary and 10 unary "
   "operators in every operand position.",
   [PARSER, AST], [("precedence table and expression productions", PARSER + ": precedence, p_expression_*"),
                   ("selects, concatenations, calls", PARSER + ": p_pointer*, p_partselect*, p_concat*, p_functioncall")],
   ("TLA+ executable grammar (spec/VLex, spec/VGrammar) checked by TLC against recorded parses", TV,
    "Exhaustive over all operator pairs and operand positions (triples in the thorough tier), random deeper "
    "expressions; the trees are read through the public node attributes. Trusts TLC and the projection lib/astdump.py."),
   ["pyverilog.vparser.parser.parse"]),
 P("C02", "Parsing an accepted source keeps every construct in the syntax tree",
   "For every source text the parser accepts, the returned syntax tree contains exactly the constructs written, in source "
   "order and nested as written: modules with parameters and ports, declarations with direction, net type, sign, range, "
   "dimensions and initial value, assignments with delays, always/initial blocks with sensitivity lists, all statements, "
   "functions, tasks, generate constructs and instances with their connections. Nothing is dropped, duplicated, reordered "
   "or attributed to another construct, and valid sources of the supported language are accepted.",
   ["programs"], "all source texts of the supported language",
   "The parser tests print the trees of five small modules; most productions (over 300) never run in them.",
   [PARSER, AST], [("all grammar productions", PARSER + ": p_*"), ("node constructors", AST)],
   ("TLA+ executable grammar checked by TLC against recorded parses of generated sources", TV,
    "Random sources over the whole grammar (generator independent of the code); a source counts as valid when the "
    "specification derives it. 'logic' losing its declaration is listed as a known finding."),
   ["pyverilog.vparser.parser.parse"]),
 P("C03", "Tokenizing follows the Verilog lexical rules for every text",
   "Every text is split into the tokens the Verilog lexical rules prescribe (maximal munch for operators, sized and "
   "signed literals of every base, real literals, strings with escapes, simple and escaped identifiers, keywords), white "
   "space and comments separate tokens and are otherwise without effect, each token carries the line it starts on, "
   "compiler directives are recorded with their line, and a character no token can start with is reported on its line "
   "rather than skipped.",
   ["inputs"], "all texts",
   "One test dumps the tokens of one file; the token rules overlap and depend on rule order for every combination.",
   [LEXER], [("token regular expressions and their order", LEXER + ": t_*")],
   ("TLA+ tokenizer specification (spec/VLex) checked by TLC against the real tokenizer", TV,
    "Exhaustive for all texts of up to two printable characters and of three characters over a core alphabet; random "
    "longer texts."),
   ["pyverilog.vparser.lexer.VerilogLexer"]),
 P("C04", "Text outside the supported language is rejected with a parse error",
   "Every source text that the grammar of the supported language does not derive is rejected with the parser's ParseError; "
   "it is never accepted with part of the text ignored or reinterpreted, and the parser does not fail in any other way.",
   ["inputs"], "all texts, in particular all small edits of valid sources",
   "There is no test of a rejected source at all.",
   [PARSER, LEXER], [("error productions and checks in actions", PARSER + ": p_error, _raise_error, typecheck*")],
   ("TLA+ executable grammar checked by TLC against recorded parses of mutated sources", TV,
    "Random one- and two-token edits of random valid sources; the specification decides membership and, when an edited "
    "text is still valid, its tree."),
   ["pyverilog.vparser.parser.parse"]),
 P("C05", "Syntax tree nodes and directives carry their source line and net type",
   "Module definitions, module items, statements, operators, identifiers and constants in the syntax tree carry the number "
   "of the source line they start on, whatever comments, blank lines, continuation lines or compiler directives precede "
   "them. The directives returned with a tree are exactly those of the text, with their lines, and each module carries "
   "the default net type set by the directives before it.",
   ["inputs"], "all source texts and layouts",
   "Line numbers and directives are only compared for a few conventionally laid out files.",
   [PARSER, LEXER], [("line counting", LEXER + ": t_NEWLINE, t_COMMENTOUT, t_DIRECTIVE"),
                     ("propagation of line numbers", PARSER + ": p.set_lineno")],
   ("TLA+ tokenizer and grammar with lines, checked by TLC against recorded parses", TV,
    "Random layouts (comments, continuation lines, directives) of random sources. Members of declaration lists are "
    "compared through the line of their declaration."),
   ["pyverilog.vparser.parser.parse"]),
 P("C06", "Code generated from a syntax tree denotes the same program",
   "For every source the parser accepts, the Verilog text the code generator writes for its syntax tree is valid, and "
   "parsing that text yields the tree again: every construct, operator grouping, literal, range, delay and connection is "
   "preserved. Declarations of several names may be split into one declaration per name, and begin/end may be added "
   "around the declarations of a generate branch.",
   ["programs"], "all syntax trees of accepted sources",
   "The code generation tests compare the text for a few designs; each node kind and each operator pair has its own "
   "template or parenthesis rule.",
   [CODEGEN, "pyverilog/ast_code_generator/template", "pyverilog/utils/op2mark.py"],
   [("visit methods and templates", CODEGEN), ("parenthesis deletion", CODEGEN + ": visit_Operator, del_paren, del_space")],
   ("TLA+ executable grammar checked by TLC: source and generated text must denote the same tree", TV,
    "All operator pairs in all operand positions incl. ranges and loop heads, and random sources over the whole grammar. "
    "default_nettype is a directive, not part of the tree, and is left out."),
   ["pyverilog.ast_code_generator.codegen.ASTCodeGenerator.visit"]),
]

DF = "pyverilog/dataflow/"
BV = DF + "bindvisitor.py"
SV = DF + "signalvisitor.py"
FLOW_TECH = ("TLA+ elaboration and data flow semantics (spec/VElab, spec/VFlow, spec/VSem) checked by TLC: the recorded graph "
             "and the elaborated source must give every signal the same value")
PROPS += [
 P("C07", "Results depend only on sources and options, not on what was done before",
   "Parsing, tokenizing, data flow analysis and the tools working on its result (tree walk, optimizer, subset, code "
   "generator, graph, control flow) and Verilog code generation return the same result, or the same error, whatever the "
   "same process or the same objects were used for before, whether a source is given as a file or as text, and whatever "
   "Python's hash seed; a parser object and a code generator may be used again, also after an error; preprocessing options "
   "and macros of one use do not reach the next; a failed preprocessing is an error and not an earlier text; no operation "
   "leaves files behind except the parser tables, or changes a tree or data flow graph returned earlier.",
   ["histories", "programs"], "all histories of operations and all sources",
   "Every test makes new objects, for one design, in a process whose state the tests before it do not disturb, and deletes "
   "what is left behind.",
   ["pyverilog/vparser/parser.py", "pyverilog/vparser/lexer.py", "pyverilog/vparser/preprocessor.py", DF + "dataflow_analyzer.py",
    DF + "optimizer.py", DF + "subset.py", CODEGEN],
   [("state of a parser and its lexer", "pyverilog/vparser/parser.py: VerilogParser, VerilogCodeParser; lexer.py: reset"),
    ("intermediate files", "pyverilog/vparser/preprocessor.py: VerilogPreprocessor"),
    ("the graph is given to several tools", DF + "optimizer.py, merge.py, subset.py, walker.py; controlflow")],
   ("TLA+ state machine of sessions (spec/SessionGen); recorded sessions checked by TLC against it (spec/CheckSession)", TV,
    "Every history of two operations and random ones of five (quick) over nine sources, including erroneous ones, twelve "
    "combinations of files, texts, macros and include paths. Text that is not parsed again is compared with the result of a "
    "new process given only the preprocessed text."),
   ["pyverilog.vparser.parser.parse", "VerilogCodeParser.parse", "pyverilog.dataflow.dataflow_analyzer.VerilogDataflowAnalyzer"]),
 P("C08", "The data flow of continuous assignments denotes the values of the design",
   "For every design built from continuous assignments (also of wire declarations), the data flow graph the analyzer "
   "returns gives every declared signal the value the Verilog design gives it, for every value of the inputs: operators, "
   "constants, widths, conditional operators, selects with constant and variable positions, ascending and offset ranges, "
   "concatenations and repetitions as sources and as targets, partial assignments, parameters. Two-state values; no sign.",
   ["programs", "inputs"], "all acyclic designs of continuous assignments and all input values",
   "The dataflow tests compare the printed graph of a dozen fixed designs; no test computes what a graph means.",
   [BV, DF + "reorder.py", DF + "optimizer.py", DF + "dataflow.py"],
   [("expression trees", BV + ": makeDFTree"), ("destinations", BV + ": getDestinations, getDst, setDataflow"),
    ("conditional operators moved outwards", DF + "reorder.py")],
   (FLOW_TECH, TV, "Every expression up to a size (spec/ExprGen enumerates them) and random designs; a few input vectors per "
    "design. Signals up to 30 bits; conditional operands of equal width (reordering changes the context width otherwise)."),
   ["pyverilog.dataflow.dataflow_analyzer.VerilogDataflowAnalyzer.getBinddict"]),
 P("C09", "The data flow of combinational always blocks and functions denotes their values",
   "For every combinational always block and every function, the data flow graph gives each variable and each function "
   "result the value the procedural code computes, for every value of the inputs: the last assignment on the path taken "
   "wins, a statement that reads a variable sees the value assigned before, if/else, case with any item order and several "
   "labels, nested and named blocks, unrolled for loops, partial assignments and indexed bits.",
   ["programs", "inputs"], "all such blocks and functions and all input values",
   "The analyzer rewrites paths into trees with renamed variables; every order of assignments, conditions and reads is a "
   "different rewriting, and the tests fix six of them by their printed form.",
   [BV, DF + "visit.py", DF + "replace.py", DF + "reorder.py"],
   [("blocking assignments, renaming, merging of paths", BV + ": addDataflow_blocking, makeBind, diffBranchTree, resolveBlockingAssign"),
    ("scopes and visible assignments", DF + "visit.py: FrameTable.getBlockingAssign"), ("case as if", BV + ": visit_CaseStatement")],
   (FLOW_TECH, TV, "Every statement program of up to five steps over two variables (spec/StmtGen, six in the thorough tier), and "
    "random blocks and functions. Assignments that alternate between a whole variable and its parts are a known finding."),
   ["pyverilog.dataflow.dataflow_analyzer.VerilogDataflowAnalyzer.getBinddict"]),
 P("C10", "The data flow of clocked always blocks denotes the next state of the registers",
   "For every edge triggered always block, the data flow graph gives each register and memory word the value it has after "
   "the active edge, for every state and input: the last nonblocking assignment on the path taken wins, right sides and "
   "conditions read the state before the edge, an unassigned register keeps its value, resets, partial and indexed "
   "assignments, memories.",
   ["programs", "inputs", "histories"], "all such blocks, all states and inputs",
   "As for combinational blocks; in addition the kept value of a register is implicit in a missing branch, which no test "
   "checks.",
   [BV, DF + "visit.py", DF + "reorder.py"],
   [("nonblocking assignments", BV + ": addDataflow, setNonblockingAssign, makeBind"), ("clock and reset", BV + ": visit_Always")],
   (FLOW_TECH, TV, "Every statement program of up to seven steps over two registers, and random designs from random states, one "
    "step each. Writes to one memory through different address expressions are a known finding."),
   ["pyverilog.dataflow.dataflow_analyzer.VerilogDataflowAnalyzer.getBinddict"]),
 P("C11", "Instances, parameters and generate blocks elaborate as in Verilog",
   "For every hierarchical design the graph gives every signal of every instance the value the elaborated design gives it: "
   "port connections by name and by position in any order, parameters with defaults, overrides by name and by position, "
   "parameters and local parameters computed from others, ranges depending on parameters, generate for and if (also nested "
   "and depending on parameters) with their own signals.",
   ["programs", "inputs"], "all hierarchies, overrides and generate conditions",
   "Few tests have an instance, none compares values across the hierarchy or a parameter computed from an overridden one.",
   [SV, BV, "pyverilog/dataflow/modulevisitor.py"],
   [("parameters of an instance", SV + ": _visit_Instance_body, setInstanceConstants"), ("port binds", BV + ": addInstancePortBind"),
    ("generate", BV + ": visit_ForStatement, visit_IfStatement; " + SV)],
   (FLOW_TECH, TV, "Random hierarchies of parameterized modules with generate constructs, registers, functions."),
   ["pyverilog.dataflow.dataflow_analyzer.VerilogDataflowAnalyzer.getBinddict"]),
 P("C12", "The tables of signals and instances list exactly the elaborated design",
   "For every design the analyzer returns one term for each declared signal, parameter and local parameter of each "
   "instance and generate block, with its kinds (input, output, wire, reg, integer, ...), bounds and dimensions under the "
   "parameters of that instance, and no other term except its own renamed copies and the locals of functions; and it "
   "returns exactly the instances of the design with their modules. A graph mentions no signal without a term.",
   ["programs"], "all designs",
   "Terms are printed for a few flat designs; the kind, range and scope of a signal depend on how and where it is declared.",
   [SV, BV, DF + "dataflow.py"],
   [("signal tables per scope", SV), ("terms", BV + ": addTerm"), ("instances", "pyverilog/dataflow/dataflow_analyzer.py: getInstances")],
   ("TLA+ elaboration (spec/VElab) checked by TLC against the recorded tables of terms and instances", TV,
    "Random designs of all kinds. Implicit nets and locals of functions are left out."),
   ["pyverilog.dataflow.dataflow_analyzer.VerilogDataflowAnalyzer.getTerms", "VerilogDataflowAnalyzer.getInstances"]),
 P("C13", "State signals carry the clock and reset of their process",
   "For every edge triggered always block, the binds of exactly the signals it assigns carry the clock and the reset of its "
   "sensitivity list: the signal whose name contains clk or clock, and the one whose name contains rst or reset, in any "
   "letter case and order, each with its edge and, for an element of a vector, its bit. Other signals carry none.",
   ["programs"], "all sensitivity lists, names and hierarchies",
   "The tests use CLK and RST in one order.",
   [BV, DF + "visit.py", DF + "dataflow.py"],
   [("clock and reset of a process", BV + ": visit_Always, _createAlwaysinfo"), ("attached to binds", BV + ": addBind, makeBind")],
   ("TLA+ elaboration and naming convention (spec/CheckFlow, mode clocks) checked by TLC against recorded graphs", TV,
    "Random designs with one to four registers, different clock and reset names, vector clocks, edges and orders, in "
    "hierarchies and generate blocks."),
   ["pyverilog.dataflow.dataflow.Bind.getClockName"]),
 P("C14", "Constant resolution and optimization preserve the meaning of a data flow graph",
   "For every design of the supported subset, resolving the constants (VerilogDataflowOptimizer.resolveConstant) and "
   "optimizing the tree, range and address of every bind yields a graph that gives every signal the same value as the "
   "design, for every input and state, after settling and after a clock edge; resolved parameters have their elaborated "
   "values; and the terms and binds given to the optimizer are not modified.",
   ["programs"], "all expressions and all input values",
   "The optimizer has no tests of its own; a wrong simplification shows only for particular operand widths and values.",
   [DF + "optimizer.py", DF + "merge.py", DF + "reorder.py"],
   [("constant folding", DF + "optimizer.py: optimizeConstant, evalOperator"),
    ("simplification", DF + "optimizer.py: optimizeHierarchy, mergeStaticNodes, mergeLandLor, mergeConcat, takePart"),
    ("resolution of parameters", DF + "optimizer.py: resolveConstant")],
   ("TLA+ elaboration and bit vector semantics (VElab, VSem, VFlow) checked by TLC against recorded optimized graphs", TV,
    "Every pair of 21 operands under 23 operators, 16384 combinations of logical operators, 3150 concatenations of selects, "
    "5764 constant operations (spec/OptGen), concatenations taken apart at every pair of positions, and random designs."),
   ["pyverilog.dataflow.optimizer.VerilogDataflowOptimizer"]),
 P("C15", "State machines are extracted with exactly the transitions the design makes",
   "For every clocked block with a state register that is assigned constants, VerilogControlflowAnalyzer reports a state "
   "machine for it whose transitions are those of the next state function while no reset is active: in any state and for any "
   "input, a reported transition whose condition holds leads to the next state, and every change of state has a reported "
   "transition whose condition holds. The reported loops are the elementary cycles of these transitions (of up to 50 states), each once. A signal "
   "reported as active in a state under a condition is not 0 there whenever the condition holds.",
   ["programs", "inputs"], "all next state functions written with if, case and ?:, over state comparisons, inputs and wires",
   "The tests print the machines of five fixed designs; which states a condition leaves, and which it excludes along a nest "
   "of other branches, differs per program.",
   ["pyverilog/controlflow/controlflow_analyzer.py", "pyverilog/controlflow/splitter.py", "pyverilog/controlflow/transition.py",
    "pyverilog/controlflow/active_analyzer.py", "pyverilog/utils/inference.py", "pyverilog/dataflow/walker.py"],
   [("transitions of a state register", "pyverilog/controlflow/controlflow_analyzer.py: getFiniteStateMachines, _getFiniteStateMachine"),
    ("states a condition admits", "pyverilog/utils/inference.py; pyverilog/controlflow/transition.py"),
    ("loops", "pyverilog/controlflow/controlflow_analyzer.py: FiniteStateMachine.get_loop"),
    ("active conditions", "pyverilog/controlflow/active_analyzer.py")],
   ("TLA+ next state function of the elaborated design (spec/CheckFsm over VElab) checked by TLC against recorded machines", TV,
    "Every statement program of spec/FsmGen, and random machines; every state of the register with random inputs. Registers "
    "with constant next values, resets tested on their own, delaycnt 0, wires as wide as their expressions. Bitwise "
    "operators on vectors as conditions, and wires narrower than their expressions, are known findings."),
   ["pyverilog.controlflow.controlflow_analyzer.VerilogControlflowAnalyzer.getFiniteStateMachines"]),
 P("C16", "A sub graph is exactly what its targets depend on",
   "For every design and every list of target signals, VerilogSubset.getBindSourceSubset returns the binds of the targets and "
   "of every signal they transitively depend on through operands, conditions, indices, parameters of declared ranges and "
   "clocks, each once and unchanged, and no other bind; and as sources exactly the signals that those read.",
   ["programs", "inputs"], "all designs and target lists",
   "No test covers it; a missing dependency shows only for particular graphs (loops, shared operands, several targets).",
   [DF + "subset.py", DF + "merge.py"],
   [("dependencies", DF + "subset.py: getBindSubset, getBindSourceSubset"), ("operands of a tree", DF + "merge.py: getBindSources, getTreeSources")],
   ("TLA+ closure of the dependency relation (spec/CheckSubset) computed by TLC on recorded graphs", TV,
    "Random designs of all kinds, zero to five targets anywhere in the hierarchy except in generate loops (which cannot be named)."),
   ["pyverilog.dataflow.subset.VerilogSubset.getBindSourceSubset"]),
 P("C17", "The module generated from a data flow graph computes what the design computes",
   "For every design and every list of target signals (or the whole design), the text VerilogCodeGenerator generates is a "
   "Verilog module in which each signal of the sub graph has, for every input and state, the value it has in the design, "
   "after settling and after a clock edge, and each register the clock and reset it has in the design.",
   ["programs", "inputs"], "all designs, targets and input values",
   "No test covers it; values depend on ranges, parameters, order of declarations and the rendering of every operator.",
   [DF + "dataflow_codegen.py", DF + "subset.py", DF + "dataflow.py"],
   [("module text", DF + "dataflow_codegen.py: _toCode"), ("text of terms, binds and trees", DF + "dataflow.py: tocode"),
    ("kinds of assignment", DF + "subset.py: _discretion; " + DF + "merge.py: getAssignType")],
   ("TLA+ elaboration of source and generated text (VGrammar, VElab, VSem in spec/CheckSubset), compared by TLC", TV,
    "Random designs of all kinds without concatenated assignment targets (a known finding), random inputs and states."),
   ["pyverilog.dataflow.dataflow_codegen.VerilogCodeGenerator.generateCode"]),
]
