"""Writes /verif/properties.jsonl (one property per line).  Run after editing PROPS."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    a["hook_needed"] = False
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PARSER = "pyverilog/vparser/parser.py"; LEXER = "pyverilog/vparser/lexer.py"; AST = "pyverilog/vparser/ast.py"
PRE = "pyverilog/vparser/preprocessor.py"; CG = "pyverilog/ast_code_generator/codegen.py"
DA = "pyverilog/dataflow/dataflow_analyzer.py"; BV = "pyverilog/dataflow/bindvisitor.py"; VI = "pyverilog/dataflow/visit.py"
SV = "pyverilog/dataflow/signalvisitor.py"; MV = "pyverilog/dataflow/modulevisitor.py"; DF = "pyverilog/dataflow/dataflow.py"
OP = "pyverilog/dataflow/optimizer.py"; RE = "pyverilog/dataflow/reorder.py"; RP = "pyverilog/dataflow/replace.py"
WK = "pyverilog/dataflow/walker.py"; MG = "pyverilog/dataflow/merge.py"; SS = "pyverilog/dataflow/subset.py"
DCG = "pyverilog/dataflow/dataflow_codegen.py"; GG = "pyverilog/dataflow/graphgen.py"
CA = "pyverilog/controlflow/controlflow_analyzer.py"; SP = "pyverilog/controlflow/splitter.py"; TR = "pyverilog/controlflow/transition.py"
AA = "pyverilog/controlflow/active_analyzer.py"; AR = "pyverilog/controlflow/active_range.py"
UT = "pyverilog/utils"

prop("P01", "Parsed module structure mirrors the source",
     "For every legal module text, the syntax tree holds exactly the declared items in source order: parameters and localparams, ports in either header style, nets, regs, integers, genvars, memories, continuous assignments, instances with their parameter and port bindings, generate constructs, functions and tasks. Every item carries the name, direction, kind, signedness, range, array dimensions, initial value, delay and instance-array range written in the source, and nothing else.",
     ["inputs"], "every module of the supported Verilog-2001 subset, in any mix and order of items",
     "The parser tests parse five fixed files and compare a dump; the item and attribute combinations that must be right are unbounded.",
     [PARSER, LEXER, AST], [("grammar actions that build declarations, ports and instances", PARSER), ("tree node classes", AST)],
     "the tree returned by parsing a text")

prop("P02", "Expressions are parsed with Verilog precedence and literals kept exact",
     "For every legal expression, the tree groups operands as IEEE 1364 precedence and associativity (unary, power, multiplicative, additive, shift, relational, equality, bitwise, logical, conditional) and the written parentheses require. Every operator maps to its own node kind, a part select (including the +: and -: forms) denotes exactly the selected bit range, and each number, string, identifier, hierarchical name, concatenation, replication and call keeps the spelling, arguments and order written in the source.",
     ["inputs"], "every expression over all unary/binary/ternary operators, nesting shapes, parenthesisation, literal formats and white space or comments between tokens",
     "Precedence must hold for every pair and triple of operators and every nesting; tests touch a handful of expressions.",
     [PARSER, LEXER], [("operator precedence table and expression productions", PARSER), ("token definitions", LEXER)],
     "the right-hand sides in the tree returned by parsing a text")

prop("P03", "Behavioural statements keep their nesting, order and timing controls",
     "For every legal procedural text, the tree reproduces the statement structure: else branches attach to the nearest if, case kinds, labels, label lists and defaults stay in order, loops keep init/condition/step/body, blocks keep their kind, name and statement order, and blocking and non-blocking assignments keep their target, value and delays. Sensitivity lists keep each event's edge kind, signal and order.",
     ["inputs"], "every nesting of the supported procedural statements up to any depth",
     "Statement nesting is unbounded and conflicts in the grammar only show for particular combinations.",
     [PARSER, AST], [("statement productions", PARSER)], "the tree returned by parsing a text")

prop("P04", "Every tree node reports the source line of its construct",
     "Every node of the tree carries the number of the line holding the first token of its construct (for a binary or conditional expression, of its left operand, for a declared signal, of a line within its declaration), and where an end line is reported it is the line of the construct's last token. Line numbers stay exact across blank lines, comments of both kinds, compiler directives and multi-line constructs, and compiler directives are reported in order with their own text and line.",
     ["inputs"], "every layout of the same token sequence over lines",
     "Line attribution has to hold for each node kind under each layout; the tests compare fixed layouts of five files.",
     [PARSER, LEXER], [("line propagation in grammar actions", PARSER), ("line counting and directive capture", LEXER)],
     "line attributes of the nodes, reported directives")

prop("P05", "Malformed text is rejected at its line and no token is silently dropped",
     "A text with unbalanced or missing brackets, block delimiters or statement terminators, with stray tokens, or with an illegal character raises the parser's error, and the error names the line of the offending token (or end of input). A text that is accepted is accounted for completely: writing the returned tree back out in token form gives the token sequence of the source, up to redundant parentheses and unary plus.",
     ["inputs"], "every single-token deletion, duplication, replacement and swap of a legal text",
     "The number of malformed texts is unbounded and no test feeds one.",
     [PARSER, LEXER], [("syntax error reporting", PARSER), ("illegal character reporting", LEXER)],
     "raised error and message, or returned tree")

prop("P06", "Preprocessing expands as Verilog defines and leaves no debris",
     "Parsing a set of source files with given macro definitions and include directories yields the same tree as parsing the text obtained by expanding macros, includes and conditional sections by hand and concatenating the files in the order given. Files and in-memory texts are accepted, the files passed in are not modified, and no temporary file is left behind.",
     ["inputs", "configurations"], "every combination of files, include directories, macro definitions and nested conditional sections",
     "One test runs one file with no macros.",
     [PRE, PARSER], [("external preprocessor invocation and temporary files", PRE), ("code parser front end", PARSER)],
     "tree returned by the file-level parse; directory contents before and after")

prop("P07", "Generated code parses back to the same tree",
     "For every tree obtained by parsing legal source, generating Verilog from it succeeds and parsing that text gives a tree equal in every field to the original, line numbers aside (a declaration of several names may be split into one declaration per name). Generating again from the re-parsed tree gives the same text.",
     ["inputs"], "every tree the parser can produce from the supported subset",
     "The code generator tests print three fixed small trees.",
     [CG, "pyverilog/ast_code_generator/template", UT + "/op2mark.py", PARSER], [("per-node visitor methods", CG), ("text templates", "pyverilog/ast_code_generator/template")],
     "generated text; tree of the generated text")

prop("P08", "Code generated from a hand-built tree denotes that tree",
     "For every well-formed tree built through the public node constructors, whatever way operators, selects, concatenations, statements and items are nested, the generated text parses to that same tree (a declaration of several names may be split, and begin/end around a single statement or a unary plus may differ). Parentheses, block delimiters and separators are emitted wherever the tree would otherwise be re-read differently.",
     ["inputs"], "every well-formed tree built from the public node classes, including shapes no parse would produce directly",
     "Tests build three trees; grouping errors only appear for particular parent/child pairs.",
     [CG, UT + "/op2mark.py", AST], [("operator printing and parenthesis removal", CG), ("operator precedence table for printing", UT + "/op2mark.py")],
     "generated text; tree of the generated text")

prop("P09", "A regenerated design behaves like the original in simulation",
     "For every legal synthesizable design, the text generated from its tree compiles with an independent Verilog simulator and, for any stimulus, every output takes the same value at every step as in the original design.",
     ["inputs", "histories"], "every synthesizable design of the supported subset and every stimulus sequence",
     "Equality of behaviour has to hold for each design and stimulus; no test simulates anything.",
     [PARSER, CG], [("parse then generate pipeline", CG)], "output waveforms of original and regenerated design")

prop("P10", "Elaborated instances and signal tables are complete and exact",
     "After dataflow analysis of a hierarchical design, the instance table lists exactly the module instances of the elaborated design, with their hierarchical names and modules, and the signal table lists exactly the signals, parameters and localparams declared in each instance and generate scope. Every entry carries its declared kind and direction, and its range evaluates to the declared range under that instance's parameter values.",
     ["inputs"], "every hierarchy of modules with parameter overrides, generate loops and conditionals",
     "Hierarchies and parameter bindings are unbounded; tests compare printed binds of a few fixed designs.",
     [DA, SV, MV, VI], [("signal collection per scope", SV), ("module and parameter table", MV), ("frame table", VI)],
     "instance and term tables returned by the analyzer")

prop("P11", "Combinational dataflow definitions compute what the design computes",
     "For every unsigned, width-uniform design (the operands of an operator, the branches of a conditional and both sides of an assignment or port connection have one width), evaluating the definitions reported for a combinationally driven signal on any input values yields the value the signal settles to when the design is simulated, undefined (x) values aside. This covers continuous assignments, combinational always blocks with if/case, blocking temporaries, bit and part selects, concatenations, functions, port connections across the hierarchy and generate constructs.",
     ["inputs", "histories"], "every combinational design of the supported subset, every input valuation",
     "It is a statement about all input values of all designs; tests compare printed trees on fixed designs.",
     [BV, VI, DA, DF], [("definition construction from assignments and branches", BV), ("scoped blocking values", VI)],
     "bind table evaluated on input vectors vs. simulated values", None)

prop("P12", "Clocked dataflow definitions give the next state, clock and reset",
     "For every register assigned in an edge-triggered block of an unsigned, width-uniform design (as for combinational definitions), evaluating its reported definitions on the current state and inputs yields the value it holds after the next active edge, a missing branch meaning that it keeps its value. The definitions report the clock signal, clock edge, reset signal and reset edge written in the event control, and combinational definitions report none.",
     ["inputs", "histories"], "every synchronous design of the supported subset and every input sequence",
     "Next-state equality must hold for every state and input; tests print a few trees.",
     [BV, VI, DF], [("clock and reset detection", BV), ("non-blocking assignment collection", VI)],
     "bind table evaluated per cycle vs. simulated register values")

prop("P13", "Parameters and constants resolve to their Verilog values",
     "Constant resolution gives every parameter and localparam of every instance the value it has in the elaborated design, through defaults, ordered and named overrides, dependent parameters and constant expressions (parameters without a range hold 32-bit integers, those with a range are compared modulo their width). Signals whose value depends on inputs are never reported as constants.",
     ["inputs"], "every parameterised hierarchy and every constant expression over the supported operators with non-negative values of at most 32 bits",
     "Constant expressions and override chains are unbounded.",
     [OP, MV, SV, BV], [("constant resolution", OP), ("instance parameter binding", BV)],
     "constant table returned by the optimizer vs. values printed by a simulator")

prop("P14", "Tree optimization never changes the value of a definition",
     "For every definition tree whose operators combine unsigned operands of one width, the optimized tree evaluates to the same value as the original for every assignment of its signals for which that value is defined, and a tree without signals is reduced to its value. Optimization does not modify the tree it is given.",
     ["inputs"], "every dataflow tree over the supported operators and every valuation of its terminals",
     "Algebraic simplifications are wrong only for particular operand shapes and values.",
     [OP, DF], [("constant folding, identity and merge rules", OP)], "optimizer output evaluated on valuations")

prop("P15", "Expanding a definition through intermediate signals preserves its value",
     "The tree obtained for a signal by walking through its intermediate combinational signals (also after merging partial assignments and reordering conditions) evaluates, on every valuation of the signals it mentions that is consistent with the design (unsigned and width-uniform, constants sized), to the same value as the signal itself; walked n steps further through registers it gives the value n clock edges later. Reordering puts the conditions of a tree above everything else. Expansion stops at registers, inputs, memories and the requested depth, and where a signal depends on itself.",
     ["inputs", "histories"], "every design of the supported subset, every signal, every consistent valuation",
     "The walk composes substitution, merging, selection trimming and reordering; errors show only for particular chains.",
     [WK, MG, RE, RP, OP], [("tree walk", WK), ("partial assignment merge", MG), ("branch reordering", RE)],
     "walked tree evaluated on simulated snapshots")

prop("P16", "Fan-in queries and subsets return exactly the transitive sources",
     "The sources reported for a signal are exactly the signals its definitions read (values, conditions and variable indices), and the subset computed for a set of targets contains the definitions of exactly the signals that can influence them, directly or through other signals, with the assignment kind of each.",
     ["inputs"], "every design graph and every set of targets",
     "Closure must hold on every graph shape including cycles through registers and several targets.",
     [SS, MG], [("recursive source collection", SS), ("source extraction from trees", MG)],
     "reported source sets and subset binds vs. an independently computed closure")

prop("P17", "Textual renderings of definitions denote the definition",
     "The Verilog-style text of a dataflow tree, definition or signal, read back as Verilog, has the same value as the tree for every valuation of its signals. It names each signal by its flattened hierarchical name and keeps clock, edge and range.",
     ["inputs"], "every dataflow tree and definition produced by analysis",
     "Rendering must parenthesise and select correctly for every tree shape.",
     [DF, DCG, UT + "/op2mark.py", UT + "/util.py"], [("text methods of tree nodes and definitions", DF)],
     "rendered text compiled and simulated")

prop("P18", "Dataflow graphs depict exactly the definition tree",
     "The graph generated for a signal has one root for the signal, one node for every operator, select, branch, concatenation and constant occurrence of its definition tree and the referenced signals as leaves, connected by exactly the tree's parent-child edges with condition/true/false and variable/index labels.",
     ["inputs"], "every definition tree",
     "Graph shape has to match for every tree; the module is never imported by the tests.",
     [GG], [("graph visitor", GG)], "nodes and edges of the generated graph")

prop("P19", "Extracted state machines contain exactly the real transitions",
     "For every register used as a state variable (its next state depends on comparisons of the register with constants), the reported machine, counting its transitions from any state, has in every state and on all inputs a transition whose condition holds to a constant next state exactly when the design, outside reset, assigns that constant on those inputs in that state. Steps that keep the state or load a value that is not constant have no transition.",
     ["inputs", "histories"], "every state machine written with case or if chains over equality and range tests of a state register",
     "Transition inference works on ranges, negations and conjunctions whose combinations are unbounded; tests never run it.",
     [CA, SP, TR, UT + "/inference.py", UT + "/signaltype.py"], [("condition list inference", TR), ("state machine construction", CA)],
     "reported machine vs. next-state table computed by exhaustive simulation")

prop("P20", "Reported loops are exactly the cycles of the state machine",
     "For every state machine, the loops reported are exactly the elementary cycles of its state-to-state transitions, each once, rotated to start at its smallest state.",
     ["inputs"], "every transition graph",
     "Cycle enumeration must be right for every graph; tests never call it.",
     [CA], [("loop search", CA)], "reported loop set vs. independent enumeration")

prop("P21", "Active conditions name exactly the states in which a signal is driven so",
     "For a signal assigned under tests of a state machine's state, the active condition analysis reports, for that machine, a (state, condition) pair whose condition holds exactly for the states and inputs on which the signal, outside reset, is assigned a constant greater than zero.",
     ["inputs", "histories"], "every state machine design with control outputs assigned per state",
     "The combination of state ranges and conditions is unbounded; tests never import this module.",
     [AA, SP, TR], [("active condition collection", AA)], "reported pairs vs. exhaustive evaluation of the design")

prop("P22", "Split cases of definitions and state ranges inferred from conditions are exact",
     "For every definition tree that is a conditional, splitting it gives pairs of a condition list and a value such that, on every valuation of its signals, all conditions of exactly one pair hold and that pair's value is the definition's value, or no pair holds where the definition keeps its value; filtering keeps exactly the pairs whose value is a constant satisfying the asked comparison, is the signal itself, or is anything else. The state ranges and remaining conditions inferred from a list of conditions (comparisons of a state signal with constants and other conditions, combined by logical and, or, not) hold exactly on the valuations on which all the conditions hold.",
     ["inputs"], "every definition tree and every condition list over a state signal and other signals",
     "Range and case algebra has to be exact for all nestings; tests only reach it through one or two machines.",
     [SP, TR, UT + "/inference.py"], [("splitting", SP), ("condition list inference", TR)], "reported pairs and ranges vs. reference evaluation on every valuation")

prop("P23", "Results are deterministic and independent of history",
     "Parsing, code generation, dataflow and control-flow analysis return the same result for the same input whatever was analysed before in the process, in whatever order independent queries are made, however often they are repeated, and under every hash seed. Queries do not modify the trees, tables or source lists passed to them.",
     ["histories", "configurations"], "every sequence of analyses in one process and every hash seed",
     "Leaks between runs and hash-order effects need particular sequences; tests run each analysis once per process.",
     [PARSER, DA, OP, WK, MG, CA], [("parser and analyzer state", PARSER), ("default arguments and caches", WK)],
     "canonical dumps of results across orders, repetitions, processes")

prop("P24", "Tree traversal, equality and renaming treat every node exactly once",
     "For every tree, children enumeration and visitors reach every descendant node exactly once, elements of a list in source order; listings show every node; equality holds exactly between trees of the same structure and field values regardless of line numbers, and equal trees hash equally; the same holds for definition trees, definition records (with their event controls) and signal records of the analyzer. The identifier visitor returns the name of every identifier node of a tree in traversal order, and identifier replacement returns a tree in which exactly the mapped identifiers are renamed.",
     ["inputs"], "every tree and pair of trees, every renaming",
     "Holds per node class and nesting; tests never compare or traverse trees.",
     [AST, UT + "/identifiervisitor.py", UT + "/identifierreplace.py"], [("children and equality methods", AST), ("identifier utilities", UT)],
     "visited node sequence, equality verdicts, renamed trees")

prop("P25", "Printed names and definitions show all their parts and can be read back",
     "The printed form (tostr) of every signal record, definition record and definition tree shows its kind and every part it has, nested and ordered as in the tree: operators and operands, select bounds, conditions and alternatives, constants with sign, value and width, destination with its range or index, signal kinds, range and dimensions; so that different definitions print differently, and printing changes nothing. The hierarchical name of every signal, written as text or given as a list of its parts, denotes exactly that signal (also inside generate loops and blocks); the scope of a name is its prefix, and joining names joins their parts.",
     ["inputs"], "every tree, record and hierarchical name",
     "The printed form is what the command line tools give their users; tests compare the text of some twenty definitions.",
     [DF, UT + "/scope.py", UT + "/util.py"], [("printing of definitions", DF), ("hierarchical names", UT + "/scope.py")],
     "printed text of reported records, names looked up in the reported tables")

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P))
