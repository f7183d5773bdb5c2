"""Writes /verif/known_findings.jsonl: FIXED (repaired, suppresses nothing) and KNOWN (recorded, suppressed by key)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("P04", "e46d421", "loops, fork/join, wait and event statements had no end line"),
 ("P02", "dd8ebba", "x[b +: w] and x[b -: w] denoted b+w:b and b:b-w, one bit too many"),
 ("P02", "1c0d475", "^~ was not read as the xnor operator"),
 ("P01", "f1d3401", "every name of a real declaration became 'real'"),
 ("P01", "f3ba85f", "wire #d x = e; named the net by its delay"),
 ("P02", "f679508", "8'sbX... was not accepted as a number"),
 ("P01", "274184a", "input signed wire a, b: b lost signedness and net kind"),
 ("P03", "b9a0ce0", "unique case lost expression and items"),
 ("P01", "0210cd2", "integer signed declarations were rejected"),
 ("P07", "8fbd6c3", "disable was printed as 'diable'"),
 ("P07", "513dbb9", "an absent event control was printed as @(*), a null statement as @(*);"),
 ("P07", "bc0bba7", "always_ff/comb/latch were not generated"),
 ("P08", "f4bad0e", "<<< was not generated"),
 ("P07", "88a9cae", "casez and unique case were not generated"),
 ("P07", "95d805c", "supply0/supply1 declarations were not generated"),
 ("P07", "b0ff26b", "delays of continuous assignments were lost in generated code"),
 ("P07", "b11c6d6", "initial values of integers were lost in generated code"),
 ("P07", "b71b0dd", "spaces after escaped identifiers and semicolons inside strings were dropped from generated code"),
 ("P07", "f3d2763", "several names in one module header parameter declaration were run together"),
 ("P07", "538bd44", "initial values of regs were printed as separate assignments"),
 ("P08", "e4f03ff", "delays that are expressions lost their parentheses"),
 ("P08", "716b0c7", "an else could attach to an inner if in generated code"),
 ("P03", "78bbd71", "the delay in front of an if statement was dropped"),
 ("P04", "a0e8281", "null statements reported no line"),
 ("P05", "90e0896", "a line comment or directive on an unterminated last line was rejected"),
 ("P04", "71dfc3d", "reusing a parser continued line numbers and directives of the previous text"),
 ("P07", "31a80ba", "items of a generate statement were run together"),
 ("P03", "907bcb5", "only the first name of a declaration in a branch was kept"),
 ("P01", "b9b525d", "parameters with a string value lost their range"),
 ("P08", "fa042c4", "for/while without initialization or body were printed without separators"),
 ("P11", "7d78b0e", "conditionals whose condition is a conditional could not be analysed (TypeError)"),
 ("P11", "6208855", "values assigned to concatenated targets were cut at the wrong bits for ranges not [n:0]"),
 ("P14", "9e60897", "constant operators were evaluated without Verilog's widths and truncation"),
 ("P14", "0bba5bd", "bits of constants were selected without their declared range"),
 ("P14", "a4fca5d", "cutting and merging parts of concatenations selected other bits"),
 ("P14", "e71e339", "merging logical operators lost their truth value"),
 ("P14", "ce073c5", "powers of two were recognised inexactly (floating point)"),
 ("P14", "21d3800", "sized signed constants had no width"),
 ("P14", "da8f007", "unary plus could not be rendered"),
 ("P14", "717920f", "bits selected from an expression that simplifies to a signal were lost"),
 ("P14", "4dbd80b", "x && ~x was folded to false for vectors"),
 ("P11", "074c776", "parameters depending on an overridden parameter kept their default in replications and ranges"),
 ("P11", "2c6eaa2", "blocking assignments to concatenations selected their part twice"),
 ("P11", "7e0779c", "unsupported selections died with NameError"),
 ("P11", "add775f", "concatenations connected to output ports could not be analysed"),
 ("P11", "446ee13", "outputs of instances were cut without regard to their declared range"),
 ("P11", "eed0df6", "casez and unique case arms were analysed as unconditional"),
 ("P11", "e0e0130", "instances of modules with ranged parameters could not be analysed"),
 ("P11", "e7b9768", "assignments under nested conditions lost the earlier value where the outer one does not hold"),
 ("P12", "e7b9768", "a non-blocking assignment before an if could come back over a later one"),
 ("P11", "84606d5", "parts assigned in a procedure and read as a whole were put together wrongly"),
 ("P13", "1c8f770", "parameters that depend on local parameters were not evaluated"),
 ("P10", "1104f34", "variables of functions were listed among the signals of the module"),
 ("P10", "98feb7e", "the instances of an array were connected to wrong bits"),
 ("P11", "98feb7e", "instance arrays: scalar connections and vector ports were cut to one wrong bit"),
 ("P10", "85d8106", "ranges that use a genvar were not evaluated, supply nets had no width"),
 ("P11", "4f81e30", "variables that a function assigns more than once were defined by themselves"),
 ("P11", "e5662a3", "two parts of one signal with the same msb were taken for one"),
 ("P11", "60226d6", "gates with several outputs, and gate terminals that do not end at bit 0"),
 ("P15", "483f934", "signals inside generate loops could not be walked by their printed names"),
 ("P15", "5168a40", "partial definitions were put together at wrong bits"),
 ("P16", "1ee4b3a", "output ports that are neither wire nor reg could not be classified (signaltype.isWireArray does not exist)"),
 ("P16", "41720bb", "the subset of registers that clock each other or themselves never ended"),
 ("P17", "a49776c", "'wire wire' and '[31:0] genvar' declarations, unsized constants in concatenations"),
 ("P18", "c889a40", "an operand used twice by one node was drawn once, a signal that holds its value was drawn under two names"),
 ("P19", "819e6a3", "a state register that keeps its value, or registers that exchange values, never ended (RecursionError)"),
 ("P20", "e04af0c", "loops were missed when their states had been seen in as many loops as they have transitions, or when longer than 50 states"),
 ("P19", "079742f", "any condition with a name that contains rst or reset anywhere (instance first_u) was dropped; a reset tested under an enable became a transition"),
 ("P21", "46ce770", "a signal active only under reset raised TypeError"),
 ("P19", "5a65276", "reductions, vector & | ~, comparisons with signals and reversed <= tests; contradicting state tests were taken for no test"),
 ("P24", "3bdaebf", "trees were equal to their prefixes and across optional slots, comparing raised IndexError, scope indices were not visited"),
 ("P24", "b220ab9", "renaming dropped scopes and lines and renamed shared nodes twice"),
 ("P24", "9408a94", "comparing delays and hashing signal records raised"),
 ("P24", "73ab8b0", "listings printed the address of a scope index"),
 ("P23", "b9c0f93", "ports and statements of generated subsets came in an order that depends on the hash seed"),
 ("P09", "f067f3e", "a[i +: 4] was generated as a[i+4-1:i], which is illegal for a variable base and reversed on ascending vectors"),
 ("P09", "c459411", "parameter integer P = 8'd255 was generated as an untyped parameter of 8 unsigned bits"),
 ("P06", "fe5738b", "texts were parsed after all files whatever their order, a file without final line end was joined with the next, failures left temporary and output files or a tree of what was preprocessed so far, one name given as a string was taken apart, a second parse of a text failed"),
 ("P05", "43140bc", "repeated and contradicting types (input input, wire reg) were accepted or refused without a line, logic variables were dropped"),
 ("P05", "21fff5d", "a[i][j].b raised AttributeError"),
 ("P15", "bfba294", "walks selected bits by index instead of position and mixed the times of registers"),
 ("P15", "f5e3709", "bits selected from a conditional were counted from the ranges of its signals"),
 ("P10", "88dcc8d", "negative constant conditions of generate blocks and loops were taken as false"),
 ("P12", "b95d876", "posedge clk[P] and posedge clk[2'd1] were refused, the bit of the clock was missing in the code of definitions"),
 ("P12", "f6fe76b", "mem[t] <= x with a variable t had as its index the last constant assigned to t anywhere, or the value t has later"),
 ("P13", "b24fc46", "$signed and $unsigned in declarations raised TypeError"),
 ("P13", "d60cb7b", "$clog2 of constants was 0"),
 ("P24", "c23eaf8", "definition records with equal event controls were unequal, reading their sensitivity list raised AttributeError"),
 ("P15", "5c06f97", "t[i] on an expanded reg [2:9] t: the position 9 - i widened an index given by an expression to 32 bits"),
 ("P25", "9546c87", "names of signals in generate loops were not found from the list of their parts"),
 ("P05", "bd3aa62", "f(, a), #(, .P(1)) and $f(, a) were accepted and the comma dropped; sub u(, a) connected a to the first port"),
 ("P15", "43085c8", "integers that hold were replaced by the signal walked"),
]
KNOWN = [
 ("P05", "logic-port:dropped", "output logic b in a port list: the tree does not hold the keyword logic"),
 ("P05", "supply-port:dropped", "output supply0 b in a port list: the tree does not hold the net type"),
 ("P09", "integer-function:output", "function integer f is generated as function [31:0] f: the result is no longer signed"),
 ("P17", "name-collision:whole-compile", "wire u_i next to port i of instance u: both are written top_u_i"),
 ("P18", "name-collision:merged-leaves", "wire u_i next to port i of instance u: both are drawn as one leaf top_u_i"),
 ("P17", "lconcat-select:whole-compile", "assign {x, y} = expression: the parts are written as selects of the expression, (a ^ b)[5:2], which is not Verilog"),
 ("P11", "asc-ixsel:meaningless", "a[2 +: 4] and a[5 -: 4] on 'input [0:7] a' select [5:2] and [2:5], reversed for the declared range"),
 ("P11", "index-conditional:raised:FormatError", "a[s ? b : c]: a conditional inside a select index is refused (MSB and LSB should not be DFBranch)"),
 ("P11", "override-part-read:value", "t = b; t[1:0] = a; then reading t in the same procedure ignores the later part assignment"),
 ("P11", "override-part-read-mid:value", "t = b; t[2:1] = a; then reading t in the same procedure ignores the later part assignment"),
 ("P11", "override-part-read-part:value", "t = b; t[2:1] = a; then reading t[1:0] in the same procedure ignores the later part assignment"),
 ("P11", "override-if-read:value", "t = b; if (c) t[2:1] = a; then reading t in the same procedure ignores the later part assignment"),
 ("P11", "shift-signed:value", "$signed(a) >>> 1: the sign of the operand is dropped"),
 ("P11", "signed:value", "$signed(a) < $signed(b): the sign of the operands is dropped"),
 ("P15", "supply:value", "supply nets expand to constants of 32 bits, ~gnd inside a concatenation reads all of them"),
 ("P15", "function-hold:value", "if (c) o = f(t): where f is not called its argument holds o in the walked tree, so that {x, x} is as wide as two o's (a stable test expects this text)"),
 ("P15", "unsized-compare:value", "s = a + b; o = s == 0 expands to (a + b) == 0, where the unsized constant widens the sum by its carry"),
]
if __name__ == "__main__":
    with open(os.path.join(V, "known_findings.jsonl"), "w") as f:
        for p, k, w in KNOWN:
            f.write(json.dumps({"kind": "known", "property": p, "key": k, "what": w}) + "\n")
        for p, c, w in FIXED:
            f.write(json.dumps({"kind": "fixed", "property": p, "entry": "fixed: property=%s %s %s" % (p, c, w)}) + "\n")
    print(len(KNOWN), len(FIXED))