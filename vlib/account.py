"""Does a tree hold every token of its text? Counts are lower bounds: a tree may repeat a token (a range for every name of a list)."""
from collections import Counter
from . import syn

CLASSES = {"Power": "**", "Times": "*", "Divide": "/", "Mod": "%", "Plus": "+", "Minus": "-", "Sll": "<<", "Srl": ">>", "Sla": "<<<", "Sra": ">>>",
           "LessThan": "<", "GreaterThan": ">", "LessEq": "<=", "GreaterEq": ">=", "Eq": "==", "NotEq": "!=", "Eql": "===", "NotEql": "!==", "And": "&",
           "Xor": "^", "Xnor": "~^", "Or": "|", "Land": "&&", "Lor": "||", "Uminus": "-", "Ulnot": "!", "Unot": "~", "Uand": "&", "Unand": "~&", "Uor": "|",
           "Unor": "~|", "Uxor": "^", "Uxnor": "~^", "Cond": "?", "NonblockingSubstitution": "<=", "BlockingSubstitution": "=", "Assign": "=", "Concat": "{",
           "LConcat": "{", "Repeat": "{", "Width": "[", "Length": "[", "Pointer": "[", "Partselect": "[", "SensList": "@", "ModuleDef": "module", "Input": "input",
           "Output": "output", "Inout": "inout", "Wire": "wire", "Reg": "reg", "Tri": "tri", "Integer": "integer", "Real": "real", "Genvar": "genvar",
           "Parameter": "parameter", "Localparam": "localparam", "Always": "always", "AlwaysFF": "always_ff", "AlwaysComb": "always_comb",
           "AlwaysLatch": "always_latch", "Initial": "initial", "Block": "begin", "ParallelBlock": "fork", "IfStatement": "if", "ForStatement": "for",
           "WhileStatement": "while", "CaseStatement": "case", "CasexStatement": "casex", "CasezStatement": "casez", "WaitStatement": "wait",
           "ForeverStatement": "forever", "Disable": "disable", "Function": "function", "Task": "task", "GenerateStatement": "generate", "Pragma": "(*",
           "DelayStatement": "#"}
OPERAND = set("]}")


def supply(tree):
    c = Counter()

    def walk(x):
        if x is None or isinstance(x, (int, float)):
            return
        if isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
            return
        if isinstance(x, str):
            c[x] += 1
            return
        k = type(x).__name__
        f = vars(x)
        if k in CLASSES:
            c[CLASSES[k]] += 1
        if k == "Assign":
            c["assign"] += 1
        elif k == "UniqueCaseStatement":
            c["unique"] += 1
            c["case"] += 1
        elif k == "Case" and f["cond"] is None:
            c["default"] += 1
        elif k in ("Parameter", "Localparam", "Supply", "PragmaEntry"):
            c["="] += 1
            if k == "Supply":
                c["supply0"] += 1
                c["supply1"] += 1
            c["integer"] += 1 if f.get("signed") and f.get("width") is not None else 0
        elif k == "IdentifierScopeLabel":
            c["["] += 1 if f["loop"] is not None else 0
        elif k == "Integer":
            c["="] += 1 if f["value"] is not None else 0
        elif k == "Function":
            c["integer"] += 1
        elif k == "IfStatement" and f["false_statement"] is not None:
            c["else"] += 1
        elif k in ("Instance", "InstanceList"):
            c["#"] += 1 if f.get("parameterlist") else 0
        elif k == "Paramlist":
            c["#"] += 1
        elif k == "SensList":
            c["or"] += max(len(f["list"]) - 1, 0)
        elif k == "Sens" and f["type"] == "all":
            c["*"] += 1
        elif k == "StringConst":
            c['"%s"' % f["value"]] += 1
        for d in ("ldelay", "rdelay"):
            if f.get(d) is not None:
                c["#"] += 1
        if f.get("signed"):
            c["signed"] += 1
        for a, v in f.items():
            if a not in ("lineno", "end_lineno", "signed") and not a.startswith("_"):
                walk(v)
    walk(tree)
    return c


NEVER = {"(", ")", ",", ";", ":", ".", "]", "}", "endmodule", "end", "endcase", "endfunction", "endtask", "endgenerate", "join", "*)", "+:", "-:"}


def demand(tokens):
    c = Counter()
    prev = ""
    for i, t in enumerate(tokens):
        u = t
        if t == "^~":
            u = "~^"
        if t[0] == "$" and len(t) > 1:
            u = t[1:]
        if t == "+" and not (prev and (prev[-1].isalnum() or prev[-1] in "_$\"" or prev in OPERAND or prev[0] == "\\") and prev not in syn.KEYWORDS):
            pass                        # unary plus (or maybe: after a parenthesis it could begin a label, after a delay a value)
        elif t == "+" and "#" in tokens[max(i - 4, 0):i]:
            pass
        elif t == "#" and tokens[i + 1:i + 3] == ["(", ")"]:
            pass
        elif u not in NEVER:
            c[u] += 1
        prev = t
    return c


def missing(tree, tokens):
    want, have = demand(tokens), supply(tree)
    return sum(want.values()), [(t, n, have[t]) for t, n in sorted(want.items()) if have[t] < n]


def separators(tree):
    """exactly how many list separators (, and, between events, or) a text with this tree has"""
    n = 0
    todo, seen = [tree], set()      # (a range written once is shared by the names declared with it)
    while todo:
        x = todo.pop()
        if isinstance(x, (list, tuple)):
            todo.extend(x)
            continue
        if not hasattr(x, "__dict__") or id(x) in seen:
            continue
        seen.add(id(x))
        k, f = type(x).__name__, vars(x)
        if k == "Decl":
            n += max(Counter(type(y).__name__ for y in f["list"] if hasattr(y, "name")).values()) - 1
        elif k == "Paramlist":
            n += max(len(f["params"]) - 1, 0)
        else:
            for a in {"Portlist": ["ports"], "Concat": ["list"], "LConcat": ["list"], "FunctionCall": ["args"], "SystemCall": ["args"], "SensList": ["list"],
                      "Case": ["cond"], "InstanceList": ["instances", "parameterlist"], "Instance": ["portlist"], "Repeat": []}.get(k, []):
                if f[a] is not None:
                    n += max(len(f[a]) - 1, 0)
            if k == "Instance":
                todo.extend([f["portlist"], f["array"]])      # (the parameter list is its InstanceList's)
                continue
        todo.extend(v for a, v in f.items() if not a.startswith("_"))
    return n


def separator_tokens(tokens):
    """list separators of a text; an or that is the gate stands where an item may begin"""
    n, depth = 0, 0
    for i, t in enumerate(tokens):
        depth += (t in ("(", "[", "{")) - (t in (")", "]", "}"))
        n += t == "," or t == "or" and depth > 0
    return n
