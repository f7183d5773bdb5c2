from syntax_common import *
from vlib.syn import N, T, flat

OPS = sorted(syn.BIN)
UNS = sorted(syn.UN)


class Check(SynCheck):
    prop = "P02"
    rule = ("expressions in every expression position: all ordered pairs and triples of binary operators written without "
            "parentheses, all unary/binary and conditional combinations, and random expressions of depth up to 6; the parsed "
            "tree must equal the tree required by IEEE 1364 precedence; non-trivial: more than 12 tokens, distinct token sequence")
    counts = {"quick": 12000, "thorough": 80000}

    def cases(self, tier, seed):
        cs = [["pair", a, b] for a in OPS for b in OPS]
        cs += [["un", u, b] for u in UNS for b in OPS]
        cs += [["unun", u, v] for u in UNS for v in UNS]
        cs += [["cond", b, ""] for b in OPS] + [["condnest", str(i), ""] for i in range(8)]
        if tier == "thorough":
            cs += [["triple", a + " " + b, c] for a in OPS for b in OPS for c in OPS]
        else:
            rng = core.rng_for("P02t", seed)
            cs += [["triple", rng.choice(OPS) + " " + rng.choice(OPS), rng.choice(OPS)] for _ in range(1500)]
        return cs + [["rand", i, ""] for i in range(self.counts[tier])]

    def leaf(self, g, i):
        s = "abcdefgh"[i]
        t = [T(s)]
        return t, N("Identifier", {"name": s, "scope": None}, t), syn.PRIMARY

    def build(self, seq):
        """operands/operators in infix order -> tree by precedence climbing over IEEE levels (all left associative)"""
        toks = flat(*[x if isinstance(x, str) else x[0] for x in seq])

        def climb(lo, hi):
            if lo == hi:
                return seq[lo][1]
            best, at = None, None
            for i in range(lo + 1, hi, 2):
                lev = syn.BIN[seq[i]][1]
                if best is None or lev <= best:
                    best, at = lev, i
            n = N(syn.BIN[seq[at]][0], {"left": climb(lo, at - 1), "right": climb(at + 1, hi)}, None)
            return n
        return toks, climb(0, len(seq) - 1)

    def expr_for(self, g, case, rng):
        kind, a, b = case
        L = lambda i: self.leaf(g, i)
        if kind == "pair":
            return self.build([L(0), a, L(1), b, L(2)])
        if kind == "triple":
            x, y = a.split()
            return self.build([L(0), x, L(1), y, L(2), b, L(3)])
        if kind == "un":
            t0, n0, _ = L(0)
            t1, n1, _ = L(1)
            ut = flat(a, t0)
            un = N(syn.UN[a], {"right": n0}, ut)
            if rng.random() < 0.5:
                return self.build([(ut, un), b, (t1, n1)])
            return self.build([(t1, n1), b, (ut, un)])
        if kind == "unun":
            t0, n0, _ = L(0)
            inner = flat("(", b, t0, ")")
            toks = flat(a, inner)
            return toks, N(syn.UN[a], {"right": N(syn.UN[b], {"right": n0}, None)}, toks)
        if kind == "cond":
            c, cn = self.build([L(0), a, L(1)])
            t, tn = self.build([L(2), a, L(3)])
            f, fn = self.build([L(4), a, L(5)])
            toks = flat(c, "?", t, ":", f)
            return toks, N("Cond", {"cond": cn, "true_value": tn, "false_value": fn}, toks)
        if kind == "condnest":
            k = int(a)
            C = lambda c, t, f: (flat(c[0], "?", t[0], ":", f[0]), N("Cond", {"cond": c[1], "true_value": t[1], "false_value": f[1]}, None))
            l = [L(i)[:2] for i in range(8)]
            x = C(l[0], l[1], C(l[2], l[3], l[4]))
            if k & 1:
                x = C(l[5], x, l[6])
            if k & 2:
                x = C(l[6], l[7], x)
            if k & 4:
                x = C((flat("(", x[0], ")"), x[1]), l[0], l[1])
            return x
        return g.expr(rng.choice([2, 3, 4, 5, 6]))

    def source(self, rng, case):
        g = self.gen(rng, extra_paren=0.06)
        name = T("m")
        et, en = self.expr_for(g, case, rng)
        if case[0] in ("unun", "un", "pair", "triple", "cond", "condnest"):
            k = rng.choice(["assign", "param", "if", "port", "index"])
            style = rng.choice(["plain", "wild", "newline", "dense"])
        else:
            k = rng.choice(["assign", "param", "if", "port", "index", "delay", "width", "concat", "case", "call", "lvalue", "sys"])
            style = "mixed"
        self.feats = set(g.features) | {"position:" + k}
        rv = N("Rvalue", {"var": en}, None)
        y = lambda: N("Lvalue", {"var": N("Identifier", {"name": "y", "scope": None}, None)}, None)
        asg = lambda r: N("Assign", {"left": y(), "right": N("Rvalue", {"var": r}, None), "ldelay": None, "rdelay": None}, None)
        idn = lambda s: N("Identifier", {"name": s, "scope": None}, None)
        if k == "assign":
            it, n = flat("assign", "y", "=", et, ";"), asg(en)
        elif k == "param":
            it = flat("localparam", "P", "=", et, ";")
            n = N("Decl", {"list": [N("Localparam", {"name": "P", "value": rv}, None)]}, None)
        elif k == "if":
            it = flat("always", "@", "*", "if", "(", et, ")", "y", "=", "a", ";")
            st = N("BlockingSubstitution", {"left": y(), "right": N("Rvalue", {"var": idn("a")}, None)}, None)
            n = N("Always", {"statement": N("IfStatement", {"cond": en, "true_statement": st, "false_statement": None}, None)}, None)
        elif k == "port":
            it = flat("sub", "u", "(", ".", "p", "(", et, ")", ",", ".", "q", "(", et, ")", ")", ";")
            n = N("InstanceList", {"instances": [N("Instance", {"portlist": [N("PortArg", {"portname": p, "argname": en}, None) for p in "pq"]}, None)]}, None)
        elif k == "index":
            it = flat("assign", "y", "=", "v", "[", et, "]", ";")
            n = asg(N("Pointer", {"var": idn("v"), "ptr": en}, None))
        elif k == "delay":
            it = flat("assign", "#", "(", et, ")", "y", "=", "a", ";")
            n = N("Assign", {"left": y(), "right": N("Rvalue", {"var": idn("a")}, None), "ldelay": N("DelayStatement", {"delay": en}, None)}, None)
        elif k == "width":
            it = flat("wire", "[", et, ":", "0", "]", "w", ";")
            n = N("Decl", {"list": [N("Wire", {"name": "w", "width": N("Width", {"msb": en}, None)}, None)]}, None)
        elif k == "concat":
            it = flat("assign", "y", "=", "{", "a", ",", et, ",", "{", "3", "{", et, "}", "}", "}", ";")
            rp = N("Repeat", {"times": N("IntConst", {"value": "3"}, None), "value": N("Concat", {"list": [en]}, None)}, None)
            n = asg(N("Concat", {"list": [idn("a"), en, rp]}, None))
        elif k == "case":
            it = flat("always", "@", "*", "case", "(", et, ")", et, ",", "a", ":", "y", "=", et, ";", "endcase")
            st = N("BlockingSubstitution", {"left": y(), "right": rv}, None)
            n = N("Always", {"statement": N("CaseStatement", {"comp": en, "caselist": [N("Case", {"cond": [en, idn("a")], "statement": st}, None)]}, None)}, None)
        elif k == "call":
            it = flat("assign", "y", "=", "f", "(", et, ",", "a", ",", et, ")", ";")
            n = asg(N("FunctionCall", {"name": idn("f"), "args": [en, idn("a"), en]}, None))
        elif k == "lvalue":
            it = flat("assign", "v", "[", et, "]", "=", "a", ";")
            n = N("Assign", {"left": N("Lvalue", {"var": N("Pointer", {"var": idn("v"), "ptr": en}, None)}, None)}, None)
        else:
            it = flat("assign", "y", "=", "$signed", "(", et, ")", ";")
            n = asg(N("SystemCall", {"syscall": "signed", "args": [en]}, None))
        toks = flat("module", name, ";", it, "endmodule")
        m = N("ModuleDef", {"name": "m", "items": [n]}, None)
        return toks, N("Source", {"description": N("Description", {"definitions": [m]}, None)}, None), style

    def run(self, case, ctx):
        ctx.count("kind:" + case[0])
        SynCheck.run(self, case, ctx)

    def minimums(self, tier):
        m = {"kind:pair": len(OPS) ** 2, "kind:un": len(UNS) * len(OPS), "kind:rand": 1000,
             "indexed_select_evaluations": 300, "distinct_nontrivial": 3000}
        for f in ("select:", "select+:", "select-:", "const:float", "const:string", "hierarchical-name", "call", "syscall",
                  "concat", "repeat", "cond"):
            m["feature:" + f] = 20
        return m


if __name__ == "__main__":
    core.main("P02", Check())
