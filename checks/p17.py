import re, subprocess
from semantic_common import *

WIDTHS = {"a": (3, 0, None), "b": (7, 4, None), "c": (0, 5, None), "d": (0, 0, None), "e": (7, 0, None), "m": (3, 0, (0, 3))}


class Trees(object):
    """random definition trees over the signals of WIDTHS"""

    def __init__(self, rng, df, term):
        self.r, self.df, self.term = rng, df, term

    def const(self):
        df, r = self.df, self.r
        k = r.randrange(6)
        w = r.choice([1, 3, 4, 8, 33])
        v = r.randrange(1 << min(w, 8))
        if k == 0:
            return df.DFEvalValue(v, w)
        if k == 1:
            return df.DFEvalValue(-r.randrange(1, 4), r.choice([4, 8]))
        if k == 2:
            return df.DFEvalValue(r.randrange(20))
        return df.DFIntConst(r.choice(["%d'd%d" % (w, v), "%d'h%x" % (w, v), "%d'b%s" % (w, bin(v)[2:]), "%d'o%o" % (w, v)]))

    def num(self, v):
        df, r = self.df, self.r
        k = r.randrange(4)
        if k == 0:
            return df.DFEvalValue(v)
        if k == 1:
            return df.DFIntConst(str(v))
        if k == 2:
            return df.DFOperator((df.DFIntConst("4'd%d" % v), df.DFIntConst("4'd0")), "Plus")
        return df.DFIntConst("4'd%d" % v)

    def leaf(self):
        df, r = self.df, self.r
        if r.random() < 0.2:
            return self.const()
        x = r.choice(sorted(WIDTHS))
        msb, lsb, dims = WIDTHS[x]
        t = df.DFTerminal(self.term(x))
        if dims:
            t = df.DFPointer(t, r.choice([self.num(r.randrange(4)), df.DFPartselect(df.DFTerminal(self.term("a")), self.num(1), self.num(0))]))
            if r.random() < 0.7:
                return t
        k = r.randrange(4)
        lo, hi = min(msb, lsb), max(msb, lsb)
        if lo == hi or k == 0:
            return t
        i, j = r.randrange(lo, hi + 1), r.randrange(lo, hi + 1)
        if k == 1:
            return df.DFPointer(t, self.num(i))
        if k == 2 and not dims:
            return df.DFPointer(t, df.DFPartselect(df.DFTerminal(self.term("e")), self.num(1), self.num(0))) if lo == 0 else df.DFPointer(t, self.num(j))
        i, j = (max(i, j), min(i, j)) if msb >= lsb else (min(i, j), max(i, j))
        return df.DFPartselect(t, self.num(i), self.num(j))

    def tree(self, d, top=False):
        df, r = self.df, self.r
        if d <= 0:
            return self.leaf()
        k = r.random()
        sub = lambda: self.tree(d - 1 if r.random() < 0.8 else 0)
        if k < 0.2:
            return df.DFBranch(sub(), sub(), sub())
        if k < 0.35:
            return df.DFConcat(tuple(self.sized(d - 1) for i in range(r.randrange(1, 4))))
        if k < 0.5:
            return df.DFOperator((sub(),), r.choice(["Ulnot", "Unot", "Uminus", "Uplus", "Uand", "Uor", "Uxor", "Unand", "Unor", "Uxnor"]))
        o = r.choice(["Plus", "Minus", "Times", "And", "Or", "Xor", "Xnor", "Land", "Lor", "LessThan", "GreaterThan", "LessEq", "GreaterEq",
                      "Eq", "NotEq", "Eql", "NotEql", "Sll", "Srl", "Sla", "Sra", "Divide", "Mod", "Power"])
        if o in ("Sll", "Srl", "Sla", "Sra", "Power"):
            return df.DFOperator((sub(), self.num(r.randrange(6))), o)
        return df.DFOperator((sub(), sub()), o)

    def sized(self, d):
        while True:
            t = self.tree(d)
            if isinstance(t, self.df.DFEvalValue) or not self.unsized(t):
                return t

    def unsized(self, t):
        c = type(t).__name__
        if c == "DFEvalValue":
            return t.width == 32
        if c == "DFIntConst":
            return "'" not in t.value
        if c == "DFBranch":
            return self.unsized(t.truenode) or self.unsized(t.falsenode)
        if c == "DFOperator":
            return any(self.unsized(x) for x in t.nextnodes)
        return False


class Check(SemCheck):
    prop = "P17"
    rule = ("generated designs are analysed, written out as one flat module (or the subset for some outputs) by the code generator and "
            "simulated next to the original under the same stimulus; random trees of every node kind are written out and evaluated by "
            "the simulator; non-trivial: distinct flat texts of 30 or more lines")
    assumptions = ["Icarus Verilog gives the meaning of both texts", "bits unknown in the original are not compared",
                   "selects of expressions occur only in the recorded designs"]
    counts = {"quick": 900, "thorough": 6000}
    batches = {"quick": 120, "thorough": 2000}
    witnesses = ["lconcat-select", "name-collision"]
    cfgs = [dict(lconcat=0, **c) for c in (
        {}, dict(clocked=0.7, negedge=0.4, veclk=0.4), dict(func=0.4, gen=0.7), dict(asc=0.3, lsb=0.5, dynidx=0.4, prim=0.4, temps=0.5, loops=0.4),
        dict(mem=0.4, clocked=0.6, dynlhs=0.3, memwrite=0.3), dict(casez=0.3, case=0.6, whilel=0.2, loops=0.4, ixsel=0.3),
        dict(partover=0.4, partial=0.6, nestblk=0.5, outconcat=0.3), dict(hier=5, params=0.9, arrays=0.3, override=0.5),
        dict(clocked=0.8, partial=0.5, extclk=0.6, hier=4))]

    def cases(self, tier, seed):
        return ([["witness", n] for n in self.witnesses] + [["design", i] for i in range(self.counts[tier])]
                + [["trees", i] for i in range(self.batches[tier])])

    def run(self, case, ctx):
        if case[0] == "trees":
            return self.run_trees(case, ctx)
        if case[0] == "witness":
            rng, g = core.rng_for(self.prop, 0, case), witness.get(case[1])
            ctx = Keyed(ctx, "%s:" % case[1])
            ctx.count("witness-designs")
        else:
            rng, g = self.make(case, ctx)
        self.last_source = g.text
        ports = [dict(path="top." + s.name, dims=None) for d, s in g.top.ports]
        stim = simrun.stimulus(rng, g.top, 24)
        try:
            want = simrun.simulate(g, rng, stim, self.scratch, signals=ports)
        except simrun.SimError as e:
            if "Assertion" in str(e):
                ctx.count("simulator-crashes")
                return
            raise core.HarnessError("simulation failed: %s\n%s" % (e, g.text))
        self.again = None, g, rng, stim
        a, terms, binds = analyze(g.text, self.scratch)
        from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
        from pyverilog.dataflow.dataflow_codegen import VerilogCodeGenerator
        ck = [s.name for d, s in g.top.ports if s.name in simrun.CLK]
        rs = [s.name for d, s in g.top.ports if s.name in simrun.RST]
        self.flat = {simrun.simname(str(t)): t.tocode() for t in terms if simrun.simname(str(t)) is not None}
        outs = [s.name for d, s in g.top.ports if d != "input"]
        with repo(), quiet():
            o = VerilogDataflowOptimizer(terms, binds)
            o.resolveConstant()
            rt, rb, cl = o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist()
        for targets in ((), tuple(rng.sample(outs, rng.randrange(1, len(outs) + 1)))):
            with repo(), quiet():
                w = VerilogCodeGenerator("top", terms, binds, rt, rb, cl)
                if ck:
                    w.set_clock_info(ck[0], "posedge")
                if rs:
                    w.set_reset_info(rs[0], "negedge")
                code = w.generateCode(["top." + n for n in targets])
            if not self.compare(ctx, g, rng, stim, want, code, ck, rs, targets or outs, "whole" if not targets else "subset"):
                return
        if code.count("\n") >= 30:
            ctx.nontrivial(code)
        if len(ctx.samples) < 1 and len(code) < 1800:
            ctx.sample(code)

    def initial(self, g, code):
        """the initial register values under their flat names"""
        out = []
        for l in g.init_lines:
            target, value = l.split(" = ")
            path, ix = "top" + target[3:], ""
            if path not in self.flat:
                m = simrun.ARR.match(path)
                if m is None or m.group(1) not in self.flat:
                    continue
                path, ix = m.group(1), "[%s]" % m.group(2)
            if re.search(r"\b%s\b" % re.escape(self.flat[path]), code):
                out.append("dut.u.%s%s = %s" % (self.flat[path], ix, value))
        return out

    def compare(self, ctx, g, rng, stim, want, code, ck, rs, outs, kind):
        m = re.search(r"module\s+Subset\s*\(([^)]*)\)\s*;", code)
        if m is None:
            ctx.violation("header", "no module header in the generated text", g.text)
            return False
        have = [x.strip() for x in m.group(1).split(",")]
        env = simrun.top_env(g.top)
        decl = []
        c, r = ck[0] if ck else "CLK", rs[0] if rs else "RST_X"
        con = {c: c if ck else "1'b0", r: r if rs else "1'b0", "HT_enable": "1'b1"}
        for d, s in g.top.ports:
            x, y = s.bounds(env)
            decl.append("  %s [%d:%d] %s;" % ("input" if d == "input" else "output", x, y, s.name))
            if s.name not in (c, r):
                con["top_" + s.name] = s.name
        missing = [n for n in outs if "top_" + n not in have]
        if missing or set(have) - set(con):
            ctx.violation(kind + "-ports", "ports %s; missing outputs %s, unknown ports %s" % (have, missing, sorted(set(have) - set(con))), g.text)
            return False
        wrap = "module top(%s);\n%s\n  Subset u(%s);\nendmodule\n" % (
            ", ".join(s.name for d, s in g.top.ports), "\n".join(decl), ", ".join(".%s(%s)" % (x, con[x]) for x in have))
        # a procedure woken by nothing at time zero is run once
        text = re.sub(r"always\s*@\s*(\*|\(\s*\*\s*\))", "always_comb", code) + "`default_nettype wire\n" + wrap
        ports = [dict(path="top." + n, dims=None) for n in outs]
        try:
            got = simrun.simulate(g, rng, stim, self.scratch, text=text, signals=ports, std="-g2012", timeout=5, init_lines=self.initial(g, code))
        except simrun.SimError as e:
            if "Assertion" in str(e):
                ctx.count("simulator-crashes")
                return True
            lines = text.split("\n")
            off = [lines[int(x) - 1][:160] for x in re.findall(r"sim.v:(\d+): (?:syntax )?error", str(e)) if int(x) <= len(lines)]
            ctx.violation(kind + "-compile", "%s %s" % (str(e).split("\n")[0], off[:2]), g.text)
            return False
        except subprocess.TimeoutExpired:
            ctx.count("simulator-oscillates")     # a hold written as a continuous assignment to itself
            return True
        for k, (x, y) in enumerate(zip(want, got)):
            for n in sorted(outs):
                n = "top." + n
                if x[n] is None:
                    ctx.count("unknown")
                    continue
                ctx.count("%s-values-compared" % kind)
                if x[n] != y[n] and self.stands(ctx, k, n, x[n]):
                    ctx.violation(kind + "-value", "%s at step %d %s: original %s, generated %s\n%s" % (n, k, stim[k], x[n], y[n], code[:3000]), g.text)
                    return False
        return True

    def run_trees(self, case, ctx):
        import pyverilog.dataflow.dataflow as df
        from pyverilog.utils.scope import ScopeChain, ScopeLabel
        rng = core.rng_for(self.prop, ctx.seed, case)
        mk = lambda n: ScopeChain([ScopeLabel("top", "module"), ScopeLabel(n, "signal")])
        G = Trees(rng, df, mk)
        n = 24
        trees = [G.tree(rng.randrange(1, 4)) for i in range(n)]
        with repo(), quiet():
            texts = [t.tocode("dst") for t in trees]
        self.last_source = "\n".join(texts)
        vals = [{x: ([rng.randrange(1 << (abs(m - l) + 1)) for i in range(4)] if dims else rng.randrange(1 << (abs(m - l) + 1)))
                 for x, (m, l, dims) in WIDTHS.items()} for i in range(6)]
        tb = ["module tb;"]
        for x, (m, l, dims) in sorted(WIDTHS.items()):
            tb.append("  reg [%d:%d] top_%s%s;" % (m, l, x, " [0:3]" if dims else ""))
        tb.append("  reg [7:0] dst = 0; integer i;")
        cur = {}
        name = lambda t: str(t).split(".")[-1]
        ev = dfeval.Evaluator(lambda t: cur[name(t)], lambda t: WIDTHS[name(t)], lambda t, i: cur[name(t)][i])
        ws = [rng.choice([1, 4, 8, 13]) for t in trees]
        for i, t in enumerate(texts):
            tb.append("  reg [%d:0] t%d;" % (ws[i] - 1, i))
        tb.append("  initial begin")
        for v in vals:
            for x in sorted(v):
                if isinstance(v[x], list):
                    tb += ["    top_%s[%d] = %d;" % (x, i, y) for i, y in enumerate(v[x])]
                else:
                    tb.append("    top_%s = %d;" % (x, v[x]))
            tb.append("    #1;")
            for i, t in enumerate(texts):
                tb.append("    t%d = %s;" % (i, t))
            tb.append('    $display("S%s"%s);' % (" %b" * n, "".join(", t%d" % i for i in range(n))))
        tb += ["  end", "endmodule"]
        src, out = os.path.join(self.scratch, "t.v"), os.path.join(self.scratch, "t.vvp")
        with open(src, "w") as h:
            h.write("\n".join(tb) + "\n")
        c = simrun.run([simrun.IVERILOG, "-g2005", "-o", out, src])
        if c.returncode:
            if "Assertion" in c.stderr:
                ctx.count("simulator-crashes")
                return
            bad = [tb[int(x) - 1][:300] for x in re.findall(r"t.v:(\d+): (?:syntax )?error", c.stderr)]
            ctx.violation("tree-compile", "%s\n%s" % (bad[:1], c.stderr[:300]), "\n".join(t.tostr() for t in trees if not bad or t.tocode("dst") in bad[0])[:2000])
            return
        rows = [l.split()[1:] for l in simrun.run([simrun.VVP, "-n", out]).stdout.splitlines() if l.startswith("S")]
        if len(rows) != len(vals):
            raise core.HarnessError("simulation of trees ended early")
        for v, row in zip(vals, rows):
            cur.clear()
            cur.update(v)
            for t, w, s, text in zip(trees, ws, row, texts):
                try:
                    # a branch written as an expression is one expression
                    want = ev.ev(t, max(w, ev.selfw(t))) & ((1 << w) - 1)
                except dfeval.Unknown:
                    ctx.count("unknown")
                    continue
                ctx.count("tree-values-compared")
                if not re.match("^[01]+$", s) or int(s, 2) != want:
                    ctx.violation("tree-value", "%s is %s, tree %s is %d for %s" % (text, s, t.tostr(), want, v), text)
                    return
        for t in texts:
            ctx.count("trees")
        ctx.nontrivial("\n".join(texts))

    def minimums(self, tier):
        c, b = self.counts[tier], self.batches[tier]
        return {"whole-values-compared": 40 * c, "subset-values-compared": 25 * c, "tree-values-compared": 80 * b, "trees": 20 * b,
                "distinct_nontrivial": c // 2}


if __name__ == "__main__":
    core.main("P17", Check())
