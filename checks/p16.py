import collections
from semantic_common import *
from p15 import count


class Graph(object):
    """a module text together with what every signal is defined from"""

    def __init__(self, rng, clk="CLK"):
        r = self.r = rng
        self.reads, self.kind, self.clock, self.inputs = {}, {}, {}, set()
        n = r.randrange(4, 16)
        self.names = ["s%d" % i for i in range(n)]
        self.clks = [x.replace("s", "clk_s") for x in r.sample(self.names, r.choice([0, 1, 2]))]
        self.names = [x if x.replace("s", "clk_s") not in self.clks else x.replace("s", "clk_s") for x in self.names]
        body, ports, decl = [], ["CLK", "RST_X", "clk2", "a", "b", "c"], []
        self.widths = {}
        self.inputs |= set(ports)
        params = ["parameter P0 = 4", "localparam Q0 = P0 * 2", "localparam Q1 = Q0 + P0", "parameter P1 = 3"]
        self.pdefs = {"P0": set(), "Q0": {"P0"}, "Q1": {"Q0", "P0"}, "P1": set()}
        for p in params:
            k, name = p.split()[:2]
            body.append("  %s;" % p)
            self.reads[name], self.kind[name] = set(self.pdefs[name]), "parameter"
        decl = ["  input CLK, RST_X, clk2;", "  input [7:0] a;", "  input [3:0] b;", "  input c;"]
        for x in ("CLK", "RST_X", "clk2", "a", "b", "c"):
            self.reads[x] = set()
        self.vec = {"a": 8, "b": 4, "c": 1}
        kinds = self.kinds = {}
        for x in self.names:
            k = kinds[x] = r.choice(["assign", "clocked", "inst"] if x in self.clks else ["assign", "assign", "clocked", "clocked", "comb", "inst", "mem" if r.random() < 0.5 else "assign"])
            w = None if x in self.clks else r.choice([None, ("P0", 4), ("Q0", 8), 4, 8])
            rng_text, self.reads[x] = "", set()
            if w is None:
                self.vec[x] = 1
            elif isinstance(w, tuple):
                rng_text, self.reads[x] = "[%s-1:0] " % w[0], {w[0]}
                self.vec[x] = w[1]
            else:
                rng_text = "[%d:0] " % (w - 1)
                self.vec[x] = w
            decl.append("  %s %s%s%s;" % ("wire" if k in ("assign", "inst") else "reg", rng_text, x, " [0:3]" if k == "mem" else ""))
        self.mems = [x for x in self.names if kinds[x] == "mem"]
        self.subs, self.avoid, self.noparam = 0, None, False
        for x in self.names:
            k = kinds[x]
            self.kind[x] = {"assign": "assign", "inst": "assign", "comb": "combination"}.get(k, "clockedge")
            if k == "assign":
                e, s = self.expr(r.randrange(3))
                body.append("  assign %s = %s;" % (x, e))
                self.reads[x] |= s
            elif k == "comb":
                self.avoid = x
                t, s = self.stmt(x, "=", r.randrange(3))
                self.avoid = None
                body.append("  always @* %s" % t)
                self.reads[x] |= s
            elif k in ("clocked", "mem"):
                ck = r.choice(["CLK"] * 4 + ["clk2"] + self.clks * 2)
                if k == "mem":
                    self.noparam = True  # written positions are evaluated with the values known
                    ix, s1 = self.leaf()
                    self.noparam = False
                    e, s2 = self.expr(1)
                    t, s = "%s[%s] <= %s;" % (x, ix, e), s1 | s2
                    if r.random() < 0.5:
                        ce, cs = self.expr(0)
                        t, s = "if (%s) %s" % (ce, t), s | cs
                    body.append("  always @(posedge %s) %s" % (ck, t))
                else:
                    t, s = self.stmt(x, "<=", r.randrange(3))
                    if r.random() < 0.4:
                        body.append("  always @(posedge %s or negedge RST_X) if (!RST_X) %s <= 0; else %s" % (ck, x, t))
                        s = s | {"RST_X"}
                    else:
                        body.append("  always @(%s %s) %s" % (r.choice(["posedge", "negedge"]), ck, t))
                self.reads[x] |= s
                self.clock[x] = ck
            else:
                u = "u%d" % self.subs
                self.subs += 1
                e, s = self.expr(1)
                e2, s2 = self.expr(0)
                w = self.vec[x]
                body.append("  sub #(.W(%d)) %s(.i(%s), .j(%s), .clk(CLK), .o(%s));" % (w, u, e, e2, x))
                self.reads[x] |= {u + ".o"}
                self.reads.update({u + ".i": s | {u + ".W"}, u + ".j": s2 | {u + ".W"}, u + ".W": set(), u + ".clk": {"CLK"},
                                   u + ".r": {u + ".i", u + ".W"}, u + ".o": {u + ".r", u + ".j", u + ".W"}})
                self.kind.update({u + ".i": "assign", u + ".j": "assign", u + ".W": "parameter", u + ".clk": "assign", u + ".r": "clockedge",
                                  u + ".o": "assign"})
                self.clock[u + ".r"] = u + ".clk"
        self.text = "module top(%s);\n%s\n%s\nendmodule\n" % (", ".join(ports), "\n".join(decl), "\n".join(body))
        self.text = "module sub #(parameter W = 1) (input [W-1:0] i, input [W-1:0] j, input clk, output [W-1:0] o);\n  reg [W-1:0] r;\n" \
            "  always @(posedge clk) r <= i;\n  assign o = r ^ j;\nendmodule\n" + self.text
        # body order does not matter to what is read, but the declaration order of parameters does
        lines = self.text

    def leaf(self):
        r = self.r
        x = r.choice([y for y in self.names if y != self.avoid and not (self.noparam and self.kinds[y] == "comb")] + ["a", "b", "c"])
        if x in self.mems:
            i, s = r.choice([("c", {"c"}), ("b[1:0]", {"b"}), ("2", set())])
            return "%s[%s]" % (x, i), s | {x}
        n = self.vec[x]
        if n > 1 and r.random() < 0.5:
            k = r.randrange(3 if self.noparam else 4)
            if k == 0:
                return "%s[%d]" % (x, r.randrange(n)), {x}
            if k == 1:
                return "%s[1:0]" % x, {x}
            if k == 2:
                y = r.choice([z for z in self.names + ["b", "c"] if z not in self.mems and z != self.avoid and not (self.noparam and z in self.names)])
                return "%s[%s]" % (x, y), {x, y}
            return "%s[P1-1:P1-2]" % x, {x, "P1"}
        return x, {x}

    def expr(self, d):
        r = self.r
        if d <= 0:
            if r.random() < 0.1:
                return r.choice([("4'd5", set()), ("Q1", {"Q1"}), ("8'hff", set())])
            return self.leaf()
        k = r.randrange(6)
        a, s = self.expr(d - 1)
        b, t = self.expr(d - 1)
        if k == 0:
            c, u = self.expr(0)
            return "(%s ? %s : %s)" % (c, a, b), s | t | u
        if k == 1:
            return "{%s, %s}" % (a, b), s | t
        if k == 2:
            return "(%s%s)" % (r.choice("~&|!"), a), s
        if k == 3:
            return "{2{%s}}" % a, s
        return "(%s %s %s)" % (a, r.choice(["&", "|", "^", "+", "-", "==", "<", "&&", "<<"]), b), s | t

    def stmt(self, x, op, d):
        r = self.r
        if d <= 0:
            e, s = self.expr(r.randrange(2))
            return "%s %s %s;" % (x, op, e), s
        c, s = self.expr(1)
        a, t = self.stmt(x, op, d - 1)
        b, u = self.stmt(x, op, d - 1)
        if r.random() < 0.5:
            if op == "<=" and r.random() < 0.4:
                return "begin if (%s) %s end" % (c, a), s | t
            return "begin if (%s) %s else %s end" % (c, a, b), s | t | u
        return "begin case (%s) 4'd1, 4'd2: %s default: %s endcase end" % (c, a, b), s | t | u


class Check(SemCheck):
    prop = "P16"
    rule = ("generated signal graphs (cycles, several clocks, memories, parameterised ranges, instances) and generated designs; the "
            "reported sources of every signal and the subset for random sets of targets are compared with a closure over what the "
            "generator wrote, or over the reported definitions; non-trivial: distinct texts with 5 or more signals compared")
    assumptions = ["the generator's own record of the signals every definition reads"]
    counts = {"quick": 1800, "thorough": 12000}
    cfgs = [dict(clocked=0.5, func=0.3), dict(hier=3, params=0.8, gen=0.5), dict(clocked=1, mem=0.5, extclk=0.8, hier=2),
            dict(always=0.9, temps=0.5, loops=0.3)]

    def setup(self, scratch):
        pass

    def cases(self, tier, seed):
        n = self.counts[tier]
        return [["graph", i] for i in range(n * 3 // 4)] + [["design", i] for i in range(n // 4)]

    def run(self, case, ctx):
        from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
        from pyverilog.dataflow.subset import VerilogSubset
        if case[0] == "graph":
            rng = core.rng_for(self.prop, ctx.seed, case)
            g = Graph(rng)
        else:
            rng, g = self.make(case, ctx)
        self.last_source = g.text
        a, terms, binds = analyze(g.text, self.scratch)
        with repo(), quiet():
            o = VerilogDataflowOptimizer(terms, binds)
            o.resolveConstant()
            w = VerilogSubset("top", terms, binds, o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist())
        bystr = {str(k): k for k in list(terms) + list(binds)}
        main = "CLK"
        if case[0] == "graph":
            reads = {"top." + k: {"top." + x for x in v} for k, v in g.reads.items()}
            kind = {"top." + k: v for k, v in g.kind.items()}
            clock = {"top." + k: "top." + v for k, v in g.clock.items()}
        else:
            reads, kind, clock = self.model(g, terms, binds)
            cl = [s.name for d, s in g.top.ports if s.name in simrun.CLK]
            if cl and rng.random() < 0.7:
                main = cl[0]
        if main != "CLK":
            w.set_clock_info(main, "posedge")
        main = "top." + main
        before = self.dump(binds, terms)
        # ------------------------------------------------ sources of one signal
        for n in sorted(reads):
            if n not in bystr:
                if n not in {str(t) for t in terms}:
                    ctx.violation("missing-term", "%s is not in the signal table" % n, g.text)
                    return
            with repo(), quiet():
                got = {str(x) for x in w.getBindSources(bystr[n])}
            ctx.count("sources-compared")
            ctx.count("source-names", len(got))
            if case[0] == "graph":  # through the intermediate values of combinational blocks
                flat, todo = set(), list(got)
                while todo:
                    x = todo.pop()
                    if x in flat:
                        continue
                    flat.add(x)
                    if x.startswith("top._rn"):
                        with repo(), quiet():
                            reads[x] = {str(y) for y in w.getBindSources(bystr[x])}
                        kind[x] = "assign"
                        todo += reads[x]
                        ctx.count("intermediate-values")
                flat = {x for x in flat if not x.startswith("top._rn")}
            else:
                flat = got
            want, reads[n] = reads[n], got
            if flat != want:
                ctx.violation("sources", "%s: reported %s, read %s" % (n, sorted(got), sorted(want)), g.text)
                return
            for b in binds.get(bystr[n], ()):
                with repo(), quiet():
                    x, y = w.getSources(b.tree), w.getTreeSources(b.tree)
                cnt = collections.Counter()
                count(b.tree, cnt)
                if {str(z) for z in x} != set(cnt) or {str(z) for z in y} != set(cnt):
                    ctx.violation("tree-sources", "tree of %s: getSources %s, getTreeSources %s, terminals %s" % (
                        n, sorted(map(str, x)), sorted(map(str, y)), sorted(cnt)), g.text)
                    return
        # ------------------------------------------------ subsets
        for i in range(6):
            pool = sorted(n for n in reads if "." in n)
            pool = [n for n in pool if "[" not in n]
            targets = rng.sample(pool, min(len(pool), rng.choice([1, 1, 2, 3])))
            ctx.count("subsets-compared")
            want, todo, clocks = set(targets), list(targets), set()
            src = set()
            while todo:
                n = todo.pop()
                more = set(reads[n])
                src |= more
                if n in clock and clock[n] != main:
                    more.add(clock[n])
                    clocks.add(clock[n])
                for x in more - want:
                    want.add(x)
                    todo.append(x)
            with repo(), quiet():
                try:
                    gb, gs = w.getBindSourceSubset(targets)
                    sub = w.getSubset(targets)
                except RecursionError:
                    ctx.violation("endless", "subset of %s does not end" % targets, g.text)
                    return
            got = {str(k): len(v) for k, v in gb.items()}
            exp = {n: len(binds[bystr[n]]) for n in want if bystr[n] in binds}
            if got != exp:
                ctx.violation("subset", "targets %s (clock %s): missing %s, superfluous %s, counts %s" % (
                    targets, main, sorted(set(exp) - set(got)), sorted(set(got) - set(exp)),
                    {n: (got[n], exp[n]) for n in got if n in exp and got[n] != exp[n]}), g.text)
                return
            gs = {str(x) for x in gs}
            if not src <= gs or not gs <= want | clocks:
                ctx.violation("subset-sources", "targets %s: missing %s, superfluous %s" % (targets, sorted(src - gs), sorted(gs - want)), g.text)
                return
            t, par, asg, ck, comb = sub
            table = {}
            for kk, d in (("parameter", par), ("assign", asg), ("clockedge", ck), ("combination", comb)):
                for n in d:
                    table.setdefault(str(n), []).append(kk)
            bad = {n: (table.get(n), kind.get(n)) for n in set(table) | set(exp) if table.get(n) != [kind.get(n)] and kind.get(n) not in ("genvar", None)}
            if bad:
                ctx.violation("kind", "targets %s: (reported, written) %s" % (targets, dict(sorted(bad.items())[:6])), g.text)
                return
            tn = {str(x) for x in t}
            expt = {n for n in want if kind.get(n) not in ("parameter",)} - {n for n in want - src if n not in exp}
            if not expt - clocks <= tn or not tn <= want | clocks:
                ctx.violation("terms", "targets %s: declared %s, needed %s" % (targets, sorted(tn - want), sorted(expt - tn)), g.text)
                return
            ctx.count("subset-definitions", sum(exp.values()))
            ctx.count("largest-subset:%d" % (len(exp) // 10 * 10))
        # ------------------------------------------------ the whole
        with repo(), quiet():
            t, par, asg, ck, comb = w.getEntire()
        got = {str(x) for d in (par, asg, ck, comb) for x in d}
        res = {str(x) for x in w.resolved_binddict if kind.get(str(x)) != "genvar"}
        if got != res:
            ctx.violation("entire", "missing %s, superfluous %s" % (sorted(res - got), sorted(got - res)), g.text)
            return
        if self.dump(binds, terms) != before:
            ctx.violation("modified", "the definitions were modified by the queries", g.text)
            return
        if len(reads) > 6:
            ctx.nontrivial(g.text)
        if len(ctx.samples) < 1 and len(g.text) < 1400:
            ctx.sample(g.text)

    def dump(self, binds, terms):
        return sorted((str(k), [b.tostr() for b in v]) for k, v in binds.items()), sorted((str(k), t.tostr()) for k, t in terms.items())

    def model(self, g, terms, binds):
        """the same tables out of the reported definitions"""
        reads, kind, clock = {}, {}, {}
        for k, t in terms.items():
            n, cnt = str(k), collections.Counter()
            for x in (t.msb, t.lsb) + tuple(y for d in t.dims or () for y in d):
                count(x, cnt)
            for b in binds.get(k, ()):
                for x in (b.tree, b.msb, b.lsb, b.ptr):
                    count(x, cnt)
                if b.alwaysinfo is not None and b.alwaysinfo.clock_name is not None:
                    clock[n] = str(b.alwaysinfo.clock_name)
            reads[n] = set(cnt)
            ty = t.termtype
            if "Parameter" in ty or "Localparam" in ty:
                kind[n] = "parameter"
            elif "Genvar" in ty:
                kind[n] = "genvar"
            elif "Wire" in ty or not ty & {"Reg", "Integer"}:
                kind[n] = "assign"
            else:
                kind[n] = "clockedge" if n in clock else "combination"
        return reads, kind, clock

    def minimums(self, tier):
        c = self.counts[tier]
        return {"sources-compared": 10 * c, "subsets-compared": 5 * c, "distinct_nontrivial": c // 2, "subset-definitions": 10 * c}


if __name__ == "__main__":
    core.main("P16", Check())
