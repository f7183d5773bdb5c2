import collections
import p15
import p25
from semantic_common import *


class Check(p15.Check):
    prop = "P18"
    rule = ("generated designs; graphs of random signals with random options (walked or not, several per graph, shared or separate "
            "leaves) are compared with the definition tree node by node and edge by edge; non-trivial: distinct trees of 8 or more "
            "nodes")
    assumptions = ["walking and optimization of trees are decided by P14 and P15"]
    counts = {"quick": 900, "thorough": 6000}
    witnesses = ["name-collision"]
    cfgs = p15.Check.cfgs + [dict(func=0.3, mem=0.3, clocked=0.5, dynidx=0.3)]

    def cases(self, tier, seed):
        return [["witness", n] for n in self.witnesses] + [["design", i] for i in range(self.counts[tier])] + \
            [["raw", i] for i in range(4 * self.counts[tier])]

    def setup(self, scratch):
        pass

    def run(self, case, ctx):
        from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer, VerilogOptimizer
        from pyverilog.dataflow.walker import VerilogDataflowWalker
        from pyverilog.dataflow.graphgen import VerilogGraphGenerator
        import pyverilog.dataflow.replace as replace
        import pyverilog.utils.util as util
        if case[0] == "raw":
            return self.raw(case, ctx)
        if case[0] == "witness":
            rng, g = core.rng_for(self.prop, 0, case), witness.get(case[1])
            ctx = Keyed(ctx, "%s:" % case[1])
        else:
            rng, g = self.make(case, ctx)
        self.last_source = g.text
        a, terms, binds = analyze(g.text, self.scratch)
        m = Model(g.signals, terms, binds)
        self.sizes, self.cyclic = {}, set()
        self.regs = {n for n, bl in m.binds.items() if not any(b.isCombination() for b in bl)}
        with repo(), quiet():
            o = VerilogDataflowOptimizer(terms, binds)
            o.resolveConstant()
            rt, rb, cl = o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist()
            opt = VerilogOptimizer(terms, cl)
            w = VerilogDataflowWalker("top", terms, binds, rt, rb, cl)
        pool = sorted(n for n in m.binds if not (m.terms[n].termtype & {"Parameter", "Localparam", "Genvar"}))
        for i in range(2 if case[0] == "witness" else 4):
            if not pool:
                return
            sel = pool if case[0] == "witness" else rng.sample(pool, min(len(pool), rng.choice([1, 1, 2])))
            opts = dict(walk=rng.random() < 0.6, step=rng.choice([0, 1, 1, 2]), do_reorder=rng.random() < 0.2, delay=rng.random() < 0.3)
            if case[0] == "witness":
                opts = dict(walk=False, step=1, do_reorder=False, delay=False)
            identical = rng.random() < 0.4
            if any(m.terms[n].dims is not None for n in sel):
                opts["walk"] = False    # only words of a memory can be walked
            if any(self.expansion(m, n, opts["step"]) > 700 for n in sel) and opts["walk"]:
                ctx.count("skipped-expansion-too-large")
                opts["walk"] = False
            trees = []
            with repo(), quiet():
                gen = VerilogGraphGenerator("top", terms, binds, rt, rb, cl, os.path.join(self.scratch, "g.png"), withcolor=rng.random() < 0.5)
                for n in sel:
                    t = w.getTree(util.toTermname(n))
                    if t is not None:
                        if opts["walk"]:
                            t = w.walkTree(t, visited=set(), step=opts["step"], delay=opts["delay"])
                            if opts["do_reorder"]:
                                t = self.reorder(t, opts, ctx)
                        t = opt.optimize(t)
                        if opts["do_reorder"]:
                            t = self.reorder(t, opts, ctx)
                        t = replace.replaceUndefined(t, m.terms[n].name)
                        trees.append((n, t))
                if opts.pop("again", False):
                    continue
                if any(p15.count(t, collections.Counter()) > 2500 for n, t in trees):
                    continue
                shown = []
                for n, t in trees:
                    shown.append((n, t, identical if case[0] == "witness" or rng.random() < 0.8 else not identical))
                    gen.generate(n, identical=shown[-1][2], **opts)
                graph = gen.graph
            if not trees:
                continue
            ctx.count("graphs")
            err = self.check(ctx, graph, shown)
            if err:
                ctx.violation(err[0], "%s; signals %s, options %s, identical %s" % (err[1], [n for n, t in trees], opts, identical), g.text)
                return
            for n, t in trees:
                if p15.count(t, collections.Counter()) >= 8:
                    ctx.nontrivial(t.tostr())
        if len(ctx.samples) < 1 and len(g.text) < 1500:
            ctx.sample(g.text)

    def raw(self, case, ctx):
        """trees made directly, of every kind of node; several signals in one graph"""
        from pyverilog.dataflow import dataflow as df
        from pyverilog.dataflow.optimizer import VerilogOptimizer
        from pyverilog.dataflow.walker import VerilogDataflowWalker
        from pyverilog.dataflow.graphgen import VerilogGraphGenerator
        from pyverilog.utils.scope import ScopeChain, ScopeLabel
        import pyverilog.dataflow.replace as replace
        rng = core.rng_for(self.prop, self.seed, case)
        terms, binds, sig = {}, {}, []

        def term(n, w=8):
            if n not in terms:
                terms[n] = df.Term(n, set(["Wire"]), df.DFEvalValue(w - 1), df.DFEvalValue(0))
        with repo(), quiet():
            for i in range(rng.choice([1, 1, 2, 3])):
                t = p25.Check.randomtree(self, rng)
                if "DFSyscall" in [type(x).__name__ for x in self.nodes(t)]:    # not made for any accepted design
                    continue
                n = ScopeChain([ScopeLabel("top", "module"), ScopeLabel("sig%d" % i, "signal")])
                term(n)
                for x in self.nodes(t):
                    if type(x).__name__ == "DFTerminal":
                        term(x.name)
                binds[n] = [df.Bind(t, n)]
                sig.append((n, t))
            opt = VerilogOptimizer(terms, {})
            w = VerilogDataflowWalker("top", terms, binds, terms, binds, {})
            gen = VerilogGraphGenerator("top", terms, binds, terms, binds, {}, os.path.join(self.scratch, "g.png"), withcolor=rng.random() < 0.5)
            shown = []
            for n, t in sig:
                try:
                    t = w.getTree(n)
                    if t is None:       # nothing is left of it
                        continue
                    t = replace.replaceUndefined(opt.optimize(t), n)
                    labels = [self.label(x) for x in self.nodes(t)]
                except Exception:
                    ctx.count("raw-not-optimized")
                    continue
                if "" in labels:
                    continue
                shown.append((str(n), t, rng.random() < 0.4))
                if rng.random() < 0.3 and not shown[-1][2]:     # as the options are when none are given
                    gen.generate(str(n), walk=False)
                else:
                    gen.generate(str(n), identical=shown[-1][2], walk=False, step=rng.choice([0, 1, 2]), delay=rng.random() < 0.5)
            graph = gen.graph
        if not shown:
            return
        self.last_source = "\n".join(t.tostr() for n, t in sig)
        ctx.count("raw-graphs")
        err = self.check(ctx, graph, shown)
        if err:
            ctx.violation(err[0], "%s; %s" % (err[1], [(n, i) for n, t, i in shown]), self.last_source)
            return
        for n, t, i in shown:
            for x in self.nodes(t):
                ctx.count("raw:" + type(x).__name__)
            if p15.count(t, collections.Counter()) >= 8:
                ctx.nontrivial(t.tostr())

    nodes = p25.Check.nodes

    # -------------------------------------------------------------- the tree
    def spread(self, t):
        """alternatives once every branch is at the top"""
        if type(t).__name__ == "DFBranch":
            c, a, b = [self.spread(x) if x is not None else 1 for x in (t.condnode, t.truenode, t.falsenode)]
            return min(c * (a + b), 10 ** 9)
        n = 1
        for l, x in self.kids(t):
            n = min(n * self.spread(x), 10 ** 9)
        return n

    def reorder(self, t, opts, ctx):
        from pyverilog.dataflow.reorder import reorder
        from pyverilog.utils.verror import FormatError
        if self.spread(t) * p15.count(t, collections.Counter()) > 20000:
            ctx.count("reorder-too-large")
            opts["do_reorder"] = False
            opts["again"] = True
            return t
        try:
            return reorder(t)
        except FormatError:     # a conditional inside a select is refused
            ctx.count("reorder-refused")
            opts["do_reorder"] = False
            opts["again"] = True
            return t

    EDGES = {"DFBranch": (("condnode", "COND"), ("truenode", "TRUE"), ("falsenode", "FALSE")),
             "DFPartselect": (("var", "VAR"), ("msb", "MSB"), ("lsb", "LSB")), "DFPointer": (("var", "VAR"), ("ptr", "PTR")),
             "DFDelay": (("nextnode", ""),)}
    LABELS = {"DFBranch": "Branch", "DFPartselect": "PartSelect", "DFPointer": "Pointer", "DFConcat": "Concat", "DFDelay": "Delay",
              "DFSyscall": "Syscall"}

    def label(self, t):
        c = type(t).__name__
        if c == "DFOperator":
            return t.operator
        if c == "DFTerminal":
            return t.name.tocode()
        return self.LABELS.get(c) or repr(t)

    def kids(self, t):
        c = type(t).__name__
        if c in self.EDGES:
            return [(l, getattr(t, f)) for f, l in self.EDGES[c] if getattr(t, f) is not None]
        return [("", x) for x in getattr(t, "nextnodes", ()) or ()]

    def expected(self, t, leaves, cnt):
        cnt["nodes"] += 1
        if type(t).__name__ == "DFTerminal":
            leaves[str(t.name)] += 1
            return ("leaf", str(t.name))
        ks = self.kids(t)
        cnt["edges"] += len(ks)
        return (self.label(t), tuple(sorted((l, self.expected(x, leaves, cnt)) for l, x in ks)))

    # -------------------------------------------------------------- the graph
    def check(self, ctx, graph, shown):
        leaves, cnt = collections.Counter(), collections.Counter()
        want, shared, flat, drawn = [], set(), {}, {}
        for n, t, identical in shown:
            own = collections.Counter()
            want.append((n, self.expected(t, own, cnt)))
            leaves.update(own)
            self.flatnames(t, flat)
            if identical:
                cnt["leaf-nodes"] += sum(own.values())
            else:
                shared |= set(own)
                self.flatnames(t, drawn)
        want.sort()
        # two signals drawn as one leaf
        byflat = collections.defaultdict(set)
        for n, f in drawn.items():
            byflat[f].add(n)
        for f, ns in byflat.items():
            if len(ns) > 1:
                return "merged-leaves", "%s are drawn as one leaf %s" % (sorted(ns), f)
        out, indeg = collections.defaultdict(list), collections.Counter()
        for e in graph.edges_iter():
            attr = e.attr
            out[e[0]].append((attr["label"] or "", e[1]))
            indeg[e[1]] += 1
        lab = {}
        for n in graph.nodes():
            l = graph.get_node(n).attr["label"]
            lab[n] = str(n) if l in (None, "", "\\N") else l
        ctx.count("nodes-compared", len(lab))
        ctx.count("edges-compared", sum(indeg.values()))
        names = {f: n for n, f in flat.items()}

        def canon(n, depth=0):
            if depth > 300:
                raise RecursionError()
            ks = tuple(sorted((l, canon(x, depth + 1)) for l, x in out[n]))
            if not ks and lab[n] in names:
                return ("leaf", names[lab[n]])
            return (lab[n], ks)
        roots = [n for n in lab if indeg[n] == 0]
        got = []
        for r in roots:
            ks = out[r]
            if len(ks) != 1 or ks[0][0]:
                return "root", "root %s has edges %s" % (lab[r], ks)
            try:
                got.append((lab[r], canon(ks[0][1])))
            except RecursionError:
                return "cycle", "the graph of %s has a cycle" % lab[r]
        edges = cnt["edges"] + len(shown)
        if sum(indeg.values()) != edges and sorted(got) == want:
            return "edges", "%d edges, the trees have %d" % (sum(indeg.values()), edges)
        if sorted(got) != want:
            d = self.diff(sorted(got), want)
            return "structure", "drawn %s, defined %s" % d
        inner = cnt["nodes"] - sum(leaves.values())
        nodes = len(shown) + inner + cnt["leaf-nodes"] + len(shared)
        if len(lab) != nodes:
            return "nodes", "%d nodes, expected %d" % (len(lab), nodes)
        ctx.count("trees-compared", len(shown))
        return None

    def flatnames(self, t, flat):
        if type(t).__name__ == "DFTerminal":
            flat[str(t.name)] = t.name.tocode()
        for l, x in self.kids(t):
            self.flatnames(x, flat)

    def diff(self, a, b):
        while True:
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) or isinstance(a, list) and len(a) == len(b):
                ds = [(x, y) for x, y in zip(a, b) if x != y]
                if len(ds) == 1 and not isinstance(ds[0][0], str):
                    a, b = ds[0]
                    continue
            return str(a)[:400], str(b)[:400]

    def minimums(self, tier):
        c = self.counts[tier]
        return {"graphs": 3 * c, "trees-compared": 3 * c, "raw-graphs": 3 * c, "nodes-compared": 40 * c, "distinct_nontrivial": c}


if __name__ == "__main__":
    core.main("P18", Check())
