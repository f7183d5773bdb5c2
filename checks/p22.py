import itertools
from semantic_common import *
import p14


def conj(conds, ev):
    return all(ev.truth(c) for c in conds)


class Conds(p14.Gen):
    """conditions on a state signal and others, and definition trees under them"""

    def __init__(self, rng):
        p14.Gen.__init__(self, rng)
        D = self.D
        from pyverilog.utils.scope import ScopeChain, ScopeLabel
        self.state = ScopeChain([ScopeLabel("top", "module"), ScopeLabel("st", "signal")])
        self.w = rng.choice([1, 2, 2, 3, 3, 4])
        self.add(self.state, self.w - 1, 0, None)
        self.own = ScopeChain([ScopeLabel("top", "module"), ScopeLabel("q", "signal")])
        self.add(self.own, 2, 0, None)
        self.bool1 = [n for n in self.terms if n not in (self.state, self.own) and self.shape[str(n)][2] is None
                      and self.shape[str(n)][0] == self.shape[str(n)][1]]

    def test(self):
        """a comparison of the state with a constant"""
        D, r = self.D, self.r
        top = (1 << self.w) - 1
        v = D.DFEvalValue(r.choice([0, top, r.randrange(top + 1), r.randrange(top + 1), r.randrange(top + 1)]), r.choice([self.w, 32]))
        o = r.choice(["Eq", "Eq", "NotEq", "Eql", "NotEql", "LessThan", "GreaterThan", "LessEq", "GreaterEq"])
        s = D.DFTerminal(self.state)
        return D.DFOperator((s, v) if r.random() < 0.65 else (v, s), o)

    def cond(self, d, mix=0.6):
        D, r = self.D, self.r
        k = r.random()
        if d > 0 and k < 0.6:
            j = r.random()
            if j < 0.28:
                return D.DFOperator((self.cond(d - 1, mix),), "Ulnot")
            return D.DFOperator((self.cond(d - 1, mix), self.cond(d - 1, mix)), "Land" if j < 0.64 else "Lor")
        if r.random() < mix:
            j = r.random()
            if j < 0.88:
                return self.test()
            if j < 0.94:
                return D.DFTerminal(self.state)
            return D.DFPointer(D.DFTerminal(self.state), D.DFEvalValue(r.randrange(self.w)))
        if self.bool1 and r.random() < 0.5:
            return D.DFTerminal(r.choice(self.bool1))
        return self.other()

    def other(self):
        D, r = self.D, self.r
        k = r.random()
        w = r.choice([1, 2, 3])
        if k < 0.5:
            return D.DFOperator((self.leaf(w), self.leaf(w)), r.choice(["Eq", "NotEq", "LessThan", "GreaterThan", "LessEq", "GreaterEq"]))
        if k < 0.7:
            return D.DFOperator((self.leaf(w),), r.choice(["Uor", "Uand", "Uxor", "Unor", "Unand"]))
        if k < 0.85:
            return D.DFOperator((self.leaf(w), self.leaf(w)), r.choice(["Plus", "Xor", "Sll"]))
        return self.leaf(w)

    def defn(self, d):
        D, r = self.D, self.r
        if d > 0 and r.random() < 0.85:
            c = self.cond(r.choice([0, 0, 1, 2])) if r.random() < 0.8 else self.tree(r.choice([1, 1, 2]), 1)
            t, f = self.side(d - 1), self.side(d - 1)
            if t is None and f is None:
                t = self.value()
            return D.DFBranch(c, t, f)
        return self.value()

    def side(self, d):
        return None if self.r.random() < 0.2 else self.defn(d)

    def value(self):
        D, r = self.D, self.r
        k = r.random()
        if k < 0.45:
            return D.DFEvalValue(r.randrange(8) if r.random() < 0.7 else 0, 3)
        if k < 0.6:
            return D.DFTerminal(self.own)
        return self.tree(3, 1)


class Check(SemCheck):
    prop = "P22"
    rule = ("random definition trees split into pairs and random condition lists on a state signal, decided by an independent evaluator on all "
            "valuations of their signals up to 2^9, else 200 random ones; also every definition of generated designs, as bound and as expanded; "
            "non-trivial: distinct trees with three or more pairs and condition lists with state ranges and a remaining condition")
    counts = {"quick": 24000, "thorough": 300000}
    batch = 20
    cfgs = [dict(unsized=0, always=0.9, case=0.5, clocked=0.5), dict(unsized=0, clocked=1, items=(2, 4)), dict(unsized=0, func=0.3, always=0.9, hier=1)]
    assumptions = ["conditions are combined by logical operators; other operators stand below them", "the state signal has at most 4 bits"]

    def setup(self, scratch):
        pass

    def cases(self, tier, seed):
        n = self.counts[tier] // self.batch
        return [["trees", i] for i in range(n)] + [["design", i] for i in range(n // 10)]

    def run(self, case, ctx):
        rng = core.rng_for(self.prop, ctx.seed, case)
        if case[0] == "design":
            return self.design(case, rng, ctx)
        for _ in range(self.batch):
            g = Conds(rng)
            if rng.random() < 0.5:
                t = g.defn(rng.choice([1, 2, 3, 4]))
                self.split(t, g.own, g.shape, {str(k): v for k, v in g.consts.items()}, rng, ctx)
            else:
                self.states(g, rng, ctx)

    def space(self, names, shape, consts, rng):
        """valuations of the signals named"""
        free = [n for n in names if n not in consts]
        widths = {n: abs(shape[n][0] - shape[n][1]) + 1 for n in free}
        vals, mem = dict(consts), {}
        ev = dfeval.Evaluator(lambda n: vals[str(n)], lambda n: shape[str(n)], lambda n, i: mem.setdefault(i, rng.randrange(16)))
        memory = any(shape[n][2] is not None for n in free)
        if sum(widths.values()) <= 9 and not memory:
            space = itertools.product(*[range(1 << widths[n]) for n in free])
        else:
            space = ([rng.randrange(1 << widths[n]) for n in free] for _ in range(200))
        for vec in space:
            vals.update(zip(free, vec))
            mem.clear()
            yield ev, vals

    def split(self, t, own, shape, consts, rng, ctx, w=3):
        from pyverilog.controlflow import splitter
        D = sys.modules["pyverilog.dataflow.dataflow"]
        src = t.tocode()
        if len(src) > 8000:
            ctx.count("too-large")
            return
        self.last_source = src
        before = p14.dump(t)
        op, v = rng.choice([(">", 0), (">", 0), ("==", 0), (">=", 2), ("!=", 1), ("<", 3)])
        with repo(), quiet():
            pairs = splitter.split(t)
            kept = {"default": splitter.filter(pairs, own), "changed": splitter.filter(pairs, own, splitter.active_modify),
                    "unchanged": splitter.filter(pairs, own, splitter.active_unmodify),
                    "constant": splitter.filter(pairs, own, lambda n, x: splitter.active_constant(n, x, op, v))}
        if p14.dump(t) != before:
            ctx.violation("modified", "the tree given was modified: %s" % src, src)
            return
        ctx.count("trees")
        same = lambda x: isinstance(x, D.DFTerminal) and str(x.name) == str(own)
        value = lambda x: x.value if isinstance(x, D.DFEvalValue) else None
        ask = {">": lambda a: a > v, "==": lambda a: a == v, ">=": lambda a: a >= v, "!=": lambda a: a != v, "<": lambda a: a < v}[op]
        want = {"default": lambda x: value(x) is not None and value(x) > 0, "changed": lambda x: not same(x), "unchanged": same,
                "constant": lambda x: value(x) is not None and ask(value(x))}
        for k, f in want.items():
            exp = [c for c, x in pairs.items() if f(x)]
            if list(kept[k].keys()) != exp or any(kept[k][c] is not pairs[c] for c in exp):
                ctx.violation("filter-" + k, "kept %s of %s" % ([[y.tocode() for y in c] for c in kept[k]], {str([y.tocode() for y in c]): x.tocode() for c, x in pairs.items()}), src)
                return
            ctx.count("filtered")
        if not isinstance(t, D.DFBranch):
            if pairs:
                ctx.violation("pairs-without-condition", "%s gives %d pairs" % (src, len(pairs)), src)
            return
        ctx.count("pairs", len(pairs))
        if len(pairs) >= 3:
            ctx.nontrivial(src)
        names = sorted(p14.signals_of(t, set()))
        for ev, vals in self.space(names, shape, consts, rng):
            try:
                x = ev.value(t, w)
            except dfeval.Unknown:
                ctx.count("undefined")
                continue
            except dfeval.Hold:
                x = "hold"
            try:
                on = [c for c in pairs if conj(c, ev)]
            except dfeval.Unknown:
                ctx.count("undefined")
                continue
            if x == "hold":
                ctx.count("valuations-holding")
                if on:
                    ctx.violation("case-too-many", "keeps its value on %s but %d pairs hold: %s" % (self.show(names, vals), len(on), src), src)
                    return
                continue
            ctx.count("valuations")
            if len(on) != 1:
                ctx.violation("cases-not-disjoint", "%d pairs hold on %s: %s" % (len(on), self.show(names, vals), src), src)
                return
            y = ev.value(pairs[on[0]], w)
            if y != x:
                ctx.violation("value", "%s instead of %s on %s: %s" % (y, x, self.show(names, vals), src), src)
                return

    def show(self, names, vals):
        return ", ".join("%s=%s" % (n, vals[n]) for n in names)

    def states(self, g, rng, ctx):
        from pyverilog.controlflow import transition
        conds = tuple(g.cond(rng.choice([0, 1, 1, 2, 3])) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])))
        src = " , ".join(c.tocode() for c in conds)
        if len(src) > 3000:
            ctx.count("too-large")
            return
        self.last_source = "state %d bits: %s" % (g.w, src)
        before = p14.dump(conds)
        with repo(), quiet():
            node = transition.walkCondlist(conds, g.state, g.w)
            shown = str(node)
        if p14.dump(conds) != before:
            ctx.violation("modified", "the conditions given were modified: %s" % src, self.last_source)
            return
        if len(shown) > 60000:
            ctx.count("too-large")
            return
        nodes = [] if node is None else list(node.nodelist) if hasattr(node, "nodelist") else [node]
        ctx.count("condition-lists")
        ctx.count("state-nodes", len(nodes))
        if any(n.range_pairs and n.transcond is not None for n in nodes):
            ctx.nontrivial(self.last_source)
        for n in nodes:
            for a, b in n.range_pairs:
                if a > b or a < 0 or b >= 1 << g.w:
                    ctx.violation("range", "state range %s..%s of %d bits in %s" % (a, b, g.w, shown), self.last_source)
                    return
        names = sorted(p14.signals_of(conds[0], set()).union(*[p14.signals_of(c, set()) for c in conds]) if conds else set())
        names = sorted(set(names) | {str(g.state)})
        for ev, vals in self.space(names, g.shape, {str(k): v for k, v in g.consts.items()}, rng):
            try:
                x = conj(conds, ev)
                s = vals[str(g.state)]
                y = any((n.isany or any(a <= s <= b for a, b in n.range_pairs)) and (n.transcond is None or ev.truth(n.transcond)) for n in nodes)
            except dfeval.Unknown:
                ctx.count("undefined")
                continue
            ctx.count("states-compared")
            ctx.count("states-true" if x else "states-false")
            if x != y:
                ctx.violation("states", "%s on %s: conditions %s, inferred %s" % (y, self.show(names, vals), src, shown), self.last_source)
                return

    def minimums(self, tier):
        n = self.counts[tier]
        return {"trees": n // 2, "pairs": n, "filtered": n, "valuations": 20 * n, "valuations-holding": n, "condition-lists": n // 3,
                "states-compared": 15 * n, "states-true": n, "states-false": n, "designs": n // 250, "distinct_nontrivial": n // 4}

    def design(self, case, rng, ctx):
        """definitions of generated designs, as bound and as expanded"""
        r, g = self.make(case, ctx)
        a, terms, binds = analyze(g.text, self.scratch)
        ctx.count("designs")
        m = Model(g.signals, terms, binds)
        with repo(), quiet():
            from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
            from pyverilog.dataflow.walker import VerilogDataflowWalker
            o = VerilogDataflowOptimizer(terms, binds)
            o.resolveConstant()
            walker = VerilogDataflowWalker("top", terms, binds, o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist())
        chosen = sorted(binds, key=str)
        r.shuffle(chosen)
        for i, n in enumerate(chosen[:20]):
            trees = [b.tree for b in binds[n]]
            if i < 4 and self.size(g) < 2500:
                with repo(), quiet():
                    trees.append(walker.walkBind(str(n)))
            for t in trees:
                if t is None or len(t.tocode()) > 3000:
                    continue
                names = p14.signals_of(t, set())
                shape = {}
                try:
                    for x in names:
                        shape[x] = m.shape(x)
                    w = abs(m.shape(n)[0] - m.shape(n)[1]) + 1
                except (dfeval.Bad, dfeval.Unknown):
                    continue
                self.split(t, n, shape, {x: m.info[m.sim(x)]["const"] for x in names if m.sim(x) and m.info[m.sim(x)]["const"] is not None}, rng, ctx, w)


if __name__ == "__main__":
    core.main("P22", Check())
