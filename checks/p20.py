from semantic_common import *
from vlib import fsm


def cycles(edges):
    """elementary cycles of {node: set of successors}, each starting at its smallest node; or None when there are too many"""
    out, budget = set(), [200000]
    for s in sorted(edges):
        # nodes from which s can be reached without going below it
        back, todo = {s}, [s]
        pred = {}
        for a, bs in edges.items():
            for b in bs:
                pred.setdefault(b, set()).add(a)
        while todo:
            x = todo.pop()
            for a in pred.get(x, ()):
                if a > s and a not in back:
                    back.add(a)
                    todo.append(a)
        path, on = [s], {s}
        stack = [iter(sorted(edges.get(s, ())))]
        while stack:
            budget[0] -= 1
            if budget[0] < 0 or len(out) > 4000:
                return None
            n = next(stack[-1], None)
            if n is None:
                stack.pop()
                on.discard(path.pop())
            elif n == s:
                out.add(tuple(path))
            elif n in back and n > s and n not in on:
                path.append(n)
                on.add(n)
                stack.append(iter(sorted(edges.get(n, ()))))
    return out


class Check(object):
    prop = "P20"
    rule = ("state machines built directly from random transition graphs (sparse, dense, layered, long rings with chords, sparse state "
            "numbers, parallel transitions) and machines extracted from generated designs; the reported loops against an independent "
            "enumeration of elementary cycles; non-trivial: distinct graphs with two cycles or more that share a state")
    assumptions = ["transitions reported as taken from any state are not part of loops", "at most 4000 cycles per machine"]
    counts = {"quick": (10000, 600), "thorough": (60000, 3000)}

    def cases(self, tier, seed):
        g, d = self.counts[tier]
        return [["graph", i] for i in range(g)] + [["design", i] for i in range(d)]

    def minimums(self, tier):
        q = {"quick": 1, "thorough": 15}[tier]
        return {"machines": 2000 * q, "cycles-compared": 8000 * q, "has:self-loop": 300 * q, "has:long-cycle": 20 * q, "design-machines": 60 * q,
                "has:acyclic": 20 * q}

    def graph(self, rng):
        k = rng.random()
        e = {}
        if k < 0.35:
            n = rng.randrange(1, 8)
            p = rng.choice([0.15, 0.3, 0.5, 0.8])
            for a in range(n):
                for b in range(n):
                    if rng.random() < p:
                        e.setdefault(a, set()).add(b)
        elif k < 0.6:
            n = rng.randrange(4, 40)
            for i in range(int(n * rng.choice([0.9, 1.2, 1.5]))):
                e.setdefault(rng.randrange(n), set()).add(rng.randrange(n))
        elif k < 0.75:
            # a ring, forward skips and a few way back
            n = rng.choice([rng.randrange(3, 30), rng.randrange(40, 75), rng.randrange(70, 200)])
            for i in range(n):
                e.setdefault(i, set()).add((i + 1) % n)
            for i in range(rng.randrange(0, 4)):
                e.setdefault(rng.randrange(n), set()).add(rng.randrange(n))
        elif k < 0.9:
            # some rings that touch
            n = rng.randrange(5, 25)
            for i in range(rng.randrange(1, 5)):
                c = rng.sample(range(n), rng.randrange(1, 6))
                for a, b in zip(c, c[1:] + c[:1]):
                    e.setdefault(a, set()).add(b)
        else:
            n = rng.randrange(3, 20)
            for a in range(n):
                for b in range(a + 1, n):
                    if rng.random() < 0.25:
                        e.setdefault(a, set()).add(b)
            if rng.random() < 0.5:
                e.setdefault(n - 1, set()).add(rng.randrange(n))
        if rng.random() < 0.5:
            names = rng.sample(range(300), 200)
            e = {names[a]: {names[b] for b in bs} for a, bs in e.items()}
        return e

    def run(self, case, ctx):
        rng = core.rng_for(self.prop, ctx.seed, case)
        if case[0] == "graph":
            from pyverilog.controlflow.controlflow_analyzer import FiniteStateMachine
            from pyverilog.dataflow.dataflow import DFTerminal
            from pyverilog.utils.scope import ScopeLabel, ScopeChain
            e = self.graph(rng)
            want = cycles(e)
            if want is None:
                ctx.count("too-many-cycles")
                return
            pairs = [(a, b) for a, bs in e.items() for b in bs]
            rng.shuffle(pairs)
            self.last_source = repr(pairs)
            cond = lambda i: DFTerminal(ScopeChain((ScopeLabel("top", "module"), ScopeLabel("c%d" % i, "signal"))))
            with repo(), quiet():
                m = FiniteStateMachine("top.state")
                for i, (a, b) in enumerate(pairs):
                    m.add((a, a), b, cond(i))
                    if rng.random() < 0.1:
                        m.add((a, a), b, cond(i + 1000))
                before = {a: dict(x) for a, x in m.fsm.items()}
                got = m.get_loop()
                again = m.get_loop()
            if m.fsm != before:
                ctx.violation("machine-changed", "asking for the loops changes the machine %r" % pairs)
            self.compare(ctx, e, want, got, "transitions %r" % sorted(pairs))
            if again != got:
                ctx.violation("not-repeatable", "asked again: %r, before: %r" % (again, got))
            return
        g = fsm.Fsm(rng, hier=0.1)
        self.last_source = g.text
        a, terms, binds = analyze(g.text, self.scratch)
        with repo(), quiet():
            from pyverilog.controlflow.controlflow_analyzer import VerilogControlflowAnalyzer
            from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
            o = VerilogDataflowOptimizer(terms, binds)
            o.resolveConstant()
            c = VerilogControlflowAnalyzer("top", terms, binds, o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist())
            loops, machines = c.getLoops()
        for n, l in loops.items():
            if n not in machines:
                ctx.violation("loops-without-machine", "loops of %s, machines %s" % (n, list(machines)), g.text)
        for n, m in machines.items():
            e = {s: set(x.values()) for s, x in m.fsm.items()}
            want = cycles(e)
            if want is None:
                continue
            ctx.count("design-machines")
            self.compare(ctx, e, want, loops.get(n, set()), "machine %s with transitions %r" % (n, sorted((a, b) for a in e for b in e[a])), g.text)

    def compare(self, ctx, e, want, got, what, source=None):
        ctx.count("machines")
        ctx.count("cycles-compared", len(want))
        ctx.sample(what[:500])
        if any(len(c) == 1 for c in want):
            ctx.count("has:self-loop")
        if any(len(c) > 52 for c in want):
            ctx.count("has:long-cycle")
        if not want:
            ctx.count("has:acyclic")
        seen = [s for c in want for s in c]
        if len(seen) > len(set(seen)):
            ctx.nontrivial(repr(sorted((a, b) for a in e for b in e[a])))
        got = [tuple(x) for x in got]
        if sorted(got) != sorted(want):
            miss, extra = sorted(want - set(got)), sorted(set(got) - want)
            key = "missing-loop" if miss else "extra-loop" if extra else "repeated-loop"
            ctx.violation(key, "%s: missing %r, not cycles %r" % (what[:1500], miss[:5], extra[:5]), source)


if __name__ == "__main__":
    core.main("P20", Check())
