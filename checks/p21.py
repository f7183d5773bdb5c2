import p19
from semantic_common import *
from vlib import fsm


class Check(object):
    prop = "P21"
    rule = ("generated state machines with outputs assigned under tests of the state (combinational and registered); the reported "
            "(state, condition) pairs against a simulation of every state under every input that records when a constant greater than "
            "zero is assigned; non-trivial: distinct outputs with three or more pairs")
    assumptions = p19.Check.assumptions + ["every assignment of the output is under a test of the state"]
    counts = {"quick": 1800, "thorough": 15000}
    cfgs = [dict(outs=2), dict(outs=3, hier=0), dict(outs=2, state_mix=0.5), dict(outs=2, bitwise=0.6), dict(outs=2, reset=0), dict(outs=3, two=0.8)]

    def cases(self, tier, seed):
        return [["design", i] for i in range(self.counts[tier])]

    def setup(self, scratch):
        if simrun.run([simrun.IVERILOG, "-V"]).returncode:
            raise core.HarnessError("no simulator")

    def minimums(self, tier):
        q = {"quick": 1, "thorough": 20}[tier]
        return {"outputs": 500 * q, "pairs": 1200 * q, "steps-compared": 60000 * q, "steps-active": 20000 * q, "has:combinational-output": 300 * q,
                "has:registered-output": 300 * q}

    def run(self, case, ctx):
        import pyverilog.utils.util as util
        rng = core.rng_for(self.prop, ctx.seed, case)
        g = fsm.Fsm(rng, **self.cfgs[case[1] % len(self.cfgs)])
        self.last_source = g.text
        a, terms, binds = analyze(g.text, self.scratch)
        with repo(), quiet():
            from pyverilog.controlflow.active_analyzer import VerilogActiveConditionAnalyzer
            from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
            o = VerilogDataflowOptimizer(terms, binds)
            o.resolveConstant()
            c = VerilogActiveConditionAnalyzer("top", terms, binds, o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist())
            res = {x[0]: c.getActiveConditions(util.toTermname(g.prefix + x[0])) for x in g.outs}
        for k, n in g.ticks.items():
            ctx.count("has:" + k, n)
        if g.path not in [str(n) for n in c.fsms]:
            ctx.count("no-machine")
            return
        try:
            rows = g.table(self.scratch)
        except simrun.SimError as e:
            raise core.HarnessError("simulation failed: %s\n%s" % (e, g.marked))
        m = Model(g.signals, terms, binds)
        for x in g.outs:
            name = g.prefix + x[0]
            r = {str(k): v for k, v in res[x[0]].items()}
            pairs = r.get(g.path, ())
            ctx.count("outputs")
            shown = "; ".join("%s when %s" % (s, "always" if t is None else t.tocode()) for s, t in pairs)
            ctx.sample("%s: %s" % (name, shown[:500]))
            ctx.count("pairs", len(pairs))
            if len(pairs) >= 3:
                ctx.nontrivial(g.text + name)
            for n in r:
                if n != g.path and not (n == name and not pairs):
                    ctx.violation("other-machine", "%s: conditions for %s" % (name, n), g.text)
            if not pairs:
                by = {}
                for snap, nxt, kind, outs in rows:
                    by.setdefault(tuple(v for p, v in sorted(snap.items()) if p[4:] in dict(g.ins)), set()).add(outs[x[0]])
                if all(len(v) == 1 for v in by.values()):
                    ctx.count("outputs-independent-of-the-state")
                    continue
            for snap, nxt, kind, outs in rows:
                m.load(snap)
                try:
                    got = any(s == snap[g.path] and (t is None or m.ev.truth(t)) for s, t in pairs)
                except (dfeval.Bad, dfeval.Hold) as e:
                    ctx.violation("condition-without-meaning", "%s in %s" % (e, shown), g.text)
                    break
                ctx.count("steps-compared")
                ctx.count("steps-active" if outs[x[0]] else "steps-inactive")
                if got != bool(outs[x[0]]):
                    vals = {p: v for p, v in snap.items() if not p.endswith(".q")}
                    ctx.violation("missing-active" if outs[x[0]] else "extra-active", "%s in %r %s; reported: %s" % (
                        name, vals, "takes a constant greater than zero" if outs[x[0]] else "does not take a constant greater than zero", shown[:2500] or r), g.text)
                    break


if __name__ == "__main__":
    core.main("P21", Check())
