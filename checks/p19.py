from semantic_common import *
from vlib import fsm


def machines(g, d, terms=None, binds=None):
    if terms is None:
        a, terms, binds = analyze(g.text, d)
    with repo(), quiet():
        from pyverilog.controlflow.controlflow_analyzer import VerilogControlflowAnalyzer
        from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
        o = VerilogDataflowOptimizer(terms, binds)
        o.resolveConstant()
        c = VerilogControlflowAnalyzer("top", terms, binds, o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist())
        ms = c.getFiniteStateMachines()
    return c, terms, binds, ms


def show(m):
    out = ["%s -- %s -> %s" % (s, "always" if c is None else c.tocode(), d) for s, x in sorted(m.fsm.items()) for c, d in x.items()]
    return "; ".join(out + ["any -- %s -> %s" % ("always" if c is None else c.tocode(), d) for c, d in m.any.items()])


class Check(object):
    prop = "P19"
    rule = ("generated state machines (one- and two-process, nested case/if, label lists, defaults, overrides, named conditions, resets of "
            "every kind, in the top module or an instance); every state under every input is clocked in the simulator and its next state, "
            "and whether a constant was assigned, compared with the reported transitions whose condition holds; non-trivial: distinct "
            "machines of three or more transitions")
    assumptions = ["Icarus Verilog gives the meaning of the designs", "state registers of at most 4 bits", "reset is tested alone, in the outermost if"]
    counts = {"quick": 2400, "thorough": 20000}
    cfgs = [{}, dict(hier=0), dict(state_mix=0.6), dict(bitwise=0.7), dict(override=0.6), dict(two=0.8), dict(nonconst=0, multi=0.6), dict(reset=0),
            dict(state_mix=0.6, ordered=0.7)]

    def cases(self, tier, seed):
        return [["design", i] for i in range(self.counts[tier])]

    def setup(self, scratch):
        if simrun.run([simrun.IVERILOG, "-V"]).returncode:
            raise core.HarnessError("no simulator")

    def minimums(self, tier):
        q = {"quick": 1, "thorough": 20}[tier]
        return {"machines": 300 * q, "steps-compared": 40000 * q, "transitions-taken": 1500 * q, "steps-to-another-value": 1500 * q,
                "steps-without-assignment": 12000 * q, "has:two-process": 100 * q, "has:machine-in-instance": 60 * q, "has:state-ordered": 80 * q,
                "has:reduction-condition": 40 * q, "has:label-list": 120 * q, "has:reset-under-enable": 10 * q, "has:bitwise-vector-condition": 15 * q}

    def run(self, case, ctx):
        rng = core.rng_for(self.prop, ctx.seed, case)
        g = fsm.Fsm(rng, **self.cfgs[case[1] % len(self.cfgs)])
        self.last_source = g.text
        c, terms, binds, ms = machines(g, self.scratch)
        for k, n in g.ticks.items():
            ctx.count("has:" + k, n)
        try:
            rows = g.table(self.scratch)
        except simrun.SimError as e:
            raise core.HarnessError("simulation failed: %s\n%s" % (e, g.marked))
        m = Model(g.signals, terms, binds)
        mine = [x for n, x in ms.items() if str(n) == g.path]
        for n in ms:
            if str(n) != g.path and "next_" not in str(n):
                ctx.violation("other-machine", "machine reported for %s" % n, g.text)
        if not mine:
            ctx.count("no-machine")
            by = {}
            for snap, nxt, kind, outs in rows:
                by.setdefault(tuple(snap[p] for p in sorted(snap) if not p.endswith(g.state) and not p.endswith("q")), set()).add(nxt if kind == 1 else None)
            if any(len(x) > 1 for x in by.values()) and "state-bit" not in g.ticks and "state-truth" not in g.ticks:
                ctx.violation("machine-missing", "no machine for %s" % g.path, g.text)
            return
        fm = mine[0]
        ctx.count("machines")
        ctx.sample("%s: %s" % (g.path, show(fm)[:600]))
        n = sum(len(x) for x in fm.fsm.values()) + len(fm.any)
        ctx.count("transitions-reported", n)
        if n >= 3:
            ctx.nontrivial(g.text)
        taken = set()
        for s in fm.fsm:
            if not 0 <= s < 1 << g.w:
                ctx.violation("state-out-of-range", "state %r in a %d-bit machine: %s" % (s, g.w, show(fm)), g.text)
                return
        for snap, nxt, kind, outs in rows:
            m.load(snap)
            s = snap[g.path]
            got = {}
            try:
                for cond, d in list(fm.fsm.get(s, {}).items()) + [(x, y) for x, y in fm.any.items()]:
                    if cond is None or m.ev.truth(cond):
                        got.setdefault(d, []).append(cond)
                        taken.add((s, d))
            except (dfeval.Bad, dfeval.Hold) as e:
                ctx.violation("condition-without-meaning", "%s in %s" % (e, show(fm)), g.text)
                return
            want = {nxt} if kind == 1 else set()
            ctx.count("steps-compared")
            ctx.count(["steps-without-assignment", "steps-to-a-constant", "steps-to-another-value"][kind])
            if set(got) != want:
                key = "missing-transition" if want - set(got) else "wrong-transition" if want else "extra-transition"
                vals = {p: v for p, v in snap.items() if not p.endswith(".q")}
                ctx.violation(key, "in %r the design %s, reported next states %r; machine: %s" % (
                    vals, ["keeps its state", "loads the constant %d" % nxt, "loads a value that is not constant"][kind], sorted(got), show(fm)[:3000]), g.text)
                return
        ctx.count("transitions-taken", len(taken))


if __name__ == "__main__":
    core.main("P19", Check())
