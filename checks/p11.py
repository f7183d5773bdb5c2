from semantic_common import *


class Check(SemCheck):
    prop = "P11"
    rule = ("generated width-uniform designs; for every combinationally driven signal of every instance the value its reported "
            "definitions give on each recorded simulation snapshot is compared with the simulated value; non-trivial: distinct "
            "design texts with 5 or more signals compared on known values")
    counts = {"quick": 2600, "thorough": 16000}
    cfgs = [dict(clocked=0.3, func=0.3),
            dict(always=0.9, temps=0.4, default=0.5, case=0.5, hier=2),
            dict(hier=4, params=0.8, gen=0.5, lsb=0.2),
            dict(lsb=0.4, asc=0.2, partial=0.5, lconcat=0.3, depth=2),
            dict(func=0.6, cond=0.3, mem=0.5, clocked=0.6, depth=4),
            dict(always=0.9, loops=0.6, reassign=0.5, partial=0.4, hier=1)]

    def cases(self, tier, seed):
        return [["witness", n] for n in sorted(witness.W)] + [["design", i] for i in range(self.counts[tier])]

    def judge(self, case, ctx, g, m, stim, snaps, rng):
        done, compared = set(), 0
        for step, (st, sn) in enumerate(zip(stim, snaps)):
            m.load(sn)
            for n in m.binds:
                p = m.sim(n)
                if p is None or m.info[p]["const"] is not None or m.info[p]["dims"] is not None or p not in sn:
                    continue
                if not all(b.isCombination() for b in m.binds[n]):
                    continue
                try:
                    v = m.defined(n, sn[p] if m.info[p].get("latch") else None)
                except dfeval.Hold:
                    if sn[p] is None:
                        ctx.count("unknown-values")
                        continue
                    ctx.violation("incomplete", "step %d: %s is %d in simulation, its definition leaves it without a value\n%s\ninputs %s" % (
                        step, n, sn[p], describe(m, n), {k: sn[k] for k in sn if k.count(".") == 1 and "." in k}), g.text)
                    return
                except dfeval.Unknown:
                    ctx.count("unknown-values")
                    continue
                except dfeval.Bad as e:
                    ctx.violation("meaningless", "%s: %s\n%s" % (n, e, describe(m, n)), g.text)
                    return
                if sn[p] is None:
                    ctx.count("unknown-values")
                    continue
                compared += 1
                done.add(n)
                if v != sn[p] and self.stands(ctx, step, p, sn[p]):
                    ctx.violation("value", "step %d: %s is %d in simulation, %d by its definition\n%s\ninputs %s" % (
                        step, n, sn[p], v, describe(m, n), {k: sn[k] for k in sn if k.count(".") == 1 and "." in k}), g.text)
                    return
        ctx.count("values-compared", compared)
        ctx.count("signals-compared", len(done))
        ctx.count("internal-names-evaluated", m.internal)
        if len(done) >= 5:
            ctx.nontrivial(g.text)
        if len(ctx.samples) < 1 and len(g.text) < 1400 and len(done) > 4:
            ctx.sample(g.text)

    def minimums(self, tier):
        return {"values-compared": 20 * self.counts[tier], "distinct_nontrivial": self.counts[tier] * 7 // 10, "has:function-call": 50,
                "has:temporary": 100, "has:instance": 300, "has:generate": 200, "has:case": 300, "has:loop": 50}


if __name__ == "__main__":
    core.main("P11", Check())
