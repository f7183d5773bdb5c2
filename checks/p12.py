from semantic_common import *


class Check(SemCheck):
    prop = "P12"
    rule = ("generated synchronous designs; after every recorded change of a clock or reset the value the definitions of every "
            "clocked register give on the state before it is compared with the simulated register, and the reported clock and reset "
            "with the event control; non-trivial: distinct design texts with 3 or more register updates compared on an active edge")
    counts = {"quick": 2400, "thorough": 14000}
    steps = 24
    cfgs = [dict(clocked=1, always=0.2, hier=1, items=(1, 4)),
            dict(clocked=1, always=0.3, hier=3, params=0.6, items=(2, 5)),
            dict(clocked=1, partial=0.5, lsb=0.4, asc=0.2, hier=1, items=(1, 3)),
            dict(clocked=1, case=0.6, default=0.6, hold=0.8, hier=1, items=(1, 4)),
            dict(clocked=1, mem=0.8, func=0.4, hier=2, temps=0.6, items=(1, 4)),
            dict(clocked=1, temps=0.8, cond=0.2, reset=0.4, hier=1, items=(1, 4)),
            dict(clocked=1, veclk=0.5, lsb=0.4, asc=0.3, hier=2, items=(1, 3)),
            dict(clocked=1, negedge=0.5, hier=3, gen=0.5, items=(2, 5))]
    witnesses = [n for n in witness.W if n.startswith("clk-")]

    def cases(self, tier, seed):
        return [["witness", n] for n in sorted(self.witnesses)] + [["design", i] for i in range(self.counts[tier])]

    def judge(self, case, ctx, g, m, stim, snaps, rng):
        clocked, pos = {}, {}
        for n in m.binds:
            p = m.sim(n)
            comb = [b.isCombination() for b in m.binds[n]]
            s = m.info[p] if p is not None else None
            if s is None or s["const"] is not None:
                continue
            t = getattr(s.get("sig"), "timing", None)
            if t is None:
                if s.get("sig") is not None and not all(comb) and not any(x is s["sig"] for mo in g.mods for x in getattr(mo, "temps", ())):
                    ctx.violation("clocked-combination", "%s is not assigned by a clocked procedure\n%s" % (n, describe(m, n)), g.text)
                    return
                if all(comb) or s.get("sig") is None:
                    ctx.count("combinational-names")
                    continue
                t = "any"
            else:
                base = n[:n.rindex(".")]
                for b in m.binds[n]:
                    i = b.alwaysinfo
                    got = None if i is None else (str(i.clock_name), i.clock_edge, str(i.reset_name) if i.reset_name else None, i.reset_edge)
                    want = (self.full(p, t[0]), t[1], self.full(p, t[2]) if t[2] else None, t[3])
                    gs = (got[0], got[1], got[2], got[3]) if got else None
                    if gs is None or (m.sim(gs[0]), gs[1], m.sim(gs[2]) if gs[2] else None, gs[3]) != want:
                        ctx.violation("timing", "%s: reported %s, written %s" % (n, gs, want), g.text)
                        return
                    bit = getattr(s.get("sig"), "clkbit", None)
                    if bit is not None and int(str(i.clock_bit)) != bit[0]:
                        ctx.violation("clock-bit", "%s: reported clock bit %s, written %s" % (n, i.clock_bit, bit[0]), g.text)
                        return
                    ctx.count("timings-compared")
            clocked[n] = p
            pos[n] = (getattr(s.get("sig"), "clkbit", None) or (0, 0))[1]
        updates, regs = 0, set()
        for k in range(1, len(stim)):
            kind, ch = stim[k]
            if kind not in ("clk", "rst"):
                continue
            pre, post = snaps[k - 1], snaps[k]
            mix = dict(pre)
            for p in pre:
                last = p[p.rindex(".") + 1:]
                if last in simrun.CLK + simrun.RST or last.startswith("vclk"):
                    mix[p] = post[p]
            m.load(mix)
            for n, p in clocked.items():
                if p not in pre:
                    continue
                i = m.binds[n][0].alwaysinfo
                act = self.active(m, i.clock_name, i.clock_edge, pre, post, pos[n]) or \
                    (i.reset_name and self.active(m, i.reset_name, i.reset_edge, pre, post))
                if m.info[p]["dims"] is not None:
                    if not self.memory(ctx, g, m, n, p, act, pre, post, k):
                        return
                    continue
                try:
                    v = m.defined(n, pre[p]) if act else pre[p]
                except (dfeval.Unknown, dfeval.Hold):
                    v = None
                except dfeval.Bad as e:
                    ctx.violation("meaningless", "%s: %s\n%s" % (n, e, describe(m, n)), g.text)
                    return
                if v is None or post[p] is None:
                    ctx.count("unknown-values")
                    continue
                ctx.count("edges-active" if act else "edges-inactive")
                if act:
                    updates += 1
                    regs.add(n)
                if v != post[p] and self.stands(ctx, k, p, post[p]) and self.stands(ctx, k - 1, p, pre[p]):
                    ctx.violation("next-state", "step %d (%s %s): %s goes from %s to %d in simulation, to %d by its definition\n%s\nbefore %s" % (
                        k, kind, ch, n, pre[p], post[p], v, describe(m, n), {x: y for x, y in pre.items() if x.count(".") == p.count(".")}), g.text)
                    return
        ctx.count("registers-compared", len(regs))
        if updates >= 3:
            ctx.nontrivial(g.text)
        if len(ctx.samples) < 1 and len(g.text) < 1400 and updates > 5:
            ctx.sample(g.text)

    def full(self, p, name):
        """path of a port of the module instance holding signal p (the clock may be used inside generate scopes)"""
        return p[:p.rindex(".")] + "." + name

    def active(self, m, name, edge, pre, post, bit=0):
        p = m.sim(str(name))
        a, b = pre.get(p), post.get(p)
        if a is None or b is None:
            return False
        return (a >> bit & 1, b >> bit & 1) == ((0, 1) if edge == "posedge" else (1, 0))

    def memory(self, ctx, g, m, n, p, act, pre, post, k):
        want = dict(pre[p])
        if act:
            for b in m.binds[n]:
                try:
                    i = m.ev.idx(b.ptr)
                    v = m.ev.value(b.tree, m.info[p]["width"])
                except dfeval.Hold:
                    continue
                except dfeval.Unknown:
                    ctx.count("unknown-values")
                    return True
                except dfeval.Bad as e:
                    ctx.violation("meaningless", "%s: %s\n%s" % (n, e, describe(m, n)), g.text)
                    return False
                if i in want:
                    want[i] = v
                    ctx.count("memory-writes")
        if want != post[p] and None not in want.values() and None not in post[p].values():
            ctx.violation("next-state", "step %d: memory %s is %s in simulation, %s by its definition\n%s" % (k, n, post[p], want, describe(m, n)), g.text)
            return False
        return True

    def minimums(self, tier):
        c = self.counts[tier]
        return {"edges-active": 4 * c, "distinct_nontrivial": c * 6 // 10, "timings-compared": c, "memory-writes": 50,
                "has:clocked-temporary": 50, "has:partial-nonblocking": 50, "has:nonblocking-override": 50, "edges-inactive": c, "has:vector-clock": c // 40}


if __name__ == "__main__":
    core.main("P12", Check())
