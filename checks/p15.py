import collections
from semantic_common import *
import p14


def names(t, out):
    """signals a tree mentions"""
    c = type(t).__name__
    if c == "DFTerminal":
        out.add(str(t.name))
    for f in ("condnode", "truenode", "falsenode", "var", "msb", "lsb", "ptr", "nextnode"):
        x = getattr(t, f, None)
        if x is not None and c.startswith("DF") and c != "DFTerminal":
            names(x, out)
    for x in getattr(t, "nextnodes", ()):
        names(x, out)
    return out


def count(t, cnt):
    """number of nodes; cnt: how often a signal occurs"""
    c = type(t).__name__
    if not c.startswith("DF"):
        return 0
    if c == "DFTerminal":
        cnt[str(t.name)] += 1
        return 1
    n = 1
    for f in ("condnode", "truenode", "falsenode", "var", "msb", "lsb", "ptr", "nextnode"):
        n += count(getattr(t, f, None), cnt)
    for x in getattr(t, "nextnodes", ()):
        n += count(x, cnt)
    return n


def holds(t):
    return t is None or type(t).__name__ == "DFBranch" and (holds(t.truenode) or holds(t.falsenode))


def wrapped(t, rng, D, p):
    """the same tree with some operands (of expressions: positions stay) replaced by their delayed values or by high impedance"""
    c = type(t).__name__
    w = lambda x: wrapped(x, rng, D, p)
    if c == "DFBranch":
        t = D.DFBranch(*[None if x is None else w(x) for x in (t.condnode, t.truenode, t.falsenode)])
    elif c == "DFOperator":
        t = D.DFOperator(tuple(w(x) for x in t.nextnodes), t.operator)
    elif c == "DFConcat":
        t = D.DFConcat(tuple(w(x) for x in t.nextnodes))
    elif c == "DFTerminal" and rng.random() < 0.05:
        return D.DFBranch(t, t, D.DFHighImpedance(1)) if rng.random() < 0.5 else t
    elif c not in ("DFTerminal", "DFPointer", "DFPartselect"):
        return t
    return D.DFDelay(t) if rng.random() < p else t


def buried(t, under=False):
    """a choice that is not above everything else"""
    c = type(t).__name__
    if t is None or not c.startswith("DF") or c == "DFDelay":
        return None
    if c == "DFBranch":
        if under:
            return t
        return buried(t.condnode, True) or buried(t.truenode) or buried(t.falsenode)
    below = list(getattr(t, "nextnodes", ())) + [getattr(t, f, None) for f in ("var", "msb", "lsb", "ptr")]
    return next((x for x in (buried(n, True) for n in below) if x), None)


class Check(SemCheck):
    prop = "P15"
    rule = ("generated designs; the walked tree of every signal, evaluated on recorded simulation snapshots, is compared with the "
            "simulated value (registers: with the value after the next active edge; one more step: with the value one edge later), "
            "and the signals it mentions are inputs, registers or cannot be expanded; non-trivial: distinct design texts with 5 or "
            "more walked signals compared on known values")
    counts = {"quick": 500, "thorough": 9000}
    steps = 12
    cfgs = [dict(unsized=0, clocked=0.3, func=0.3),
            dict(unsized=0, always=0.9, temps=0.4, default=0.5, case=0.5, hier=1),
            dict(unsized=0, hier=3, params=0.8, gen=0.5, lsb=0.2, depth=2),
            dict(unsized=0, lsb=0.4, asc=0.2, partial=0.5, lconcat=0.3, depth=2),
            dict(unsized=0, lsb=0.6, asc=0.4, partial=0.6, always=0.5, dynidx=0.5, depth=2),
            dict(unsized=0, clocked=1, always=0.2, hier=1, items=(2, 4), depth=2),
            dict(unsized=0, clocked=1, partial=0.5, hier=2, items=(2, 4), mem=0.3, depth=2),
            dict(unsized=0, clocked=1, partial=0.5, hier=1, items=(2, 4), mem=0.6, depth=2, dynlhs=0.5, dynidx=0.3)]

    def feeds(self, m, x):
        """the signal is on a combinational path to itself (bit by bit) or keeps its value in some branch"""
        if any(holds(b.tree) for b in m.binds[x]):
            return True
        seen, todo = set(), [x]
        while todo:
            cnt = collections.Counter()
            for b in m.binds.get(todo.pop(), ()):
                if b.isCombination():
                    count(b.tree, cnt)
            if x in cnt:
                return True
            todo += [y for y in cnt if y not in seen]
            seen |= set(cnt)
        return False

    LIMIT = 3000        # nodes of an expansion that is still walked

    def expansion(self, m, n, steps, active=()):
        """about how many nodes the expansion of a name has"""
        key = n, steps, tuple(sorted(active)) if n in self.cyclic else None
        if key in self.sizes:
            return self.sizes[key]
        if n in active or n not in m.binds:
            if n in active:
                self.cyclic.add(n)
            return 1
        self.sizes[key] = 1
        total = 0
        for b in m.binds[n]:
            cnt = collections.Counter()
            each = 1
            if type(b.msb).__name__ not in ("NoneType", "DFIntConst", "DFEvalValue"):
                t = m.terms.get(n)
                each = 8 if t is None or t.msb is None else abs(m.ev.idx(t.msb) - m.ev.idx(t.lsb)) + 1     # written out bit by bit
            total += count(b.tree, cnt) * each
            for x, k in cnt.items():
                k *= each
                q = m.sim(x)
                if steps and q is not None and m.info[q]["dims"] is not None:
                    k *= 6 if steps == 1 else 10 ** 6      # the read address is repeated for every write
                if x in m.binds and (x not in self.regs or steps):
                    total += k * self.expansion(m, x, steps - 1 if x in self.regs else steps, set() if x in self.regs else set(active) | {n})
                if total > 10 ** 6:
                    break
        self.sizes[key] = total
        return total

    # definitions that are wrong before any walk (findings of P11), values of several widths
    SKIP = {"asc-ixsel", "index-conditional", "override-part-read", "override-part-read-mid", "override-part-read-part",
            "override-if-read", "shift-signed", "signed", "port-narrow"}

    def cases(self, tier, seed):
        return [["witness", n] for n in sorted(witness.W) if n not in self.SKIP] + [["trees", i] for i in range(self.counts[tier] // 4)] + \
            [["pipe", i] for i in range(self.counts[tier] // 2)] + [["design", i] for i in range(self.counts[tier])]

    # ---- small designs of registers that feed each other through conditions and signals, clocked for a while
    def make(self, case, ctx):
        if case[0] != "pipe":
            return SemCheck.make(self, case, ctx)
        rng = core.rng_for(self.prop, ctx.seed, case)
        w = rng.choice([2, 3, 4])
        edge, nq, nf, nw = rng.choice(["posedge", "posedge", "negedge"]), rng.choice([2, 3, 4]), rng.choice([1, 2, 3]), rng.choice([0, 1, 2, 3])
        qs, fs, ws = ["q%d" % i for i in range(nq)], ["f%d" % i for i in range(nf)], ["w%d" % i for i in range(nw)]
        k = lambda: "%d'd%d" % (w, rng.randrange(1 << w))

        def cond(d=1):
            c = rng.random()
            if c < 0.55 or not d:
                return rng.choice(fs + fs + ["s0", "s1"])
            if c < 0.75:
                return "%s(%s %s %s)" % (rng.choice(["", "!"]), rng.choice(qs + ["d0"]), rng.choice(["==", "!=", "<", ">="]), rng.choice(qs + [k()]))
            return "(%s %s %s)" % (cond(0), rng.choice(["&", "|", "^", "&&", "||"]), rng.choice(["", "!"]) + cond(0))

        def expr(wires, d=1):
            c = rng.random()
            if c < 0.5 or not d:
                return rng.choice(qs + qs + ["d0", "d1"] + wires * 2 + [k()])
            if c < 0.7:
                return "(%s %s %s)" % (expr(wires, d - 1), rng.choice(["^", "&", "|", "+", "-"]), expr(wires, d - 1))
            if c < 0.8:
                n = rng.randrange(1, w)
                return "{%s[%d:0], %s[%d:%d]}" % (rng.choice(qs), n - 1, rng.choice(qs + ["d0"]), w - 1, n)
            return "(%s ? %s : %s)" % (cond(), expr(wires, d - 1), expr(wires, d - 1))

        def stmt(q, e, d=2):
            c = rng.random()
            if c < 0.35 or not d:
                return "%s <= %s;" % (q, e())
            if c < 0.75:
                return "if (%s) begin %s end else begin %s end" % (cond(), stmt(q, e, d - 1), stmt(q, e, d - 1))
            return "if (%s) begin %s end" % (cond(), stmt(q, e, d - 1))
        spec = ["input CLK", "input s0", "input s1"] + ["input d%d %d 0" % (i, w - 1) for i in range(2)]
        spec += ["reg %s %d 0" % (x, w - 1) for x in qs] + ["reg %s" % x for x in fs] + ["output %s %d 0" % (x, w - 1) for x in ws]
        body = []
        for i, x in enumerate(ws):
            body.append("assign %s = %s;" % (x, expr(ws[:i], 2)))
        for x in qs:
            body.append("always @(%s CLK) begin %s end" % (edge, stmt(x, lambda: expr(ws))))
        for x in fs:
            body.append("always @(%s CLK) begin %s end" % (edge, stmt(x, lambda: cond(), 1)))
        rng.shuffle(body)
        ctx.count("pipe-designs")
        return rng, witness.Fixed("; ".join(spec), "\n".join(body))

    def stimulus(self, case, rng, g):
        if case[0] != "pipe":
            return SemCheck.stimulus(self, case, rng, g)
        out = simrun.stimulus(rng, g.top, 2)
        clk = out[0][1]["CLK"]
        for _ in range(3):
            out += [("in", {s.name: rng.randrange(1 << s.w.fn({})) for d, s in g.top.ports if d == "input" and s.name != "CLK"})]
            for _ in range(rng.choice([9, 10, 11, 12])):
                clk = 1 - next((x[1]["CLK"] for x in reversed(out) if "CLK" in x[1]), clk)
                out.append(("clk", {"CLK": clk}))
        return out

    def run(self, case, ctx):
        if case[0] != "trees":
            return SemCheck.run(self, case, ctx)
        rng = core.rng_for(self.prop, ctx.seed, case)
        for _ in range(20):
            self.reordered(rng, ctx)

    def reordered(self, rng, ctx):
        """reordering a tree of any kind keeps its value on every valuation"""
        from pyverilog.dataflow import reorder, dataflow as D
        g = p14.Gen(rng)
        w = rng.choice([1, 2, 3, 4])

        def spine(d):
            k = rng.random()
            if d == 0 or k < 0.2:
                return g.tree(w, rng.choice([1, 2, 3]))
            c = g.tree(rng.choice([1, 1, 2]), 1) if rng.random() < 0.6 else D.DFBranch(g.tree(1, 1), g.tree(1, 1), g.tree(1, 1))
            t, f = [None if rng.random() < 0.2 else spine(d - 1) for _ in "tf"]
            return D.DFBranch(c, t, f if t is not None or f is not None else spine(0))
        t = spine(rng.choice([0, 1, 2, 3]))
        if w > 1 and not isinstance(t, D.DFTerminal) and rng.random() < 0.3:
            n = rng.randrange(1, w)
            o = rng.randrange(w - n + 1)
            t, w = (D.DFPartselect(t, g.num(o + n - 1), g.num(o)), n) if n > 1 or rng.random() < 0.5 else (D.DFPointer(t, g.num(w - 1)), 1)
        if rng.random() < 0.25:
            t = wrapped(t, rng, D, rng.choice([0, 0.05, 0.15]))
        src = t.tostr()
        if len(src) > 5000 or src.count('Branch Cond') > 9:
            return
        before = p14.dump(t)
        self.last_source = src
        with repo(), quiet():
            u = reorder.reorder(t)
        if p14.dump(t) != before:
            ctx.violation("modified", "the tree given was modified: %s" % src, src)
            return
        ctx.count("trees-reordered")
        if p14.dump(u) != before:
            ctx.count("trees-reordered-changed")
        if buried(u):
            ctx.violation("order", "the choice %s is below another node\nbefore %s\nafter  %s" % (buried(u).tostr(), src, u.tostr()[:3000]), src)
            return
        if "Delay" in src:
            ctx.count("trees-reordered-delays")
        if len(u.tostr()) > 100000:
            return
        vals, mem = {str(c): v for c, v in g.consts.items()}, {}
        times = [(vals, mem)] + [(dict(vals), {}) for _ in range(4)]
        evs = [dfeval.Evaluator(lambda n, v=v: v[str(n)], lambda n: g.shape[str(n)], lambda n, i, a=a: a[i]) for v, a in times]
        for a, b in zip(evs, evs[1:]):
            a.earlier = b
        ev = evs[0]
        free = [n for n in g.shape if n not in vals]

        def val(x):
            try:
                return ev.value(x, w)
            except dfeval.Hold:
                return "hold"
        for _ in range(40):
            for v, a in times if "Delay" in src else times[:1]:
                for n in free:
                    s = g.shape[n]
                    v[n] = rng.randrange(1 << (abs(s[0] - s[1]) + 1))
                for i in range(4):
                    a[i] = rng.randrange(16)
            try:
                x = val(t)
            except dfeval.Unknown:
                continue
            try:
                y = val(u)
            except dfeval.Unknown:  # a division by zero can move out of a short circuit
                ctx.count("reordered-unknown")
                continue
            except dfeval.Bad as e:
                y = "Bad %s" % e
            ctx.count("reordered-values")
            if x != y:
                ctx.violation("reordered", "%s instead of %s for %s\nbefore %s\nafter  %s" % (y, x, vals, src, u.tostr()[:3000]), src)
                return

    def judge(self, case, ctx, g, m, stim, snaps, rng):
        from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
        from pyverilog.dataflow.walker import VerilogDataflowWalker
        terms, binds = self.raw
        with repo(), quiet():
            o = VerilogDataflowOptimizer(terms, binds)
            o.resolveConstant()
            w = VerilogDataflowWalker("top", terms, binds, o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist())
        self.explicit = (terms, binds, o)
        done, compared = set(), 0
        self.sizes, self.cyclic = {}, set()
        self.regs = {n for n, bl in m.binds.items() if not any(b.isCombination() for b in bl)}
        for n in sorted(m.binds):
            p = m.sim(n)
            if p is None or m.info[p]["const"] is not None or m.info[p]["dims"] is not None or p not in snaps[0]:
                continue
            width = m.info[p]["width"]
            comb = [b.isCombination() for b in m.binds[n]]
            if self.expansion(m, n, 0) > self.LIMIT:
                ctx.count("skipped-expansion-too-large")
                continue
            try:
                with repo(), quiet():
                    tree = w.walkBind(n)
            except core.RepoError as e:
                ctx.violation("raised:" + type(e.exc).__name__, "walk of %s: %s\n%s" % (n, e.tb[-1500:], describe(m, n)), g.text)
                return
            ctx.count("trees-walked")
            left = names(tree, set()) - {n}
            for x in left:
                q = m.sim(x)
                if q is None:
                    continue
                if "Input" in m.info[q]["kinds"] and q.count(".") == 1 or m.info[q]["dims"] is not None:
                    ctx.count("stopped-at-inputs")
                elif x in m.binds and any(not b.isCombination() for b in m.binds[x]):
                    ctx.count("stopped-at-registers")
                elif x in m.binds and m.info[q]["const"] is None and not m.info[q].get("latch") and not self.feeds(m, x):
                    ctx.violation("unexpanded", "walk of %s leaves %s\n%s\n%s" % (n, x, tree.tostr()[:1000], describe(m, n)), g.text)
                    return
            if all(comb):
                for step, sn in enumerate(snaps):
                    if sn[p] is None:
                        continue
                    m.load(sn)
                    try:
                        v = m.ev.value(tree, width)
                    except (dfeval.Unknown, dfeval.Hold):
                        ctx.count("unknown-values")
                        continue
                    except dfeval.Bad as e:
                        ctx.violation("meaningless", "walk of %s: %s\n%s\n%s" % (n, e, tree.tostr()[:1500], describe(m, n)), g.text)
                        return
                    compared += 1
                    done.add(n)
                    if v != sn[p] and self.stands(ctx, step, p, sn[p]) and not self.functionhold(ctx, m, n, 0, width, sn[p]):
                        ctx.violation("value", "step %d: %s is %d in simulation, %d by its walked tree\n%s\n%s\ninputs %s" % (
                            step, n, sn[p], v, tree.tostr()[:1500], describe(m, n), {k: sn[k] for k in sn if k.count(".") == 1}), g.text)
                        return
            elif not any(comb):
                i = m.binds[n][0].alwaysinfo
                for k in range(1, len(stim)):
                    if stim[k][0] not in ("clk", "rst"):
                        continue
                    pre, post = snaps[k - 1], snaps[k]
                    mix = dict(pre)
                    for x in pre:
                        if x[x.rindex(".") + 1:] in simrun.CLK + simrun.RST:
                            mix[x] = post[x]
                    m.load(mix)
                    act = self.active(m, i.clock_name, i.clock_edge, pre, post) or \
                        (i.reset_name and self.active(m, i.reset_name, i.reset_edge, pre, post))
                    if not act or post[p] is None:
                        continue
                    try:
                        v = m.ev.value(tree, width)
                    except (dfeval.Unknown, dfeval.Hold):
                        ctx.count("unknown-values")
                        continue
                    except dfeval.Bad as e:
                        ctx.violation("meaningless", "walk of %s: %s\n%s\n%s" % (n, e, tree.tostr()[:1500], describe(m, n)), g.text)
                        return
                    compared += 1
                    ctx.count("next-states-compared")
                    done.add(n)
                    if v != post[p] and self.stands(ctx, k, p, post[p]) and self.stands(ctx, k - 1, p, pre[p]) \
                            and not self.functionhold(ctx, m, n, 0, width, post[p]):
                        ctx.violation("next-state", "step %d: %s goes from %s to %s in simulation, to %d by its walked tree\n%s\n%s" % (
                            k, n, pre[p], post[p], v, tree.tostr()[:1500], describe(m, n)), g.text)
                        return
        compared += self.steps_ahead(case, ctx, g, m, w, stim, snaps, done)
        ctx.count("values-compared", compared)
        if len(done) >= 5:
            ctx.nontrivial(g.text)
        if len(ctx.samples) < 1 and len(g.text) < 1400 and len(done) > 4:
            ctx.sample(g.text)

    def functionhold(self, ctx, m, n, step, width, want):
        """the recorded finding: where a function is not called its arguments and result hold, in the tree, the signal walked; only
        their width matters.  True when the tree with the names of the arguments there has the value simulated"""
        from pyverilog.dataflow import replace
        from pyverilog.dataflow.walker import VerilogDataflowWalker
        if "function-hold:value" not in core.load_known("P15"):
            return False
        terms, binds, o = self.explicit

        class Walker(VerilogDataflowWalker):
            def getTree(self, name, ptr=None):
                tree, t = VerilogDataflowWalker.getTree(self, name, ptr), self.getTermtype(name)
                return replace.replaceUndefined(tree, name) if "Function" in t and tree is not None else tree
        try:
            with repo(), quiet():
                tree = Walker("top", terms, binds, o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist()).walkBind(n, step)
            same = m.ev.value(tree, width) == want
        except (core.RepoError, dfeval.Unknown, dfeval.Hold, dfeval.Bad):
            return False
        if same:
            ctx.knownfinding("function-hold:value")
        return same

    def steps_ahead(self, case, ctx, g, m, w, stim, snaps, done):
        """walks through registers: with inputs that stay, the tree of k more steps gives the value k edges later"""
        clocks = {str(i.clock_name) + i.clock_edge for n in self.regs for i in [m.binds[n][0].alwaysinfo] if i is not None}
        clks = {m.sim(str(m.binds[n][0].alwaysinfo.clock_name)) for n in self.regs if m.binds[n][0].alwaysinfo is not None}
        edges = {m.binds[n][0].alwaysinfo.clock_edge for n in self.regs if m.binds[n][0].alwaysinfo is not None}
        tops = [p for p in clks if p.count(".") == 1]
        if len(tops) != 1 or len(edges) != 1 or any(p.split(".")[-1] not in simrun.CLK for p in clks):
            return 0
        clk, edge = tops[0], edges.pop()
        runs, k = [], 1
        while k < len(stim):
            j = k
            while j < len(stim) and stim[j][0] == "clk":
                j += 1
            if j > k:
                act = [x for x in range(k, j) if self.edge(edge, snaps[x - 1][clk], snaps[x][clk])]
                runs.append(act)
            k = j + 1
        compared = 0
        for n in sorted(m.binds):
            p = m.sim(n)
            if p is None or m.info[p]["const"] is not None or m.info[p]["dims"] is not None or p not in snaps[0] or m.info[p].get("latch"):
                continue
            if n.split(".")[-1] in simrun.CLK + simrun.RST:
                continue
            isreg = n in self.regs
            for step in ((1, 2, 3, 4) if case[0] == "pipe" else (1, 2)):
                need = step + (1 if isreg else 0)
                use = [a for a in runs if len(a) >= need]
                if not use or self.expansion(m, n, step) > self.LIMIT:
                    continue
                try:
                    with repo(), quiet():
                        tree = w.walkBind(n, step)
                except core.RepoError as e:
                    ctx.violation("raised:" + type(e.exc).__name__, "walk of %s, %d steps: %s\n%s" % (n, step, e.tb[-1500:], describe(m, n)), g.text)
                    return compared
                for a in use:
                    pre, k = snaps[a[0] - 1], a[need - 1]
                    mix = dict(pre)
                    for x in pre:
                        if x[x.rindex(".") + 1:] in simrun.CLK:
                            mix[x] = snaps[k][x]
                    want = snaps[k][p]
                    if want is None:
                        continue
                    m.load(mix)
                    try:
                        v = m.ev.value(tree, m.info[p]["width"])
                    except (dfeval.Unknown, dfeval.Hold):
                        continue
                    except dfeval.Bad as e:
                        ctx.violation("meaningless", "walk of %s, %d steps: %s\n%s\n%s" % (n, step, e, tree.tostr()[:1500], describe(m, n)), g.text)
                        return compared
                    compared += 1
                    ctx.count("later-values-compared")
                    if step > 2:
                        ctx.count("far-values-compared")
                    if v != want and all(self.stands(ctx, k, q, snaps[k][q]) for q in snaps[k] if snaps[k][q] is not None and not isinstance(snaps[k][q], dict)) \
                            and not self.functionhold(ctx, m, n, step, m.info[p]["width"], want):
                        ctx.violation("later-value", "step %d: %s is %s in simulation %d edges after step %d, %d by its tree walked %d steps\n%s\n%s" % (
                            k, n, want, need, a[0] - 1, v, step, tree.tostr()[:1500], describe(m, n)), g.text)
                        return compared
        return compared

    def edge(self, edge, a, b):
        return a is not None and b is not None and (a & 1, b & 1) == ((0, 1) if edge == "posedge" else (1, 0))

    def active(self, m, name, edge, pre, post):
        p = m.sim(str(name))
        a, b = pre.get(p), post.get(p)
        if a is None or b is None:
            return False
        return (a & 1, b & 1) == ((0, 1) if edge == "posedge" else (1, 0))

    def minimums(self, tier):
        c = self.counts[tier]
        return {"values-compared": 20 * c, "distinct_nontrivial": c // 2, "next-states-compared": c, "stopped-at-registers": c // 4, "later-values-compared": c, "far-values-compared": c,
                "reordered-values": 100 * c, "trees-reordered-changed": c, "trees-reordered-delays": c // 8}


if __name__ == "__main__":
    core.main("P15", Check())
