from semantic_common import *
from vlib import elab
from p10 import canon
import subprocess

SIZED = 8


class Rich(elab.Gen):
    """hierarchies with extra parameters that nothing else depends on; their values come from the simulator"""
    def __init__(self, rng):
        self.rich = []      # (module name, parameter)
        self.deep = rng.random() < 0.4
        elab.Gen.__init__(self, rng, depth=1, mods=4)

    def module(self, name, lib):
        m = elab.Gen.module(self, name, lib)
        r = self.r
        vis = [n for k, n, e in m.params]
        plain, sized, out = list(vis), [], []
        k = r.randint(4, 12) if self.deep else r.randint(1, 6)
        names = []
        for i in range(k):
            n = self.name(r.choice(["R", "Q", "a", "zz", "x_"]))
            names.append(n)
        todo = []
        for n in names:
            self.left = 6
            if self.p(0.3):
                todo.append((n, "localparam [%d:0] %s = %s;" % (SIZED - 1, n, self.sized(sized, 3))))
                sized.append(n)
                self.tick("sized-parameter")
            elif self.p(0.15):
                self.left = 0
                todo.append((n, "parameter %s = %s %s %s;" % (n, self.plain(plain, 1), r.choice(["==", "!=", "<", "<=", ">", ">=", "&&", "||"]), self.plain(plain, 1))))
            else:
                todo.append((n, "%s %s = %s;" % (r.choice(["parameter", "localparam"]), n, self.plain(plain, 3))))
                plain.append(n)
        for n, t in todo:
            out.append("  " + t)
            self.rich.append((name, n))
        self.tick("dependent-parameters")
        m.text = m.text.replace("endmodule", "\n".join(out) + "\nendmodule")
        return m

    def plain(self, names, d):
        """signed 32-bit arithmetic on small values"""
        r = self.r
        k = r.random()
        if d == 0 or k < 0.15 or self.left <= 0:
            return r.choice(names) if names and self.p(0.7) else str(r.choice([0, 1, 2, 3, 5, 7, 10, 16, 31, 100]))
        self.left -= 1
        x, y = self.plain(names, d - 1), self.plain(names, d - 1)
        if k < 0.55:
            return "(%s %s %s)" % (x, r.choice(["+", "-", "*", "+", "|", "^", "&"]), y)
        if k < 0.57:
            self.tick("clog2")
            return "$clog2((%s) & 1023)" % x
        if k < 0.65:
            self.tick("division")
            return "((%s) %s %d)" % (x, r.choice("/%"), r.randint(1, 9))
        if k < 0.72:
            return "((%s) %s %d)" % (x, r.choice(["<<", ">>>", "<<"]), r.randint(0, 4))
        if k < 0.76:
            self.tick("power")
            return "(%d ** %d)" % (r.randint(0, 4), r.randint(0, 6))
        if k < 0.8:
            # a reduction, a select or a negation as condition
            j = r.random()
            if j < 0.3:
                w = r.randint(2, 9)
                v = r.choice([(1 << w) - 1, (1 << w) - 1 >> 1, r.randrange(1 << w), 0, 1 << r.randrange(w)])
                x = r.choice(["%d'd%d" % (w, v), "%d'b%s" % (w, format(v, "b")), "%d'h%x" % (w, v), "%d'b%s" % (w, format(v, "0%db" % w))])
            elif j < 0.6 and names:
                h = r.randint(0, 7)
                x = "%s[%d:%d]" % (r.choice(names), h, r.randint(0, h)) if self.p(0.7) else "%s[%d]" % (r.choice(names), h)
            else:
                # the simulator gives negative operands more than 32 bits
                x = "(%s & %d)" % (r.choice(names) if j < 0.8 and names else "(%s)" % x, r.choice([255, 1, 7, 1023]))
            self.tick("reduction")
            return "((%s%s) ? %s : %s)" % (r.choice(["&", "|", "^", "~&", "~|", "~^", "!", "&"]), x, r.randint(0, 9), y)
        if k < 0.86:
            self.tick("comparison")
            c = "((%s) %s (%s))" % (x, r.choice(["==", "!=", "<", "<=", ">", ">=", "&&", "||"]), y)
            return "(%s ? 1 : 0)" % c      # alone it has one unsigned bit
        if k < 0.93:
            self.tick("choice")
            return "((%s) ? %s : %s)" % (self.plain(names, d - 1), x, y)
        return "(-(%s))" % x if self.p(0.6) else "((~(%s)) & 255)" % x

    def sized(self, names, d):
        """8-bit unsigned arithmetic"""
        r = self.r
        k = r.random()
        if d == 0 or k < 0.2 or self.left <= 0:
            if names and self.p(0.6):
                return r.choice(names)
            v = r.randrange(256)
            return r.choice(["8'd%d" % v, "8'h%x" % v, "8'b%s" % format(v, "b"), "8'o%o" % v])
        self.left -= 1
        x, y = self.sized(names, d - 1), self.sized(names, d - 1)
        if k < 0.6:
            return "(%s %s %s)" % (x, r.choice(["+", "-", "*", "|", "^", "&", "~^"]), y)
        if k < 0.7:
            return "(%s %s %d)" % (x, r.choice(["<<", ">>"]), r.randint(0, 5))
        if k < 0.8:
            self.tick("sized-concat")
            n = r.randint(1, 7)
            if names and self.p(0.6):
                a = r.choice(names)
                l = r.randint(0, 8 - n)
                self.tick("sized-select")
                if self.p(0.3):
                    return "{%d'd%d, %s[%d +: %d]}" % (8 - n, r.randrange(1 << (8 - n)), a, l, n)
                if self.p(0.3):
                    return "{{%d{%s%s}}, %s[%d:%d]}" % (8 - n, r.choice(["&", "|", "^", "!"]), a, a, l + n - 1, l)
                return "{%s[%d:%d], %d'd%d}" % (a, l + n - 1, l, 8 - n, r.randrange(1 << (8 - n)))
            return "{%d'd%d, %d'h%x}" % (n, r.randrange(1 << n), 8 - n, r.randrange(1 << (8 - n)))
        if k < 0.9:
            return "((%s %s %s) ? %s : %s)" % (x, r.choice(["<", "==", ">="]), y, x, self.sized(names, d - 1))
        return "(~%s)" % x


class Check(SemCheck):
    prop = "P13"
    rule = ("generated hierarchies with dependent parameters, overrides and constant expressions: the resolved constant of every parameter and "
            "localparam of every instance is compared with the value the simulator prints for it; in generated designs every name reported "
            "as constant must keep that value in simulation under random stimulus; non-trivial: distinct texts with 4 or more parameter values compared")
    counts = {"quick": 1800, "thorough": 16000}
    assumptions = ["Icarus Verilog gives parameter values", "typed parameters are compared modulo their width", "values outside 31 bits are not compared"]
    cfgs = [dict(hier=3, params=0.9, gen=0.4), dict(always=0.9, temps=0.6, func=0.4), dict(clocked=0.6, params=0.6), dict(loops=0.6, always=0.8)]

    def cases(self, tier, seed):
        n = self.counts[tier]
        return [["param", i] for i in range(n)] + [["design", i] for i in range(n // 3)]

    def run(self, case, ctx):
        if case[0] == "param":
            return self.params(case, ctx)
        return SemCheck.run(self, case, ctx)

    def resolve(self, terms, binds):
        from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
        with repo(), quiet():
            o = VerilogDataflowOptimizer(terms, binds)
            o.resolveConstant()
            return o.getConstlist(), o.getResolvedTerms(), o.getResolvedBinddict()

    def params(self, case, ctx):
        rng = core.rng_for("P13", ctx.seed, case)
        while True:
            g = Rich(rng)
            if len(g.instances) <= 30 and len(g.signals) < 200 and all(abs(s[4]) < 1 << 28 for s in g.signals if s[4] is not None):
                break
        self.last_source = g.text
        for k, n in g.ticks.items():
            ctx.count("has:" + k, n)
        a, terms, binds = analyze(g.text, self.scratch)
        const, rterms, rbinds = self.resolve(a.getTerms(), a.getBinddict())
        want = {s[0]: s[4] for s in g.signals if s[4] is not None}
        known = dict(want)
        by = {}
        for m, n in g.rich:
            by.setdefault(m, []).append(n)
        rich = [(p, n) for p, m in g.instances for n in by.get(m, ()) if "?" not in p]
        known.update(self.ask(g, rich))
        got = {}
        for k, v in const.items():
            c = canon(k)
            if c is None:
                continue
            if c in got:
                ctx.violation("twice", "%s is reported twice" % k, g.text)
                return
            got[c] = v
        n = 0
        names = {canon(k): k for k in terms}
        for p, w in known.items():
            if w is None:
                ctx.count("out-of-range")
                continue
            if "?" in p:
                ctx.count("unnamed-scopes")
                continue
            t = None
            if p not in got:
                ctx.violation("unresolved", "%s has no constant; it is %d\n%s" % (p, w, [b.tostr() for b in binds.get(names.get(p), ())]), g.text)
                return
            v = got[p].value
            if not isinstance(v, (int, bool)):
                ctx.violation("not-integer", "%s resolves to %r" % (p, v), g.text)
                return
            n += 1
            v = int(v)
            if w < 0 or self.is_sized(g, p):
                bits = SIZED if self.is_sized(g, p) else 32
                v, w = v & ((1 << bits) - 1), w & ((1 << bits) - 1)
            if v != w:
                ctx.violation("value", "%s resolves to %d, it is %d\n%s" % (p, v, w, [b.tostr() for b in binds.get(names.get(p), ())]), g.text)
                return
            tree = rbinds[names[p]]
            if len(tree) != 1 or getattr(tree[0].tree, "value", None) != got[p].value:
                ctx.violation("resolved-tree", "%s: resolved definition is %s, constant %s" % (p, [b.tostr() for b in tree], got[p]), g.text)
                return
        # declared ranges, resolved
        ev = dfeval.Evaluator(None, None, None)
        ranges = {s[0]: (s[2], s[3]) for s in g.signals if s[2] is not None}
        for k, t in rterms.items():
            c = canon(k)
            if c in ranges and "?" not in c:
                r = (self.int(t.msb), self.int(t.lsb))
                d = None if t.dims is None else (self.int(t.dims[0][0]), self.int(t.dims[0][1]))
                if (r, d) != ranges[c]:
                    ctx.violation("range", "%s has the resolved range %s %s, declared %s" % (k, r, d, ranges[c]), g.text)
                    return
                ctx.count("ranges-compared")
        ctx.count("parameters-compared", n)
        if n >= 4:
            ctx.nontrivial(g.text)
            if len(ctx.samples) < 1 and len(g.text) < 1200:
                ctx.sample(g.text)

    def is_sized(self, g, p):
        n = p[p.rindex(".") + 1:]
        return "localparam [%d:0] %s =" % (SIZED - 1, n) in g.text

    def int(self, t):
        from pyverilog.dataflow import dataflow as D
        if isinstance(t, D.DFEvalValue):
            return t.value
        if isinstance(t, D.DFIntConst):
            return t.eval()
        return str(t)

    def ask(self, g, paths):
        """values of parameters by simulation; None where the value is not within 31 bits or undefined"""
        f = os.path.join(self.scratch, "ask.v")
        with open(f, "w") as h:
            h.write(g.text)
            h.write("module ask;\n  top top();\n  initial begin\n")
            for p, n in paths:
                h.write('    $display("%%0d", ask.%s.%s);\n' % (g.simpath[p], n))
            h.write("  end\nendmodule\n")
        out = os.path.join(self.scratch, "ask.vvp")
        r = simrun.run([simrun.IVERILOG, "-g2005", "-s", "ask", "-o", out, f])
        if r.returncode:
            if "Assertion" in r.stderr:
                return {}
            raise core.HarnessError("iverilog: %s\n%s" % (r.stderr[:600], g.text))
        r = simrun.run([simrun.VVP, "-n", out])
        vals = r.stdout.split()
        if len(vals) != len(paths):
            raise core.HarnessError("vvp printed %d of %d values: %s" % (len(vals), len(paths), r.stdout[:300]))
        res = {}
        for (p, n), v in zip(paths, vals):
            try:
                x = int(v)
            except ValueError:
                x = None
            res[p + "." + n] = x if x is not None and abs(x) < 1 << 31 else None
        return res

    def judge(self, case, ctx, g, m, stim, snaps, rng):
        const, rterms, rbinds = self.resolve(*self.raw)
        n = 0
        for k, v in const.items():
            p = m.sim(str(k))
            for step, sn in enumerate(snaps):
                m.load(sn)
                try:
                    w = m.read(str(k))
                except (dfeval.Unknown, dfeval.Hold):
                    ctx.count("unknown-values")
                    continue
                width = abs(m.shape(str(k))[0] - m.shape(str(k))[1]) + 1
                if int(v.value) & ((1 << width) - 1) != w & ((1 << width) - 1):
                    ctx.violation("not-constant", "%s is reported as the constant %s, it is %d at step %d\n%s" % (k, v.value, w, step, describe(m, str(k))), g.text)
                    return
                n += 1
            if p is None:
                ctx.count("internal-constants")
        for s in g.signals:
            if s["const"] is not None:
                k = [x for x in const if m.sim(str(x)) == s["path"]]
                if not k:
                    ctx.violation("unresolved", "%s has no constant; it is %d" % (s["path"], s["const"]), g.text)
                    return
                ctx.count("parameters-compared")
        ctx.count("constants-checked", n)

    def minimums(self, tier):
        c = self.counts[tier]
        return {"parameters-compared": 8 * c, "distinct_nontrivial": c * 6 // 10, "constants-checked": c, "has:division": 100, "has:power": 50,
                "has:comparison": 100, "has:choice": 50, "has:sized-parameter": 200, "has:reduction": 100, "has:clog2": 50, "has:sized-select": 50, "has:ordered-override": 100, "has:named-override": 100, "ranges-compared": 3 * c}


if __name__ == "__main__":
    core.main("P13", Check())
