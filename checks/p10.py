from semantic_common import *
from collections import Counter
from vlib import elab
from vlib.simrun import LABEL

W = {
    "function-locals": ("module top(input [3:0] a, output [3:0] o, output [7:0] p); wire [7:0] t; assign t = {a, a};\n"
                        "function [3:0] f; input [3:0] x; reg [3:0] t; begin t = x + 1; f = t; end endfunction\nassign o = f(a); assign p = t; endmodule\n",
                        [("top.a", "Input", (3, 0)), ("top.o", "Output", (3, 0)), ("top.p", "Output", (7, 0)), ("top.t", "Wire", (7, 0))], [("top", "top")]),
    "unused-modules": ("module a(input x); b u(x); endmodule\nmodule b(input x); wire y; endmodule\nmodule top(input x); b u(x); endmodule\n",
                       [("top.x", "Input", (0, 0)), ("top.u.x", "Input", (0, 0)), ("top.u.y", "Wire", (0, 0))], [("top", "top"), ("top.u", "b")]),
    "same-names": ("module s(input x); parameter P = 1; wire [P:0] w; endmodule\nmodule top(input x); parameter P = 5; wire [P:0] w; s #(P) s(x); s #(2) t(x); endmodule\n",
                   [("top.x", "Input", (0, 0)), ("top.P", "Parameter", (31, 0)), ("top.w", "Wire", (5, 0)), ("top.s.x", "Input", (0, 0)), ("top.s.P", "Parameter", (31, 0)),
                    ("top.s.w", "Wire", (5, 0)), ("top.t.x", "Input", (0, 0)), ("top.t.P", "Parameter", (31, 0)), ("top.t.w", "Wire", (2, 0))],
                   [("top", "top"), ("top.s", "s"), ("top.t", "s")]),
    "supply": ("module top(input x); supply0 g; supply1 v; endmodule\n", [("top.x", "Input", (0, 0)), ("top.g", "Supply", (0, 0)), ("top.v", "Supply", (0, 0))], [("top", "top")]),
    "procedure-locals": ("module top(input x, output reg y); always @* begin : b reg [3:0] t; t = x; y = t[0]; end endmodule\n",
                         [("top.x", "Input", (0, 0)), ("top.y", "Output Reg", (0, 0)), ("top.b.t", "Reg", (3, 0))], [("top", "top")]),
    "recursive-depth": ("module a(input x); endmodule\nmodule b(input x); a u(x); a v(x); endmodule\nmodule c(input x); b u(x); b v(x); endmodule\nmodule top(input x); c u(x); c v(x); endmodule\n",
                        None, [("top", "top")] + [("top.%s" % p, "c") for p in "uv"] + [("top.%s.%s" % (p, q), "b") for p in "uv" for q in "uv"] +
                        [("top.%s.%s.%s" % (p, q, s), "a") for p in "uv" for q in "uv" for s in "uv"]),
}


def canon(name):
    """reported name -> path with [k] on blocks of loops and ? for a block without a name; None: inside the expansion of a function call"""
    out, pend = [], None
    for p in str(name).split("."):
        if "functioncall" in p:
            return None
        m = LABEL.match(p)
        if m:
            if m.group(1) == "for":
                pend = m.group(4)
            if m.group(1) != "block":
                continue
            p = "?"
        if pend is not None:
            p = "%s[%s]" % (p, pend)
            pend = None
        out.append(p)
    return ".".join(out)


class Check(object):
    rule = ("generated hierarchies (parameters, overrides, both header styles, every kind of declaration, instance arrays, nested generate "
            "constructs, functions) whose elaboration is known by construction; the instance table and signal table are compared entry by "
            "entry as multisets with kind, direction, range and array bounds evaluated; non-trivial: distinct design texts with 6 or more entries")
    counts = {"quick": 5000, "thorough": 40000}
    assumptions = ["real variables, events and genvars are not signals", "signals standing for the expansion of function calls (functioncallN) and renamed "
                   "temporaries (_rnN_) are internal to the analysis"]

    def cases(self, tier, seed):
        return [["witness", n] for n in sorted(W)] + [["design", i] for i in range(self.counts[tier])] + \
            [["semantic", i] for i in range(self.counts[tier] // 10)]

    def run(self, case, ctx):
        if case[0] == "witness":
            text, sigs, insts = W[case[1]]
            ctx = Keyed(ctx, case[1] + ":")
            want = None if sigs is None else Counter((p, tuple(sorted(k.split())), r, None) for p, k, r in sigs)
        elif case[0] == "design":
            rng = core.rng_for("P10", ctx.seed, case)
            while True:
                g = elab.Gen(rng)
                if len(g.signals) < 160 and len(g.instances) < 40:
                    break
            text, insts = g.text, g.instances
            want = Counter((p, tuple(sorted(k)), (31, 0) if v is not None or k == {"Integer"} else r, d) for p, k, r, d, v in g.signals)
        else:
            rng = core.rng_for("P10", ctx.seed, case)
            while True:
                g = design.DesignGen(rng, hier=3, params=0.6, gen=0.5, lsb=0.3, func=0.3, mem=0.4, temps=0.4, asc=0.2).design().elaborate()
                if len(g.signals) < 160 and len(g.instances) < 25:
                    break
            text, insts = g.text, [(self.flat(p), m) for p, m in g.instances]
            want = Counter((self.flat(s["path"]), tuple(sorted(s["kinds"])), (31, 0) if s["msb"] is None and (s["const"] is not None or "Integer" in s["kinds"]) else None if s["msb"] is None else (s["msb"], s["lsb"]), s["dims"]) for s in g.signals if "Genvar" not in s["kinds"])
        self.last_source = text
        for k, n in getattr(g, "ticks", {}).items() if case[0] != "witness" else ():
            ctx.count("has:" + k, n)
        a, terms, binds = analyze(text, self.scratch)
        with repo(), quiet():
            got_i = [(canon(n), m) for n, m in a.getInstances()]
        ctx.count("instances-compared", len(insts))
        self.diff(ctx, "instances", Counter(insts), Counter(got_i), text)
        if want is None:
            return
        consts = {}
        if case[0] == "design":
            consts = {p: v for p, k, r, d, v in g.signals if v is not None}
        elif case[0] == "semantic":
            consts = {self.flat(s["path"]): s["const"] for s in g.signals if s["const"] is not None}
        else:
            consts = {"top.P": 5, "top.s.P": 5, "top.t.P": 2}
        ev = dfeval.Evaluator(lambda n: consts[canon(n)], lambda n: (31, 0, None), None)
        got = Counter()
        for n, t in terms.items():
            if t.termtype in ({"Rename"}, {"Function"}, {"Genvar"}):
                ctx.count("internal-entries")
                continue
            c = canon(n)
            if c is None:
                ctx.violation("internal", "%s inside a function call has kind %s" % (n, sorted(t.termtype)), text)
                return
            if str(t.name) != str(n):
                ctx.violation("name", "entry %s is named %s" % (n, t.name), text)
                return
            try:
                r = None if t.msb is None else (self.num(ev, t.msb), self.num(ev, t.lsb))
                d = None
                if t.dims is not None:
                    d = tuple((self.num(ev, x[0]), self.num(ev, x[1])) for x in t.dims)
                    d = d[0] if len(d) == 1 else d
            except (KeyError, dfeval.Bad, dfeval.Unknown) as e:
                ctx.violation("range", "%s: range %s:%s cannot be evaluated (%r)" % (n, t.msb, t.lsb, e), text)
                return
            got[(c, tuple(sorted(t.termtype)), r, d)] += 1
        ctx.count("entries-compared", sum(want.values()))
        self.diff(ctx, "signals", want, got, text)
        if sum(want.values()) >= 6:
            ctx.nontrivial(text)
            if len(ctx.samples) < 1 and len(text) < 1200:
                ctx.sample(text)

    def num(self, ev, t):
        """value of a range bound, which may be negative"""
        v = ev.value(t, 40)
        return v - (1 << 40) if v >> 39 else v

    def flat(self, p):
        return p

    def diff(self, ctx, what, want, got, text):
        if want != got:
            miss, extra = list((want - got).items()), list((got - want).items())
            key = "missing" if miss and not extra else "extra" if extra and not miss else "differ"
            ctx.violation(what + "-" + key, "missing %s\nextra %s" % (sorted(map(str, miss))[:6], sorted(map(str, extra))[:6]), text)

    def minimums(self, tier):
        c = self.counts[tier]
        return {"entries-compared": 12 * c, "instances-compared": 2 * c, "distinct_nontrivial": c * 6 // 10, "has:generate-for": 300, "has:generate-if": 300,
                "has:instance-array": 50, "has:named-override": 200, "has:ordered-override": 200, "has:ascending": 300, "has:memory": 300,
                "has:port-with-net": 300, "has:function": 100, "has:scoped-localparam": 60}


if __name__ == "__main__":
    core.main("P10", Check())
