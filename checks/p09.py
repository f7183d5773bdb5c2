from semantic_common import *
from vlib import behav


class Check(SemCheck):
    prop = "P09"
    rule = ("generated programs (signed and unsigned values, functions, gates, instances, generate constructs, delays, memories, reals) and "
            "generated designs under random stimulus; the text generated from the tree is compiled and run beside the original and every "
            "printed value and recorded signal compared; non-trivial: distinct programs whose output has at least five different lines")
    assumptions = ["Icarus Verilog gives the meaning of both texts", "printed values do not depend on the order of events at one time"]
    counts = {"quick": 2600, "thorough": 20000}
    cfgs = [{}, dict(nonansi=0.9, signed=0.7), dict(func=0.9, gate=0.7), dict(inst=0.95, gen=0.7), dict(delay=0.7, blocks=0.8), dict(mem=0.8, real=0.5),
            dict(x=0.5, power=0.2, sysfun=0.4), dict(asc=0.6, init=0.8), dict(sv=0.9)]
    designs = [dict(hier=3, params=0.6, gen=0.5, lsb=0.3, func=0.3, mem=0.4, asc=0.2), dict(clocked=0.7), dict(clocked=0.5, mem=0.5, gen=0.7), dict(func=0.6, lconcat=0.4)]

    def cases(self, tier, seed):
        return [["witness", n] for n in self.witnesses] + [["design" if i % 5 == 4 else "program", i] for i in range(self.counts[tier])]

    witnesses = {
        "integer-function": """module main;
  reg signed [7:0] a;
  wire c;
  function integer f;
    input signed [7:0] x;
    f = x;
  endfunction
  assign c = f(a) < 0;
  initial begin
    a = 5; #1; $display("%b", c);
    a = -3; #1; $display("%b", c);
  end
endmodule
"""}

    def minimums(self, tier):
        q = {"quick": 2, "thorough": 22}[tier]
        return {"programs": 400 * q, "designs": 100 * q, "lines-compared": 5000 * q, "different-lines": 2500 * q, "values-compared": 60000 * q,
                "has:item-func": 150 * q, "has:item-gate": 60 * q, "has:item-inst": 250 * q, "has:item-gen": 100 * q, "has:item-mem": 60 * q, "has:item-real": 8 * q,
                "has:signed": 1500 * q, "has:delay": 200 * q, "has:named-override": 80 * q, "has:positional-override": 60 * q, "has:instance-array": 20 * q,
                "has:concatenated-target": 15 * q, "has:generate-if": 8 * q, "has:while": 30 * q, "has:blocks": 20 * q, "has:variable-indexed-part": 100 * q, "has:variable-indexed-target": 10 * q, "has:nonansi": 150 * q}

    def regenerate(self, text):
        from pyverilog.vparser.parser import VerilogParser
        from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
        with repo(), quiet():
            if not hasattr(self, "parser"):
                self.parser = VerilogParser(debug=False)
            ast = self.parser.parse(text)
            return ASTCodeGenerator().visit(ast)

    def sim(self, text, std, name):
        f, o = os.path.join(self.scratch, name + ".v"), os.path.join(self.scratch, name + ".vvp")
        open(f, "w").write(text)
        c = simrun.run([simrun.IVERILOG, std, "-o", o, "-s", "main", f])
        if c.returncode:
            return None, c.stderr
        try:
            r = simrun.run([simrun.VVP, "-n", o], timeout=60)
        except Exception as e:
            return None, "timeout"
        return r.stdout, ""

    def run(self, case, ctx):
        if case[0] == "design":
            return self.design(case, ctx)
        if case[0] == "witness":
            ctx = Keyed(ctx, "%s:" % case[1])
            text, std = self.witnesses[case[1]], "-g2005"
        else:
            rng = core.rng_for(self.prop, ctx.seed, case)
            cfg = self.cfgs[case[1] % len(self.cfgs)]
            p = behav.Program(rng, **cfg)
            text, std = p.text, "-g2012" if cfg.get("sv") else "-g2005"
        self.last_source = text
        want, err = self.sim(text, std, "a")
        if want is None:
            ctx.count("not-a-program: " + ("timeout" if err == "timeout" else "rejected"))
            if case[0] == "witness":
                raise core.HarnessError(err)
            return
        code = self.regenerate(text)
        got, err = self.sim(code, std, "b")
        if got is None:
            if err == "timeout":
                ctx.violation("endless", "the regenerated program does not end", text + "\n----\n" + code)
            else:
                ctx.violation("compile", "the regenerated text is rejected: %s" % err[:600], text + "\n----\n" + code)
            return
        a, b = want.splitlines(), got.splitlines()
        # code locations may be printed
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            ctx.violation("output", "line %d: original prints %r, regenerated prints %r" % (i, a[i:i + 1], b[i:i + 1]), text + "\n----\n" + code)
            return
        if case[0] == "witness":
            return
        ctx.count("programs")
        for k, n in p.ticks.items():
            ctx.count("has:" + k, n)
        ctx.count("lines-compared", len(a))
        dist = {l.split(None, 1)[-1] for l in a}
        ctx.count("different-lines", len(dist))
        if len(dist) >= 5:
            ctx.nontrivial(text)
        if rng.random() < 0.01:
            ctx.sample(text[:1400])

    def design(self, case, ctx):
        rng = core.rng_for(self.prop, ctx.seed, case)
        while True:
            g = design.DesignGen(rng, **self.designs[case[1] // 5 % len(self.designs)]).design().elaborate()
            if len(g.signals) <= self.maxsignals and len(g.instances) <= 25:
                break
        self.last_source = g.text
        code = self.regenerate(g.text)
        stim = simrun.stimulus(rng, g.top, 24)
        try:
            want = simrun.simulate(g, rng, stim, self.scratch)
        except simrun.SimError as e:
            if "Assertion" in str(e):
                ctx.count("simulator-crashes")
                return
            raise core.HarnessError("simulation failed: %s\n%s" % (e, g.text))
        try:
            got = simrun.simulate(g, rng, stim, self.scratch, text=code, init_lines=g.init_lines)
        except simrun.SimError as e:
            ctx.violation("compile", "the regenerated text is rejected: %s" % e, g.text + "\n----\n" + code)
            return
        ctx.count("designs")
        for k, (a, b) in enumerate(zip(want, got)):
            ctx.count("values-compared", len(a))
            if a != b:
                p = [p for p in a if a[p] != b.get(p)][0]
                ctx.violation("value", "step %d: %s is %s, %s in the regenerated design" % (k, p, a[p], b.get(p)), g.text + "\n----\n" + code)
                return
        ctx.nontrivial(g.text)


if __name__ == "__main__":
    core.main("P09", Check())
