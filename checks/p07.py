from syntax_common import *


_gen = [None, 0]


def codegen(ast):
    """a generator object is used for a number of trees, then replaced (making one compiles its templates)"""
    from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
    with repo(), quiet():
        if _gen[1] % 60 == 0:
            _gen[0] = ASTCodeGenerator()
        _gen[1] += 1
        return _gen[0].visit(ast)


def canon(ast):
    return astdump.flatten_decls(astdump.dump(ast))


class Check(SynCheck):
    prop = "P07"
    rule = ("texts drawn from the full generated grammar are parsed, regenerated and parsed again: both trees must be equal in "
            "every field (declaration lists split per name), and the second regeneration must give the same text; non-trivial: "
            "more than 12 tokens, counted by distinct token sequence")
    counts = {"quick": 10000, "thorough": 80000}

    def source(self, rng, case):
        k = case % 4
        cfg = {}
        if k == 1:
            cfg = {"weights": {"always": 40, "initial": 15, "function": 8, "task": 8}, "stmt_depths": [2, 3, 4]}
        elif k == 2:
            cfg = {"depths": [1, 2, 3], "weights": {"assign": 40, "param_item": 20}}
        g = self.gen(rng, **cfg)
        toks, n = g.source()
        return toks, n, "mixed"

    def run(self, case, ctx):
        rng = core.rng_for(self.prop, ctx.seed, case)
        toks, exp, style = self.source(rng, case)
        text, _ = syn.layout(toks, rng, style=style)
        self.last_source = text
        try:
            p, ast = parse_text(text)
        except core.RepoError:
            ctx.count("rejected_sources")       # judged by the parser checks
            return
        ctx.count("texts")
        for f in self.feats:
            ctx.count("feature:" + f)
        t1 = codegen(ast)
        self.last_source = text + "\n=== generated ===\n" + t1
        p, ast1 = parse_text(t1)
        d = astdump.diff(canon(ast), canon(ast1))
        if d:
            ctx.violation("tree:" + d.split(": ")[0].split(".")[-1].split("[")[0], d, self.last_source)
            return
        t2 = codegen(ast1)
        if "".join(t1.split()) != "".join(t2.split()):      # white space aside
            ctx.violation("text-not-stable", first_diff(t1, t2), self.last_source)
        ctx.count("roundtrips")
        if len(toks) > 12:
            ctx.nontrivial(" ".join(t.text for t in toks))
        if len(ctx.samples) < 2 and 60 < len(text) < 700:
            ctx.sample(text)

    def minimums(self, tier):
        return {"roundtrips": self.counts[tier] * 9 // 10, "distinct_nontrivial": self.counts[tier] // 2}


def first_diff(a, b):
    for x, y in zip(a.splitlines(), b.splitlines()):
        if x != y:
            return "first: %r\nagain: %r" % (x, y)
    return "lengths %d and %d" % (len(a), len(b))


if __name__ == "__main__":
    core.main("P07", Check())
