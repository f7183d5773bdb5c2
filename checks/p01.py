from syntax_common import *


class Check(SynCheck):
    prop = "P01"
    rule = ("module texts drawn from a grammar of items, headers and layouts; the parsed tree must equal the tree the "
            "generator built alongside; non-trivial: more than 12 tokens, counted by distinct token sequence")
    counts = {"quick": 20000, "thorough": 150000}

    def source(self, rng, case):
        k = case % 4
        cfg = {}
        if k == 1:
            cfg = {"weights": {"decl": 40, "declassign": 12, "integer": 6, "real": 4, "genvar": 4, "param_item": 15, "always": 2},
                   "stmt_depths": [0, 1]}
        elif k == 2:
            cfg = {"weights": {"instance": 40, "generate": 20, "function": 10, "task": 8, "always": 3}, "stmt_depths": [0, 1]}
        g = self.gen(rng, **cfg)
        toks, n = g.source()
        return toks, n, "mixed"

    def minimums(self, tier):
        m = SynCheck.minimums(self, tier)
        for f in ("it:instance", "it:instance-array", "it:function", "it:task", "it:generate", "it:generate-if", "it:generate-for",
                  "it:supply", "it:real", "it:genvar", "it:integer", "it:declassign", "it:declassign-delay", "it:gate",
                  "mod:ansi", "mod:names", "mod:empty-ports", "mod:no-ports", "mod:params", "port:continued", "escaped-name",
                  "dimensions", "it:inst-param-named", "it:inst-param-ordered", "it:pragma"):
            m["feature:" + f] = 20
        return m


if __name__ == "__main__":
    core.main("P01", Check())
