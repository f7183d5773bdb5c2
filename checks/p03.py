from syntax_common import *
from vlib.syn import N, T, flat


class Check(SynCheck):
    prop = "P03"
    rule = ("always/initial/function/task bodies of nested statements (depth up to 5) with every sensitivity form; the parsed "
            "tree must equal the generator's; non-trivial: more than 12 tokens, counted by distinct token sequence")
    counts = {"quick": 16000, "thorough": 120000}

    def source(self, rng, case):
        g = self.gen(rng, depths=[0, 0, 1], stmt_depths=[1, 2, 3, 4, 5], escaped=case % 3 == 0,
                     weights={"decl": 2, "declassign": 0, "integer": 0, "real": 0, "genvar": 0, "param_item": 0, "assign": 1,
                              "always": 40, "initial": 12, "instance": 0, "function": 6, "task": 5, "generate": 2, "pragma": 0})
        toks, n = g.source(nmod=1, nitems=rng.choice([1, 2, 3]))
        return toks, n, "mixed"

    def minimums(self, tier):
        m = SynCheck.minimums(self, tier)
        for f in ("st:if", "st:if-else", "st:case", "st:casex", "st:casez", "st:unique case", "st:for", "st:while", "st:block",
                  "st:named-block", "st:fork", "st:wait", "st:forever", "st:event", "st:disable", "st:systemcall", "st:null",
                  "st:blocking", "st:nonblocking", "st:delay", "st:delayed-if", "sens:*", "sens:level", "sens:posedge",
                  "sens:negedge", "sens:none"):
            m["feature:" + f] = 20
        return m


if __name__ == "__main__":
    core.main("P03", Check())
