"""Shared by the parser checks: generated sources with known expected trees."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, syn, astdump
from vlib.core import repo, quiet


def new_parser():
    from pyverilog.vparser.parser import VerilogParser
    return VerilogParser(outputdir=".", debug=False)


def parse_text(text):
    with repo(), quiet():
        p = new_parser()
        ast = p.parse(text)
        return p, ast


def mismatch_key(e):
    path = str(e).split(": expected")[0].split(": ")[0]
    return "mismatch:" + path.split(".")[-1].split("[")[0]


def check_indexed(cmp, rng):
    """`b +: w` must denote [b+w-1 : b], `b -: w` must denote [b : b-w+1], judged by value."""
    n = 0
    for path, e, a in cmp.indexed:
        base = astdump.dump(a.lsb if e.f["dir"] == "+" else a.msb)
        other = a.msb if e.f["dir"] == "+" else a.lsb
        wexp = e.f["width"]
        for _ in range(3):
            B, W = fixed(a.lsb if e.f["dir"] == "+" else a.msb), None
            B = rng.randrange(50, 500) if B is None else B
            W = int(wexp.f["value"]) if wexp.cls == "IntConst" and wexp.f["value"].isdigit() else rng.randrange(500, 900)
            try:
                syn.Compare().cmp(wexp, a.lsb if e.f["dir"] == "+" else a.msb, "")
                W = B
            except syn.Mismatch:
                pass

            def ev(x):
                if astdump.dump(x) == base:
                    return B
                c2 = syn.Compare()
                try:
                    c2.cmp(wexp, x, "")
                    return W
                except syn.Mismatch:
                    pass
                k = type(x).__name__
                if k == "Plus":
                    return ev(x.left) + ev(x.right)
                if k == "Minus":
                    return ev(x.left) - ev(x.right)
                if k == "IntConst":
                    return int(x.value)
                raise ValueError(k)
            try:
                got = ev(other)
            except ValueError:
                return n, "%s: part select bound %s does not combine base and width" % (path, syn.describe(other))
            want = B + W - 1 if e.f["dir"] == "+" else B - W + 1
            n += 1
            if got != want:
                return n, "%s: [base %s: width] with base=%d width=%d denotes bound %d, must be %d (tree %s)" % (
                    path, e.f["dir"], B, W, got, want, syn.describe(a))
    return n, None


def fixed(x):
    if type(x).__name__ == "IntConst" and x.value.isdigit():
        return int(x.value)
    return None


class SynCheck(object):
    """base: subclasses give `source(rng, case)` -> (tokens, expected, style) and `cmp_lines`"""
    cmp_lines = False
    directives = False
    assumptions = ["the expected tree is written by the generator from IEEE 1364-2005, independently of the grammar under test",
                   "texts stay in the Verilog subset whose constructs the grammar accepts (see DESIGN.md)"]
    counts = {"quick": 3000, "thorough": 60000}
    prop = None

    def cases(self, tier, seed):
        return list(range(self.counts[tier]))

    def minimums(self, tier):
        return {"distinct_nontrivial": self.counts[tier] // 2, "nodes": self.counts[tier] * 5}

    def after(self, ctx, rng, case, parser, ast, toks, direc, cm, text):
        pass

    def run(self, case, ctx):
        rng = core.rng_for(self.prop, ctx.seed, case)
        toks, exp, style = self.source(rng, case)
        text, direc = syn.layout(toks, rng, style=style, directives=self.directives)
        self.last_source = text
        parser, ast = parse_text(text)
        cm = syn.Compare(lines=self.cmp_lines)
        ctx.count("texts")
        ctx.count("tokens", len(toks))
        try:
            cm.cmp(exp, ast, "")
        except syn.Mismatch as e:
            ctx.violation(mismatch_key(e), str(e), text)
            return
        n, err = check_indexed(cm, rng)
        ctx.count("indexed_select_evaluations", n)
        if err:
            ctx.violation("indexed-select", err, text)
        ctx.count("nodes", cm.nodes)
        for f in self.feats:
            ctx.count("feature:" + f) if self.count_features else None
        if self.cmp_lines:
            ctx.count("line_checks", cm.line_checks)
            ctx.count("end_line_checks", cm.end_checks)
            seen = set()
            for k, m in cm.line_errors:
                if k not in seen:
                    seen.add(k)
                    ctx.violation("line:" + k, m, text)
        self.after(ctx, rng, case, parser, ast, toks, direc, cm, text)
        if len(toks) > 12:
            ctx.nontrivial(" ".join(t.text for t in toks))
        if len(ctx.samples) < 2 and 60 < len(text) < 700:
            ctx.sample(text)

    count_features = True
    feats = ()

    def gen(self, rng, **cfg):
        g = syn.Gen(rng, **cfg)
        self.feats = g.features
        return g
