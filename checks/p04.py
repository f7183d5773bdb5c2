from syntax_common import *


class Check(SynCheck):
    prop = "P04"
    rule = ("generated texts laid out with random line breaks, both comment kinds, blank lines and compiler directives; every "
            "node's line (and end line) must be that of its first (last) token as placed by the layout, and the reported "
            "directives must be those written; non-trivial: more than 12 tokens, counted by distinct token sequence")
    counts = {"quick": 12000, "thorough": 120000}
    cmp_lines = True
    directives = True

    def source(self, rng, case):
        g = self.gen(rng, **({"stmt_depths": [2, 3, 4]} if case % 2 else {}))
        toks, n = g.source()
        return toks, n, rng.choice(["wild", "wild", "newline", "plain"])

    def after(self, ctx, rng, case, parser, ast, toks, direc, cm, text):
        with repo():
            got = [tuple(x) for x in parser.get_directives()]
        ctx.count("directives", len(direc))
        if [(l, t.strip()) for l, t in got] != [(l, t.strip()) for l, t in direc]:
            ctx.violation("directives", "reported %s, written %s" % (got, direc), text)
        if case % 4 == 0:
            # the same parser object used again numbers its lines from the start of the new text
            ctx.count("parser_reuse")
            with repo(), quiet():
                ast2 = parser.parse(text)
                got2 = [tuple(x) for x in parser.get_directives()]
            d = astdump.diff(astdump.dump(ast, True), astdump.dump(ast2, True))
            if d:
                ctx.violation("reuse-lines", "second parse of the same text by the same parser: " + d, text)
            if got2 != got:
                ctx.violation("reuse-directives", "second parse reports %s instead of %s" % (got2, got), text)
        if case % 8 == 1 and not text.endswith("`"):
            # a last line without its line feed
            tail = rng.choice(["// end", "/* end */", "`celldefine", ""])
            with repo(), quiet():
                ast3 = new_parser().parse(text.rstrip("\n") + "\n" + tail)
            d = astdump.diff(astdump.dump(ast, True), astdump.dump(ast3, True))
            ctx.count("unterminated_last_line")
            if d:
                ctx.violation("last-line", "with %r as unterminated last line: %s" % (tail, d), text)

    def minimums(self, tier):
        m = SynCheck.minimums(self, tier)
        m.update(line_checks=100000, end_line_checks=10000, directives=2000, parser_reuse=500)
        return m


if __name__ == "__main__":
    core.main("P04", Check())
