from syntax_common import *
import re, subprocess
from vlib.syn import T
from vlib import account

OPENERS, CLOSERS = ["(", "[", "{"], [")", "]", "}"]
DELIMS = ["begin", "end", "module", "endmodule", "case", "casez", "casex", "endcase", "function", "endfunction", "task", "endtask", "generate", "endgenerate",
          "fork", "join"]
ENDS = ["end", "endmodule", "endcase", "endfunction", "endtask", "endgenerate", "join"]
DECLS = ["wire", "reg", "integer", "real", "genvar", "input", "output", "inout", "parameter", "localparam", "supply0", "supply1"]
BAD = ["\x01", "\u00e9", "\u00a7", "\x7f", "'", "\\", "\u00a0", "\ufeff", "\u2192", "\x00"]


def isid(s):
    return (s[0].isalpha() or s[0] in "_\\") and s not in syn.KEYWORDS


class Check(SynCheck):
    prop = "P05"
    rule = ("generated texts with one change: a bracket, block delimiter or terminator removed, added or exchanged, a stray token, an illegal "
            "character, the end cut off (always malformed), or any token removed, doubled, swapped or replaced; a malformed text must raise the "
            "parser's error naming the right line, an accepted one must have a tree that holds every token; non-trivial: distinct changed texts")
    assumptions = ["the generated texts before the change are legal (the parser's tree is compared on them by other checks)"]
    counts = {"quick": 18000, "thorough": 180000}
    sure = ["drop-bracket", "drop-delimiter", "extra-bracket", "extra-end", "wrong-bracket", "drop-semicolon", "cut", "stray-number", "stray-operator",
            "illegal-character", "stray-keyword", "open-string", "open-comment"]
    loose = ["delete", "double", "swap", "replace"]

    def cases(self, tier, seed):
        n = self.counts[tier]
        ks = self.sure + self.loose * 2
        return [["witness", w] for w in self.witnesses] + [["small", i] for i in range(len(self.HEADS) + len(self.ITEMS))] + [[ks[i % len(ks)], i] for i in range(n)]

    def minimums(self, tier):
        q = {"quick": 1, "thorough": 20}[tier]
        m = {"distinct_nontrivial": 5000 * q, "rejected": 4500 * q, "accepted": 150 * q, "exact-lines": 1500 * q, "lines-bounded": 1500 * q, "prefixes": 800 * q,
             "accounted-tokens": 5000 * q, "accounted-separators": 500 * q, "small-changes": 60000, "small-accepted": 1000}
        for k in self.sure:
            m["rejected:" + k] = 150 * q
        return m

    # ---- changes: (tokens, kind of bound, tokens that may be named)
    def change(self, kind, rng, toks):
        r = rng
        n = len(toks)
        tx = [t.text for t in toks]
        at = lambda f: [i for i in range(n) if f(i)]
        pick = lambda f: (lambda c: r.choice(c) if c else None)(at(f))
        plain = lambda i: tx[i] in OPENERS + CLOSERS
        if kind == "drop-bracket":
            i = pick(plain)
            return None if i is None else (toks[:i] + toks[i + 1:], "from", i)
        if kind == "drop-delimiter":
            i = pick(lambda i: tx[i] in DELIMS)
            return None if i is None else (toks[:i] + toks[i + 1:], "from", i)
        if kind == "extra-bracket":
            i = r.randrange(1, n + 1)
            return toks[:i] + [T(r.choice(OPENERS + CLOSERS))] + toks[i:], "from", i
        if kind == "extra-end":
            i = r.randrange(1, n + 1)
            return toks[:i] + [T(r.choice(ENDS))] + toks[i:], "from", i
        if kind == "wrong-bracket":
            i = pick(plain)
            if i is None:
                return None
            return toks[:i] + [T(r.choice([b for b in OPENERS + CLOSERS if b != tx[i]]))] + toks[i + 1:], "from", i
        if kind == "drop-semicolon":
            def ok(i):
                if tx[i] != ";" or i + 1 >= n or tx[i + 1] == ";" or i == 0:
                    return False
                p = tx[i - 1]
                if not (isid(p) or p[0].isdigit() or p in "]}"):
                    return False
                j = i
                while j > 0 and tx[j - 1] not in (";", "begin", "end"):
                    j -= 1
                st = tx[j:i]
                eq = max([k for k, t in enumerate(st) if t in ("=", "<=")], default=None)
                if eq is not None:
                    return not any(t in ("#", "@", "(*", "->") for t in st[eq:])
                return any(t in DECLS for t in st) and not any(t in ("#", "@", "(*", "->") for t in st)
            i = pick(ok)
            return None if i is None else (toks[:i] + toks[i + 1:], "from", i)
        if kind == "cut":
            d, ok = 0, []
            for i, t in enumerate(tx):
                d += (t == "module") - (t == "endmodule")
                if d:
                    ok.append(i + 1)
            i = r.choice(ok)
            return toks[:i], "end", i
        if kind == "stray-number":
            i = pick(lambda i: isid(tx[i]) and "#" not in tx[max(i - 10, 0):i])       # (a number may follow a delay)
            return None if i is None else (toks[:i + 1] + [T(r.choice(["7", "7", "3", "8'h0", "1.5"]))] + toks[i + 1:], "exact", [i + 1])
        if kind == "stray-operator":
            i = pick(lambda i: tx[i] in (";", ")", ",", "]", "}"))
            return None if i is None else (toks[:i] + [T(r.choice(["==", "/", "<<", "&&", "!==", "%"]))] + toks[i:], "exact", [i, i + 1])
        if kind == "stray-keyword":
            i = pick(lambda i: tx[i] in syn.BIN or tx[i] in ("=", "[", "{", "?"))
            return None if i is None else (toks[:i + 1] + [T(r.choice(["wire", "always", "endcase", "else", "input", "assign"]))] + toks[i + 1:], "exact", [i + 1])
        if kind in ("illegal-character", "open-string", "open-comment"):
            i = r.randrange(0, n + 1)
            c = r.choice(BAD) if kind == "illegal-character" else '"abc' if kind == "open-string" else "/* abc"
            if kind != "illegal-character" and any('"' in t or "*" in t or "/" in t for t in tx[i:]):
                return None
            return toks[:i] + [T(c)] + toks[i:], "exact", [i]
        if kind == "delete":
            i = r.randrange(n)
            return toks[:i] + toks[i + 1:], "from", i
        if kind == "double":
            i = r.randrange(n)
            return toks[:i] + [T(tx[i])] + toks[i:], "from", i
        if kind == "swap":
            i = r.randrange(n - 1)
            return toks[:i] + [toks[i + 1], toks[i]] + toks[i + 2:], "from", i
        if kind == "replace":
            i = r.randrange(n)
            j = r.randrange(n)
            new = tx[j] if r.random() < 0.6 else r.choice(["signed", "wire", "reg", "input", "output", "inout", "automatic", "tri", "integer", "#", "@", "0",
                                                           "posedge", "negedge", "initial", "always", "assign", "or", "parameter", "localparam", ":", ".",
                                                           "always_comb", "always_ff", "genvar", "supply0", "=", "<=", "wait", "forever", "disable", "while", "for"])
            return toks[:i] + [T(new)] + toks[i + 1:], "from", i

    # ---- every small change of a small text for each construct
    ITEMS = """wire a, b;
wire [3:0] a = b;
reg signed [3:0] m [0:7], n;
integer i, j = 1;
real r;
genvar g, h;
parameter signed [3:0] P = 1, Q = 2;
localparam integer L = 3;
assign #2 a[1] = b[3:0];
assign {a, b[1]} = {c, {2{d}}, 3'd1};
assign o = a ? b : c + d * e;
assign o = f(a, b) | $time ^ ~c[2 +: 3];
assign o = u.v[1].w;
always @(posedge c or negedge r) q <= d;
always @(posedge c, negedge r) q <= #1 d;
always @(a or b, c[1]) x = a;
always @* begin x = a; y = b; end
always @(*) begin : n reg t; t = a; end
always_ff @(posedge c) q <= d;
always_comb x = a;
initial begin #5 x = 1; @(posedge c); wait (a) x = 0; end
initial fork x = 1; y = 2; join
initial forever #5 c = ~c;
initial begin $display("s", a, b); $finish; disable n; end
always @* if (a) x = 1; else if (b) x = 2; else x = 3;
always @* case (a) 1, 2: x = 1; 3: begin end default: x = 0; endcase
always @* casez (a) 2'b1?: x = 1; default: x = 0; endcase
always @* for (i = 0; i < 4; i = i + 1) x[i] = a;
always @* while (i < 3) i = i + 1;
sub u (a, b);
sub u (.x(a), .y(), .z(b[1]));
sub #(3, 4) u (a), v (b);
sub #(.P(3), .Q(4)) u [3:0] (.x(a));
and g0 (o, a, b);
function [3:0] f; input [3:0] x; input y; begin f = x; end endfunction
function integer f; input x; reg t; f = x; endfunction
task t; input x; begin y = x; end endtask
generate for (g = 0; g < 4; g = g + 1) begin : l assign o[g] = a[g]; end endgenerate
generate if (P) begin : l assign o = a; end else begin assign o = b; end endgenerate
generate if (P) assign o = a; endgenerate
supply0 a;
tri [1:0] a;
input [3:0] a, b;
output reg o;
inout c;""".split("\n")
    HEADS = ["module m (a, b, c); endmodule", "module m (input a, output reg [3:0] b, input wire signed [1:0] c, d); endmodule",
             "module m #(parameter P = 1, parameter [3:0] Q = 2) (input [P-1:0] a); endmodule", "module m; endmodule",
             "module m (); wire a; endmodule module n (); endmodule"]
    STRAY = ("or , ; : . # @ * = <= ( ) [ ] { } ? + & begin end 1 x wire reg signed input posedge assign always if else default case endcase integer "
             "parameter generate endgenerate initial function").split()

    def exhaust(self, case, ctx):
        base = (self.HEADS + ["module m; %s endmodule" % i for i in self.ITEMS])[case[1]]
        tx = re.findall(r'"[^"]*"|\d+\'[a-z][0-9a-z?]+|\$?\w+|->|<=|>=|==|\+:|\S', base)
        if self.attempt(" ".join(tx))[0] is None:
            ctx.violation("rejected-base", "a legal text is rejected: %s" % (self.attempt(" ".join(tx))[1]), base)
            return
        for i in range(len(tx) + 1):
            todo = [(i, tx[:i] + [t] + tx[i:]) for t in self.STRAY]
            if i < len(tx):
                todo += [(i, tx[:i] + tx[i + 1:])] + [(i, tx[:i] + [t] + tx[i + 1:]) for t in self.STRAY]
            if i + 1 < len(tx):
                todo += [(i, tx[:i] + [tx[i + 1], tx[i]] + tx[i + 2:]), (i, tx[:i] + [",", "or"] + tx[i:])]
            for at, new in todo:
                text = self.last_source = "\n".join(new)
                ast, err = self.attempt(text, self.one)
                ctx.count("small-changes")
                if err is None:
                    ctx.count("small-accepted")
                    self.account(ast, [T(t) for t in new], text, ctx)
                    continue
                m = re.search(r"line:\s*(\d+)", err)
                if not m and "end of input" not in err:
                    ctx.violation("no-line", "the error names no line: %s" % err, text)
                elif m and not 1 <= int(m.group(1)) <= len(new):
                    ctx.violation("line-small", "error %r, the text has %d lines" % (err, len(new)), text)

    def attempt(self, text, p=None):
        """(tree, None) or (None, message)"""
        from pyverilog.vparser.parser import ParseError
        with repo(), quiet():
            p = p or new_parser()
            try:
                return p.parse(text), None
            except ParseError as e:
                return None, str(e)

    def run(self, case, ctx):
        kind = case[0]
        if kind == "witness":
            return self.witness(case, ctx)
        if kind == "small":
            with repo(), quiet():
                self.one = new_parser()
            return self.exhaust(case, ctx)
        rng = core.rng_for(self.prop, ctx.seed, case)
        res = None
        for i in range(20):
            g = self.gen(rng, stmt_depths=[1, 2])
            toks, n = g.source()
            res = self.change(kind, rng, toks)
            if res:
                break
        if not res:
            return
        new, bound, where = res
        # the same token object may not stand twice: each has its own line
        new = [T(t.text) for t in new]
        if not new:
            return
        style = "newline" if case[1] % 2 else rng.choice(["wild", "mixed"])
        text, d = syn.layout(new, rng, style=style, comments=kind not in ("open-string", "open-comment", "illegal-character"))
        self.last_source = text
        ctx.count("kind:" + kind)
        ast, err = self.attempt(text)
        ctx.nontrivial(" ".join(t.text for t in new))
        if err is None:
            ctx.count("accepted")
            ctx.count("accepted:" + kind)
            if kind in self.sure:
                ctx.violation("accepted:" + kind, "a malformed text is accepted (%s at token %s)" % (kind, where), text)
                return
            self.account(ast, new, text, ctx)
            return
        ctx.count("rejected")
        ctx.count("rejected:" + kind)
        m = re.search(r"line:\s*(\d+)", err)
        end = re.search("end of input", err)
        if not m and not end:
            ctx.violation("no-line", "the error names no line: %s" % err, text)
            return
        line = int(m.group(1)) if m else None
        lines = [t.line for t in new]
        if bound == "end":
            if m:
                ctx.violation("line:" + kind, "the text ends early, the error is %r" % err, text)
                return
            ctx.count("exact-lines")
            return
        if bound == "exact":
            ok = [lines[i] for i in where if i < len(new)]
            if line not in ok:
                ctx.violation("line:" + kind, "error %r, the stray token is in line %s" % (err, ok), text)
                return
            ctx.count("exact-lines")
        else:
            first = lines[where] if where < len(new) else None
            # a declaration is refused as a whole: any of its names may be the one that is named
            q = re.search('before: "(.*)"', err)
            j = min(where, len(new))
            while j > 0 and new[j - 1].text not in (";", "(", "begin", "endmodule"):
                j -= 1
            if first is not None and q and isid(q.group(1)) and any(t.text in DECLS + ["tri", "logic", "signed"] for t in new[j:where + 1]) and \
                    q.group(1) in [t.text for t in new[j:where]]:
                first = lines[j]
            if first is None:
                if m:
                    ctx.violation("line:" + kind, "error %r, only the end of the text is wrong" % err, text)
                    return
            elif line is not None and line < first:
                ctx.violation("line:" + kind, "error %r, everything before line %d is legal" % (err, first), text)
                return
            ctx.count("lines-bounded")
        if style == "newline" and line is not None and kind not in ("illegal-character", "open-string", "open-comment"):
            # every token has a line of its own: the named line must hold a token that cannot follow
            ks = [i for i, l in enumerate(lines) if l == line]
            if not ks:
                ctx.violation("line-empty", "error %r, no token is in that line" % err, text)
                return
            k = ks[0]
            q = re.search('before: "(.*)"', err)
            # (a declaration that is refused as a whole may name any of its names)
            j = k
            while j < len(new) - 1 and new[j].text not in (";", ")"):
                j += 1
            if q and q.group(1) != new[k].text and q.group(1) not in new[k].text and q.group(1) not in [t.text for t in new[k:j] if isid(t.text)]:
                ctx.violation("line-token", "error %r, line %d holds %r" % (err, line, new[k].text), text)
                return
            if rng.random() < 0.4:
                pre = "\n".join(text.split("\n")[:line - 1])
                a2, e2 = self.attempt(pre)
                ctx.count("prefixes")
                if e2 is not None and "line:" in e2:
                    ctx.violation("prefix", "error %r, but the text before that line already gives %r" % (err, e2), text)

    # ANSI ports whose kind the tree does not hold (known findings, decided by the witnesses below)
    witnesses = {"logic-port": "module m(input a, output logic b);\n  assign b = a;\nendmodule\n",
                 "supply-port": "module m(input a, output supply0 b);\nendmodule\n"}

    def witness(self, case, ctx):
        text = self.last_source = self.witnesses[case[1]]
        ast, err = self.attempt(text)
        if err is None:
            n, missing = account.missing(ast, re.findall(r"\w+|\S", text))
            if missing:
                ctx.violation("%s:dropped" % case[1], "accepted, but the tree does not hold %s" % [t for t, w, h in missing], text)

    def account(self, ast, toks, text, ctx):
        tx = [t.text for t in toks]
        n, missing = account.missing(ast, tx)
        if any(a in ("input", "output", "inout") and b in ("logic", "supply0", "supply1") for a, b in zip(tx, tx[1:])):
            ctx.count("port-kind-not-held")
            missing = [m for m in missing if m[0] not in ("logic", "supply0", "supply1")]
        ctx.count("accounted-tokens", n)
        want, have = account.separator_tokens(tx), account.separators(ast)
        ctx.count("accounted-separators", want)
        if want != have:
            missing.append((",", want, have))
        if missing:
            ctx.violation("dropped:" + missing[0][0], "accepted, but the tree holds %s" % "; ".join(
                "%d of %d %r" % (have, want, t) for t, want, have in missing[:4]), text)


if __name__ == "__main__":
    core.main("P05", Check())
