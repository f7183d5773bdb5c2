"""Random self-running Verilog programs that print what they compute.

Only text is made: the simulator gives the meaning. Signed and unsigned values of several widths, integers, memories, functions,
gates, instances with overridden parameters, generate constructs, delays, loops, named blocks. One driver per signal, signals are
defined in an order without cycles, so that the printed values do not depend on scheduling.
"""

BIN = ["+", "-", "*", "&", "|", "^", "^~", "~^", "<<", ">>", "<<<", ">>>", "==", "!=", "===", "!==", "<", "<=", ">", ">=", "&&", "||", "/", "%"]
UN = ["-", "+", "~", "!", "&", "|", "^", "~&", "~|", "~^", "^~"]
FLAGS = dict(signed=0.4, func=0.5, gate=0.35, inst=0.6, gen=0.4, mem=0.3, delay=0.25, nonansi=0.35, init=0.3, blocks=0.3, asc=0.15,
             sysfun=0.12, x=0.08, power=0.03, real=0.1, hier=0.3, sv=0.0)


class Var(object):
    def __init__(self, name, w, signed=False, asc=False, lsb=0, words=0, one=False):
        self.name, self.w, self.signed, self.asc, self.lsb, self.words, self.one = name, w, signed, asc, lsb, words, one

    def range(self):
        if self.one:
            return ""
        a, b = self.lsb + self.w - 1, self.lsb
        return "[%d:%d] " % ((b, a) if self.asc else (a, b))

    def decl(self, kind):
        return "%s%s %s%s" % (kind, " signed" if self.signed else "", self.range(), self.name)


class Program(object):
    def __init__(self, rng, **flags):
        self.r = rng
        self.f = dict(FLAGS, **flags)
        self.n = 0
        self.mods, self.ticks = [], {}
        for i in range(rng.randrange(1, 4)):
            self.mods.append(Module(self, i))
        self.main()

    def p(self, k):
        if self.r.random() < self.f[k]:
            self.ticks[k] = self.ticks.get(k, 0) + 1
            return True
        return False

    def tick(self, k):
        self.ticks[k] = self.ticks.get(k, 0) + 1

    def fresh(self, s):
        self.n += 1
        return "%s%d" % (s, self.n)

    def main(self):
        r = self.r
        top = self.mods[-1]
        out = ["module main;", "  reg clk;"]
        prm = top.override(r)
        ins = [v for d, v in top.ports if d == "input" and v.name != "clk"]
        outs = [v for d, v in top.ports if d == "output"]
        for v in ins:
            out.append("  " + v.decl("reg") + ";")
        for v in outs:
            out.append("  " + v.decl("wire") + ";")
        out.append("  integer k;")
        conn = [".%s(%s)" % (v.name, v.name) for d, v in top.ports]
        r.shuffle(conn)
        out.append("  %s %sdut(%s);" % (top.name, prm, ", ".join(conn)))
        if r.random() < 0.5:
            out.append("  initial begin clk = 0; forever #100 clk = %sclk; end" % r.choice("~!"))
        else:
            out.append("  initial clk = 1'b0;\n  always #100 clk = %sclk;" % r.choice("~!"))
        out.append("  initial begin")
        shown = ["$time"] + [v.name for v in outs]
        if self.p("hier"):
            shown += ["dut." + v.name for v in top.inner if not v.words][:3]
        fmt = " ".join(r.choice(["%0d", "%b", "%h", "%d", "%o"]) for x in shown)
        ins_ = [v.name for v in ins]
        out.append("    " + " ".join("%s = %s;" % (v.name, top.lit(v.w)) for v in ins))
        # inputs change between clock edges, values are printed when everything has settled
        steps = r.randrange(10, 20)
        out.append("    #50;")
        out.append("    for(k = 0; k < %d; k = k + 1) begin" % steps)
        for v in ins:
            # a different value every step, of all widths
            e = r.choice(["%s * %d + k * %d" % (v.name, r.choice([5, 13, 37]), r.choice([1, 7, 101])), "~%s ^ (k << %d)" % (v.name, r.randrange(4)),
                          "%s + %d" % (v.name, r.randrange(1, 9)), "k * %d" % r.choice([1, 3, 77, 12345]), "(k %% %d) ? %s : ~%s" % (r.choice([2, 3]), v.name, v.name)])
            out.append("      %s = %s;" % (v.name, e))
        out.append("      #%s;" % r.choice(["49", "(49)"]))
        out.append("      $display(\"%s\", %s);" % (fmt, ", ".join(shown)))
        out.append("      #%d;" % r.choice([51, 51, 151]))
        out.append("    end")
        out.append("    $finish(0);")
        out.append("  end")
        out.append("endmodule")
        self.text = "\n".join([m.text for m in self.mods] + ["\n".join(out)]) + "\n"


class Module(object):
    def __init__(self, P, i):
        self.P, self.r = P, P.r
        self.name = "m%d" % i
        self.vars = []          # readable here
        self.inner = []
        self.funcs = []
        self.params, self.ports, self.items = [], [], []
        self.regs = []
        self.build()

    def p(self, k):
        return self.P.p(k)

    # ---- values
    def width(self):
        return self.r.choice([1, 1, 2, 3, 4, 5, 8, 8, 12, 16, 32, 33])

    def var(self, s, w=None, one=None):
        r = self.r
        w = self.width() if w is None else w
        return Var(self.P.fresh(s), w, self.p("signed") and w > 1, self.p("asc"), r.choice([0, 0, 0, 1, 4]), one=(w == 1 and r.random() < 0.7))

    def lit(self, w):
        r = self.r
        v = r.choice([r.randrange(1 << w), r.randrange(1 << w), 0, (1 << w) - 1, 1])
        s = "s" if self.p("signed") else ""
        k = r.randrange(7)
        if k == 0:
            return "%d'%sb%s" % (w, s, format(v, "b"))
        if k == 1:
            return "%d'%sh%x" % (w, s, v)
        if k == 2:
            return "%d'%so%o" % (w, s, v)
        if k == 3 and v < 1 << 31:
            return "%d" % v
        if k == 4 and self.p("x"):
            return "%d'%sb%s" % (w, s, "".join(r.choice("01xz") for i in range(min(w, 8))))
        if k == 5:
            return "'%sh%x" % (s, v & 0x7fffffff)
        return "%d'%sd%d" % (w, s, v)

    def expr(self, d=3, const=False):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.15:
            return self.leaf(const)
        if k < 0.6:
            o = r.choice(BIN)
            if self.p("power"):
                return "(%s ** %s)" % (self.expr(0, const), r.choice(["2", "3", "2'd2"]))
            a, b = self.expr(d - 1, const), self.expr(d - 1, const)
            if o in ("<<", ">>", "<<<", ">>>"):
                b = r.choice(["1", "2", "3'd3", self.small(const)])
            s = "%s %s %s" % (a, o, b)
            return s if r.random() < 0.3 else "(%s)" % s
        if k < 0.72:
            o = r.choice(UN)
            e = self.expr(d - 1, const)
            return "(%s(%s))" % (o, e) if not e[:1].isalpha() or r.random() < 0.5 else "(%s%s)" % (o, self.prim(const))
        if k < 0.8:
            return "(%s ? %s : %s)" % (self.expr(d - 1, const), self.expr(d - 1, const), self.expr(d - 1, const))
        if k < 0.87:
            return "{%s}" % ", ".join(self.sized(d - 1, const) for i in range(r.randrange(1, 4)))
        if k < 0.9:
            return "{%d{%s}}" % (r.randrange(1, 4), self.sized(d - 1, const))
        if k < 0.9 + self.P.f["sysfun"] * 0.5:
            self.P.tick("sysfun")
            return "%s(%s)" % (r.choice(["$signed", "$unsigned"]), self.sized(d - 1, const))
        fs = [] if const else self.funcs
        if fs and k < 0.99:
            n, args = r.choice(fs)
            self.P.tick("call")
            return "%s(%s)" % (n, ", ".join(self.expr(min(d - 1, 1)) for a in args))
        return self.leaf(const)

    def prim(self, const):
        """an operand that can follow a unary operator"""
        return self.leaf(const)

    def small(self, const):
        vs = [v for v in self.vars if v.w <= 3 and not v.words]
        return self.r.choice(vs).name if vs and not const else "2"

    def sized(self, d, const):
        """an expression with a size of its own"""
        r = self.r
        vs = [v for v in self.vars if not v.words]
        k = r.random()
        if const or not vs or k < 0.2:
            w = self.width()
            return "%d'd%d" % (w, r.randrange(1 << min(w, 30)))
        if k < 0.8:
            return self.select(r.choice(vs))
        a = r.choice(vs)
        return "(%s %s %s)" % (a.name, r.choice(["+", "&", "^", "==", "<", "-"]), r.choice(vs).name)

    def index(self, v):
        return self.r.randrange(v.lsb, v.lsb + v.w)

    def select(self, v):
        r = self.r
        if v.words:
            return "%s[%s]" % (v.name, r.choice([str(r.randrange(v.words)), self.small(False)]))
        k = r.random()
        if v.one or k < 0.6:
            return v.name
        if k < 0.7:
            return "%s[%d]" % (v.name, self.index(v))
        if k < 0.75:
            return "%s[%s]" % (v.name, self.small(False))
        a, b = self.index(v), self.index(v)
        hi, lo = max(a, b), min(a, b)
        if k < 0.88:
            return "%s[%d:%d]" % ((v.name, lo, hi) if v.asc else (v.name, hi, lo))
        self.P.tick("indexed-part")
        n = hi - lo + 1
        if r.random() < 0.5:
            self.P.tick("variable-indexed-part")
            b = self.small(False)
            if r.random() < 0.3:
                b = "%s %s %d" % (b, r.choice("+-"), r.randrange(1, 4))
            return "%s[%s %s: %d]" % (v.name, b, r.choice("+-"), n)
        if k < 0.94:
            return "%s[%d +: %d]" % (v.name, lo, n)
        return "%s[%d -: %d]" % (v.name, hi, n)

    def leaf(self, const):
        r = self.r
        ps = [p for p, w in self.params]
        if ps and r.random() < 0.15:
            return r.choice(ps)
        if const or not self.vars or r.random() < 0.2:
            return self.lit(self.width())
        return self.select(r.choice(self.vars))

    # ---- statements
    def lhs(self, v):
        """the text that assigns all of v"""
        return v.name

    def stmts(self, regs, op, d=2, loops=(), ind="    "):
        """statements that assign some of regs"""
        r = self.r
        out = []
        for i in range(r.randrange(1, 4)):
            k = r.random()
            if d <= 0 or k < 0.45:
                v = r.choice(regs)
                out.append(ind + self.assign(v, op))
            elif k < 0.65:
                s = "%sif(%s) begin\n%s\n%send" % (ind, self.expr(2), self.stmts(regs, op, d - 1, loops, ind + "  "), ind)
                if r.random() < 0.6:
                    s += "\n%selse %s" % (ind, self.single(regs, op, d - 1, ind))
                out.append(s)
            elif k < 0.82:
                kw = r.choice(["case", "case", "casez", "casex"])
                vs = [v for v in self.vars if not v.words]
                v = r.choice(vs) if vs else None
                w = v.w if v else 3
                s = ["%s%s(%s)" % (ind, kw, v.name if v else self.expr(1))]
                seen = set()
                for j in range(r.randrange(1, 4)):
                    ls = []
                    for m in range(r.choice([1, 1, 2])):
                        b = "".join(r.choice("01" if kw == "case" else "01?" if kw == "casez" else "01x?") for x in range(min(w, 6)))
                        b = b.replace("?", r.choice("?z"))
                        ls.append(r.choice(["%d'b%s" % (w, b), self.lit(w) if kw == "case" else "%d'b%s" % (w, b)]))
                    s.append("%s  %s: %s" % (ind, ", ".join(ls), self.single(regs, op, d - 1, ind + "  ")))
                if r.random() < 0.7:
                    s.insert(r.choice([len(s), 1]), "%s  default: %s" % (ind, self.single(regs, op, d - 1, ind + "  ")))
                s.append(ind + "endcase")
                out.append("\n".join(s))
            elif k < 0.92 and not loops:
                i_ = self.loopvar()
                bound = r.randrange(1, 5)
                body = self.stmts(regs, op, d - 1, loops + (i_,), ind + "  ")
                if r.random() < 0.6:
                    self.vars.append(Var(i_, 32, True, one=True))
                    body = self.stmts(regs, op, d - 1, loops + (i_,), ind + "  ")
                    self.vars.pop()
                self.P.tick("loop")
                if r.random() < 0.75:
                    out.append("%sfor(%s = 0; %s < %d; %s = %s + 1) begin\n%s\n%send" % (ind, i_, i_, bound, i_, i_, body, ind))
                else:
                    self.P.tick("while")
                    out.append("%s%s = 0;\n%swhile(%s < %d) begin\n%s\n%s  %s = %s + 1;\n%send" % (ind, i_, ind, i_, bound, body, ind, i_, i_, ind))
            elif self.p("blocks"):
                out.append("%sbegin : %s\n%s\n%send" % (ind, self.P.fresh("blk"), self.stmts(regs, op, d - 1, loops, ind + "  "), ind))
            else:
                out.append(ind + self.assign(r.choice(regs), op))
        return "\n".join(out)

    def single(self, regs, op, d, ind):
        r = self.r
        if r.random() < 0.4:
            return self.assign(r.choice(regs), op)
        return "begin\n%s\n%send" % (self.stmts(regs, op, d - 1, (0,), ind + "  "), ind)

    def assign(self, v, op):
        r = self.r
        if v.words:
            return "%s[%s] %s %s;" % (v.name, r.choice([str(r.randrange(v.words)), self.small(False)]), op, self.expr(2))
        if not v.one and v.w > 1 and r.random() < 0.25 and v.name[0] != "i":
            a, b = self.index(v), self.index(v)
            hi, lo = max(a, b), min(a, b)
            t = r.choice(["%s[%d]" % (v.name, hi), "%s[%d:%d]" % ((v.name, lo, hi) if v.asc else (v.name, hi, lo)), "%s[%d +: %d]" % (v.name, lo, hi - lo + 1)])
            if r.random() < 0.2:
                self.P.tick("variable-indexed-target")
                t = "%s[%s %s: %d]" % (v.name, self.small(False), r.choice("+-"), hi - lo + 1)
            self.P.tick("partial-assignment")
            return "%s %s %s;" % (t, op, self.expr(2))
        dl = ""
        if op == "<=" and self.p("delay"):
            dl = "#%s " % r.choice(["1", "(1)", "2"])
        return "%s %s %s%s;" % (v.name, op, dl, self.expr(r.choice([1, 2, 3])))

    def loopvar(self):
        n = self.P.fresh("i")
        self.items.insert(self.declpos, "  integer %s;" % n)
        return n

    # ---- items
    def override(self, r):
        """parameter list of an instance"""
        if not self.params or r.random() < 0.3:
            return ""
        over = [(p, w) for p, w in self.params if r.random() < 0.7]
        val = lambda w: r.choice([str(r.randrange(1, 1 << min(w, 5))), "%d'd%d" % (w, r.randrange(1 << min(w, 5))), "%d'h%x" % (w, r.randrange(1 << min(w, 30)))])
        if r.random() < 0.4:
            self.P.tick("positional-override")
            n = r.randrange(1, len(self.params) + 1)
            return "#(%s) " % ", ".join(val(w) for p, w in self.params[:n])
        if not over:
            return ""
        self.P.tick("named-override")
        return "#(%s) " % ", ".join(".%s(%s)" % (p, val(w)) for p, w in over)

    def build(self):
        r, P = self.r, self.P
        head = []
        self.declpos = 0
        for i in range(r.choice([0, 1, 1, 2, 3])):
            n, w = P.fresh("P"), r.choice([4, 8, 32])
            k = r.random()
            v = self.lit(min(w, 8))
            t = "%s = %s" % (n, v)
            if k < 0.2:
                t = "signed %s = %s" % (n, v)
            elif k < 0.4:
                t = "[%d:0] %s = %s" % (w - 1, n, v)
            elif k < 0.55:
                t = "signed [%d:0] %s = %s" % (w - 1, n, v)
            elif k < 0.65:
                t = "integer %s = %s" % (n, v)
            head.append("parameter " + t)
            self.params.append((n, w))
        clk = Var("clk", 1, one=True)
        self.ports.append(("input", clk))
        for i in range(r.randrange(2, 5)):
            v = self.var("a")
            self.ports.append(("input", v))
            self.vars.append(v)
        decls = []
        # local parameters
        for i in range(r.choice([0, 0, 1, 2])):
            n = P.fresh("L")
            decls.append("  localparam %s%s = %s;" % (r.choice(["", "signed ", "[7:0] ", "signed [3:0] ", "integer "]), n, self.expr(2, const=True)))
            self.params.append((n, 8))
            self.P.tick("localparam")
        nparams = len(head)
        self.items = decls
        self.declpos = len(self.items)
        outs = []
        for i in range(r.randrange(2, 6)):
            self.item()
        for i in range(r.randrange(1, 4)):
            v = self.var("o")
            outs.append(v)
        body = []
        regout = []
        for v in outs:
            self.ports.append(("output", v))
            if r.random() < 0.45:
                regout.append(v)
                kind = r.random()
                if kind < 0.5:
                    body.append("  always @%s begin\n    %s = %s;\n%s\n  end" % (r.choice(["*", "(*)"]), v.name, self.expr(2), self.stmts([v], "=")))
                else:
                    self.vars.append(v)
                    if self.p("init"):
                        body.append("  initial %s = %s;" % (v.name, self.lit(v.w)))
                    body.append("  always @(%s clk) begin\n%s\n  end" % (r.choice(["posedge", "negedge"]), self.stmts([v], "<=")))
                    self.vars.pop()
            else:
                body.append("  assign %s%s = %s;" % ("#%s " % r.choice("12") if self.p("delay") else "", v.name, self.expr(3)))
        self.items += body
        own = self.params[:nparams]
        if self.p("nonansi"):
            d = ["  %s;" % x for x in head] if r.random() < 0.5 else []
            ph = "" if d or not head else " #(%s)" % ", ".join(head)
            pl = []
            for k, v in self.ports:
                if v in regout:
                    if r.random() < 0.5:
                        pl.append("  " + v.decl("output reg") + ";")
                    else:
                        pl += ["  " + v.decl("output") + ";", "  " + v.decl("reg") + ";"]
                else:
                    pl.append("  " + v.decl(k) + ";")
            t = "module %s%s(%s);\n%s" % (self.name, ph, ", ".join(v.name for k, v in self.ports), "\n".join(d + pl))
        else:
            ph = " #(%s)" % ", ".join(head) if head else ""
            t = "module %s%s(%s);" % (self.name, ph, ", ".join(v.decl(k + (" reg" if v in regout else r.choice(["", "", " wire"]))) for k, v in self.ports))
        self.params = own
        self.text = t + "\n" + "\n".join(self.items) + "\nendmodule"

    def add(self, v):
        self.vars.append(v)
        self.inner.append(v)

    def item(self):
        r = self.r
        ks = ["assign"] * 2 + ["wire", "comb", "clocked", "clocked", "levels"]
        for k, n in (("func", 2), ("gate", 2), ("inst", 3), ("gen", 2), ("mem", 1), ("real", 1)):
            if self.p(k):
                ks += [k] * n
        k = r.choice(ks)
        self.P.tick("item-" + k)
        getattr(self, "it_" + k)()

    def it_assign(self):
        r = self.r
        v = self.var("w")
        self.items.append("  " + v.decl("wire") + ";")
        if v.w > 2 and not v.one and r.random() < 0.25:
            m = self.r.randrange(v.lsb + 1, v.lsb + v.w)
            lo, hi = "%s[%d:%d]" % (v.name, m - 1, v.lsb), "%s[%d:%d]" % (v.name, v.lsb + v.w - 1, m)
            if v.asc:
                lo, hi = "%s[%d:%d]" % (v.name, v.lsb, m - 1), "%s[%d:%d]" % (v.name, m, v.lsb + v.w - 1)
            if r.random() < 0.5:
                self.items += ["  assign %s = %s;" % (x, self.expr(2)) for x in (lo, hi)]
            else:
                self.P.tick("concatenated-target")
                self.items.append("  assign {%s, %s} = %s;" % (hi, lo, self.expr(3)))
        else:
            self.items.append("  assign %s%s = %s;" % ("#%s " % r.choice(["1", "2", "(1)"]) if self.p("delay") else "", v.name, self.expr(3)))
        self.add(v)

    def it_wire(self):
        v = self.var("w")
        self.items.append("  %s = %s;" % (v.decl("wire"), self.expr(3)))
        self.add(v)

    def it_comb(self):
        r = self.r
        v = self.var("c")
        self.items.append("  " + v.decl("reg") + ";")
        if self.P.f["sv"] and r.random() < self.P.f["sv"]:
            sens = "always_comb"
        else:
            sens = "always @" + r.choice(["*", "(*)"])
        self.items.append("  %s begin\n    %s = %s;\n%s\n  end" % (sens, v.name, self.expr(2), self.stmts([v], "=")))
        self.add(v)

    def it_levels(self):
        """explicit list of what is read"""
        r = self.r
        v = self.var("c")
        reads = [x for x in self.vars if not x.words]
        if not reads:
            return self.it_wire()
        reads = r.sample(reads, min(len(reads), r.randrange(1, 4)))
        keep, self.vars = self.vars, reads
        fs, self.funcs = self.funcs, []
        body = "    %s = %s;\n%s" % (v.name, self.expr(2), self.stmts([v], "=", loops=(0,)))
        self.vars, self.funcs = keep, fs
        self.items.append("  " + v.decl("reg") + ";")
        self.items.append("  always @(%s) begin\n%s\n  end" % (r.choice([" or ", ", "]).join(x.name for x in reads), body))
        self.add(v)

    def it_clocked(self):
        r = self.r
        vs = [self.var("r") for i in range(r.choice([1, 1, 2]))]
        for v in vs:
            k = r.random()
            if self.p("init"):
                if v.words == 0 and k < 0.5:
                    self.items.append("  %s = %s;" % (v.decl("reg"), self.lit(v.w)))
                else:
                    self.items.append("  " + v.decl("reg") + ";")
                    self.items.append("  initial %s = %s;" % (v.name, self.lit(v.w)))
            else:
                self.items.append("  " + v.decl("reg") + ";")
        for v in vs:
            self.add(v)
        rst = [v for v in self.vars if v.one and v.name[0] == "a"]
        if rst and r.random() < 0.5:
            n = r.choice(rst).name
            neg = r.random() < 0.5
            self.items.append("  always @(posedge clk%s%s %s) begin\n    if(%s%s) begin\n%s\n    end else begin\n%s\n    end\n  end" % (
                r.choice([" or ", ", "]), "negedge" if neg else "posedge", n, "!" if neg else "", n,
                "\n".join("      %s <= %s;" % (v.name, self.lit(v.w)) for v in vs), self.stmts(vs, "<=", ind="      ")))
        else:
            self.items.append("  always @(%s clk) begin\n%s\n  end" % (r.choice(["posedge", "posedge", "negedge"]), self.stmts(vs, "<=")))

    def it_func(self):
        r = self.r
        n = self.P.fresh("f")
        w = self.width()
        args = [self.var("x") for i in range(r.randrange(1, 4))]
        loc = [self.var("t") for i in range(r.choice([0, 1]))]
        keep, self.vars = self.vars, args + loc
        kp, self.params = self.params, []
        fs, self.funcs = self.funcs, []
        i_ = self.P.fresh("i")
        ret = Var(n, w, one=(w == 1))
        real, self.loopvar = self.loopvar, lambda: i_
        body = ["    %s = %s;" % (v.name, self.expr(2)) for v in loc + [ret]]
        body.append(self.stmts([ret] + loc, "="))
        del self.loopvar
        self.vars, self.params, self.funcs = keep, kp, fs
        k = r.random()
        rg = "integer " if k < self.P.f.get("intfun", 0) else ret.range()
        self.items.append("  function %s%s;\n%s\n    integer %s;\n    begin\n%s\n    end\n  endfunction" % (
            rg, n, "\n".join(["    " + v.decl("input") + ";" for v in args] + ["    " + v.decl("reg") + ";" for v in loc]), i_,
            "\n".join(body).replace("\n    ", "\n      ")))
        self.funcs.append((n, args))

    def it_gate(self):
        r = self.r
        g = r.choice(["and", "or", "nand", "nor", "xor", "xnor", "not", "buf"])
        arr = r.random() < 0.25
        w = r.randrange(2, 5) if arr else 1
        v = Var(self.P.fresh("g"), w, one=not arr)
        srcs = [x for x in self.vars if not x.words and (x.w == w if arr else True)]
        if not srcs:
            return self.it_wire()
        ins = []
        for i in range(1 if g in ("not", "buf") else r.randrange(2, 5)):
            x = r.choice(srcs)
            if arr or x.one:
                ins.append(x.name)
            else:
                ins.append(r.choice(["%s[%d]" % (x.name, self.index(x)), "^" + x.name, "(%s > 1)" % x.name]))
        self.items.append("  " + v.decl("wire") + ";")
        nm = self.P.fresh("gate") + (" [%d:0]" % (w - 1) if arr else "") if arr or r.random() < 0.6 else ""
        self.items.append("  %s %s(%s);" % (g, nm + " " if nm else "", ", ".join([v.name] + ins)))
        self.add(v)

    def it_inst(self):
        r = self.r
        if not self.P.mods:
            return self.it_assign()
        m = r.choice(self.P.mods)
        arr = r.random() < 0.15
        conns = []
        n = r.randrange(2, 4)
        for d, v in m.ports:
            if v.name == "clk":
                conns.append((v.name, "clk"))
            elif d == "input":
                if arr:
                    src = [x.name for x in self.vars if x.w == v.w and not x.words]
                    conns.append((v.name, r.choice(src) if src else "%d'd%d" % (v.w, r.randrange(1 << min(v.w, 30)))))
                else:
                    conns.append((v.name, self.expr(2)))
            else:
                if r.random() < 0.12:
                    conns.append((v.name, ""))
                    self.P.tick("open-port")
                    continue
                w = Var(self.P.fresh("w"), v.w * (n if arr else 1), v.signed and not arr)
                self.items.append("  " + w.decl("wire") + ";")
                conns.append((v.name, w.name))
                self.add(w)
        if arr:
            self.P.tick("instance-array")
        prm = m.override(r)
        name = self.P.fresh("u") + (" [%d:0]" % (n - 1) if arr else "")
        if r.random() < 0.35 and all(c for p, c in conns):
            self.P.tick("positional-ports")
            cs = [c for p, c in conns]
        else:
            cs = [".%s(%s)" % c for c in conns]
            r.shuffle(cs)
        self.items.append("  %s %s%s(%s);" % (m.name, prm, name, ", ".join(cs)))

    def it_gen(self):
        r = self.r
        v = self.var("y", r.choice([3, 4, 5, 8]), one=False)
        v.lsb, v.asc, v.one = 0, False, False
        g = self.P.fresh("gv")
        self.items += ["  " + v.decl("wire") + ";", "  genvar %s;" % g]
        keep = self.vars
        self.vars = self.vars + [Var(g, 3, one=True)]
        self.params, kp = [], self.params       # names of local parameters are fine, the range of genvars is not
        self.params = kp
        lab = self.P.fresh("gb")
        e1, e2 = self.expr(2), self.expr(2)
        k = r.random()
        if k < 0.4:
            inner = "      assign %s[%s] = %s;" % (v.name, g, e1)
        elif k < 0.7:
            n = self.P.fresh("n")
            inner = "      wire [3:0] %s;\n      assign %s = %s;\n      assign %s[%s] = %s(%s);" % (n, n, e1, v.name, g, r.choice("&|^"), n)
        else:
            self.P.tick("generate-if-in-for")
            inner = "      if(%s %s %d) begin : %s\n        assign %s[%s] = %s;\n      end else begin : %s\n        assign %s[%s] = %s;\n      end" % (
                g, r.choice(["<", "==", ">"]), r.randrange(v.w), self.P.fresh("ga"), v.name, g, e1, self.P.fresh("gc"), v.name, g, e2)
        self.vars = keep
        t = "    for(%s = 0; %s < %d; %s = %s + 1) begin : %s\n%s\n    end" % (g, g, v.w, g, g, lab, inner)
        ps = [p for p, w in self.params]
        if ps and r.random() < 0.3:
            self.P.tick("generate-if")
            t = "    if(%s > %d) begin : %s\n  %s\n    end else begin : %s\n      assign %s = %s;\n    end" % (
                r.choice(ps), r.randrange(4), self.P.fresh("gi"), t.replace("\n", "\n  "), self.P.fresh("ge"), v.name, self.expr(2))
        self.items.append("  generate\n%s\n  endgenerate" % t)
        self.add(v)

    def it_mem(self):
        r = self.r
        v = self.var("r", r.choice([4, 8, 16]))
        v.words = r.choice([4, 8])
        self.items.append("  %s [0:%d];" % (v.decl("reg"), v.words - 1))
        i_ = self.loopvar()
        self.items.append("  initial for(%s = 0; %s < %d; %s = %s + 1) %s[%s] = %s * %d;" % (i_, i_, v.words, i_, i_, v.name, i_, i_, r.randrange(9)))
        self.items.append("  always @(posedge clk) begin\n    %s\n  end" % self.assign(v, "<="))
        self.add(v)

    def it_real(self):
        r = self.r
        n = self.P.fresh("q")
        v = self.var("c", 8)
        vs = [x for x in self.vars if not x.words]
        if not vs:
            return
        x = r.choice(vs).name
        self.items += ["  real %s;" % n, "  " + v.decl("reg") + ";",
                       "  always @(%s) begin\n    %s = %s * %s;\n    %s = %s %s %s;\n  end" % (
                           x, n, x, r.choice(["1.5", "0.25", "2.75e1", "1e-2"]), v.name, n, r.choice("+-*"), r.choice(["3", "0.5", "1.0"]))]
        self.add(v)
