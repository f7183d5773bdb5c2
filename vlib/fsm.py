"""Generated state machines, with a second text that marks what kind of assignment each step makes, and their exhaustive simulation."""
import os, re
from . import simrun


class Fsm(object):
    """attributes: text, marked (the same design with a tag register), signals, state (path), width, instances"""

    def __init__(self, rng, **kw):
        f = dict(hier=0.25, two=0.3, state_mix=0.25, bitwise=0.2, multi=0.3, override=0.15, nonconst=0.15, reset=0.85, aux=0.3, wires=0.4,
                 prefix=0.2, split=0.1, maxw=4, outs=0, scalar=0.5, func=0.15)
        f.update(kw)
        self.f, self.rng = f, rng
        self.ticks = {}
        self.build()

    def tick(self, k):
        self.ticks[k] = self.ticks.get(k, 0) + 1

    def p(self, k):
        if self.rng.random() < self.f[k]:
            return True
        return False

    # -- pieces
    def lit(self, v, w):
        r = self.rng
        k = r.random()
        if k < 0.35:
            return "%d'd%d" % (w, v)
        if k < 0.5:
            return "%d'h%x" % (w, v)
        if k < 0.7:
            return "%d'b%s" % (w, bin(v)[2:].zfill(w))
        return "%d" % v

    def st(self, v):
        """text of a state value"""
        return self.names.get(v) if v in self.names and self.rng.random() < 0.8 else self.lit(v, self.w)

    def index(self, n, i):
        """index of bit i of a signal"""
        msb, lsb = self.rgs.get(n, (1, 0))
        return lsb + i if msb >= lsb else lsb - i

    def range_of(self, n, w):
        """declared ranges that do not end in 0, or ascend"""
        if w > 1 and self.rng.random() < 0.3:
            self.rgs[n] = self.rng.choice([(w, 1), (0, w - 1), (w + 1, 2), (1, w)])
            self.tick("unusual-range")

    def leaf(self):
        r = self.rng
        n, w = r.choice(self.conds)
        if w == 1:
            return r.choice([n, n, "!" + n, "~" + n, "%s == 1'b1" % n, "%s == 1'b0" % n])
        k = r.random()
        v = r.randrange(1 << w)
        if k < 0.45:
            return "%s %s %s" % (n, r.choice(["==", "!=", "===", "!=="]), self.lit(v, w))
        if k < 0.65:
            self.tick("ordered-condition")
            a, b = n, self.lit(v, w)
            if r.random() < 0.3:
                a, b = b, a
            return "%s %s %s" % (a, r.choice(["<", ">", "<=", ">="]), b)
        if k < 0.75:
            return "%s[%d]" % (n, self.index(n, r.randrange(w)))
        if k < 0.87:
            self.tick("reduction-condition")
            return "%s%s" % (r.choice(["&", "|", "^", "~&", "~|", "~^"]), n)
        if k < 0.93:
            self.tick("vector-condition")
            return r.choice([n, "!" + n])
        o = [x for x, xw in self.conds if xw == w and x != n]
        if o:
            self.tick("signals-compared")
            return "%s %s %s" % (n, r.choice(["==", "!=", "<"]), r.choice(o))
        return "%s[%d:%d]" % (n, self.index(n, r.randrange(w)), self.index(n, 0))

    def state_leaf(self):
        r = self.rng
        s, v = self.state, self.st(r.choice(self.values))
        k = r.random()
        if "ordered" in self.f and r.random() < self.f["ordered"]:
            self.tick("state-ordered")
            return "%s %s %s" % (r.choice([(s, "<", v), (s, ">", v), (s, "<=", v), (s, ">=", v), (v, "<", s), (v, ">", s), (v, "<=", s), (v, ">=", s)]))
        if k < 0.5:
            return "%s == %s" % ((s, v) if r.random() < 0.7 else (v, s))
        if k < 0.7:
            return "%s != %s" % ((s, v) if r.random() < 0.7 else (v, s))
        if k < 0.93:
            self.tick("state-ordered")
            a, b = s, v
            if r.random() < 0.3:
                a, b = b, a
            return "%s %s %s" % (a, r.choice(["<", ">", "<=", ">="]), b)
        if k < 0.96 or self.w == 1:
            self.tick("state-truth")
            return r.choice([s, "!" + s])
        self.tick("state-bit")
        return "%s[%d]" % (s, self.index(s, r.randrange(self.w)))

    def cond(self, d=2):
        r = self.rng
        if d and r.random() < 0.4:
            k = r.random()
            a, b = self.cond(d - 1), self.cond(d - 1)
            if k < 0.2:
                return "!(%s)" % a
            if self.p("bitwise"):
                one = [n for n, w in self.conds if w == 1]
                if one and r.random() < 0.8:
                    self.tick("bitwise-condition")
                    return "%s %s %s" % (r.choice(one), r.choice("&|^"), r.choice(one))
                m = [n for n, w in self.conds if w > 1]
                if m and r.random() < 0.7:
                    self.tick("bitwise-vector-condition")
                    n, w = r.choice([c for c in self.conds if c[1] > 1])
                    return r.choice(["%s & %s", "%s | %s"]) % (n, self.lit(r.randrange(1 << w), w))
            self.tick("joined-condition")
            return "(%s) %s (%s)" % (a, r.choice(["&&", "||"]), b)
        if self.p("state_mix"):
            self.tick("state-in-condition")
            return self.state_leaf()
        return self.leaf()

    def wide(self, e):
        """may have more than one bit"""
        if any(op in e for op in ("&&", "||", "==", "!=", "<", ">")):
            return re.search(r"[^&]&[^&]|[^|]\|[^|]", e)
        return not e.startswith("!") and not any(e == n or e == "~" + n for n, w in self.conds if w == 1) and not re.match(r"^(~?[&|^]|~\^)?\w+$", e) \
            or any(e == n for n, w in self.conds if w > 1) or e == self.state

    # -- statements: nested lists, turned into text by emit
    def body(self, d, states, inside):
        r = self.rng
        k = r.random()
        if d == 0 or k < 0.25:
            if self.p("nonconst"):
                self.tick("non-constant-next")
                return ("expr", r.choice(["%s + %s" % (self.state, self.lit(1, self.w)), "~" + self.state, self.state]))
            return ("set", r.choice(self.values))
        if k < 0.6 or inside:
            els = self.body(d - 1, states, inside) if r.random() < 0.5 else None
            return ("if", self.cond(), self.body(d - 1, states, inside), els)
        if k < 0.75:
            # a chain of tests of the state
            out = self.body(d - 1, states, False) if r.random() < 0.4 else None
            for i in range(r.randrange(1, 4)):
                out = ("if", self.state_leaf(), self.body(d - 1, states, True), out)
            return out
        return self.case(d, states)

    def case(self, d, states):
        r = self.rng
        vals = list(self.values)
        r.shuffle(vals)
        items = []
        while vals and (len(items) < 1 or r.random() < 0.9):
            n = 2 if self.p("multi") and len(vals) > 1 else 1
            labs, vals = vals[:n], vals[n:]
            if n > 1:
                self.tick("label-list")
            body = self.body(d - 1, states, True) if r.random() < 0.92 else None
            items.append((labs, body))
        dflt = None
        if r.random() < 0.5:
            self.tick("case-default")
            dflt = self.body(d - 1, states, True)
        return ("case", items, dflt)

    def out_body(self, d, w, inside=False):
        """assignments to an output, all of them under a test of the state"""
        r = self.rng
        if not inside:
            if r.random() < 0.7:
                vals = list(self.values)
                r.shuffle(vals)
                items = []
                while vals and (not items or r.random() < 0.8):
                    n = 2 if self.p("multi") and len(vals) > 1 else 1
                    labs, vals = vals[:n], vals[n:]
                    items.append((labs, self.out_body(d, w, True) if r.random() < 0.9 else None))
                return ("case", items, self.out_body(d, w, True) if r.random() < 0.4 else None)
            t = self.state_leaf()
            while "[" in t:
                t = self.state_leaf()
            return ("if", t, self.out_body(d, w, True), self.out_body(d, w, r.random() < 0.5) if r.random() < 0.5 else None)
        k = r.random()
        if d == 0 or k < 0.45:
            if r.random() < 0.15 and self.ins:
                return ("out", r.choice(["%s[0]" % n if nw > 1 else n for n, nw in self.ins]) if w == 1 else "~" + self.outname, 0)
            v = r.choice([0, 1, (1 << w) - 1, r.randrange(1 << w)])
            return ("out", self.lit(v, w), int(v > 0))
        return ("if", self.cond(1), self.out_body(d - 1, w, True), self.out_body(d - 1, w, True) if r.random() < 0.5 else None)

    def emit(self, t, ind, mark):
        """statement lines; mark: also record the kind of the assignment"""
        sp = "  " * ind
        if t is None:
            return [sp + ";"]
        op = self.op
        tag = lambda n: (" tg %s 2'd%d;" % (op, n)) if mark else ""
        if t[0] == "set":
            key = ("set", id(t))
            if key not in self.texts:
                self.texts[key] = self.st(t[1])
            return ["%sbegin %s %s %s;%s end" % (sp, self.dst, op, self.texts[key], tag(1))]
        if t[0] == "out":
            tag = " tg_%s %s 1'd%d;" % (self.dst, op, t[2]) if mark else ""
            return ["%sbegin %s %s %s;%s end" % (sp, self.dst, op, t[1], tag)]
        if t[0] == "expr":
            return ["%sbegin %s %s %s;%s end" % (sp, self.dst, op, t[1], tag(2))]
        if t[0] == "seq":
            return [sp + "begin"] + [l for x in t[1] for l in self.emit(x, ind + 1, mark)] + [sp + "end"]
        if t[0] == "if":
            out = ["%sif (%s) begin" % (sp, t[1])] + self.emit(t[2], ind + 1, mark) + [sp + "end"]
            if t[3] is not None:
                out += [sp + "else begin"] + self.emit(t[3], ind + 1, mark) + [sp + "end"]
            return out
        key = ("case", id(t))
        if key not in self.texts:
            self.texts[key] = [", ".join(self.st(v) for v in labs) for labs, b in t[1]]
        out = ["%scase (%s)" % (sp, self.state)]
        for lt, (labs, b) in zip(self.texts[key], t[1]):
            out += ["%s  %s:" % (sp, lt)] + self.emit(b, ind + 2, mark)
        if t[2] is not None:
            out += ["%s  default:" % sp] + self.emit(t[2], ind + 2, mark)
        return out + [sp + "endcase"]

    # -- the design
    def build(self):
        r = self.rng
        self.texts = {}
        self.w = w = r.choice([1, 2, 2, 2, 3, 3, 4][:7 if self.f["maxw"] >= 4 else 6])
        n = r.randrange(2, min(6, 1 << w) + 1)
        self.values = r.sample(range(1 << w), n) if r.random() < 0.4 else list(range(n))
        base = r.choice(["state", "fsm", "cur_state", "mode", "step", "count", "STATE_r"])
        self.state = base
        self.names = {}
        self.rgs = {}
        self.range_of(base, w)
        if base in self.rgs:
            self.rgs["next_" + base] = self.rgs[base]
        pre = r.choice(["S_", "ST", "IDLE", "s"])
        style = r.choice(["localparam", "parameter", "define", "literal"])
        decl, head = [], []
        if style != "literal":
            for v in self.values:
                self.names[v] = "%s%d" % (pre, v)
            if style == "define":
                head = ["`define %s %s" % (nm, self.lit(v, w)) for v, nm in sorted(self.names.items())]
                self.names = {v: "`" + nm for v, nm in self.names.items()}
            else:
                rg = "[%d:0] " % (w - 1) if r.random() < 0.4 else ""
                decl.append("  %s %s%s;" % (style, rg, ", ".join("%s = %s" % (nm, self.lit(v, w)) for v, nm in sorted(self.names.items()))))
        bits, ins = 0, []
        for i in range(r.randrange(1, 5)):
            iw = r.choice([1, 1, 1, 2, 3])
            if bits + iw > 6:
                break
            bits += iw
            ins.append(("%s%d" % (r.choice(["go", "x", "req", "sel"]), i), iw))
        self.ins = ins
        self.conds = list(ins)
        for x, iw in ins:
            self.range_of(x, iw)
        aux = []
        if self.p("aux") and bits <= 4:
            self.tick("other-register")
            aux = [("aux", r.choice([1, 2]))]
            self.conds += aux
        wires = []
        rg = lambda ww, x=None: "[%d:%d] " % self.rgs[x] if x in self.rgs else "" if ww == 1 else "[%d:0] " % (ww - 1)
        if self.p("wires"):
            for i in range(r.randrange(1, 3)):
                self.tick("named-condition")
                save, self.f["state_mix"] = self.f["state_mix"], r.choice([0, 0.3])
                e = self.cond()
                while self.wide(e):
                    e = self.cond()
                self.f["state_mix"] = save
                wires.append(("w%d" % i, 1, e))
                self.conds.append(("w%d" % i, 1))
        two = self.p("two")
        body = self.body(r.randrange(1, 4), None, False) if r.random() < 0.35 else self.case(r.randrange(1, 4), None)
        if r.random() < 0.15:
            self.tick("priority-over-case")
            body = ("if", self.cond(1), ("set", r.choice(self.values)), body)
        if self.p("override"):
            self.tick("overridden-assignment")
            seq = [("set", r.choice(self.values)) if r.random() < 0.5 else body]
            if seq[0] is body:
                seq.append(("if", self.cond(1), ("set", r.choice(self.values)), None))
            else:
                seq.append(body)
            body = ("seq", seq)
        self.outs = []
        for i in range(self.f["outs"]):
            ow, comb = r.choice([1, 1, 2]), r.random() < 0.5
            self.outname = "o%d" % i
            if comb and ow > 1:
                ow = 1
            self.outs.append((self.outname, ow, comb, 0 if comb else None, self.out_body(r.randrange(0, 3), ow)))
            self.tick("combinational-output" if comb else "registered-output")
        rst = None
        if self.p("reset"):
            nm = r.choice(["rst", "reset", "rst_n", "RST_N", "areset"])
            low = nm.lower().endswith("_n")
            rst = (nm, low, r.choice(["sync", "async"]))
        self.rst = rst
        clk = r.choice(["clk", "clock", "CLK"])
        edge = "posedge" if r.random() < 0.9 else "negedge"
        self.clk, self.edge = clk, edge
        init = r.choice(self.values)
        mod = "fsmmod" if self.p("hier") else "top"

        def module(mark):
            ports = [clk] + ([rst[0]] if rst else []) + [x for x, iw in ins] + ["q"]
            L = head + ["module %s(%s);" % (mod, ", ".join(ports)), "  input %s;" % ", ".join([clk] + ([rst[0]] if rst else []))]
            L += ["  input %s%s;" % (rg(iw, x), x) for x, iw in ins]
            L += decl
            L += ["  output [%d:0] q;" % (w - 1)]
            L += ["  reg %s%s%s;" % (rg(w, base), base, (", next_" + base) if two else "")]
            L += ["  reg %s%s;" % (rg(aw), x) for x, aw in aux]
            if mark:
                L.append("  reg [1:0] tg;")
            L += ["  wire %s = %s;" % (x, e) for x, xw, e in wires]
            L += ["  assign q = %s;" % base]
            ev = "%s %s" % (edge, clk)
            if rst and rst[2] == "async":
                ev += " or %s %s" % ("negedge" if rst[1] else "posedge", rst[0])
            rc = None if not rst else (rst[0] if not rst[1] else r0)
            if two:
                self.op, self.dst = "=", "next_" + base
                L += ["  always @* begin"] + (["    tg = 2'd0;"] if mark else []) + ["    next_%s = %s;" % (base, base)]
                L += self.emit(body, 2, mark) + ["  end"]
                core = ["    %s <= next_%s;" % (base, base)]
            else:
                self.op, self.dst = "<=", base
                core = self.emit(body, 2, mark)
            L.append("  always @(%s) begin" % ev)
            if mark and not two:
                L.append("    tg <= 2'd0;")
            if rc and ce:
                L.append("    if (%s) begin" % ce)
            if rc:
                L += ["    if (%s) begin" % rc, "      %s <= %s;" % (base, self.texts.setdefault("init", self.st(init))), "    end else begin"] + core + ["    end"]
                if ce:
                    L.append("    end")
            else:
                L += core
            L += ["  end"]
            for x, ow, comb, dflt, ob in self.outs:
                self.dst, self.op = x, "=" if comb else "<="
                if mark:
                    L.append("  reg tg_%s;" % x)
                L.append("  reg %s%s;" % (rg(ow), x))
                if comb:
                    L.append("  always @* begin")
                    if dflt is not None:
                        L.append("    %s = %d'd%d;%s" % (x, ow, dflt, " tg_%s = 0;" % x if mark else ""))
                    L += self.emit(ob, 2, mark) + ["  end"]
                else:
                    L.append("  always @(%s) begin" % ev)
                    if mark:
                        L.append("    tg_%s <= 0;" % x)
                    if rc:
                        L += ["    if (%s) begin" % rc, "      %s <= %d'd%d;" % (x, ow, len(x + rc) % 2), "    end else begin"]
                    L += self.emit(ob, 2, mark) + (["    end"] if rc else []) + ["  end"]
            for x, aw in aux:
                L.append("  always @(%s %s) %s <= %s;" % (edge, clk, x, "~" + x if aw == 1 else x + " + 1"))
            L.append("endmodule")
            if mod != "top":
                L += ["module top(%s);" % ", ".join(ports), "  input %s;" % ", ".join([clk] + ([rst[0]] if rst else []))]
                L += ["  input %s%s;" % (rg(iw, x), x) for x, iw in ins] + ["  output [%d:0] q;" % (w - 1)]
                L += ["  %s %s(%s);" % (mod, self.inst, ", ".join(".%s(%s)" % (x, x) for x in ports)), "endmodule"]
            return "\n".join(L) + "\n"

        r0 = ce = None
        if rst and rst[2] == "sync" and r.random() < 0.25:
            one = [x for x, xw in ins if xw == 1]
            if one:
                self.tick("reset-under-enable")
                ce = r.choice(one)
        self.ce = ce
        self.inst = r.choice(["u", "u", "ctrl", "first_u", "burst"])
        if rst and rst[1]:
            r0 = r.choice(["!%s", "~%s", "%s == 1'b0"]) % rst[0]
        self.text = module(False)
        self.marked = module(True)
        pre = "top." if mod == "top" else "top.%s." % self.inst
        self.path = pre + base
        rng = lambda p, ww: self.rgs.get(p[p.rindex(".") + 1:], (ww - 1, 0))
        sig = lambda p, ww: {"path": p, "msb": rng(p, ww)[0], "lsb": rng(p, ww)[1], "width": ww, "dims": None, "const": None}
        self.signals = [sig(self.path, w)] + [sig(pre + x, aw) for x, aw in aux] + [sig(pre + x, xw) for x, xw, e in wires]
        self.signals += [sig("top." + x, 1) for x in [clk] + ([rst[0]] if rst else [])] + [sig("top." + x, iw) for x, iw in ins]
        if mod != "top":
            self.signals += [sig("top.%s." % self.inst + x, iw) for x, iw in ins] + [sig("top.%s." % self.inst + x, 1) for x in [clk] + ([rst[0]] if rst else [])]
            self.signals += [sig("top.%s.q" % self.inst, w)]
        self.signals.append(sig("top.q", w))
        self.signals += [sig(pre + x[0], x[1]) for x in self.outs]
        self.prefix = pre
        if two:
            self.signals.append(sig(pre + "next_" + base, w))
        self.aux = [(pre + x, aw) for x, aw in aux]
        if two:
            self.tick("two-process")
        if mod != "top":
            self.tick("machine-in-instance")

    # -- every step from every state under every input
    def table(self, d, extra=()):
        """-> [(snapshot before the edge, next state, kind of assignment)]; kind 0 none, 1 constant, 2 other"""
        free = [("dut" + self.path[3:], self.w)] + [("dut" + p[3:], aw) for p, aw in self.aux] + list(self.ins)
        total = sum(x[1] for x in free)
        cols = [s["path"] for s in self.signals]
        tg = "dut" + self.path[3:self.path.rindex(".") + 1] + "tg"
        on, off = (1, 0) if self.edge == "posedge" else (0, 1)
        tb = ["module tb;", "  reg %s;" % self.clk, "  reg [%d:0] k;" % total]
        if self.rst:
            tb.append("  reg %s;" % self.rst[0])
        tb += ["  reg [%d:0] %s;" % (iw - 1, x) for x, iw in self.ins]
        ports = [self.clk] + ([self.rst[0]] if self.rst else []) + [x for x, iw in self.ins]
        tb.append("  top dut(%s);" % ", ".join(".%s(%s)" % (x, x) for x in ports))
        tb.append("  initial begin")
        tb.append("    %s = %d; %s" % (self.clk, off, ("%s = %d;" % (self.rst[0], 1 if self.rst[1] else 0)) if self.rst else ""))
        tb.append("    #1;")
        tb.append("    for (k = 0; k < %d; k = k + 1) begin" % (1 << total))
        # two assignments: every process is woken by what it reads
        tb.append("      {%s} = ~k[%d:0];" % (", ".join(x for x, xw in free), total - 1))
        tb.append("      #1 {%s} = k[%d:0];" % (", ".join(x for x, xw in free), total - 1))
        tb.append("      #1 $write(\"S" + " %b" * len(cols) + "\"" + "".join(", dut" + c[3:] for c in cols) + ");")
        if "two-process" in self.ticks:
            tb.append("      $write(\" %%b\", %s);" % tg)
        otag = tg[:-2] + "tg_"
        for x, ow, comb, dflt, ob in self.outs:
            if comb:
                tb.append("      $write(\" %%b\", %s%s);" % (otag, x))
        tb.append("      %s = %d;" % (self.clk, on))
        tb.append("      #1 $write(\" %%b %%b\", dut%s, %s);" % (self.path[3:], tg))
        for x, ow, comb, dflt, ob in self.outs:
            if not comb:
                tb.append("      $write(\" %%b\", %s%s);" % (otag, x))
        tb.append("      $display(\"\");")
        tb.append("      %s = %d;" % (self.clk, off))
        tb.append("      #1;")
        tb += ["    end", "    $finish;", "  end", "endmodule"]
        src, out = os.path.join(d, "fsm.v"), os.path.join(d, "fsm.vvp")
        with open(src, "w") as h:
            h.write(self.marked + "\n".join(tb) + "\n")
        c = simrun.run([simrun.IVERILOG, "-g2005", "-o", out, "-s", "tb", src])
        if c.returncode:
            raise simrun.SimError(c.stderr[:2000])
        rr = simrun.run([simrun.VVP, "-n", out], timeout=100)
        rows = []
        skip = {s["path"] for s in self.signals if s["path"].split(".")[-1] in [x[0] for x in self.outs]}
        for l in rr.stdout.splitlines():
            if not l.startswith("S "):
                continue
            v = [int(x, 2) if not set(x) - set("01") else None for x in l.split()[1:]]
            snap = dict(zip(cols, v[:len(cols)]))
            rest = v[len(cols):]
            kind = rest.pop(0) if "two-process" in self.ticks else None
            outs = {x[0]: rest.pop(0) for x in self.outs if x[2]}
            nxt, last = rest[:2]
            kind = last if kind is None else kind
            outs.update(zip([x[0] for x in self.outs if not x[2]], rest[2:]))
            if self.ce and "two-process" in self.ticks and not snap["top." + self.ce]:
                kind = 0
            if any(x is None for c, x in zip(cols + [None] * len(v), v) if c not in skip):
                raise simrun.SimError("unknown value in %s" % l)
            rows.append((snap, nxt, kind, outs))
        if len(rows) != 1 << total:
            raise simrun.SimError("simulation stopped early: %s" % rr.stderr[:300])
        return rows
