"""Grammar-driven generator: every production returns (tokens, expected node) together.

The expected node is written from the Verilog standard's reading of the text (precedence, nesting), independent of
the parser.  A layout step then assigns each token a line, so expected line numbers are known exactly."""
import random


class T(object):
    __slots__ = ("text", "line", "pos")

    def __init__(self, text):
        self.text = text
        self.line = None
        self.pos = None

    def __repr__(self):
        return self.text


class N(object):
    """Expected node. mode: 'first' (line of first token), 'range' (some line of its tokens), None (unchecked)."""
    __slots__ = ("cls", "f", "first", "inner", "last", "mode", "end")

    def __init__(self, cls, f, toks=None, mode="first", end=None):
        self.cls = cls
        self.f = f
        self.first = self.inner = toks[0] if toks else None
        for t in toks or ():
            if t.text != "(":
                self.inner = t
                break
        self.last = toks[-1] if toks else None
        self.mode = mode if toks else None
        self.end = end          # last token if an end line must be reported

    def __repr__(self):
        return "%s(%s)" % (self.cls, ", ".join("%s=%r" % kv for kv in self.f.items()))


def flat(*xs):
    out = []
    for x in xs:
        if x is None:
            continue
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, str):
            out.append(T(x))
        else:
            for y in x:
                out.extend(flat(y))
    return out


KEYWORDS = set("""module endmodule begin end generate endgenerate genvar function endfunction task endtask input inout
output tri reg logic wire integer real signed parameter localparam supply0 supply1 assign always always_ff always_comb
always_latch or posedge negedge initial if else for while case casex casez unique endcase default wait forever disable
fork join""".split())

# binary operators: text -> (class, level); higher level binds tighter (IEEE 1364-2005 table 5-4)
BIN = {"**": ("Power", 12), "*": ("Times", 11), "/": ("Divide", 11), "%": ("Mod", 11), "+": ("Plus", 10),
       "-": ("Minus", 10), "<<": ("Sll", 9), ">>": ("Srl", 9), "<<<": ("Sla", 9), ">>>": ("Sra", 9),
       "<": ("LessThan", 8), ">": ("GreaterThan", 8), "<=": ("LessEq", 8), ">=": ("GreaterEq", 8),
       "==": ("Eq", 7), "!=": ("NotEq", 7), "===": ("Eql", 7), "!==": ("NotEql", 7), "&": ("And", 6),
       "^": ("Xor", 5), "~^": ("Xnor", 5), "^~": ("Xnor", 5), "|": ("Or", 4), "&&": ("Land", 3), "||": ("Lor", 2)}
UN = {"-": "Uminus", "!": "Ulnot", "~": "Unot", "&": "Uand", "~&": "Unand", "|": "Uor", "~|": "Unor", "^": "Uxor",
      "~^": "Uxnor", "^~": "Uxnor"}
UN_LEVEL, PRIMARY, COND_LEVEL = 13, 14, 1


class Gen(object):
    def __init__(self, rng, **cfg):
        self.r = rng
        self.cfg = cfg
        self.n = 0
        self.names = []
        self.features = set()

    # ---------------------------------------------------------------- helpers
    def p(self, x):
        return self.r.random() < x

    def feat(self, s):
        self.features.add(s)

    def name(self, fresh=True):
        r = self.r
        if not fresh and self.names and self.p(0.8):
            return r.choice(self.names)
        self.n += 1
        k = r.random()
        if k < 0.55:
            s = r.choice("abcdefghijklmnopqrstuvwxyz") + str(self.n)
        elif k < 0.75:
            s = r.choice(["input", "output", "reg", "wire", "end", "endmodule", "or", "begin", "case", "if", "signed",
                          "posedge", "default", "module", "real", "x", "z", "b", "h", "e", "xor", "nand", "not"]) + \
                r.choice(["_", "x", "$", "0", "_$"]) + str(self.n)
        elif k < 0.85:
            s = r.choice(["_", "A", "Z", "_A$b", "Module", "BEGIN", "__"]) + str(self.n)
        elif k < 0.93 or not self.cfg.get("escaped", True):
            s = r.choice(["clk", "rst", "data", "state"]) + "_" + str(self.n)
        else:
            self.feat("escaped-name")
            s = "\\" + r.choice(["a+b", "1abc", "bus[0]", "x.y", "{c}", "if", "#5", "a'b", "-", "q\"", "a,b;"]) + str(self.n)
        self.names.append(s)
        return s

    # ---------------------------------------------------------------- expressions
    def intconst(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            s = str(r.choice([0, 1, 2, 3, 7, 8, 10, 15, 31, 255, r.randrange(10 ** 6)]))
            if self.p(0.1):
                s = s + "_0" + "_" * r.randrange(2)
        else:
            size = r.choice(["", str(r.choice([1, 2, 4, 8, 16, 32, 64, 100]))])
            sg = r.choice(["", "", "s", "S"])
            base = r.choice("bBoOdDhH")
            digs = {"b": "01", "o": "01234567", "d": "0123456789", "h": "0123456789abcdefABCDEF"}[base.lower()]
            xz = "xXzZ?" if (base.lower() != "d" and self.p(0.35)) else ""
            n = r.randrange(1, 7)
            body = "".join(r.choice(digs + xz) for _ in range(n))
            if base.lower() == "d" and self.p(0.05):
                body = r.choice("xXzZ?")
            elif self.p(0.2) and n > 1:
                body = body[0] + "_" + body[1:]
            s = "%s'%s%s%s" % (size, sg, base, body)
            self.feat("const:" + sg.lower() + base.lower())
        t = T(s)
        return [t], N("IntConst", {"value": s}, [t])

    def const(self):
        r = self.r
        k = r.random()
        if k < 0.86:
            return self.intconst()
        if k < 0.93:
            s = r.choice(["1.5", "0.25", "3.0e2", "1e3", "2E-4", "1.25E+10", "10.0", "6.02e23"])
            t = T(s)
            self.feat("const:float")
            return [t], N("FloatConst", {"value": s}, [t])
        s = r.choice(["hello", "", "a b", "%d %x", "line\\n", "q\\\"q", "back\\\\slash", "tab\\t", "//no comment",
                      "/* no */", "`nodirective", "semi;colon", "\\101x", "a'b", "(", "end"])
        t = T('"' + s + '"')
        self.feat("const:string")
        return [t], N("StringConst", {"value": s}, [t])

    def ident(self, hier=0.06):
        s = self.name(fresh=False)
        if self.p(hier):
            # hierarchical name: a.b  a[3].b  a.b[1].c
            self.feat("hierarchical-name")
            toks, labels = [], []
            lead = None
            for i in range(self.r.randrange(1, 3)):
                nm = self.name(fresh=False)
                t = T(nm)
                lead = lead or t
                lab = [t]
                ptr = None
                if self.p(0.35):
                    pt, ptr = self.expr(0)
                    lab = flat(t, "[", pt, "]")
                labels.append(N("IdentifierScopeLabel", {"name": nm, "loop": ptr}, None))
                toks += flat(lab, ".")
            toks.append(T(s))
            sc = N("IdentifierScope", {"labellist": labels}, None)
            n = N("Identifier", {"name": s, "scope": sc}, toks)
            return toks, n
        t = T(s)
        return [t], N("Identifier", {"name": s, "scope": None}, [t])

    def minus_one(self, a):
        return N("Minus", {"left": a, "right": N("IntConst", {"value": "1"}, None)}, None)

    def select(self, d, lhs=False):
        """pointer / part select on an identifier (possibly several indices)."""
        toks, n = self.ident(hier=0.03)
        self_base = toks
        for _ in range(self.r.choice([0, 1, 1, 1, 2])):
            et, en = self.expr(min(d, 1))
            toks = flat(toks, "[", et, "]")
            n = N("Pointer", {"var": n, "ptr": en}, toks)
        k = self.r.random()
        if k < 0.45 or n.cls == "Identifier":
            a, an = self.expr(min(d, 1))
            b, bn = self.expr(min(d, 1))
            kind = self.r.choice([":", ":", "+:", "-:"]) if self.cfg.get("indexed", True) else ":"
            toks = flat(toks, "[", a, kind, b, "]")
            self.feat("select" + kind)
            if kind == ":":
                n = N("Partselect", {"var": n, "msb": an, "lsb": bn}, toks)
            else:
                n = N("IndexedSelect", {"var": n, "base": an, "width": bn, "dir": kind[0]}, toks)
        return toks, n

    def expr(self, d, lv=0):
        toks, n, level = self._expr(d)
        if level < lv or self.p(self.cfg.get("extra_paren", 0.08)):
            toks = flat("(", toks, ")")
        return toks, n

    def _expr(self, d):
        r = self.r
        if d <= 0:
            k = r.random()
            if k < 0.55:
                t, n = self.ident()
            else:
                t, n = self.const()
            return t, n, PRIMARY
        k = r.random()
        if k < 0.5:
            op = r.choice(sorted(BIN))
            cls, lev = BIN[op]
            lt, ln = self.expr(d - 1, lev)
            rt, rn = self.expr(d - 1, lev + 1)
            toks = flat(lt, op, rt)
            self.feat("bin" + op)
            return toks, N(cls, {"left": ln, "right": rn}, toks), lev
        if k < 0.64:
            op = r.choice(sorted(UN))
            et, en = self.expr(d - 1, PRIMARY)
            toks = flat(op, et)
            self.feat("un" + op)
            return toks, N(UN[op], {"right": en}, toks), UN_LEVEL
        if k < 0.73:
            ct, cn = self.expr(d - 1, COND_LEVEL + 1)
            at, an = self.expr(d - 1, 0)
            bt, bn = self.expr(d - 1, COND_LEVEL)
            toks = flat(ct, "?", at, ":", bt)
            self.feat("cond")
            return toks, N("Cond", {"cond": cn, "true_value": an, "false_value": bn}, toks), COND_LEVEL
        if k < 0.82:
            t, n = self.select(d - 1)
            return t, n, PRIMARY
        if k < 0.88:
            t, n = self.concat(d - 1)
            return t, n, PRIMARY
        if k < 0.92:
            tt, tn = self.expr(d - 1)
            ct, cn = self.concat(d - 1)
            toks = flat("{", tt, ct, "}")
            self.feat("repeat")
            return toks, N("Repeat", {"times": tn, "value": cn}, toks), PRIMARY
        if k < 0.96:
            it, inn = self.ident(hier=0.02)
            at, an = self.exprlist(d - 1, 0, 3)
            toks = flat(it, "(", at, ")")
            self.feat("call")
            return toks, N("FunctionCall", {"name": inn, "args": an}, toks), PRIMARY
        toks, n = self.syscall(d - 1)
        return toks, n, PRIMARY

    def syscall(self, d):
        nm = self.r.choice(["signed", "unsigned", "time", "random", "clog2", "display", "finish", "write"])
        self.feat("syscall")
        if nm in ("time", "finish") and self.p(0.6):
            toks = flat("$" + nm)
            return toks, N("SystemCall", {"syscall": nm, "args": []}, toks)
        at, an = self.exprlist(d, 0 if nm not in ("signed", "unsigned") else 1, 3)
        toks = flat("$" + nm, "(", at, ")")
        return toks, N("SystemCall", {"syscall": nm, "args": an}, toks)

    def exprlist(self, d, lo, hi):
        n = self.r.randrange(lo, hi + 1)
        toks, ns = [], []
        for i in range(n):
            t, e = self.expr(d)
            if i:
                toks.append(T(","))
            toks += t
            ns.append(e)
        return toks, ns

    def concat(self, d):
        t, ns = self.exprlist(d, 1, 4)
        toks = flat("{", t, "}")
        self.feat("concat")
        return toks, N("Concat", {"list": ns}, toks)

    def lvalue(self, d=1, conc=0.15):
        t, n = self._lv(d, conc)
        return t, N("Lvalue", {"var": n}, t)

    def _lv(self, d, conc):
        k = self.r.random()
        if k < conc:
            toks, ns = [], []
            for i in range(self.r.randrange(1, 4)):
                t, n = self._lv(d - 1, conc if d > 0 else 0)
                if i:
                    toks.append(T(","))
                toks += t
                ns.append(n)
            toks = flat("{", toks, "}")
            self.feat("lconcat")
            return toks, N("LConcat", {"list": ns}, toks)
        if k < 0.6:
            return self.ident(hier=0.03)
        return self.select(d)

    def rvalue(self, d=None):
        t, n = self.expr(self.d() if d is None else d)
        return t, N("Rvalue", {"var": n}, t)

    def d(self):
        return self.r.choice(self.cfg.get("depths", [0, 1, 1, 2]))

    def width(self, d=None):
        if d is None:
            d = self.r.choice([0, 0, 0, 1])
        a, an = self.expr(d)
        b, bn = self.expr(0 if self.p(0.8) else d)
        toks = flat("[", a, ":", b, "]")
        return toks, N("Width", {"msb": an, "lsb": bn}, toks)

    def optwidth(self, p=0.6):
        if self.p(p):
            return self.width()
        return [], None

    def dims(self, p=0.2):
        if not self.p(p):
            return [], None
        toks, ls = [], []
        for _ in range(self.r.choice([1, 1, 2])):
            t, n = self.width()
            toks += t
            ls.append(N("Length", n.f, t))
        self.feat("dimensions")
        return toks, N("Dimensions", {"lengths": ls}, toks)

    def delay(self):
        k = self.r.random()
        if k < 0.4:
            t, n = self.expr(1)
            toks = flat("#", "(", t, ")")
        elif k < 0.7:
            s = str(self.r.randrange(100))
            t = T(s)
            toks = flat("#", t)
            n = N("IntConst", {"value": s}, toks, mode="range")
        elif k < 0.85:
            t, n = self.ident(hier=0)
            toks = flat("#", t)
        else:
            s = self.r.choice(["1.5", "0.25", "10.0"])
            t = T(s)
            toks = flat("#", t)
            n = N("FloatConst", {"value": s}, toks, mode="range")
        self.feat("delay")
        return toks, N("DelayStatement", {"delay": n}, toks)

    def optdelay(self, p=0.12):
        if self.p(p):
            return self.delay()
        return [], None

    # ---------------------------------------------------------------- statements
    def stmt(self, d):
        r = self.r
        if d <= 0:
            return self.simple()
        k = r.random()
        if k < 0.25:
            return self.simple()
        if k < 0.45:
            return self.if_(d)
        if k < 0.58:
            return self.case(d)
        if k < 0.65:
            return self.for_(d)
        if k < 0.69:
            return self.while_(d)
        if k < 0.88:
            return self.block(d)
        if k < 0.92:
            return self.par(d)
        if k < 0.95:
            return self.wait(d)
        if k < 0.97:
            return self.forever(d)
        return self.event()

    def simple(self):
        k = self.r.random()
        if k < 0.85:
            return self.assign_stmt(self.p(0.5))
        if k < 0.92:
            t, n = self.syscall(1)
            toks = flat(t, ";")
            self.feat("st:systemcall")
            return toks, N("SingleStatement", {"statement": n}, toks, end=toks[-1])
        if k < 0.96:
            nm = self.name(fresh=False)
            toks = flat("disable", nm)
            n = N("Disable", {"dest": nm}, toks)
            toks = flat(toks, ";")
            self.feat("st:disable")
            return toks, N("SingleStatement", {"statement": n}, toks, end=toks[-1])
        if self.p(self.cfg.get("null_p", 0.4)):
            toks = flat(";")
            self.feat("st:null")
            return toks, N("EventStatement", {"senslist": N("SensList", {"list": []}, None)}, toks, end=toks[-1])
        toks, n = self.delay()
        toks = flat(toks, ";")
        self.feat("st:delay")
        return toks, N("SingleStatement", {"statement": n}, toks, end=toks[-1])

    def assign_stmt(self, nb, for_=None):
        lt, ln = self.lvalue()
        rt, rn = self.rvalue()
        dt, dn = self.optdelay() if not for_ else ([], None)
        et, en = self.optdelay() if not for_ else ([], None)
        toks = flat(dt, lt, "<=" if nb else "=", et, rt)
        if for_ != "post":
            toks = flat(toks, ";")
        n = N("NonblockingSubstitution" if nb else "BlockingSubstitution",
              {"left": ln, "right": rn, "ldelay": dn, "rdelay": en}, toks, mode="range",
              end=None if for_ == "post" else toks[-1])
        self.feat("st:" + ("nonblocking" if nb else "blocking"))
        return toks, n

    def if_(self, d, delayed=True):
        ct, cn = self.expr(self.d())
        dt, dn = self.optdelay(0.05) if d > 0 and delayed else ([], None)
        tt, tn = self.stmt(d - 1)
        els = self.p(0.55)
        if els and self.dangling(tn):
            tt, tn = self.wrap(tt, tn)
        toks = flat("if", "(", ct, ")", tt)
        fn = None
        if els:
            ft, fn = self.stmt(d - 1)
            toks = flat(toks, "else", ft)
            self.feat("st:if-else")
        else:
            self.feat("st:if")
        n = N("IfStatement", {"cond": cn, "true_statement": tn, "false_statement": fn}, toks, end=toks[-1])
        if dn is not None:
            # a delay in front of an if statement: wait, then the statement
            self.feat("st:delayed-if")
            toks = flat(dt, toks)
            w = N("SingleStatement", {"statement": dn}, dt)
            n = N("Block", {"statements": [w, n], "scope": None}, toks, end=toks[-1])
            n.f["delayed_if"] = True
        return toks, n

    def dangling(self, n):
        """would a following 'else' attach inside n?"""
        if n is None:
            return False
        if n.cls == "Block" and n.f.get("delayed_if"):
            return self.dangling(n.f["statements"][-1])
        if n.cls == "IfStatement":
            return n.f["false_statement"] is None or self.dangling(n.f["false_statement"])
        if n.cls in ("ForStatement", "WhileStatement", "ForeverStatement", "Always", "AlwaysFF", "AlwaysComb", "AlwaysLatch",
                     "Initial"):
            return self.dangling(n.f["statement"])
        if n.cls == "WaitStatement":
            return self.dangling(n.f["statement"])
        return False

    def wrap(self, toks, n):
        toks = flat("begin", toks, "end")
        return toks, N("Block", {"statements": [n], "scope": None}, toks, end=toks[-1])

    def case(self, d):
        kw = self.r.choice(["case", "case", "casex", "casez", "unique case"])
        ct, cn = self.expr(self.d())
        toks = flat(kw.split(), "(", ct, ")")
        items = []
        ni = self.r.randrange(1, 5)
        dflt = self.r.randrange(ni) if self.p(0.6) else -1
        for i in range(ni):
            if i == dflt:
                st, sn = self.stmt(d - 1)
                it = flat("default", ":", st)
                items.append(N("Case", {"cond": None, "statement": sn}, it))
            else:
                et, en = self.exprlist(self.r.choice([0, 0, 1]), 1, 3)
                st, sn = self.stmt(d - 1)
                it = flat(et, ":", st)
                items.append(N("Case", {"cond": en, "statement": sn}, it))
            toks = flat(toks, it)
        toks = flat(toks, "endcase")
        self.feat("st:" + kw)
        cls = {"case": "CaseStatement", "casex": "CasexStatement", "casez": "CasezStatement",
               "unique case": "UniqueCaseStatement"}[kw]
        return toks, N(cls, {"comp": cn, "caselist": items}, toks, end=toks[-1])

    def for_(self, d):
        a, an = self.assign_stmt(False, "pre") if self.p(0.95) else (flat(";"), None)
        c, cn = self.expr(self.d()) if self.p(0.95) else ([], None)
        b, bn = self.assign_stmt(False, "post") if self.p(0.95) else ([], None)
        st, sn = self.stmt(d - 1)
        toks = flat("for", "(", a, c, ";", b, ")", st)
        self.feat("st:for")
        return toks, N("ForStatement", {"pre": an, "cond": cn, "post": bn, "statement": sn}, toks)

    def while_(self, d):
        c, cn = self.expr(self.d())
        st, sn = self.stmt(d - 1)
        toks = flat("while", "(", c, ")", st)
        self.feat("st:while")
        return toks, N("WhileStatement", {"cond": cn, "statement": sn}, toks)

    def block(self, d):
        named = self.p(0.3)
        nm = self.name() if named else None
        toks = flat("begin") + (flat(":", nm) if named else [])
        sts = []
        for _ in range(self.r.choice([0, 1, 2, 2, 3, 4])):
            if named and self.p(0.2):
                st, sn = self.blockdecl()
            else:
                st, sn = self.stmt(d - 1)
            toks = flat(toks, st)
            sts.append(sn)
        toks = flat(toks, "end")
        self.feat("st:named-block" if named else "st:block")
        return toks, N("Block", {"statements": sts, "scope": nm}, toks, end=toks[-1])

    def blockdecl(self):
        k = self.r.random()
        if k < 0.5:
            return self.decl(kinds=["reg"])
        if k < 0.8:
            return self.integer()
        return self.param_item()

    def par(self, d):
        toks = flat("fork")
        sts = []
        for _ in range(self.r.randrange(0, 4)):
            st, sn = self.stmt(d - 1)
            toks = flat(toks, st)
            sts.append(sn)
        toks = flat(toks, "join")
        self.feat("st:fork")
        return toks, N("ParallelBlock", {"statements": sts, "scope": None}, toks)

    def wait(self, d):
        c, cn = self.expr(self.d())
        self.feat("st:wait")
        if self.p(0.4):
            toks = flat("wait", "(", c, ")", ";")
            return toks, N("WaitStatement", {"cond": cn, "statement": None}, toks)
        st, sn = self.stmt(d - 1)
        toks = flat("wait", "(", c, ")", st)
        if sn.cls == "EventStatement" and not sn.f["senslist"].f["list"]:
            sn = None
        return toks, N("WaitStatement", {"cond": cn, "statement": sn}, toks)

    def forever(self, d):
        st, sn = self.stmt(d - 1)
        toks = flat("forever", st)
        self.feat("st:forever")
        return toks, N("ForeverStatement", {"statement": sn}, toks)

    def event(self):
        st, sn = self.sens()
        toks = flat(st, ";")
        self.feat("st:event")
        return toks, N("EventStatement", {"senslist": sn}, toks)

    def sens(self):
        k = self.r.random()
        if k < 0.2:
            star = self.r.choice([["@", "*"], ["@", "(", "*", ")"]])
            toks = flat(star)
            self.feat("sens:*")
            return toks, N("SensList", {"list": [N("Sens", {"sig": None, "type": "all"}, None)]}, toks)
        if k < 0.3:
            it, inn = self.ident(hier=0.0)
            toks = flat("@", it)
            self.feat("sens:level")
            return toks, N("SensList", {"list": [N("Sens", {"sig": inn, "type": "level"}, it)]}, toks)
        edge = k < 0.75
        toks = flat("@", "(")
        ls = []
        for i in range(self.r.choice([1, 1, 2, 2, 3])):
            if i:
                toks = flat(toks, self.r.choice(["or", ","]))
            if edge:
                e = self.r.choice(["posedge", "negedge"])
                it, inn = self.ident(hier=0.03) if self.p(0.85) else self.index()
                st = flat(e, it)
                ls.append(N("Sens", {"sig": inn, "type": e}, st))
                self.feat("sens:" + e)
            else:
                kk = self.r.random()
                st, inn = self.ident(hier=0.03) if kk < 0.7 else (self.index() if kk < 0.85 else self.rangesel())
                ls.append(N("Sens", {"sig": inn, "type": "level"}, st))
                self.feat("sens:level")
            toks = flat(toks, st)
        toks = flat(toks, ")")
        return toks, N("SensList", {"list": ls}, toks)

    def index(self):
        t, n = self.ident(hier=0)
        e, en = self.expr(0)
        toks = flat(t, "[", e, "]")
        return toks, N("Pointer", {"var": n, "ptr": en}, toks)

    def rangesel(self):
        t, n = self.ident(hier=0)
        a, an = self.expr(0)
        b, bn = self.expr(0)
        toks = flat(t, "[", a, ":", b, "]")
        return toks, N("Partselect", {"var": n, "msb": an, "lsb": bn}, toks)

    # ---------------------------------------------------------------- items
    SIGT = {"input": "Input", "output": "Output", "inout": "Inout", "wire": "Wire", "reg": "Reg", "tri": "Tri"}

    def decl(self, kinds=None):
        """signal declaration; returns Decl with one node per (name, type)."""
        r = self.r
        ks = kinds or r.choice([["wire"], ["wire"], ["reg"], ["reg"], ["input"], ["output"], ["inout"], ["output", "reg"],
                                ["input", "wire"], ["output", "wire"], ["tri"], ["supply0"], ["supply1"]])
        if ks[0].startswith("supply"):
            toks = flat(ks[0])
            wt, wn = self.optwidth(0.3)
            toks = flat(toks, wt)
            ns = []
            names = [self.name() for _ in range(r.choice([1, 2]))]
            for i, nm in enumerate(names):
                toks = flat(toks, "," if i else None, nm)
                ns.append(N("Supply", {"name": nm, "signed": False, "width": wn,
                                       "value": N("IntConst", {"value": ks[0][-1]}, None)}, toks, mode="range"))
            toks = flat(toks, ";")
            self.feat("it:supply")
            return toks, N("Decl", {"list": ns}, toks)
        signed = self.p(0.25)
        toks = flat(ks) + (flat("signed") if signed else [])
        wt, wn = self.optwidth()
        toks = flat(toks, wt)
        ns = []
        for i in range(r.choice([1, 1, 2, 3])):
            nm = self.name()
            dt, dn = self.dims(0.2 if ks in (["reg"], ["wire"]) else 0.05)
            toks = flat(toks, "," if i else None, nm, dt)
            for k in ["input", "output", "inout", "wire", "reg", "tri"]:
                if k in ks:
                    ns.append(N(self.SIGT[k], {"name": nm, "signed": signed, "width": wn, "dimensions": dn, "value": None},
                                toks, mode="range"))
        toks = flat(toks, ";")
        for n in ns:
            n.last = toks[-1]
        self.feat("it:" + "+".join(ks) + ("+signed" if signed else ""))
        return toks, N("Decl", {"list": ns}, toks)

    def declassign(self):
        """wire [w] x = e;  reg signed x = e;"""
        k = self.r.choice(["wire", "wire", "reg"])
        signed = self.p(0.25)
        toks = flat(k) + (flat("signed") if signed else [])
        wt, wn = self.optwidth()
        nm = self.name()
        dt, dn = [], None
        et, en = [], None
        if self.p(self.cfg.get("declassign_delay", 0.15)) and k == "wire":
            dt, dn = self.delay()
            self.feat("it:declassign-delay")
        rt, rn = self.rvalue()
        idt = T(nm)
        at = flat(dt, idt, "=", et, rt)
        toks = flat(toks, wt, at, ";")
        idn = N("Identifier", {"name": nm, "scope": None}, toks, mode="range")
        lv = N("Lvalue", {"var": idn}, toks, mode="range")
        a = N("Assign", {"left": lv, "right": rn, "ldelay": dn, "rdelay": en}, toks, mode="range")
        v = N(self.SIGT[k], {"name": nm, "signed": signed, "width": wn, "dimensions": None, "value": None}, toks, mode="range")
        self.feat("it:declassign")
        return toks, N("Decl", {"list": [v, a]}, toks)

    def w31(self):
        return N("Width", {"msb": N("IntConst", {"value": "31"}, None), "lsb": N("IntConst", {"value": "0"}, None)}, None)

    def integer(self):
        toks = flat("integer") + (flat("signed") if self.p(0.1) else [])
        ns = []
        for i in range(self.r.choice([1, 2, 3])):
            nm = self.name()
            vt, vn = [], None
            if self.p(0.3):
                vt, vn = self.rvalue()
                vt = flat("=", vt)
            toks = flat(toks, "," if i else None, nm, vt)
            ns.append(N("Integer", {"name": nm, "signed": True, "width": self.w31(), "value": vn}, toks, mode="range"))
        toks = flat(toks, ";")
        for n in ns:
            n.last = toks[-1]
        self.feat("it:integer")
        return toks, N("Decl", {"list": ns}, toks)

    def real(self):
        toks = flat("real")
        ns = []
        for i in range(self.r.choice([1, 2])):
            nm = self.name()
            toks = flat(toks, "," if i else None, nm)
            ns.append(N("Real", {"name": nm}, toks, mode="range"))
        toks = flat(toks, ";")
        self.feat("it:real")
        return toks, N("Decl", {"list": ns}, toks)

    def genvar(self):
        toks = flat("genvar")
        ns = []
        for i in range(self.r.choice([1, 2])):
            nm = self.name()
            toks = flat(toks, "," if i else None, nm)
            ns.append(N("Genvar", {"name": nm, "width": self.w31()}, toks, mode="range"))
        toks = flat(toks, ";")
        self.feat("it:genvar")
        return toks, N("Decl", {"list": ns}, toks)

    def paramdecl(self, kw, end):
        """parameter/localparam [signed] [range] / integer  a = e, b = e"""
        r = self.r
        toks = flat(kw)
        signed, wn = False, None
        k = r.random()
        if k < 0.1:
            toks = flat(toks, "integer")
            signed, wn = True, self.w31()
        else:
            if k < 0.3:
                signed = True
                toks = flat(toks, "signed")
            wt, wn = self.optwidth(0.35)
            toks = flat(toks, wt)
        ns = []
        for i in range(r.choice([1, 1, 1, 2, 3])):
            nm = self.name()
            vt, vn = self.rvalue()
            toks = flat(toks, "," if i else None, nm, "=", vt)
            ns.append(N("Parameter" if kw == "parameter" else "Localparam",
                        {"name": nm, "signed": signed, "width": wn, "value": vn}, toks, mode="range"))
        toks = flat(toks, end)
        for n in ns:
            n.last = toks[-1]
        self.feat("it:" + kw + ("+signed" if signed else "") + ("+range" if wn else ""))
        return toks, N("Decl", {"list": ns}, toks)

    def param_item(self):
        return self.paramdecl(self.r.choice(["parameter", "localparam"]), ";")

    def assign(self):
        lt, ln = self.lvalue()
        rt, rn = self.rvalue()
        dt, dn = self.optdelay()
        et, en = [], None
        toks = flat("assign", dt, lt, "=", et, rt, ";")
        self.feat("it:assign" + ("+delay" if dn else ""))
        return toks, N("Assign", {"left": ln, "right": rn, "ldelay": dn, "rdelay": en}, toks, end=toks[-1])

    def always(self):
        kw = self.r.choice(["always"] * 6 + ["always_ff", "always_comb", "always_latch"])
        if kw in ("always_comb", "always_latch") or (kw == "always" and self.p(0.06)):
            st = []
            sn = N("SensList", {"list": []}, None)
            self.feat("sens:none")
        else:
            st, sn = self.sens()
        bt, bn = self.stmt(self.r.choice(self.cfg.get("stmt_depths", [1, 2, 2, 3])))
        if not st and bn.cls == "EventStatement":
            bt, bn = self.wrap(bt, bn)
        toks = flat(kw, st, bt)
        cls = {"always": "Always", "always_ff": "AlwaysFF", "always_comb": "AlwaysComb", "always_latch": "AlwaysLatch"}[kw]
        self.feat("it:" + kw)
        return toks, N(cls, {"sens_list": sn, "statement": bn}, toks, end=toks[-1])

    def initial(self):
        bt, bn = self.stmt(self.r.choice(self.cfg.get("stmt_depths", [1, 2, 2, 3])))
        toks = flat("initial", bt)
        self.feat("it:initial")
        return toks, N("Initial", {"statement": bn}, toks)

    def instance(self):
        r = self.r
        mod = self.name(fresh=False) if self.p(0.85) else r.choice(["and", "nand", "xor", "or", "not", "buf"])
        gate = mod in ("and", "nand", "xor", "or", "not", "buf")
        toks = flat(mod)
        pl = []
        if not gate and self.p(0.5):
            pt, pl = self.paramargs()
            toks = flat(toks, "#", "(", pt, ")")
        noname = gate and self.p(0.5)
        insts = []
        for i in range(r.choice([1, 1, 1, 2, 3])):
            it = []
            arr = None
            nm = ""
            if not noname:
                nm = self.name()
                it = flat(nm)
                if self.p(0.15):
                    at, arr = self.width()
                    it = flat(it, at)
                    self.feat("it:instance-array")
            pt, pn = self.portargs(named=self.p(0.6) and not gate, blank=not gate)
            it = flat(it, "(", pt, ")")
            toks = flat(toks, "," if i else None, it)
            insts.append((nm, pn, arr))
        toks = flat(toks, ";")
        ns = [N("Instance", {"module": mod, "name": nm, "portlist": pn, "parameterlist": pl, "array": arr}, toks)
              for nm, pn, arr in insts]
        self.feat("it:gate" if gate else "it:instance")
        return toks, N("InstanceList", {"module": mod, "parameterlist": pl, "instances": ns}, toks, end=toks[-1])

    def paramargs(self):
        r = self.r
        named = self.p(0.6)
        toks, ns = [], []
        for i in range(r.randrange(0 if named else 1, 4)):
            et, en = self.expr(self.r.choice([0, 1]))
            if named:
                nm = self.name(fresh=False)
                it = flat(".", nm, "(", et, ")")
            else:
                nm, it = None, et
            toks = flat(toks, "," if i else None, it)
            ns.append(N("ParamArg", {"paramname": nm, "argname": en}, it))
        self.feat("it:inst-param-" + ("named" if named else "ordered"))
        return toks, ns

    def portargs(self, named, blank=False):
        r = self.r
        toks, ns = [], []
        n = r.randrange(0 if named else 1, 5)
        blank = blank and n > 1 and self.p(0.2)
        for i in range(n):
            if blank and not named and self.p(0.4):
                nm, it, en = None, [], None
                self.feat("it:blank-port")
            elif named:
                nm = self.name(fresh=False)
                if self.p(0.12):
                    it, en = flat(".", nm, "(", ")"), None
                else:
                    et, en = self.expr(self.r.choice([0, 0, 1, 2]))
                    it = flat(".", nm, "(", et, ")")
            else:
                nm = None
                it, en = self.expr(self.r.choice([0, 0, 1, 2]))
            toks = flat(toks, "," if i else None, it)
            ns.append(N("PortArg", {"portname": nm, "argname": en}, it))
        return toks, ns

    def function(self):
        toks = flat("function")
        k = self.r.random()
        z = lambda m: N("Width", {"msb": N("IntConst", {"value": m}, None), "lsb": N("IntConst", {"value": "0"}, None)}, None)
        if k < 0.6:
            wt, wn = self.width()
            toks = flat(toks, wt)
        elif k < 0.8:
            wn = z("0")
        else:
            toks = flat(toks, "integer")
            wn = z("31")
        nm = self.name()
        toks = flat(toks, nm, ";")
        sts = []
        for i in range(self.r.choice([1, 1, 2, 3])):
            t, n = self.decl(kinds=["input"]) if i == 0 or self.p(0.5) else (self.decl(kinds=["reg"]) if self.p(0.5) else self.integer())
            toks = flat(toks, t)
            sts.append(n)
        t, n = self.funcbody()
        toks = flat(toks, t, "endfunction")
        sts.append(n)
        self.feat("it:function")
        return toks, N("Function", {"name": nm, "retwidth": wn, "statement": sts}, toks, end=toks[-1])

    def funcbody(self):
        d = self.r.choice(self.cfg.get("stmt_depths", [1, 2, 2, 3]))
        k = self.r.random()
        if k < 0.3:
            return self.assign_stmt(False, "pre")
        if k < 0.5:
            return self.if_(d)
        if k < 0.65:
            return self.case_nounique(d)
        if k < 0.75:
            return self.for_(d)
        return self.block(d)

    def case_nounique(self, d):
        while True:
            t, n = self.case(d)
            if n.cls != "UniqueCaseStatement":
                return t, n

    def task(self):
        nm = self.name()
        toks = flat("task", nm, ";")
        sts = []
        for i in range(self.r.choice([0, 1, 1, 2])):
            t, n = self.decl(kinds=["input"]) if self.p(0.6) else (self.decl(kinds=["reg"]) if self.p(0.5) else self.integer())
            toks = flat(toks, t)
            sts.append(n)
        t, n = self.funcbody()
        toks = flat(toks, t, "endtask")
        sts.append(n)
        self.feat("it:task")
        return toks, N("Task", {"name": nm, "statement": sts}, toks)

    def generate(self, d=2):
        toks = flat("generate")
        items = []
        for _ in range(self.r.choice([0, 1, 1, 2])):
            t, n = self.genitem(d)
            toks = flat(toks, t)
            items.append(n)
        toks = flat(toks, "endgenerate")
        self.feat("it:generate")
        return toks, N("GenerateStatement", {"items": items}, toks, end=toks[-1])

    def genitem(self, d):
        k = self.r.random()
        if d <= 0 or k < 0.4:
            return self.item(gen=False)
        if k < 0.7:
            c, cn = self.expr(self.d())
            tt, tn = self.genbody(d - 1)
            els = self.p(0.5)
            if els and (tn.cls == "IfStatement" or self.dangling(tn)) and tn.cls != "ForStatement":
                tt = flat("begin", tt, "end")
                tn = N("Block", {"statements": [tn], "scope": None}, tt, end=tt[-1])
            if els and tn.cls == "ForStatement" and self.dangling(tn):
                tt = flat("begin", tt, "end")
                tn = N("Block", {"statements": [tn], "scope": None}, tt, end=tt[-1])
            toks = flat("if", "(", c, ")", tt)
            fn = None
            if els:
                ft, fn = self.genbody(d - 1)
                toks = flat(toks, "else", ft)
            self.feat("it:generate-if")
            return toks, N("IfStatement", {"cond": cn, "true_statement": tn, "false_statement": fn}, toks)
        a, an = self.assign_stmt(False, "pre")
        c, cn = self.expr(self.d())
        b, bn = self.assign_stmt(False, "post")
        st, sn = self.genbody(d - 1)
        toks = flat("for", "(", a, c, ";", b, ")", st)
        self.feat("it:generate-for")
        return toks, N("ForStatement", {"pre": an, "cond": cn, "post": bn, "statement": sn}, toks)

    def genbody(self, d):
        if self.p(0.25):
            return self.genitem(d)
        nm = self.name() if self.p(0.7) else None
        toks = flat("begin") + (flat(":", nm) if nm else [])
        sts = []
        for _ in range(self.r.choice([0, 1, 2, 2, 3])):
            t, n = self.genitem(d)
            toks = flat(toks, t)
            sts.append(n)
        toks = flat(toks, "end")
        return toks, N("Block", {"statements": sts, "scope": nm}, toks, end=toks[-1])

    def pragma(self):
        nm = self.name()
        self.feat("it:pragma")
        if self.p(0.5):
            toks = flat("(*", nm, "*)")
            return toks, N("Pragma", {"entry": N("PragmaEntry", {"name": nm, "value": None}, toks)}, toks)
        et, en = self.const()
        toks = flat("(*", nm, "=", et, "*)")
        return toks, N("Pragma", {"entry": N("PragmaEntry", {"name": nm, "value": en}, toks)}, toks)

    WEIGHTS = {"decl": 20, "declassign": 5, "integer": 4, "real": 2, "genvar": 2, "param_item": 8, "assign": 15, "always": 15,
               "initial": 5, "instance": 12, "function": 4, "task": 3, "generate": 6, "pragma": 2}

    def item(self, gen=True):
        w = dict(self.WEIGHTS)
        w.update(self.cfg.get("weights", {}))
        if not gen:
            w.pop("generate")
        ks = sorted(w)
        k = self.r.choices(ks, [w[x] for x in ks])[0]
        return getattr(self, k)()

    # ---------------------------------------------------------------- modules
    def ioports(self):
        """ANSI port list."""
        r = self.r
        toks, ns = [], []
        prev = None
        for i in range(r.randrange(1, 6)):
            nm = self.name()
            if prev and self.p(0.25):
                # bare name: same direction, kind, range and signedness as its predecessor
                first, second, wn, signed = prev
                dn = None
                it = flat(nm)
                self.feat("port:continued")
            else:
                kinds = r.choice([["input"], ["input"], ["output"], ["output"], ["inout"], ["output", "reg"], ["input", "wire"],
                                  ["output", "wire"], ["inout", "wire"]])
                signed = self.p(0.2)
                wt, wn = self.optwidth()
                dt, dn = self.dims(0.12) if wt else ([], None)
                it = flat(kinds, "signed" if signed else None, wt, nm, dt)
                first = self.SIGT[kinds[0]]
                second = self.SIGT[kinds[1]] if len(kinds) > 1 else None
                self.feat("port:" + "+".join(kinds) + ("+signed" if signed else ""))
            f = {"name": nm, "signed": signed, "width": wn, "dimensions": dn, "value": None}
            fn = N(first, dict(f), it, mode="range")
            sn = N(second, dict(f), it, mode="range") if second else None
            toks = flat(toks, "," if i else None, it)
            ns.append(N("Ioport", {"first": fn, "second": sn}, it, mode="range"))
            prev = (first, second, wn, signed)
        return toks, ns

    def module(self, nitems=None):
        r = self.r
        self.names = []
        nm = self.name()
        toks = flat("module", nm)
        params = []
        if self.p(0.4):
            pt = []
            np_ = r.choice([1, 1, 2, 3])
            for i in range(np_):
                t, n = self.paramdecl("parameter", [])
                pt = flat(pt, "," if i else None, t)
                params.append(n)
            pt = flat("#", "(", pt, ")")
            toks = flat(toks, pt)
            pl = N("Paramlist", {"params": params}, pt)
            self.feat("mod:params")
        else:
            pl = N("Paramlist", {"params": []}, None)
        k = r.random()
        if k < 0.5:
            t, ns = self.ioports()
            pt = flat("(", t, ")", ";")
            self.feat("mod:ansi")
        elif k < 0.85:
            names = [self.name() for _ in range(r.randrange(1, 5))]
            pt = []
            ns = []
            for i, x in enumerate(names):
                tk = T(x)
                pt = flat(pt, "," if i else None, tk)
                ns.append(N("Port", {"name": x, "width": None, "dimensions": None, "type": None}, pt, mode="range"))
            pt = flat("(", pt, ")", ";")
            self.feat("mod:names")
        elif k < 0.93:
            pt, ns = flat("(", ")", ";"), []
            self.feat("mod:empty-ports")
        else:
            pt, ns = flat(";"), []
            self.feat("mod:no-ports")
        toks = flat(toks, pt)
        pn = N("Portlist", {"ports": ns}, pt)
        items = []
        for _ in range(r.randrange(0, 7) if nitems is None else nitems):
            t, n = self.item()
            toks = flat(toks, t)
            items.append(n)
        toks = flat(toks, "endmodule")
        return toks, N("ModuleDef", {"name": nm, "paramlist": pl, "portlist": pn, "items": items}, toks, end=toks[-1])

    def source(self, nmod=None, nitems=None):
        toks, ds = [], []
        for _ in range(self.r.choice([1, 1, 2, 3]) if nmod is None else nmod):
            if self.p(0.05) and not self.cfg.get("nopragma"):
                t, n = self.pragma()
            else:
                t, n = self.module(nitems)
            toks = flat(toks, t)
            ds.append(n)
        if not any(d.cls == "ModuleDef" for d in ds):
            t, n = self.module(nitems)
            toks = flat(toks, t)
            ds.append(n)
        d = N("Description", {"definitions": ds}, toks)
        return toks, N("Source", {"description": d}, toks)


# -------------------------------------------------------------------- layout
def needs_space(a, b):
    """must something separate token texts a and b?"""
    if a.startswith("\\"):
        return True
    x, y = a[-1], b[0]
    word = lambda c: c.isalnum() or c in "_$'\\\"."
    if x in "()[]{},;" or y in ")]},;":
        return False
    if y in "([{" and not (x == "#"):
        return False
    if (word(x) or x == "\\") and (word(y) or y == "\\"):
        return True
    if a[0].isalpha() or a[0] == "_":
        # an identifier or keyword ends at the first operator character
        return not (a[-1].isalnum() or a[-1] == "_") or y in ".'`$\\\""
    return True


def layout(toks, rng, style="mixed", directives=False, comments=True):
    """returns text; sets tok.line; returns also the list of directives (line, text)."""
    out = []
    line = 1
    col = 0
    direc = []
    if style == "mixed":
        style = rng.choice(["plain", "newline", "wild", "dense", "wild"])

    def nl(n=1):
        nonlocal line
        out.append("\n" * n)
        line += n

    def filler(strong):
        nonlocal line
        """white space, possibly comments / newlines; strong = must separate"""
        k = rng.random()
        if style == "plain":
            out.append(" ")
            if k < 0.12:
                nl()
            return
        if style == "newline":
            nl(rng.choice([1, 1, 1, 2, 3]))
            if k < 0.3:
                out.append(" " * rng.randrange(1, 5))
            return
        if style == "dense":
            if strong:
                out.append(" ")
            if k < 0.03:
                nl()
            return
        if k < 0.45:
            out.append(rng.choice([" ", "  ", "\t", " \t "]))
        elif k < 0.7:
            nl(rng.choice([1, 1, 2]))
        elif k < 0.8 and comments:
            out.append(" // " + rng.choice(["x", "module foo;", "`define A", "\"unterminated", "/* no", "end */", "*", "", "a \f b \v c", "\u2028 \x85"]))
            nl()
        elif k < 0.9 and comments:
            c = rng.choice(["/* a */", "/**/", "/* a\n b\n */", "/* // */", "/* * ** / */", "/*\n\n*/", "/* `x */", "/* \" */", "/* \f \v */", "/* \x85 \u2028\n \x1c */", "/* \t\n\f\n\n */"])
            out.append(" ")
            out.append(c)
            line += c.count("\n")
            out.append(" ")
        elif k < 0.93 and directives:
            d = rng.choice(["`timescale 1ns / 1ps\n", "`celldefine\n", "`endcelldefine\n", "`resetall // c\n", "`default_nettype none\n",
                            "`default_nettype wire\n"])
            nl()
            direc.append((line, d))
            out.append(d)
            line += 1
        elif strong:
            out.append(" ")

    if style == "wild":
        filler(False)
    prev = None
    for t in toks:
        if prev is not None:
            strong = needs_space(prev.text, t.text)
            if prev.text.startswith("\\"):
                out.append(rng.choice([" ", "\t", "\n"]))
                if out[-1] == "\n":
                    line += 1
                if style != "dense":
                    filler(False)
            elif strong or style != "dense":
                n0 = len(out)
                filler(strong)
                if strong and len(out) == n0:
                    out.append(" ")
        t.line = line
        out.append(t.text)
        prev = t
    out.append("\n")
    return "".join(out), direc


# -------------------------------------------------------------------- comparison
def is_seq(x):
    return isinstance(x, (list, tuple))


def canon_indexed(n):
    """acceptable readings of an indexed part select as [msb:lsb]"""
    b, w, var = n.f["base"], n.f["width"], n.f["var"]
    one = N("IntConst", {"value": "1"}, None)
    if n.f["dir"] == "+":
        return ("lsb", b)
    return ("msb", b)


class Mismatch(Exception):
    pass


class Compare(object):
    """compares an expected tree with the parser's; counts observed nodes; collects line deviations"""
    def __init__(self, lines=False):
        self.nodes = 0
        self.lines = lines
        self.line_checks = 0
        self.line_errors = []
        self.end_checks = 0
        self.indexed = []

    def cmp(self, e, a, path=""):
        if e is None or isinstance(e, (str, bool, int)):
            if type(e) != type(a) and not (isinstance(e, str) and isinstance(a, str)):
                raise Mismatch("%s: expected %r, got %s" % (path, e, describe(a)))
            if e != a:
                raise Mismatch("%s: expected %r, got %s" % (path, e, describe(a)))
            return
        if is_seq(e):
            if not is_seq(a):
                raise Mismatch("%s: expected a list of %d, got %s" % (path, len(e), describe(a)))
            if len(e) != len(a):
                raise Mismatch("%s: expected %d elements %s, got %d: %s" % (
                    path, len(e), [getattr(x, "cls", x) for x in e], len(a), describe(a)))
            for i, (x, y) in enumerate(zip(e, a)):
                self.cmp(x, y, "%s[%d]" % (path, i))
            return
        if e.cls == "IndexedSelect":
            if type(a).__name__ != "Partselect":
                raise Mismatch("%s: expected an indexed part select, got %s" % (path, describe(a)))
            self.nodes += 1
            self.cmp(e.f["var"], a.var, path + ".var")
            side, b = canon_indexed(e)
            self.cmp(b, getattr(a, side), path + "." + side)
            self.indexed.append((path, e, a))
            self.line(e, a, path)
            return
        if type(a).__name__ != e.cls:
            raise Mismatch("%s: expected %s, got %s" % (path, e.cls, describe(a)))
        self.nodes += 1
        for k, v in e.f.items():
            if k == "delayed_if":
                continue
            if not hasattr(a, k):
                raise Mismatch("%s: %s has no %s" % (path, e.cls, k))
            av = getattr(a, k)
            if k in ("signed",):
                av = bool(av)
            self.cmp(v, av, path + "." + k)
        self.line(e, a, path)

    def line(self, e, a, path):
        if not self.lines:
            return
        if e.mode == "first":
            self.line_checks += 1
            # redundant parentheses before the first operand may or may not count as its start
            if not isinstance(a.lineno, int) or not e.first.line <= a.lineno <= e.inner.line:
                self.line_errors.append((e.cls, "%s (%s): line %s reported, construct starts at line %d" % (
                    path, e.cls, a.lineno, e.first.line)))
        elif e.mode == "range":
            self.line_checks += 1
            if not isinstance(a.lineno, int) or not (e.first.line <= a.lineno <= e.last.line):
                self.line_errors.append((e.cls, "%s (%s): line %s reported, construct spans lines %d-%d" % (
                    path, e.cls, a.lineno, e.first.line, e.last.line)))
        if e.end is not None and hasattr(a, "end_lineno"):
            self.end_checks += 1
            if a.end_lineno != e.end.line:
                self.line_errors.append((e.cls + ":end", "%s (%s): end line %s reported, construct ends at line %d" % (
                    path, e.cls, a.end_lineno, e.end.line)))


def describe(a, depth=3):
    if a is None or isinstance(a, (str, int, bool, float)):
        return repr(a)
    if is_seq(a):
        if depth <= 0:
            return "[..]"
        return "[" + ", ".join(describe(x, depth - 1) for x in a) + "]"
    d = getattr(a, "__dict__", {})
    if depth <= 0:
        return type(a).__name__ + "(..)"
    return "%s(%s)" % (type(a).__name__, ", ".join("%s=%s" % (k, describe(v, depth - 1)) for k, v in d.items()
                                                   if k not in ("lineno", "end_lineno") and not k.startswith("_")))
