"""Generator of synthesizable hierarchical designs together with their elaboration.

Designs are width-uniform: operands of an operator, branches of a conditional, both sides of an assignment and a port
with its connection have one width (constants in modular positions may be unsized).  Every signal is driven, indices stay
in range, divisors are odd, so that simulation has no unknown values once registers are loaded.
"""


class W(object):
    """A width: number of bits as a function of the parameter environment, and the text of its msb for lsb 0."""
    __slots__ = ("key", "fn", "msb")

    def __init__(self, key, fn, msb):
        self.key, self.fn, self.msb = key, fn, msb

    @property
    def n(self):
        return self.key if isinstance(self.key, int) else None


def wc(n):
    return W(n, (lambda env, n=n: n), str(n - 1))


CLK = ("clk", "CLK", "clock", "sys_clk", "clk_i", "coreClock")
RST = ("rst", "rst_n", "RST", "reset", "i_rst_n", "resetn", "RESET")


class Sig(object):
    def __init__(self, name, w, lsb=0, asc=False, kinds=("Wire",), dims=None, scope=(), range_text=None, param=None, ref=None):
        self.name, self.w, self.lsb, self.asc, self.dims, self.scope = name, w, lsb, asc, dims, scope
        self.kinds = set(kinds)
        self.range_text = range_text
        self.param = param
        self.ref = ref or name
        self.timing = None    # (clock, edge, reset, edge) of the procedure that assigns a register
        self.clkbit = None    # (index, position from the right) of its clock in a vector
        self.bw = 1           # branches a read of it stands for inside a procedure

    def bounds(self, env):
        n = self.w.fn(env)
        return (self.lsb, self.lsb + n - 1) if self.asc else (self.lsb + n - 1, self.lsb)

    def rng(self):
        """text of the range, '' for a scalar"""
        if self.range_text is not None:
            return self.range_text
        if self.w.key == 1 and self.lsb == 0:
            return ""
        if self.w.n is None:
            return "[%s:0] " % self.w.msb
        a, b = self.lsb + self.w.n - 1, self.lsb
        return "[%d:%d] " % ((b, a) if self.asc else (a, b))

    def idx(self, k):
        """index text of the k-th bit from the right (concrete widths)"""
        return self.lsb + (self.w.n - 1 - k if self.asc else k)


class Inst(object):
    def __init__(self, name, mod, params, scope, array=None):
        self.name, self.mod, self.params, self.scope, self.array = name, mod, params, scope, array


class Mod(object):
    def __init__(self, name):
        self.name = name
        self.params = []      # (name, fn(env), kind 'Parameter'/'Localparam', text of range or '', width)
        self.ports = []       # (dir, Sig)
        self.sigs = []        # all declared signals, ports included
        self.insts = []
        self.scopes = {(): lambda env: [()]}    # generate scope -> list of elaborated paths
        self.text = ""
        self.seq = False      # contains clocked logic (needs clk/rst)
        self.regs = []
        self.temps = []


class Flags(object):
    """What a design may contain; every value a probability or bound."""
    def __init__(self, **kw):
        d = dict(depth=3, cond=0.12, arith=0.35, concat=0.12, repeat=0.04, shift=0.08, div=0.03, unsized=0.1, dynidx=0.05, mem=0.0,
                 func=0.0, params=0.5, hier=3, lsb=0.15, asc=0.0, always=0.5, clocked=0.0, partial=0.2, lconcat=0.15, gen=0.3,
                 prim=0.1, temps=0.3, reassign=0.15, loops=0.1, default=0.3, case=0.3, items=(4, 9), arrays=0.05, netinit=0.1,
                 power=0.02, winit=0.1, hold=0.5, reset=0.7, negedge=0.2, outconcat=0.0, portdecl=0.4, widths=(1, 1, 2, 3, 4, 4, 5, 8),
                 casez=0.0, dynlhs=0.0, memwrite=0.0, override=0.2, ordered=0.4, unconnected=0.15, partover=0.0, whilel=0.0, task=0.0,
                 nestblk=0.15, extclk=0.15, cmp=0.25, cparam=0.5, tern_cond=0.1, ixsel=0.05, veclk=0.0, neggen=0.1)
        for k in kw:
            assert k in d, k
        d.update(kw)
        self.__dict__.update(d)


class DesignGen(object):
    def __init__(self, rng, **flags):
        self.r = rng
        self.f = Flags(**flags)
        self.cnt = 0
        self.mods = []

    def p(self, x):
        return self.r.random() < x

    def name(self, base):
        self.cnt += 1
        return "%s%d" % (base, self.cnt)

    # ---------------------------------------------------------------- design
    def design(self):
        n = self.r.randrange(1, self.f.hier + 1)
        for i in range(n - 1):
            self.mods.append(self.module("sub%d" % i, self.mods, False))
        self.top = self.module("top", self.mods, True)
        self.mods.append(self.top)
        order = list(self.mods)
        if self.p(0.5):
            self.r.shuffle(order)
        self.text = "\n".join(m.text for m in order)
        return self

    def module(self, name, lib, top):
        return ModuleGen(self, name, lib, top).build()

    # ---------------------------------------------------------------- elaboration
    def elaborate(self):
        """-> instances [(path, module)], signals [dict]; path parts joined the simulator's way"""
        self.instances, self.signals = [], []
        env = {}
        self._elab(self.top, "top", env, None)
        return self

    def _elab(self, m, path, over, parent_env):
        env = {}
        self.instances.append((path, m.name))
        for (n, fn, kind, rng, w) in m.params:
            env[n] = over[n] if (n in over and kind == "Parameter") else fn(env)
            if rng:
                env[n] &= (1 << w) - 1
            self.signals.append({"path": path + "." + n, "kinds": {kind}, "msb": (w - 1 if rng else None), "lsb": (0 if rng else None),
                                 "width": w, "dims": None, "const": env[n], "mod": m.name})
        for s in m.sigs:
            for sub, senv in self.paths(m, s.scope, env):
                msb, lsb = s.bounds(senv)
                self.signals.append({"path": path + sub + "." + s.name, "kinds": set(s.kinds), "msb": msb, "lsb": lsb,
                                     "width": s.w.fn(senv), "dims": s.dims, "const": None, "mod": m.name, "sig": s})
        for i in m.insts:
            for sub, senv in self.paths(m, i.scope, env):
                names = [i.name] if i.array is None else ["%s[%d]" % (i.name, k) for k in range(min(i.array), max(i.array) + 1)]
                for nm in names:
                    self._elab(i.mod, path + sub + "." + nm, {k: f(senv) for k, f in i.params.items()}, senv)

    def paths(self, m, scope, env):
        """scope: tuple of ('for', blk, var, count_fn) / ('if', blk, cond_fn)"""
        out = [("", env)]
        for s in scope:
            nxt = []
            for pth, e in out:
                if s[0] == "for":
                    for k in range(s[3](e)):
                        e2 = dict(e)
                        e2[s[2]] = k
                        nxt.append(("%s.%s[%d]" % (pth, s[1], k), e2))
                elif s[2](e):
                    nxt.append((pth + "." + s[1], e))
            out = nxt
        return out


class ModuleGen(object):
    def __init__(self, G, name, lib, top):
        self.G, self.r, self.f = G, G.r, G.f
        self.m = Mod(name)
        self.lib, self.top = lib, top
        self.pool = []          # readable signals
        self.mems = []
        self.decls, self.items, self.latedecls = [], [], []
        self.scope = ()
        self.indent = "  "
        self.funcs = []
        self.pws = []           # parameter width classes
        self.locals = None      # extra readable names (function arguments, temporaries)
        self.ticks = {}
        self.inbranch = False
        self.nest, self.budget, self.unsz = False, 8, False

    p = property(lambda s: s.G.p)
    name = property(lambda s: s.G.name)

    def tick(self, k):
        self.ticks[k] = self.ticks.get(k, 0) + 1
        self.G.ticks = getattr(self.G, "ticks", {})
        self.G.ticks[k] = self.G.ticks.get(k, 0) + 1

    # ---------------------------------------------------------------- expressions
    def width(self):
        if self.pws and self.p(self.f.cparam * 0.5):
            return self.r.choice(self.pws)
        return wc(self.r.choice(self.f.widths))

    def readable(self, w, pool=None):
        pool = self.pool if pool is None else pool
        return [s for s in pool if s.w.key == w.key and s.dims is None]

    def const(self, w, modular=False):
        r = self.r
        if w.n is None:
            if modular and self.unsz and self.p(0.7):
                return str(r.randrange(0, 4))
            return "{%s{1'b%d}}" % (w.msb[:-2] if w.msb.endswith("-1") else "(%s)+1" % w.msb, r.randrange(2))
        v = r.randrange(1 << min(w.n, 30))
        if modular and self.unsz and self.p(0.6):
            return str(min(v, (1 << w.n) - 1))
        b = r.choice("bdhob")
        t = {"b": format(v, "0%db" % w.n), "d": str(v), "h": format(v, "x"), "o": format(v, "o")}[b]
        return "%d'%s%s" % (w.n, b, t)

    def select(self, s, n):
        """an n-bit constant select of concrete signal s (s.w.n >= n)"""
        k = self.r.randrange(s.w.n - n + 1)
        if n == 1:
            return "%s[%d]" % (s.ref, s.idx(k))
        a, b = s.idx(k + n - 1), s.idx(k)
        if self.p(self.f.ixsel) and not s.asc:
            self.tick("indexed-select")
            return "%s[%d +: %d]" % (s.ref, b, n) if self.p(0.5) else "%s[%d -: %d]" % (s.ref, a, n)
        return "%s[%d:%d]" % (s.ref, a, b)

    def leaf(self, w, modular, pool):
        r = self.r
        # a name that stands for a branch multiplies the branches of the expression reading it
        pool = [s for s in pool if s.bw <= self.budget]
        return self.leaf2(w, modular, pool)

    def use(self, s):
        self.budget //= s.bw
        return s

    def leaf2(self, w, modular, pool):
        r = self.r
        c = self.readable(w, pool)
        if c and self.p(0.8):
            return self.use(r.choice(c)).ref
        if w.n is not None:
            big = [s for s in pool if s.w.n is not None and s.w.n > w.n and s.dims is None]
            if w.n == 1 and self.p(self.f.dynidx):
                for s in r.sample(big, len(big)):
                    if s.w.n in (2, 4, 8):
                        ix = [x for x in self.readable(wc({2: 1, 4: 2, 8: 3}[s.w.n]), pool) if x.bw == 1]
                        if ix:
                            self.tick("dynamic-index" if s.lsb == 0 else "dynamic-index-offset")
                            i, z = r.choice(ix).ref, (s.lsb + s.w.n - 1).bit_length()
                            if s.lsb:       # operands of one width
                                i = "{%d'd0, %s} + %d'd%d" % (max(1, z - (s.w.n - 1).bit_length()), i, max(z, (s.w.n - 1).bit_length() + 1), s.lsb)
                            return "%s[%s]" % (self.use(s).ref, i)
            if big and self.p(0.75):
                return self.select(self.use(r.choice(big)), w.n)
            if w.n == 1:
                sym = [s for s in pool if s.w.n is None and s.dims is None]
                if sym and self.p(0.7):
                    s = self.use(r.choice(sym))
                    return "%s[%s]" % (s.ref, r.choice(["0", s.w.msb]))
            small = [s for s in pool if s.w.n is not None and s.w.n < w.n and s.dims is None]
            if small and self.p(0.3):
                s = self.use(r.choice(small))
                return "{%s,%s}" % (self.leaf(wc(w.n - s.w.n), False, pool), s.ref)
        if c and c[0].bw <= self.budget:
            return self.use(c[0]).ref
        return self.const(w, modular)

    def fresh(self, n, fn, *a):
        self.nest, self.budget, self.unsz = True, n, self.p(self.f.unsized * 2)   # unsized constants widen what they meet: no operator that depends on width beside them
        try:
            return fn(*a)
        finally:
            self.nest, self.budget, self.unsz = False, 8, False

    def expr(self, w, d=None, modular=True, pool=None, top=False):
        """expression of self-determined width w.  modular: value used only modulo 2**w"""
        if not self.nest:
            return self.fresh(4, self.expr, w, d, modular, pool, top)
        r, f = self.r, self.f
        pool = self.pool if pool is None else pool
        if d is None:
            d = r.randrange(f.depth + 1)
        if d <= 0:
            return self.leaf(w, modular, pool)
        E = lambda ww, m=False, dd=None: self.expr(ww, (d - 1 if dd is None else dd), m, pool)
        k = r.random()
        if self.p(f.cond) and self.budget > 1:
            self.budget //= 2
            self.tick("conditional")
            return "(%s ? %s : %s)" % (self.cond(d - 1, pool), E(w, modular), E(w, modular))
        if self.funcs and self.p(f.func) and self.budget > 1:
            fs = [x for x in self.funcs if x[1].key == w.key]
            if fs:
                fn = r.choice(fs)
                self.budget //= 2
                self.tick("function-call")
                return "%s(%s)" % (fn[0], ", ".join(E(a) for a in fn[2]))
        if self.mems and self.p(0.3):
            ms = [m for m in self.mems if m.w.key == w.key]
            if ms:
                m = r.choice(ms)
                self.tick("memory-read")
                a = wc({2: 1, 4: 2, 8: 3}[m.dims[1] + 1])
                return "%s[%s]" % (m.ref, self.leaf(a, False, [x for x in pool if x.bw == 1]))
        if w.key == 1 and self.p(0.6):
            return self.cond(d, pool)
        if self.p(f.power) and not self.unsz and w.n is not None and w.n <= 8:
            return "(%s ** %s)" % (E(w, False), self.const(wc(2)))
        if self.p(f.div) and not self.unsz and w.n:
            c = self.const(w) if w.n else None
            return "(%s %s (%s | %s))" % (E(w, False), r.choice("/%"), E(w, False), "%d'd1" % w.n if w.n else "1")
        if self.p(f.shift):
            sh = r.choice([wc(1), wc(2)])
            left = r.choice(["<<", "<<<"] if self.unsz else ["<<", "<<", ">>", "<<<", ">>>"])
            return "(%s %s %s)" % (E(w, modular and left.startswith("<<")), left, E(sh) if self.p(0.6) else str(r.randrange(0, 4)))
        if self.p(f.concat) and w.n is not None and w.n >= 2:
            parts, left = [], w.n
            while left:
                n = r.randrange(1, left + 1)
                if n == w.n and w.n > 1:
                    n = w.n - 1
                parts.append(E(wc(n)))
                left -= n
            self.tick("concat")
            return "{%s}" % ", ".join(parts)
        if self.p(f.repeat) and w.n is not None and w.n >= 2:
            for n in (2, 3, 4):
                if w.n % n == 0:
                    self.tick("repeat")
                    return "{%d{%s}}" % (n, E(wc(w.n // n)))
        if k < f.arith:
            op = r.choice(["+", "-", "+", "-", "*"])
            return "(%s %s %s)" % (E(w, modular), op, E(w, modular))
        if k < 0.9:
            op = r.choice(["&", "|", "^", "~^", "&", "|", "^", "^~"])
            return "(%s %s %s)" % (E(w, modular), op, E(w, modular))
        return "(%s%s)" % (r.choice(["~", "~", "-", "~"]), E(w, modular))

    def cond(self, d, pool=None):
        """a one-bit expression"""
        if not self.nest:
            return self.fresh(2 if self.p(0.1) and not self.inbranch else 1, self.cond, d, pool)
        r = self.r
        pool = self.pool if pool is None else pool
        if d <= 0:
            return self.leaf(wc(1), False, pool)
        ws = list({s.w.key: s.w for s in pool if s.dims is None}.values()) or [wc(1)]
        w = r.choice(sorted(ws, key=lambda x: str(x.key)))
        k = r.random()
        E = lambda ww: self.expr(ww, d - 1, False, pool)
        if k < 0.45:
            op = r.choice(["==", "!=", "<", ">", "<=", ">=", "==", "==", "===", "!=="])
            rhs = self.const(w) if self.p(0.4) else E(w)
            if self.p(0.06) and w.n and w.n < 6:
                return "(%s %s %s)" % (self.leaf(w, False, pool) if w.n else E(w), op, ("%d'd" % w.n if not self.f.unsized else "") + str(r.randrange(1 << w.n)))
            return "(%s %s %s)" % (E(w), op, rhs)
        if k < 0.65:
            return "(%s %s %s)" % (self.cond(d - 1, pool), r.choice(["&&", "||"]), self.cond(d - 1, pool))
        if k < 0.75:
            return "(!%s)" % (self.cond(d - 1, pool) if self.p(0.6) else E(w))
        if k < 0.9:
            return "(%s%s)" % (r.choice(["&", "|", "^", "~&", "~|", "~^"]), E(w))
        return "(%s %s %s)" % (E(wc(1)), r.choice(["&", "|", "^"]), E(wc(1)))

    # ---------------------------------------------------------------- declarations
    def sig(self, base, w, kinds=("Wire",), dims=None, late=True):
        s = Sig(self.name(base), w, kinds=kinds, dims=dims, scope=self.scope)
        if w.n is not None and w.n > 1 and dims is None:
            if self.p(self.f.lsb):
                s.lsb = self.r.choice([1, 2, 4])
            if self.p(self.f.asc):
                s.asc = True
        self.m.sigs.append(s)
        return s

    def declare(self, s):
        kw = "reg" if "Reg" in s.kinds else "wire"
        t = "%s %s%s%s;" % (kw, s.rng(), s.name, "" if s.dims is None else " [%d:%d]" % s.dims)
        (self.decls if not self.scope else self.blockdecls).append(t)

    def add(self, text):
        self.items.append(text)

    # ---------------------------------------------------------------- module
    def build(self):
        r, f, m = self.r, self.f, self.m
        if self.p(f.params) and not self.top or self.p(f.params * 0.4):
            for i in range(r.randrange(1, 3)):
                v = r.choice([2, 3, 4, 8])
                n = self.name("P")
                m.params.append((n, (lambda e, v=v: v), "Parameter", "", 32))
                self.ptext = getattr(self, "ptext", [])
                self.ptext.append("parameter %s = %d" % (n, v))
                self.pws.append(W(n, (lambda e, n=n: e[n]), n + "-1"))
            if self.p(0.4):
                n, b = self.name("P"), m.params[0][0]
                k = r.choice([1, 2])
                m.params.append((n, (lambda e, b=b, k=k: e[b] + k), "Parameter", "", 32))
                self.ptext.append("parameter %s = %s + %d" % (n, b, k))
                self.pws.append(W(n, (lambda e, n=n: e[n]), n + "-1"))
        self.clk = self.rst = None
        want_seq = self.p(f.clocked)
        ports = []
        if want_seq:
            m.seq = True
            self.clk = Sig(r.choice(CLK), wc(1), kinds=("Input",))
            self.rst = Sig(r.choice(RST), wc(1), kinds=("Input",))
            ports += [("input", self.clk), ("input", self.rst)]
        for i in range(r.randrange(2, 5)):
            s = self.sig("i", self.width(), kinds=("Input",))
            ports.append(("input", s))
            self.pool.append(s)
        nout = r.randrange(1, 4)
        outs = []
        for i in range(nout):
            s = self.sig("o", self.width(), kinds=("Output",))
            outs.append(s)
        m.sigs = [s for s in (self.clk, self.rst) if s is not None] + m.sigs
        # localparams
        self.lptext = []
        if self.p(f.params * 0.6):
            n, w = self.name("L"), wc(r.choice([2, 4, 8]))
            v = r.randrange(1 << w.n)
            ranged = self.p(0.5)
            m.params.append((n, (lambda e, v=v: v), "Localparam", "[%d:0] " % (w.n - 1) if ranged else "", w.n if ranged else 32))
            self.lptext.append("localparam %s%s = %s;" % ("[%d:0] " % (w.n - 1) if ranged else "", n, "%d'd%d" % (w.n, v) if ranged else str(v)))
            if ranged:
                self.pool.append(Sig(n, w, param=True))
                self.pool[-1].lsb = 0
                self.pool[-1].dims = None
                self.lpsig = self.pool.pop()
                self.consts = [self.lpsig]
            else:
                self.consts = []
        else:
            self.consts = []
        # registers are declared first: everything may read them
        self.regs = []
        if want_seq:
            for i in range(r.randrange(1, 4)):
                s = self.sig("q", self.width(), kinds=("Reg",))
                self.regs.append(s)
                self.declare(s)
                self.pool.append(s)
            if self.p(f.mem):
                n = r.choice([2, 4, 8])
                w = self.width()
                s = Sig(self.name("mem"), w if w.n else wc(4), kinds=("Reg",), dims=(0, n - 1))
                m.sigs.append(s)
                self.declare(s)
                self.mems.append(s)
                m.regs.append(s)
            m.regs += self.regs
        nfun = 0
        while self.p(f.func) and nfun < 2:
            nfun += 1
            self.function()
        for i in range(r.randrange(*f.items)):
            self.item()
        if want_seq:
            self.clocked_items()
        for s in outs:
            self.drive_output(s)
        self.assemble(ports + [("output", s) for s in outs])
        return m

    def assemble(self, ports):
        r, m = self.r, self.m
        m.ports = list(ports)
        if not self.top and self.p(0.3):
            r.shuffle(m.ports)
        pt = getattr(self, "ptext", [])
        header = ""
        body = []
        if pt and self.p(0.6):
            header = " #(%s)" % ", ".join(pt)
        else:
            body += ["%s;" % t for t in pt]
        reg = lambda d, s: d + (" reg" if "Reg" in s.kinds else "") + " " + s.rng() + s.name
        if self.p(self.f.portdecl) and not (body):
            plist = ", ".join(reg(d, s) for d, s in m.ports)
        else:
            plist = ", ".join(s.name for d, s in m.ports)
            for d, s in m.ports:
                body.append("%s %s%s;" % (d, s.rng(), s.name))
                if "Reg" in s.kinds:
                    body.append("reg %s%s;" % (s.rng(), s.name))
                elif self.p(0.15):
                    body.append("wire %s%s;" % (s.rng(), s.name))
                    s.kinds.add("Wire")
        items = list(self.items)
        if self.p(0.3):
            r.shuffle(items)
        lines = ["module %s%s(%s);" % (m.name, header, plist)]
        lines += ["  " + l for l in body + self.lptext + self.decls]
        lines += items
        lines.append("endmodule")
        m.text = "\n".join(lines) + "\n"

    # ---------------------------------------------------------------- items
    def lhs_text(self, s):
        return s.ref

    def parts(self, s):
        """cut a concrete signal into constant parts, right to left: [(text, W)]"""
        out, k = [], 0
        while k < s.w.n:
            n = self.r.randrange(1, s.w.n - k + 1)
            if n == s.w.n:
                n = max(1, n - 1)
            a, b = s.idx(k + n - 1), s.idx(k)
            out.append(("%s[%d]" % (s.ref, a) if n == 1 and self.p(0.8) else "%s[%d:%d]" % (s.ref, a, b), wc(n)))
            k += n
        return out

    def item(self):
        r, f = self.r, self.f
        k = r.random()
        if self.lib and k < 0.3:
            return self.instance()
        if self.p(f.gen) and not self.scope:
            return self.generate()
        if self.p(f.prim):
            return self.primitive()
        if self.p(f.always):
            return self.comb_always()
        return self.assign()

    def assign(self, s=None):
        r, f = self.r, self.f
        new = s is None
        if s is None:
            s = self.sig("w", self.width())
            if self.p(f.netinit) and not self.scope:
                self.decls.append("wire %s%s;" % (s.rng(), s.name))
                self.decls.pop()
                self.items.append("  wire %s%s = %s;" % (s.rng(), s.name, self.expr(s.w)))
                self.tick("net-initialiser")
                self.pool.append(s)
                # a net declared among the items must come before its readers: keep item order
                self.fixed_order = True
                self.decls.append(self.items.pop().strip())
                return s
            self.declare(s)
        if s.w.n is not None and s.w.n > 1 and self.p(f.partial):
            self.tick("partial-assign")
            ps = self.parts(s)
            r.shuffle(ps)
            for t, w in ps:
                self.add("%sassign %s = %s;" % (self.indent, t, self.expr(w)))
        elif new and s.w.n is not None and not self.scope and self.p(f.lconcat):
            t = self.sig("w", wc(r.choice(f.widths)))
            self.declare(t)
            self.tick("concat-target")
            tot = s.w.n + t.w.n
            self.add("%sassign {%s, %s} = %s;" % (self.indent, s.ref, t.ref, self.expr(wc(tot))))
            self.pool.append(t)
        else:
            self.add("%sassign %s = %s;" % (self.indent, s.ref, self.expr(s.w)))
        if new:
            self.pool.append(s)
        return s

    def drive_output(self, s):
        if self.p(self.f.always * 0.6):
            s.kinds.add("Reg")
            self.comb_always([s])
        else:
            self.assign(s)

    def primitive(self):
        r = self.r
        one = [s for s in self.readable(wc(1))]
        if len(one) < 1:
            return self.assign()
        s = self.sig("w", wc(1))
        self.declare(s)
        g = r.choice(["and", "or", "xor", "nand", "nor", "xnor", "not", "buf"])
        n = 1 if g in ("not", "buf") else r.randrange(2, 4)
        self.tick("primitive")
        self.add("%s%s %s(%s);" % (self.indent, g, self.name("g"), ", ".join([s.ref] + [r.choice(one).ref for _ in range(n)])))
        self.pool.append(s)

    def instance(self):
        r, f = self.r, self.f
        sub = r.choice(self.lib)
        if sub.seq and not self.clk:
            cands = [x for x in self.lib if not x.seq]
            if not cands:
                return self.assign()
            sub = r.choice(cands)
        over, ptexts, given = {}, [], {}
        pnames = [q for q in sub.params if q[2] == "Parameter"]
        if pnames and self.p(0.7):
            named = self.p(0.5)
            k = r.randrange(1, len(pnames) + 1)
            for q in (r.sample(pnames, k) if named else pnames[:k]):
                t, over[q[0]], given[q[0]] = self.pexpr()
                ptexts.append(".%s(%s)" % (q[0], t) if named else t)
        # widths of the ports as seen here
        known = {}
        for (n, g, kind, rng, pw) in sub.params:
            if n in given:
                known[n] = given[n]
                continue
            try:
                known[n] = wc(g({k: v.n for k, v in known.items() if v.n is not None}))
            except KeyError:
                pass
        local_w = lambda w: w if w.n is not None else known.get(w.key)
        if any(local_w(s.w) is None or (local_w(s.w).n or 0) > 20 for d, s in sub.ports):
            return self.assign()
        if ptexts:
            self.tick("parameter-override")
        name = self.name("u")
        after, conns, newsigs = [], [], []
        for d, s in sub.ports:
            w = local_w(s.w)
            if s is getattr(sub, "clk", None) or s.name in CLK and d == "input":
                conns.append((s.name, self.clk.name))
            elif s.name in RST and d == "input":
                conns.append((s.name, self.rst.name))
            elif d == "input":
                conns.append((s.name, self.expr(w, r.choice([0, 0, 1, 2]), False)))
            else:
                if self.p(f.unconnected):
                    conns.append((s.name, ""))
                    continue
                k = r.random()
                if w.n is not None and k < 0.2:
                    # into a part of a wider wire; the rest gets its own assignment
                    tot = w.n + r.randrange(1, 4)
                    t = self.sig("w", wc(tot))
                    self.declare(t)
                    lo = r.choice([0, tot - w.n])
                    a, b = t.idx(lo + w.n - 1), t.idx(lo)
                    conns.append((s.name, "%s[%d:%d]" % (t.ref, a, b) if w.n > 1 else "%s[%d]" % (t.ref, a)))
                    ra, rb = (t.idx(tot - 1), t.idx(w.n)) if lo == 0 else (t.idx(lo - 1), t.idx(0))
                    after.append((("%s[%d:%d]" % (t.ref, ra, rb)), wc(tot - w.n)))
                    newsigs.append(t)
                    self.tick("output-to-part")
                elif w.n is not None and w.n > 1 and self.p(f.outconcat):
                    h = r.randrange(1, w.n)
                    t1, t2 = self.sig("w", wc(w.n - h)), self.sig("w", wc(h))
                    self.declare(t1)
                    self.declare(t2)
                    conns.append((s.name, "{%s, %s}" % (t1.ref, t2.ref)))
                    newsigs += [t1, t2]
                    self.tick("output-to-concat")
                else:
                    t = self.sig("w", w)
                    self.declare(t)
                    conns.append((s.name, t.ref))
                    newsigs.append(t)
        if self.p(f.ordered):
            ct = ", ".join(e for n, e in conns)
            if ct.strip(", ") == "":
                ct = ", ".join(".%s(%s)" % c for c in conns)
            else:
                self.tick("ordered-ports")
        else:
            if self.p(0.5):
                r.shuffle(conns)
            ct = ", ".join(".%s(%s)" % c for c in conns if c[1] or self.p(0.5))
        self.add("%s%s %s%s(%s);" % (self.indent, sub.name, "#(%s) " % ", ".join(ptexts) if ptexts else "", name, ct))
        self.m.insts.append(Inst(name, sub, over, self.scope))
        self.tick("instance")
        for t, w in after:
            self.add("%sassign %s = %s;" % (self.indent, t, self.expr(w)))
        self.pool += newsigs

    def pexpr(self):
        """parameter value usable for an override: text, fn"""
        r = self.r
        if self.pws and self.p(0.4):
            q = r.choice(self.pws)
            return q.key, (lambda e, n=q.key: e[n]), q
        v = r.choice([2, 3, 4, 5, 8])
        t = r.choice([str(v), "%d+1" % (v - 1), "4'd%d" % v, "(%d*2)/2" % v, "2**%d/2" % {2: 2, 4: 3, 8: 4}[v] if v in (2, 4, 8) else str(v)])
        return t, (lambda e, v=v: v), wc(v)

    # ---------------------------------------------------------------- generate
    def generate(self):
        r, f = self.r, self.f
        if self.scope:
            return self.assign()
        self.tick("generate")
        if self.p(0.65):
            cand = [s for s in self.pool if s.w.n is not None and s.w.n >= 2 and s.lsb == 0 and s.dims is None]
            sym = [s for s in self.pool if s.w.n is None and s.dims is None]
            if sym and self.p(0.4):
                src = r.choice(sym)
            elif cand:
                src = r.choice(cand)
            else:
                return self.assign()
            w = src.w
            y = Sig(self.name("w"), w, scope=())
            self.m.sigs.append(y)
            self.declare(y)
            g, blk = self.name("gv"), self.name("blk")
            same = self.readable(w)
            same = [s for s in same if s.lsb == 0 and not s.asc] or [src]
            self.decls.append("genvar %s;" % g)
            self.m.sigs.append(Sig(g, wc(32), kinds=("Genvar",)))
            bound = w.n if w.n is not None else w.key
            cnt = w.fn
            outer_pool = self.pool
            self.pool = list(self.pool)
            self.blockdecls, save_items, self.items, save_indent = [], self.items, [], self.indent
            self.scope = (("for", blk, g, cnt),)
            self.indent = "      "
            if self.p(0.5):
                t = self.sig("t", wc(1))
                self.declare(t)
                self.add("%sassign %s = %s ^ %s[%s];" % (self.indent, t.ref, self.cond(1), r.choice(same).ref, g))
                self.pool.append(t)
            if self.lib and self.p(0.35):
                self.instance()
            if self.p(0.2):
                self.assign()
            if self.p(0.25):
                s = self.sig("t", wc(1), kinds=("Reg",))
                self.declare(s)
                self.add("%salways @* %s = %s;" % (self.indent, s.ref, self.cond(2)))
                self.pool.append(s)
            self.add("%sassign %s[%s] = %s[%s] %s %s;" % (self.indent, y.ref, g, r.choice(same).ref, g, r.choice("&|^"), self.cond(2)))
            body = ["      " + d for d in self.blockdecls] + self.items
            self.items, self.indent, self.pool, self.scope = save_items, save_indent, outer_pool, ()
            self.add("  generate\n    for (%s = 0; %s < %s; %s = %s + 1) begin : %s\n%s\n    end\n  endgenerate" % (
                g, g, bound, g, g, blk, "\n".join(body)))
            self.pool.append(y)
        else:
            y = Sig(self.name("w"), self.width(), scope=())
            self.m.sigs.append(y)
            self.declare(y)
            if self.pws and self.p(0.8):
                q = r.choice(self.pws)
                v = r.choice([2, 3, 4, 8])
                op = r.choice([">", "==", "<", ">=", "!=", "<="])
                fn = {">": lambda a, b: a > b, "==": lambda a, b: a == b, "<": lambda a, b: a < b, ">=": lambda a, b: a >= b,
                      "!=": lambda a, b: a != b, "<=": lambda a, b: a <= b}[op]
                cond, cf = "%s %s %d" % (q.key, op, v), (lambda e, fn=fn, n=q.key, v=v: fn(e[n], v))
                if self.p(f.neggen):
                    cond, cf = "%s - %d" % (q.key, v), (lambda e, n=q.key, v=v: e[n] != v)
                    self.tick("generate-arithmetic-condition")
            else:
                v = r.randrange(2)
                cond, cf = str(v), (lambda e, v=v: bool(v))
            texts = []
            for which in (0, 1):
                blk = self.name("gb")
                outer_pool = self.pool
                self.pool = list(self.pool)
                self.blockdecls, save_items, self.items, save_indent = [], self.items, [], self.indent
                self.scope = (("if", blk, cf if which == 0 else (lambda e, cf=cf: not cf(e))),)
                self.indent = "      "
                if self.p(0.4):
                    self.assign()
                if self.lib and self.p(0.3):
                    self.instance()
                self.add("%sassign %s = %s;" % (self.indent, y.ref, self.expr(y.w)))
                texts.append((blk, "\n".join(["      " + d for d in self.blockdecls] + self.items)))
                self.items, self.indent, self.pool, self.scope = save_items, save_indent, outer_pool, ()
            self.add("  generate\n    if (%s) begin : %s\n%s\n    end else begin : %s\n%s\n    end\n  endgenerate" % (
                cond, texts[0][0], texts[0][1], texts[1][0], texts[1][1]))
            self.pool.append(y)

    # ---------------------------------------------------------------- functions
    def function(self):
        r, f = self.r, self.f
        rw = wc(r.choice(f.widths))
        args = [Sig(self.name("a"), wc(r.choice(f.widths))) for _ in range(r.randrange(1, 4))]
        name = self.name("fn")
        ret = Sig(name, rw)
        t = "  function %s%s;\n" % (ret.rng(), name)
        for a in args:
            t += "    input %s%s;\n" % (a.rng(), a.name)
        local = None
        if self.p(0.3):
            local = Sig(self.name("l"), wc(r.choice(f.widths)))
            t += "    reg %s%s;\n" % (local.rng(), local.name)
        t += "    begin\n"
        pool = list(args)
        E = lambda w: self.expr(w, None, True, pool)
        if local is not None:
            t += "      %s = %s;\n" % (local.ref, E(local.w))
            if self.p(max(self.f.temps, 0.4)):
                pool.append(local)
                if self.p(0.5):
                    t += "      %s = %s;\n" % (local.ref, E(local.w))
                    self.tick("function-reassign")
                if self.p(0.4):
                    t += "      if (%s) %s = %s;\n" % (self.cond(2, args), local.ref, E(local.w))
                    local.bw = 3
                    self.tick("function-reassign")
            wide = [a for a in args if a.w.n > 1]
            if wide and self.p(self.f.loops + 0.1):
                a = r.choice(wide)
                t = t.replace("    begin\n", "    integer fk;\n    begin\n", 1)
                t += "      for (fk = 0; fk < %d; fk = fk + 1) begin\n        %s = %s ^ {%d{%s[fk]}};\n      end\n" % (
                    min(a.w.n, 4), local.ref, local.ref, local.w.n, a.name)
                local.bw *= 2
                self.tick("function-loop")
        k = r.random()
        sf, self.f.func = self.f.func, 0
        sm, self.mems = self.mems, []
        if k < 0.4:
            t += "      %s = %s;\n" % (name, E(rw))
        elif k < 0.7:
            t += "      if (%s) %s = %s;\n      else %s = %s;\n" % (self.cond(2, pool), name, E(rw), name, E(rw))
        else:
            a = r.choice(args)
            vals = r.sample(range(1 << min(a.w.n, 3)), min(1 << min(a.w.n, 3), r.randrange(1, 4)))
            t += "      case (%s)\n" % a.name
            for v in vals:
                t += "        %d'd%d: %s = %s;\n" % (a.w.n, v, name, E(rw))
            t += "        default: %s = %s;\n      endcase\n" % (name, E(rw))
        t += "    end\n  endfunction"
        self.f.func, self.mems = sf, sm
        self.decls.append(t)
        self.funcs.append((name, rw, [a.w for a in args]))
        self.tick("function")

    # ---------------------------------------------------------------- combinational always
    def comb_always(self, targets=None):
        r, f = self.r, self.f
        new = targets is None
        if new:
            targets = []
            for i in range(r.choice([1, 1, 2, 3])):
                s = self.sig("c", self.width(), kinds=("Reg",))
                self.declare(s)
                targets.append(s)
        sp = self.pool
        self.pool = list(self.pool)
        body = []
        # temporaries: plain assignments used below
        if self.p(f.temps):
            for i in range(r.choice([1, 1, 2])):
                t = self.sig("t", self.width(), kinds=("Reg",))
                self.declare(t)
                k = r.random()
                if k < 0.5:
                    body.append("%s = %s;" % (t.ref, self.expr(t.w)))
                else:
                    body += self.branches([t], 1)
                    t.bw = 4
                self.pool.append(t)
                self.tick("temporary")
        body += self.full(targets)
        self.pool = sp
        sens = r.choice(["@*", "@(*)", "@ *"])
        self.add("  always %s begin\n%s\n  end" % (sens, "\n".join("    " + l for b in body for l in b.split("\n"))))
        self.tick("comb-always")
        if new:
            self.pool += targets

    def full(self, targets):
        """statements that assign every bit of every target on every path"""
        r, f = self.r, self.f
        out = []
        left = list(targets)
        while left:
            n = r.randrange(1, len(left) + 1)
            grp, left = left[:n], left[n:]
            k = r.random()
            s = grp[0]
            if len(grp) == 1 and s.w.n is not None and s.w.n > 1 and self.p(f.partial):
                ps = self.parts(s)
                r.shuffle(ps)
                for t, w in ps:
                    if self.p(0.4):
                        out.append("if (%s) %s = %s; else %s = %s;" % (self.cond(2), t, self.expr(w), t, self.expr(w)))
                    else:
                        out.append("%s = %s;" % (t, self.expr(w)))
                self.tick("partial-blocking")
            elif len(grp) == 2 and all(x.w.n is not None for x in grp) and self.p(f.lconcat * 2):
                out.append("{%s, %s} = %s;" % (grp[0].ref, grp[1].ref, self.expr(wc(grp[0].w.n + grp[1].w.n))))
                self.tick("concat-target")
            elif len(grp) == 1 and s.w.n is not None and s.w.n > 1 and s.lsb == 0 and self.p(f.loops):
                self.loop(s, out)
            elif self.p(f.default):
                for x in grp:
                    out.append("%s = %s;" % (x.ref, self.expr(x.w)))
                out += self.branches(grp, r.choice([1, 2]), holes=True)
                self.tick("default-then-override")
            elif self.p(f.reassign):
                for x in grp:
                    out.append("%s = %s;" % (x.ref, self.expr(x.w)))
                    sp = self.pool
                    self.pool = self.pool + [x] * 3
                    out.append("%s = %s;" % (x.ref, self.expr(x.w)))
                    self.pool = sp
                self.tick("reassign")
            elif k < 0.3:
                for x in grp:
                    out.append("%s = %s;" % (x.ref, self.expr(x.w)))
            else:
                out += self.branches(grp, r.choice([1, 2, 2, 3]))
        return out

    def loop(self, s, out):
        r = self.r
        i = Sig(self.name("k"), wc(32), kinds=("Integer",))
        self.m.sigs.append(i)
        self.decls.append("integer %s;" % i.name)
        src = [x for x in self.pool if x.w.n == s.w.n and x.lsb == 0 and not x.asc and x.dims is None]
        rhs = "%s[%s]" % (r.choice(src).ref, r.choice([i.name, "%d-%s" % (s.w.n - 1, i.name)])) if src else self.leaf(wc(1), False, self.pool)
        out.append("for (%s = 0; %s < %d; %s = %s + 1) begin\n  %s[%s] = %s %s %s;\nend" % (
            i.name, i.name, s.w.n, i.name, i.name, s.ref, i.name, rhs, r.choice("&|^"), self.cond(1)))
        self.tick("loop")

    def branches(self, grp, d, holes=False, op="="):
        """nested if/case assigning every member of grp on every path (or some, with holes)"""
        r, f = self.r, self.f
        if d <= 0:
            out = []
            for x in grp:
                if holes and self.p(0.4):
                    continue
                out.append("%s %s %s;" % (x.ref, op, self.expr(x.w)))
            return out
        ind = lambda ls: "\n".join("  " + l for b in ls for l in b.split("\n"))
        def block(dd):
            ls = self.branches(grp, dd, holes, op)
            if len(ls) == 1 and self.p(0.5) and not ls[0].startswith("if"):
                return ls[0]
            if self.p(f.nestblk):
                return "begin : %s\n%s\nend" % (self.name("b"), ind(ls))
            return "begin\n%s\nend" % ind(ls)
        if self.p(f.case):
            c = [s for s in self.pool if s.w.n is not None and 1 <= s.w.n <= 4 and s.dims is None and s.bw == 1]
            if c:
                s = r.choice(c)
                n = s.w.n
                if self.p(0.2) :
                    sel = self.fresh(1, self.expr, s.w, 1, False)
                else:
                    sel = s.ref
                vals = r.sample(range(1 << n), min(1 << n, r.choice([1, 2, 3, 4, 5, 7])))
                out = "case (%s)\n" % sel
                i = 0
                while i < len(vals):
                    g = r.choice([1, 1, 2, 3, 4, 5])
                    lab = ", ".join("%d'd%d" % (n, v) if self.p(0.7) else "%d'b%s" % (n, format(v, "0%db" % n)) for v in vals[i:i + g])
                    out += "  %s: %s\n" % (lab, block(d - 1).replace("\n", "\n  "))
                    i += g
                if not holes or self.p(0.5):
                    out += "  default: %s\n" % block(d - 1).replace("\n", "\n  ")
                out += "endcase"
                self.tick("case")
                return [out]
        self.inbranch = d > 1
        out = "if (%s) %s" % (self.cond(r.choice([1, 2])), block(d - 1))
        self.inbranch = True
        while self.p(0.3):
            out += "\nelse if (%s) %s" % (self.cond(r.choice([1, 2])), block(d - 1))
        if not holes or self.p(0.5):
            out += "\nelse %s" % block(d - 1)
        self.inbranch = False
        self.tick("if")
        return [out]

    # ---------------------------------------------------------------- clocked logic
    def clocked_items(self):
        r, f = self.r, self.f
        left = list(self.regs)
        vec = None
        if self.p(f.veclk):
            vec = self.sig("vclk", wc(r.choice([2, 3, 4])))
            self.declare(vec)
            at = r.randrange(vec.w.n)
            self.add("  assign %s = {%s};" % (vec.name, ", ".join(self.clk.name if k == at else r.choice(["1'b0", "1'b1"])
                                                                  for k in reversed(range(vec.w.n)))))
        while left:
            n = r.randrange(1, len(left) + 1)
            grp, left = left[:n], left[n:]
            edge = "negedge" if self.p(f.negedge) else "posedge"
            asyn = self.p(f.reset)
            low = self.p(0.4)
            clk, bit = self.clk.name, None
            if vec and self.p(0.7):
                clk, bit = vec.name, (vec.idx(at), at)
                e = str(bit[0])
                if self.p(0.5):
                    e = r.choice(["2'd%d" % bit[0] if bit[0] < 4 else e, "%d + %d" % (bit[0] - 1, 1), "%d - 1" % (bit[0] + 1)])
                self.tick("vector-clock")
            clkt = clk if bit is None else "%s[%s]" % (clk, e)
            sens = "%s %s" % (edge, clkt)
            if asyn:
                sens += r.choice([" or ", ", "]) + "%s %s" % ("negedge" if low else "posedge", self.rst.name)
                if self.p(0.15):
                    sens = "%s %s or %s %s" % ("negedge" if low else "posedge", self.rst.name, edge, clkt)
            for x in grp:
                x.clkbit = bit
                x.timing = (clk, edge, self.rst.name if asyn else None, ("negedge" if low else "posedge") if asyn else None)
            body = self.next_state(grp)
            if asyn or self.p(0.5):
                rt = self.rst.name
                cond = r.choice(["!" + rt, "~" + rt, rt + " == 1'b0"]) if low else r.choice([rt, rt + " == 1'b1"])
                rs = ["%s <= %s;" % (x.ref, self.const(x.w, True)) for x in grp if asyn or self.p(0.8)]
                text = "if (%s) begin\n%s\nend else begin\n%s\nend" % (cond, "\n".join("  " + l for l in rs),
                                                                       "\n".join("  " + l for b in body for l in b.split("\n")))
            else:
                text = "\n".join(body)
            self.add("  always @(%s) begin\n%s\n  end" % (sens, "\n".join("    " + l for l in text.split("\n"))))
            self.tick("clocked-always")
        for mem in self.mems:
            if mem in self.m.regs:
                a = wc({2: 1, 4: 2, 8: 3}[mem.dims[1] + 1])
                mem.timing = (self.clk.name, "posedge", None, None)
                flat = [x for x in self.pool if x.dims is None]
                ix, t = self.leaf(a, False, flat), None
                if self.p(f.temps * 0.5):
                    t = self.sig("t", a, kinds=("Reg",))
                    self.declare(t)
                    self.m.temps.append(t)
                    ix0, ix = ix, t.ref
                    self.tick("memory-temporary")
                text = "if (%s) %s[%s] <= %s;" % (self.cond(2), mem.ref, ix, self.expr(mem.w))
                if t:
                    text = "%s = %s;\n    %s\n    %s = %s;" % (ix, ix0, text, ix, self.leaf(a, False, flat))
                self.add("  always @(posedge %s) begin\n    %s\n  end" % (self.clk.name, text))
                self.tick("memory-write")

    def next_state(self, grp):
        r, f = self.r, self.f
        out = []
        sp = self.pool
        for x in grp:
            k = r.random()
            if self.p(f.temps * 0.5):
                t = self.sig("t", self.width(), kinds=("Reg",))
                self.declare(t)
                self.m.temps.append(t)
                t.clkbit = grp[0].clkbit
                out.append("%s = %s;" % (t.ref, self.expr(t.w)))
                self.pool = self.pool + [t] * 2
                self.tick("clocked-temporary")
            if x.w.n is not None and x.w.n > 1 and self.p(f.partial):
                ps = self.parts(x)
                r.shuffle(ps)
                for t, w in ps:
                    s = "%s <= %s;" % (t, self.expr(w))
                    out.append("if (%s) %s" % (self.cond(2), s) if self.p(0.4) else s)
                self.tick("partial-nonblocking")
            elif k < 0.35:
                out.append("%s <= %s;" % (x.ref, self.expr(x.w)))
            elif k < 0.35 + f.default * 0.5:
                out.append("%s <= %s;" % (x.ref, self.expr(x.w)))
                out += self.branches([x], r.choice([1, 2]), holes=True, op="<=")
                self.tick("nonblocking-override")
            else:
                out += self.branches([x], r.choice([1, 2, 2]), holes=self.p(f.hold), op="<=")
        self.pool = sp
        return out
