import itertools
from semantic_common import *


class Gen(object):
    """random width-uniform definition trees over a table of terms"""

    def __init__(self, rng):
        from pyverilog.dataflow import dataflow as D
        from pyverilog.utils.scope import ScopeChain, ScopeLabel
        self.r, self.D = rng, D
        self.terms, self.shape = {}, {}
        self.consts = {}
        mk = lambda n: ScopeChain([ScopeLabel("top", "module"), ScopeLabel(n, "signal")])
        self.bits, self.mems = [], []
        r = rng
        for i in range(r.choice([2, 3, 4])):
            w = r.choice([1, 1, 2, 3, 4, 4])
            k = r.random()
            msb, lsb = (w - 1, 0) if k < 0.6 else (w + 1, 2) if k < 0.8 else (0, w - 1) if k < 0.92 else (1, w)
            self.add(mk("s%d" % i), msb, lsb, None)
        if r.random() < 0.3:
            self.add(mk("m"), 3, 0, (0, 3))
        if r.random() < 0.4:
            n = mk("K")
            w = r.choice([3, 4])
            self.add(n, w - 1, 0, None)
            self.consts[n] = r.randrange(1 << w)

    def add(self, n, msb, lsb, dims):
        D = self.D
        c = lambda v: D.DFIntConst(str(v))
        self.terms[n] = D.Term(n, {"Wire"}, c(msb), c(lsb), None if dims is None else ((c(dims[0]), c(dims[1])),))
        self.shape[str(n)] = (msb, lsb, dims)

    def const(self, w):
        D, r = self.D, self.r
        v = r.choice([0, (1 << w) - 1, 1, r.randrange(1 << w), r.randrange(1 << w), 1 << r.randrange(w)]) & ((1 << w) - 1)
        k = r.random()
        if k < 0.45:
            return D.DFEvalValue(v, w)
        return D.DFIntConst(r.choice(["%d'd%d" % (w, v), "%d'h%x" % (w, v), "%d'b%s" % (w, bin(v)[2:]), "%d'o%o" % (w, v),
                                      "%d'sd%d" % (w, v), "%d'H%X" % (w, v)]))

    def num(self, v):
        D = self.D
        k = self.r.random()
        if k < 0.4:
            return D.DFIntConst(str(v))
        if k < 0.8 or v == 0:
            return D.DFEvalValue(v)
        return D.DFOperator((D.DFIntConst(str(v - 1)), D.DFIntConst("1")), "Plus")

    def sigs(self, w):
        return [n for n in self.terms if self.shape[str(n)][2] is None and abs(self.shape[str(n)][0] - self.shape[str(n)][1]) + 1 >= w]

    def leaf(self, w):
        D, r = self.D, self.r
        k = r.random()
        if k < 0.22:
            return self.const(w)
        c = self.sigs(w)
        mem = [n for n in self.terms if self.shape[str(n)][2] is not None]
        if mem and w == 4 and r.random() < 0.2:
            return D.DFPointer(D.DFTerminal(mem[0]), self.tree(2, 0) if r.random() < 0.6 else self.num(r.randrange(4)))
        if not c:
            return self.const(w)
        exact = [n for n in c if abs(self.shape[str(n)][0] - self.shape[str(n)][1]) + 1 == w]
        if exact and r.random() < 0.7:
            return D.DFTerminal(r.choice(exact))
        n = r.choice(c)
        return self.select(n, w)

    def select(self, n, w, off=None):
        """w bits of signal n"""
        D, r = self.D, self.r
        msb, lsb, _ = self.shape[str(n)]
        full = abs(msb - lsb) + 1
        o = r.randrange(full - w + 1) if off is None else off
        hi, lo = (lsb + o + w - 1, lsb + o) if msb >= lsb else (lsb - o - w + 1, lsb - o)
        if w == 1 and r.random() < 0.6:
            if r.random() < 0.25 and full in (2, 4) and (min(msb, lsb) == 0):
                return D.DFPointer(D.DFTerminal(n), self.tree(1 if full == 2 else 2, 0))
            return D.DFPointer(D.DFTerminal(n), self.num(lo))
        return D.DFPartselect(D.DFTerminal(n), self.num(hi), self.num(lo))

    def tree(self, w, d):
        D, r = self.D, self.r
        if d <= 0:
            return self.leaf(w)
        k = r.random()
        op = lambda o, *n: D.DFOperator(tuple(n), o)
        if k < 0.08:
            return self.leaf(w)
        if w == 1 and k < 0.5:
            return self.boolean(d)
        if k < 0.3:
            a = self.tree(w, d - 1)
            o = r.choice(["Plus", "Minus", "Times", "And", "Or", "Xor", "Xnor", "And", "Or", "Divide", "Mod"])
            j = r.random()
            if j < 0.2:
                b = a
            elif j < 0.35:
                b = op("Unot" if r.random() < 0.7 else "Uminus", a)
                if r.random() < 0.3 and w == 1:
                    b = op("Ulnot", a)
            elif j < 0.55:
                b = self.const(w)
            else:
                b = self.tree(w, d - 1)
            if r.random() < 0.4:
                a, b = b, a
            return op(o, a, b)
        if k < 0.38:
            return op(r.choice(["Unot", "Uminus", "Unot", "Uplus"]), self.tree(w, d - 1))
        if k < 0.46:
            return op(r.choice(["Sll", "Srl", "Sra", "Sla"]), self.tree(w, d - 1), self.tree(r.choice([1, 2, 3]), min(d - 1, 1)))
        if k < 0.49:
            return op("Power", self.tree(w, d - 1), self.tree(2, 0))
        if k < 0.66:
            c = self.tree(1, d - 1) if r.random() < 0.7 else self.tree(r.choice([2, 3]), d - 1)
            t = self.tree(w, d - 1)
            return D.DFBranch(c, t, t if r.random() < 0.1 else self.tree(w, d - 1))
        if k < 0.9 and w > 1:
            return self.concat(w, d)
        if k < 0.95:
            return self.partof(w, d)
        return self.leaf(w)

    def concat(self, w, d):
        D, r = self.D, self.r
        parts, left = [], w
        n = r.choice([2, 2, 3, 4])
        while left:
            p = left if len(parts) == n - 1 else r.randrange(1, left + 1)
            parts.append(p)
            left -= p
        j = r.random()
        out = []
        if j < 0.3:
            # adjacent selects of one signal
            c = self.sigs(2)
            if c:
                s = r.choice(c)
                msb, lsb, _ = self.shape[str(s)]
                full = abs(msb - lsb) + 1
                cuts = []
                top = full
                for p in parts:
                    p = min(p, top)
                    if p == 0:
                        break
                    if r.random() < 0.85:
                        top -= p
                        cuts.append((p, top))
                    else:
                        cuts.append((p, r.randrange(full - p + 1)))
                got = 0
                for p, o in cuts:
                    x = self.select(s, p, o)
                    if isinstance(x, D.DFPointer) and r.random() < 0.5 and not x.ptr.children():
                        x = D.DFPartselect(x.var, x.ptr, x.ptr)
                    out.append(x)
                    got += p
                if got < w:
                    out.append(self.tree(w - got, d - 1))
                return D.DFConcat(tuple(out))
        cond = self.tree(1, 1) if j > 0.75 else None
        for p in parts:
            if cond is not None and r.random() < 0.75:
                out.append(D.DFBranch(cond, self.tree(p, d - 2), self.tree(p, d - 2)))
            else:
                out.append(self.tree(p, d - 1) if r.random() < 0.7 else self.const(p))
        return D.DFConcat(tuple(out))

    def partof(self, w, d):
        """a select of a concatenation, as expansion of definitions gives"""
        D, r = self.D, self.r
        n = w + r.choice([0, 1, 2, 3])
        c = self.concat(n, d) if n > 1 else D.DFConcat((self.tree(1, d - 1),))
        o = r.randrange(n - w + 1)
        if w == 1 and r.random() < 0.5:
            return D.DFPointer(c, self.num(o))
        return D.DFPartselect(c, self.num(o + w - 1), self.num(o))

    def patterns(self, d):
        """two terms over few operands, so that rewriting finds (or nearly finds) what it looks for"""
        D, r = self.D, self.r
        op = lambda o, *n: D.DFOperator(tuple(n), o)
        w = r.choice([1, 2, 2, 3])
        j = r.random()
        if j < 0.4:
            # comparisons sharing operands, constants on either side
            pool = [self.tree(w, 0), self.const(w), self.const(w)]
            if r.random() < 0.3:
                pool.append(self.tree(w, 0))
            x = []
            for _ in (0, 1):
                e = op("Eq" if r.random() < 0.85 else r.choice(["NotEq", "Eql", "LessEq"]), *r.sample(pool, 2))
                x.append(op("Ulnot", e) if r.random() < 0.3 else e)
            return op(r.choice(["Land", "Lor"]), *x)
        if j < 0.75:
            # conjunctions of literals
            v = [self.tree(r.choice([1, 1, w]), 0), self.tree(1, 0)]
            lit = lambda x: op("Ulnot", x) if r.random() < 0.4 else x
            t = []
            for _ in (0, 1):
                a, b = lit(v[0]), lit(v[1]) if r.random() < 0.9 else lit(r.choice(v))
                t.append(op("Land" if r.random() < 0.9 else "Lor", *((a, b) if r.random() < 0.5 else (b, a))))
            if r.random() < 0.15:
                t[1] = lit(r.choice(v))
            return op("Lor" if r.random() < 0.85 else "Land", *t)
        # a term with its own complement
        a = self.tree(w, r.choice([0, 0, 1]))
        b = op(r.choice(["Unot", "Unot", "Ulnot", "Uminus"]), a)
        if r.random() < 0.15:
            b = op(r.choice(["Unot", "Ulnot"]), b)
        onebit = "Ulnot" in (b.operator, getattr(b.nextnodes[0], "operator", None))
        if r.random() < 0.5:
            a, b = b, a
        o = r.choice(["Land", "Lor", "And", "Or", "Xor", "Plus", "Eq", "NotEq", "LessThan", "GreaterEq"])
        if w > 1 and onebit and o not in ("Land", "Lor"):
            o = r.choice(["Land", "Lor"])       # one bit next to w bits
        t = op(o, a, b)
        return t if o not in ("And", "Or", "Xor", "Plus") else op(r.choice(["Uor", "Uand", "Ulnot"]), t)

    def boolean(self, d):
        D, r = self.D, self.r
        op = lambda o, *n: D.DFOperator(tuple(n), o)
        if r.random() < 0.3:
            return self.patterns(d)
        k = r.random()
        w = r.choice([1, 1, 2, 3, 4])
        if k < 0.25:
            a = self.tree(w, d - 1)
            b = a if r.random() < 0.2 else self.const(w) if r.random() < 0.5 else self.tree(w, d - 1)
            if r.random() < 0.2:
                a, b = b, a
            return op(r.choice(["LessThan", "GreaterThan", "LessEq", "GreaterEq", "Eq", "Eq", "NotEq", "Eql", "NotEql"]), a, b)
        if k < 0.4:
            return op(r.choice(["Uand", "Unand", "Uor", "Unor", "Uxor", "Uxnor", "Ulnot", "Ulnot"]), self.tree(w, d - 1))
        o = r.choice(["Land", "Lor"])
        j = r.random()
        a = self.tree(w, d - 1)
        if j < 0.1:
            b = a
        elif j < 0.22:
            b = op(r.choice(["Ulnot", "Unot"]), a)
        elif j < 0.32:
            b = self.const(r.choice([1, 2, 4]))
        elif j < 0.5:
            s = self.tree(w, 0)
            x = [op("Eq", s, self.const(w)), op("Eq", s, self.const(w))]
            for i in (0, 1):
                if r.random() < 0.3:
                    x[i] = op("Eq", x[i].nextnodes[1], x[i].nextnodes[0])
            if r.random() < 0.5:
                x[r.randrange(2)] = op("Ulnot", x[0])
            a, b = x
        elif j < 0.68:
            # (!p && q) || (p && q) in all arrangements
            p, q = self.tree(w, d - 2), self.tree(r.choice([1, 1, 2, 3]), d - 2)
            l = [op("Ulnot", p), q]
            m = [p, q if r.random() < 0.9 else self.tree(1, 0)]
            r.shuffle(l)
            r.shuffle(m)
            a, b = op("Land", *l), op("Land", *m)
            o = r.choice(["Lor", "Lor", "Lor", "Land"])
        elif j < 0.8:
            # chains
            xs = [self.tree(r.choice([1, 1, 2]), d - 2) for _ in range(3)]
            t = r.choice(xs)
            for _ in range(3):
                n = r.choice(xs)
                if r.random() < 0.3:
                    n = op("Ulnot", n)
                t = op(o, t, n) if r.random() < 0.6 else op(o, n, t)
            return t
        else:
            b = self.tree(r.choice([1, 2, 3]), d - 1)
        if r.random() < 0.5:
            a, b = b, a
        return op(o, a, b)


def dump(t):
    """structure of a tree, every field"""
    if t is None:
        return None
    c = type(t).__name__
    if isinstance(t, (list, tuple)):
        return tuple(dump(x) for x in t)
    if hasattr(t, "__dict__") and c.startswith("DF"):
        return (c,) + tuple((k, dump(v)) for k, v in sorted(t.__dict__.items()))
    return str(t)


def signals_of(t, out):
    c = type(t).__name__
    if c == "DFTerminal":
        out.add(str(t.name))
    elif t is not None and hasattr(t, "children"):
        for x in t.children():
            signals_of(x, out)
    return out


class Check(SemCheck):
    prop = "P14"
    rule = ("random width-uniform definition trees (all operators, selects, concatenations, branches, memories, biased to the patterns "
            "rewriting looks for) evaluated by an independent evaluator before and after optimization, on all valuations of their signals "
            "up to 2^9, else 200 random ones; non-trivial: distinct trees that optimization changed and that have a signal")
    counts = {"quick": 36000, "thorough": 400000}
    batch = 20
    assumptions = ["trees are width-uniform and unsigned", "division by zero and undefined constants are not compared"]

    def setup(self, scratch):
        pass

    def cases(self, tier, seed):
        return [["trees", i] for i in range(self.counts[tier] // self.batch)]

    def run(self, case, ctx):
        rng = core.rng_for("P14", ctx.seed, case)
        for _ in range(self.batch):
            self.one(rng, ctx)

    def one(self, rng, ctx):
        from pyverilog.dataflow.optimizer import VerilogOptimizer
        from pyverilog.dataflow import dataflow as D
        g = Gen(rng)
        w = rng.choice([1, 1, 2, 3, 4, 4, 6])
        t = g.tree(w, rng.choice([1, 2, 2, 3, 3, 4]))
        before = dump(t)
        src = t.tostr()
        if len(src) > 6000:
            ctx.count("too-large")
            return
        self.last_source = src + "\nterms " + str({k: v for k, v in g.shape.items()})
        with repo(), quiet():
            o = VerilogOptimizer(dict(g.terms), {n: D.DFEvalValue(v, 32) for n, v in g.consts.items()})
            res = [("optimize", o.optimize(t)), ("optimizeConstant", o.optimizeConstant(t))]
            h = VerilogOptimizer(dict(g.terms), {n: D.DFEvalValue(v, 32) for n, v in g.consts.items()})
            res.append(("optimizeHierarchy", h.optimizeHierarchy(h.optimizeConstant(t))))
        if dump(t) != before:
            ctx.violation("modified", "the tree given was modified\nbefore %s\nafter %s" % (src, t.tostr()), self.last_source)
            return
        ctx.count("trees")
        names = sorted(signals_of(t, set()))
        if dump(res[0][1]) != before:
            ctx.count("changed")
            if names:
                ctx.nontrivial(src)
        vals = {}
        mem = {}
        ev = dfeval.Evaluator(lambda n: vals[str(n)], lambda n: g.shape[str(n)], lambda n, i: mem[i])
        free = [n for n in g.shape if n in names and not any(str(c) == n for c in g.consts)]
        for c, v in g.consts.items():
            vals[str(c)] = v
        widths = {n: abs(g.shape[n][0] - g.shape[n][1]) + 1 for n in free}
        total = sum(widths.values())
        memory = any(g.shape[n][2] is not None for n in free)
        if total <= 9 and not memory:
            space = itertools.product(*[range(1 << widths[n]) for n in free])
        else:
            space = ([rng.randrange(1 << widths[n]) for n in free] for _ in range(200))
        known = 0
        if not free:
            ctx.count("constant-trees")
        for vec in space:
            vals.update(zip(free, vec))
            if memory:
                for i in range(4):
                    mem[i] = rng.randrange(16)
            try:
                x = ev.value(t, w)
            except dfeval.Unknown:
                ctx.count("undefined")
                continue
            known += 1
            for what, u in res:
                try:
                    y = ev.value(u, w)
                except (dfeval.Unknown, dfeval.Bad, dfeval.Hold) as e:
                    y = "%s %s" % (type(e).__name__, e)
                if x != y:
                    ctx.violation("value", "%s: %s instead of %s for %s (width %d)\nbefore %s\nafter  %s" % (
                        what, y, x, dict((n, vals[n]) for n in names), w, src, u.tostr()), self.last_source)
                    return
                ctx.count("values-compared")
        if not free and known and not isinstance(res[0][1], D.DFEvalValue):
            ctx.violation("not-reduced", "a tree without signals is not reduced to its value\nbefore %s\nafter  %s" % (src, res[0][1].tostr()),
                          self.last_source)

    def minimums(self, tier):
        return {"values-compared": 20 * self.counts[tier], "distinct_nontrivial": self.counts[tier] // 3, "constant-trees": self.counts[tier] // 50}


if __name__ == "__main__":
    core.main("P14", Check())
