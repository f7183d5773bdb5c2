import copy
from semantic_common import *
import p14, p15, p24
from vlib import elab


class Reader(object):
    """reads the printed form of definitions back"""

    def __init__(self, text):
        self.s, self.i = text, 0

    def fail(self, what):
        raise ValueError("%s expected at %d: %r" % (what, self.i, self.s[max(0, self.i - 60):self.i + 40]))

    def lit(self, t):
        if not self.s.startswith(t, self.i):
            self.fail(t)
        self.i += len(t)

    def has(self, t):
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def word(self, stop):
        j = self.i
        while j < len(self.s) and self.s[j] not in stop:
            j += 1
        w, self.i = self.s[self.i:j], j
        if not w:
            self.fail("word")
        return w

    def tree(self):
        if self.has("(-"):
            v = self.value()
            self.lit(")")
            return v[:1] + (-v[1],) + v[2:]
        if not self.has("("):
            return self.value()
        kind = self.word(" )")
        if kind in ("Terminal", "Constant", "IntConst", "FloatConst", "StringConst"):
            self.lit(" ")
            out = (kind, self.word(")"))
        elif kind in ("Operator", "Syscall", "Concat"):
            self.lit(" ")
            name = None
            if kind != "Concat":
                name = self.word(" ")
                self.lit(" ")
            self.lit("Next:")
            sub = [self.tree()]
            while self.has(","):
                sub.append(self.tree())
            out = (kind, name, tuple(sub))
        elif kind == "Delay":
            self.lit(" ")
            out = (kind, self.tree())
        elif kind in ("Partselect", "Pointer", "Branch"):
            out = [kind]
            for f in {"Partselect": ("Var", "MSB", "LSB"), "Pointer": ("Var", "PTR"), "Branch": ("Cond", "True", "False")}[kind]:
                out.append(self.tree() if self.has(" %s:" % f) else None)
            out = tuple(out)
        else:
            self.fail("a kind of node, not %s," % kind)
        self.lit(")")
        return out

    def value(self):
        j = self.i
        if self.has("'d"):
            w = 32
        else:
            t = self.word("',():[] ")
            if not self.has("'d"):
                return ("String", t)
            w = None if t == "None" else int(t)
        v = self.word(",():[] ")
        if v in "xz":
            return ("Undefined" if v == "x" else "HighImpedance", w)
        return ("Value", float(v) if "." in v or "e" in v else int(v), w)

    def bind(self):
        self.lit("(Bind dest:")
        out = [self.word(" )")]
        for f in ("msb", "lsb", "ptr", "tree"):
            out.append(self.tree() if self.has(" %s:" % f) else None)
        self.lit(")")
        return tuple(out)

    def term(self):
        self.lit("(Term name:")
        name = self.word(" ")
        self.lit(" type:[")
        kinds = [] if self.has("]") else self.word("]").split(", ")
        if kinds:
            self.lit("]")
        out = [name, [k.strip("'") for k in kinds]]
        for f in ("msb", "lsb"):
            out.append(self.tree() if self.has(" %s:" % f) else None)
        dims = None
        if self.has(" dims:"):
            dims = []
            while self.has("["):
                a = self.tree()
                self.lit(":")
                dims.append((a, self.tree()))
                self.lit("]")
        self.lit(")")
        return tuple(out) + (dims,)

    def end(self, x):
        if self.i != len(self.s):
            self.fail("end")
        return x


def nametext(n):
    return ".".join(l.scopename + ("" if l.scopeloop is None else "[%s]" % l.scopeloop) for l in n.scopechain)


def parts(t):
    """the structure of a tree, from its fields"""
    if t is None:
        return None
    c = type(t).__name__[2:]
    if c == "Terminal":
        return (c, nametext(t.name))
    if c in ("Constant", "IntConst", "FloatConst", "StringConst"):
        return (c, str(t.value))
    if c == "EvalValue":
        return ("String", t.value) if t.isstring else ("Value", t.value, t.width)
    if c in ("Undefined", "HighImpedance"):
        return (c, t.width)
    if c in ("Operator", "Syscall", "Concat"):
        return (c, {"Operator": "operator", "Syscall": "syscall"}.get(c) and getattr(t, {"Operator": "operator", "Syscall": "syscall"}[c]),
                tuple(parts(x) for x in t.nextnodes))
    if c == "Delay":
        return (c, parts(t.nextnode))
    f = {"Partselect": ("var", "msb", "lsb"), "Pointer": ("var", "ptr"), "Branch": ("condnode", "truenode", "falsenode")}[c]
    return (c,) + tuple(parts(getattr(t, x)) for x in f)


class Check(SemCheck):
    prop = "P25"
    rule = ("random definition trees and records, and all records reported for generated designs, are printed; an independent reader of the "
            "printed form gives back the structure taken from the fields; every reported hierarchical name is found again from its text and "
            "from the list of its parts; non-trivial: distinct printed definitions of 5 or more nodes")
    assumptions = ["strings hold no brackets, commas and colons", "float values are told from integers by their decimal point"]
    counts = {"quick": 2400, "thorough": 20000}
    cfgs = p15.Check.cfgs

    def cases(self, tier, seed):
        n = self.counts[tier]
        return [["random", i] for i in range(n)] + [["design", i] for i in range(n // 3)] + [["elaborated", i] for i in range(n // 3)]

    def show(self, ctx, kind, x, want):
        """the printed form of x has the structure wanted"""
        before = p24.dfdump(x) if kind == "tree" else {k: repr(v) if k == "name" else p24.dfdump(v) for k, v in vars(x).items()}
        with repo(), quiet():
            text = x.tostr()
        after = p24.dfdump(x) if kind == "tree" else {k: repr(v) if k == "name" else p24.dfdump(v) for k, v in vars(x).items()}
        if before != after:
            ctx.violation("modified", "printing %s modifies it" % text, text)
            return False
        if not isinstance(text, str):
            ctx.violation("text", "a %s prints as %r" % (kind, text), repr(want))
            return False
        r = Reader(text)
        try:
            got = r.end(getattr(r, kind)())
        except ValueError as e:
            ctx.violation("unreadable", "%s: %s" % (text[:2000], e), repr(want))
            return False
        ctx.count("printed:" + kind)
        if got != want:
            ctx.violation("parts", "%s prints as %s, its parts are %s" % (kind, text[:2000], repr(want)[:2000]), repr(want))
            return False
        if text.count("(") > 4:
            ctx.nontrivial(text)
        return True

    def record(self, ctx, kind, x):
        if kind == "bind":
            want = (nametext(x.dest),) + tuple(parts(t) for t in (x.msb, x.lsb, x.ptr, x.tree))
        else:
            want = (nametext(x.name), sorted(x.termtype), parts(x.msb), parts(x.lsb),
                    None if x.dims is None else [(parts(a), parts(b)) for a, b in x.dims])
        return self.show(ctx, kind, x, want)

    def randomtree(self, rng):
        from pyverilog.dataflow import dataflow as df
        k = rng.random()
        if k < 0.5:
            return p14.Gen(rng).tree(rng.choice([1, 2, 3, 4]), rng.choice([0, 1, 2, 3]))

        def sub(d):
            t = p24.dfgen(rng, d)
            return t
        while True:
            t = sub(rng.choice([0, 1, 2, 3]))
            if all(x.msb is not None and x.lsb is not None for x in self.nodes(t) if isinstance(x, df.DFPartselect)):
                break
        if rng.random() < 0.3:
            v = rng.choice([df.DFEvalValue(-rng.randrange(1, 9), rng.choice([4, 32])), df.DFEvalValue(rng.choice(["abc", "x_1"]), None, isstring=True),
                            df.DFEvalValue(2.5, 32, isfloat=True), df.DFStringConst("some text"), df.DFEvalValue(1 << 70, 80)])
            t = rng.choice([lambda: v, lambda: df.DFConcat((v, t)), lambda: df.DFBranch(t, v, None), lambda: df.DFOperator((t, v), "Sra")])()
        return t

    def nodes(self, t):
        out, todo = [], [t]
        while todo:
            x = todo.pop()
            if x is None:
                continue
            out.append(x)
            for v in vars(x).values():
                for y in v if isinstance(v, tuple) else [v]:
                    if type(y).__name__.startswith("DF"):
                        todo.append(y)
        return out

    def random(self, case, ctx, rng):
        from pyverilog.dataflow import dataflow as df
        from pyverilog.utils.scope import ScopeChain, ScopeLabel

        def name():
            c = [ScopeLabel("top", "module")]
            for i in range(rng.randrange(3)):
                k = rng.choice(["module", "block", "for", "generate", "always", "if", "functioncall", "any"])
                c.append(ScopeLabel(rng.choice(["u", "v", "blk"]) + str(rng.randrange(2)), k, rng.choice([0, 1, 12, -1]) if k == "for" else None))
            return ScopeChain(c + [ScopeLabel(rng.choice("abc"), "signal")])
        for _ in range(8):
            t = self.randomtree(rng)
            if not self.show(ctx, "tree", t, parts(t)):
                return
            o = lambda p=0.5: self.randomtree(rng) if rng.random() < p else None
            m = o()
            b = df.Bind(self.randomtree(rng) if rng.random() < 0.95 else None, name(), m, m if m is None else self.randomtree(rng), o(0.3))
            if not self.record(ctx, "bind", b):
                return
            num = lambda: rng.choice([df.DFIntConst(str(rng.randrange(9))), df.DFEvalValue(rng.randrange(9)), df.DFTerminal(name())])
            w = rng.random() < 0.7
            t = df.Term(name(), set(rng.sample(["Input", "Output", "Reg", "Wire", "Signed"], rng.randrange(4))), num() if w else None, num() if w else None,
                        None if rng.random() < 0.5 else tuple((num(), num()) for i in range(rng.randrange(1, 4))))
            if not self.record(ctx, "term", t):
                return
        # chains: equality and hashes follow the labels, prefix and concatenation
        names = [name() for i in range(12)]
        for a in names:
            for b in names:
                la = [(l.scopename, l.scopetype, l.scopeloop) for l in a.scopechain]
                lb = [(l.scopename, l.scopetype, l.scopeloop) for l in b.scopechain]
                want = len(la) == len(lb) and all(x[0] == y[0] and x[2] == y[2] and (x[1] == y[1] or "any" in (x[1], y[1])) for x, y in zip(la, lb))
                with repo():
                    got, ne, h = a == b, a != b, hash(a) == hash(b)
                    c = a + b
                ctx.count("name-pairs")
                if got != want or ne == want or want and not h:
                    return ctx.violation("name-equality", "%s and %s: == gives %s, != gives %s, equal hashes %s" % (la, lb, got, ne, h), "%s\n%s" % (la, lb))
                if [(l.scopename, l.scopetype, l.scopeloop) for l in c] != la + lb or len(c) != len(la) + len(lb) or \
                        [(l.scopename, l.scopetype, l.scopeloop) for l in a.scopechain] != la:
                    return ctx.violation("name-concatenation", "%s + %s is %s" % (la, lb, c), "%s\n%s" % (la, lb))
            if not self.name(ctx, a):
                return

    def name(self, ctx, n):
        """the name is found again from its text and from its parts, and its scope is its prefix"""
        import pyverilog.utils.util as util
        with repo(), quiet():
            text = str(n)
            p = text.split(".")
            again = [util.toTermname(text), util.toTermname(p), util.toTermname(tuple(p))]
            found = [x == n and n == x and {n: 1}.get(x) == 1 for x in again]
            scope = str(util.getScope(n))
        if text != nametext(n):
            ctx.violation("name-text", "%s prints as %s" % (nametext(n), text), text)
            return False
        ctx.count("names-read")
        if not all(found):
            ctx.violation("name-lookup", "%s is found from its text, list and tuple: %s" % (text, found), text)
            return False
        if scope != text.rpartition(".")[0]:
            ctx.violation("name-scope", "the scope of %s is %s" % (text, scope), text)
            return False
        return True

    def run(self, case, ctx):
        rng = core.rng_for(self.prop, ctx.seed, case)
        self.last_source = None
        if case[0] == "random":
            self.random(case, ctx, rng)
            return
        if case[0] == "design":
            rng, g = self.make(case, ctx)
            text = g.text
        else:
            text = elab.Gen(rng).text
        self.last_source = text
        a, terms, binds = analyze(text, self.scratch)
        names = list(terms)
        for n in names:
            if not self.record(ctx, "term", terms[n]) or not self.name(ctx, n):
                return
        for n in binds:
            for b in binds[n]:
                if not self.record(ctx, "bind", b):
                    return
        ctx.count("designs")
        texts = {str(n) for n in names}
        if len(texts) != len(names):
            ctx.violation("names-alike", "signals with the same printed name: %s" % sorted(str(n) for n in names), text)
        if len(ctx.samples) < 1 and len(text) < 1200:
            ctx.sample(text)

    def minimums(self, tier):
        c = self.counts[tier]
        return {"printed:tree": 5 * c, "printed:bind": 8 * c, "printed:term": 8 * c, "name-pairs": 50 * c, "names-read": 10 * c, "designs": c // 2,
                "distinct_nontrivial": 4 * c}


if __name__ == "__main__":
    core.main("P25", Check())
