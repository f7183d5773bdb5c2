import copy, io
from syntax_common import *


def fields(n):
    return [(k, v) for k, v in vars(n).items() if k not in ("lineno", "end_lineno")]


def isnode(x):
    from pyverilog.vparser.ast import Node
    return isinstance(x, Node)


def kids(n):
    """every node in a field of n, by reflection"""
    out = []
    for k, v in fields(n):
        for x in (v if isinstance(v, (list, tuple)) else [v]):
            if isnode(x):
                out.append(x)
    return out


def everything(n):
    out, todo = [], [n]
    while todo:
        x = todo.pop()
        out.append(x)
        todo.extend(kids(x))
    return out


def dfgen(rng, d):
    """a random definition tree"""
    from pyverilog.dataflow import dataflow as df
    from pyverilog.utils.scope import ScopeChain, ScopeLabel

    def opt(p=0.6):
        return dfgen(rng, d - 1) if rng.random() < p else None
    name = ScopeChain([ScopeLabel("top", "module"), ScopeLabel(rng.choice("abc"), "signal")])
    k = rng.randrange(12 if d > 0 else 5)
    if k == 0:
        return df.DFIntConst(rng.choice(["0", "1", "4'd1", "4'b0001"]))
    if k == 1:
        return rng.choice([df.DFFloatConst, df.DFStringConst])(rng.choice(["1.5", "1"]))
    if k == 2:
        return df.DFEvalValue(rng.choice([0, 1, 2]), rng.choice([1, 32]))
    if k == 3:
        return rng.choice([df.DFUndefined, df.DFHighImpedance])(rng.choice([1, 8]))
    if k == 4:
        return df.DFTerminal(name)
    sub = lambda: dfgen(rng, d - 1)
    if k == 5:
        o = rng.choice(["Plus", "Minus", "Uminus", "Unot"])
        return df.DFOperator(tuple(sub() for i in range(1 if o[0] == "U" else 2)), o)
    if k == 6:
        return df.DFPartselect(sub(), opt(0.8), opt(0.8))
    if k == 7:
        return df.DFPointer(sub(), sub())
    if k == 8:
        return df.DFConcat(tuple(sub() for i in range(rng.randrange(1, 4))))
    if k == 9:
        return df.DFBranch(opt(0.9), opt(), opt())
    if k == 10:
        return df.DFDelay(sub())
    return df.DFSyscall(rng.choice(["signed", "time"]), tuple(sub() for i in range(rng.randrange(1, 3))))


def dfdump(n):
    from pyverilog.dataflow.dataflow import DFNode
    if isinstance(n, DFNode):
        return (type(n).__name__, tuple((k, dfdump(v)) for k, v in sorted(vars(n).items())))
    if isinstance(n, (list, tuple)):
        return ("seq",) + tuple(dfdump(x) for x in n)
    if isinstance(n, (set, frozenset)):
        return ("set",) + tuple(sorted(n))
    return repr(n)


def rename(d, ids):
    """renamed dump"""
    if isinstance(d, list):
        return [rename(x, ids) for x in d]
    if isinstance(d, dict):
        d = {k: rename(v, ids) for k, v in d.items()}
        if d.get("class") == "Identifier" and d["name"] in ids:
            d["name"] = ids[d["name"]]
        return d
    return d


class Check(SynCheck):
    prop = "P24"
    rule = ("trees of generated sources: children, visitors and listing against reflection over the fields, equality and hashes of the "
            "same source laid out twice and of trees that differ in one place, pairs of subtrees, identifier lists and renamings "
            "(partial, swapping, chained); random definition trees "
            "and signal records: children, equality, hashes; non-trivial: distinct syntax trees of more than 25 nodes and definition trees of several nodes")
    assumptions = ["the fields of a node are its public attributes other than line numbers"]
    counts = {"quick": 3000, "thorough": 40000}

    def minimums(self, tier):
        q = {"quick": 1, "thorough": 25}[tier]
        return {"nodes": 120000 * q, "mutations": 5600 * q, "subtree-pairs": 16000 * q, "renamings": 3200 * q, "identifiers": 16000 * q,
                "mut:move": 50 * q, "mut:drop": 240 * q, "mut:attr": 240 * q, "mut:swap": 160 * q, "mut:class": 160 * q, "mut:lines": 160 * q,
                "definition-nodes": 7000 * q, "definition-pairs-equal": 2500 * q, "definition-pairs-different": 6000 * q, "signal-pairs": 10000 * q, "definition-records-equal": 1000 * q, "records-read": 1000 * q}

    def definitions(self, case, ctx, rng):
        """definition trees, signal records: children, equality and hashes"""
        from pyverilog.dataflow import dataflow as df
        trees = [dfgen(rng, rng.randrange(4)) for i in range(12)]
        small = [dfgen(rng, 1) for i in range(20)]
        todo = list(trees)
        while todo:
            n = todo.pop()
            ctx.count("definition-nodes")
            ctx.count("class:" + type(n).__name__)
            want = [x for v in vars(n).values() for x in (v if isinstance(v, (list, tuple)) else [v]) if isinstance(x, df.DFNode)]
            with repo(), quiet():
                c = n.children()
            if sorted(map(id, c)) != sorted(map(id, want)):
                return ctx.violation("children:" + type(n).__name__, "%s: children() gives %s, its fields hold %s" % (dfdump(n), c, want), str(dfdump(n)))
            seqs = [v for v in vars(n).values() if isinstance(v, (list, tuple))]
            if len(seqs) == 1 and len(want) == len(seqs[0]) and [id(x) for x in c] != [id(x) for x in seqs[0]]:
                return ctx.violation("order:" + type(n).__name__, "children() of %s reorders them" % (dfdump(n),), str(dfdump(n)))
            todo.extend(want)
        for t in trees:
            if len(str(dfdump(t))) > 200:
                ctx.nontrivial(str(dfdump(t)))
            pairs = [(t, copy.deepcopy(t))] + [(t, rng.choice(trees + small)) for i in range(3)]
            m = copy.deepcopy(t)
            sites, todo = [], [m]
            while todo:
                n = todo.pop()
                sites.append(n)
                todo.extend(x for v in vars(n).values() for x in (v if isinstance(v, (list, tuple)) else [v]) if isinstance(x, df.DFNode))
            n = rng.choice(sites)
            k, v = rng.choice(sorted(vars(n).items()))
            if isinstance(v, df.DFNode) or v is None and type(n) in (df.DFBranch, df.DFPartselect):
                setattr(n, k, rng.choice(small + [None] * 5) if type(n) in (df.DFBranch, df.DFPartselect) else rng.choice(small))
            elif isinstance(v, tuple):
                i = rng.randrange(len(v))
                setattr(n, k, v[:i] + (rng.choice(small),) + v[i + rng.randrange(2):])
            elif isinstance(v, str):
                setattr(n, k, v + "0")
            elif isinstance(v, bool):
                setattr(n, k, not v)
            elif isinstance(v, int):
                setattr(n, k, v + 1)
            pairs.append((t, m))
            for a, b in pairs:
                same = dfdump(a) == dfdump(b)
                ctx.count("definition-pairs-" + ("equal" if same else "different"))
                if not self.eq(ctx, a, b, same, "%s and %s" % (dfdump(a), dfdump(b)), "%s\n%s" % (dfdump(a), dfdump(b))):
                    return
        from pyverilog.utils.scope import ScopeChain, ScopeLabel
        terms = []
        for i in range(8):
            name = ScopeChain([ScopeLabel("top", "module"), ScopeLabel(rng.choice("ab"), "signal")])
            w = lambda: df.DFIntConst(str(rng.randrange(2)))
            terms.append(df.Term(name, set(rng.sample(["Input", "Output", "Reg", "Wire"], rng.randrange(1, 3))), w(), w(),
                                 rng.choice([None, ((w(), w()),)])))
        from pyverilog.dataflow.visit import AlwaysInfo
        from pyverilog.vparser import ast as va
        records = [("signal", t) for t in terms]
        few = [dfgen(rng, 0) for i in range(2)]
        names = [t.name for t in terms[:2]]
        for i in range(10):
            o = lambda p=0.5: rng.choice(few) if rng.random() < p else None
            info = None
            if rng.random() < 0.8:
                info = AlwaysInfo(rng.choice(names + [None]), rng.choice(["posedge", "negedge"]), rng.choice([0, 0, 1]), rng.choice(names + [None]),
                                  rng.choice(["posedge", None]), 0, [va.Sens(va.Identifier(rng.choice("ab"), lineno=i), lineno=i)] if rng.random() < 0.3 else [])
            m = o()
            records.append(("definition", df.Bind(rng.choice(few), rng.choice(names), m, m, o(0.2), info, rng.choice(["", "parameter", "assign"]))))
        for kind, a in records:
            near = copy.deepcopy(a)
            k, v = rng.choice(sorted(vars(near).items()))
            if isinstance(v, AlwaysInfo) and kind == "definition":
                k = rng.choice(sorted(vars(v)))
                setattr(v, k, {"senslist": [], "clock_edge": "level", "reset_edge": "level"}.get(k, names[0] if "name" in k else 2))
            elif k in ("tree", "msb", "lsb", "ptr"):
                setattr(near, k, rng.choice(few + [None, None]) if k != "tree" else rng.choice(small))
            for b in [r for l, r in records if l == kind] + [copy.deepcopy(a), near]:
                same = self.fieldsof(a) == self.fieldsof(b)
                ctx.count(kind + "-pairs")
                if kind == "definition" and same:
                    ctx.count("definition-records-equal")
                if not self.eq(ctx, a, b, same, "two %s records" % kind, "%r\n%r" % (self.fieldsof(a), self.fieldsof(b))):
                    return
            if kind == "definition":
                info = a.alwaysinfo
                with repo(), quiet():
                    got = [a.getClockName(), a.getClockEdge(), a.getClockBit(), a.getResetName(), a.getResetEdge(), a.getResetBit(), a.getSenslist()]
                want = [""] * 7 if info is None else [info.clock_name, info.clock_edge, info.clock_bit, info.reset_name, info.reset_edge, info.reset_bit, info.senslist]
                if got != want:
                    return ctx.violation("record", "a definition record reports %r, it holds %r" % (got, want), repr(self.fieldsof(a)))
                ctx.count("records-read")

    def fieldsof(self, x):
        """fields of a record, structurally"""
        from pyverilog.dataflow.visit import AlwaysInfo
        return {k: self.fieldsof(v) if isinstance(v, AlwaysInfo) else [astdump.dump(s) for s in v] if k == "senslist" else dfdump(v)
                for k, v in vars(x).items()}

    def run(self, case, ctx):
        if case % 5 == 4:
            return self.definitions(case, ctx, core.rng_for(self.prop, ctx.seed, case))
        from pyverilog.dataflow.visit import NodeVisitor
        from pyverilog.utils.identifiervisitor import getIdentifiers
        from pyverilog.utils.identifierreplace import replaceIdentifiers
        rng = core.rng_for(self.prop, ctx.seed, case)
        g = self.gen(rng)
        toks, exp = g.source(nmod=1, nitems=rng.randrange(1, 7))
        text, direc = syn.layout(toks, rng, style="mixed")
        text2, direc = syn.layout(toks, rng, style="mixed")
        self.last_source = text
        p, t = parse_text(text)
        p, t2 = parse_text(text2)
        nodes = everything(t)
        ctx.count("nodes", len(nodes))
        if len(nodes) > 25:
            ctx.nontrivial(" ".join(x.text for x in toks))
        if rng.random() < 0.05:
            ctx.sample("%d nodes, %s" % (len(nodes), text[:300]))
        for n in nodes:
            ctx.count("class:" + type(n).__name__)

        # children
        for n in nodes:
            with repo(), quiet():
                c = n.children()
            want = kids(n)
            if sorted(map(id, c)) != sorted(map(id, want)):
                missing = [x for x in want if not any(x is y for y in c)]
                return ctx.violation("children:" + type(n).__name__, "%s: children() gives %s, its fields hold %s; missing %s" % (
                    type(n).__name__, [type(x).__name__ for x in c], [type(x).__name__ for x in want], [syn.describe(x) for x in missing]), text)
            pos = {id(x): i for i, x in enumerate(c)}
            for k, v in fields(n):
                if isinstance(v, (list, tuple)) and len({id(x) for x in v}) == len(v):
                    o = [pos[id(x)] for x in v if id(x) in pos]
                    if o != sorted(o):
                        return ctx.violation("order:" + type(n).__name__, "children() of %s reorders %s" % (type(n).__name__, k), text)

        # preorder by children: what visitors, listings and identifier lists have to give
        pre = []

        def walk(n, d):
            pre.append((n, d))
            for c in n.children():
                walk(c, d + 1)
        walk(t, 0)
        if len(pre) != len(nodes):
            return ctx.violation("walk", "%d nodes by children, %d in the fields" % (len(pre), len(nodes)), text)
        seen, called = [], []

        class V(NodeVisitor):
            def generic_visit(self, n):
                seen.append(n)
                NodeVisitor.generic_visit(self, n)

            def visit_Identifier(self, n):
                called.append(n)
                seen.append(n)
                for c in n.children():
                    self.visit(c)
        with repo(), quiet():
            V().visit(t)
        if [id(x) for x in seen] != [id(n) for n, d in pre] or any(type(n).__name__ != "Identifier" for n in called):
            return ctx.violation("visitor", "a visitor saw %d nodes of %d or in another order" % (len(seen), len(pre)), text)
        b = io.StringIO()
        with repo(), quiet():
            t.show(buf=b)
        lines = b.getvalue().split("\n")
        # the index of a scope label is written on its line
        listed = []

        def lst(n, d):
            listed.append((n, d))
            for c in n.children():
                if not (type(n).__name__ == "IdentifierScopeLabel" and c is n.loop):
                    lst(c, d + 1)
        lst(t, 0)
        if " at 0x" in b.getvalue():
            return ctx.violation("listing-address", "an address in the listing: %r" % [l for l in lines if " at 0x" in l][:3], text)
        # names and strings stay on one line
        if len(lines) - 1 == len(listed):
            for l, (n, d) in zip(lines, listed):
                if not l.startswith("  " * d + type(n).__name__ + ": "):
                    return ctx.violation("listing", "listing line %r for %s at depth %d" % (l, type(n).__name__, d), text)
                line = " (from %s to %s)" % (n.lineno, n.end_lineno) if hasattr(n, "end_lineno") else " (at %s)" % n.lineno
                if not l.endswith(line):
                    return ctx.violation("listing-line", "listing line %r ends without%s" % (l, line), text)
                for k, v in fields(n):
                    if isinstance(v, str) and k in ("name", "value", "module", "syscall") and v not in l:
                        return ctx.violation("listing-value", "listing line %r without %s %r" % (l, k, v), text)
                if type(n).__name__ == "IdentifierScopeLabel" and n.loop is not None:
                    ctx.count("listed-scope-indices")
                    for x in everything(n.loop):
                        if type(x).__name__ == "Identifier" and x.name not in l:
                            return ctx.violation("listing-index", "listing line %r without index %s" % (l, syn.describe(n.loop)), text)
            ctx.count("listing-lines", len(listed))
        elif not any("\n" in str(v) for n, d in listed for k, v in fields(n)):
            return ctx.violation("listing", "%d lines for %d nodes" % (len(lines) - 1, len(listed)), text)

        # identifiers
        for n in [t] + [rng.choice(nodes) for i in range(4)]:
            with repo(), quiet():
                ids = list(getIdentifiers(n))
            want = []

            def names(x):
                if type(x).__name__ == "Identifier":
                    want.append(x.name)
                for c in x.children():
                    names(c)
            names(n)
            ctx.count("identifiers", len(want))
            if ids != want:
                return ctx.violation("identifiers", "%s: reported %r, present %r" % (syn.describe(n), ids[:30], want[:30]), text)

        # equality
        D = {}

        def dump(n):
            if id(n) not in D:
                D[id(n)] = astdump.dump(n)
            return D[id(n)]
        if not self.eq(ctx, t, t2, True, "the same source laid out twice", text):
            return
        by = {}
        for n in nodes:
            by.setdefault(type(n).__name__, []).append(n)
        groups = [v for v in by.values() if len(v) > 1]
        for i in range(25 if groups else 0):
            a, c = rng.sample(rng.choice(groups), 2)
            same = dump(a) == dump(c)
            ctx.count("subtree-pairs")
            ctx.count("subtree-pairs-equal" if same else "subtree-pairs-different")
            if not self.eq(ctx, a, c, same, "%s and %s" % (syn.describe(a), syn.describe(c)), text):
                return
        for i in range(6):
            m = copy.deepcopy(t2)
            what = self.mutate(rng, m)
            if what is None:
                continue
            ctx.count("mutations")
            ctx.count("mut:" + what[0])
            same = astdump.dump(m) == astdump.dump(t2)
            if what[0] == "lines" and not same:
                raise core.HarnessError("dump depends on lines")
            if not self.eq(ctx, t, m, same, "a tree and its copy with %s" % what[1], text):
                return

        # renaming
        names = sorted({x.name for x in nodes if type(x).__name__ == "Identifier"})
        for i in range(4 if names else 0):
            sub = [n for n in names if rng.random() < rng.choice([0.3, 1])] or names[:1]
            k = rng.random()
            if k < 0.4:
                other = sub[:]
                rng.shuffle(other)
                ids = dict(zip(sub, other))
            elif k < 0.6:
                ids = dict(zip(sub, sub[1:] + ["zz_last"]))
            elif k < 0.9:
                ids = {n: "zz_%d" % j for j, n in enumerate(sub)}
            else:
                ids = {"zz_none": "zz_other"}
            m = copy.deepcopy(t2)
            before = astdump.dump(m)
            given = dict(ids)
            with repo(), quiet():
                r = replaceIdentifiers(m, ids)
            ctx.count("renamings")
            if ids != given:
                return ctx.violation("rename:map-changed", "the map %r became %r" % (given, ids), text)
            d = astdump.diff(astdump.dump(r), rename(before, ids))
            if d:
                return ctx.violation("rename", "renamed by %r: %s" % (ids, d), text)

    def eq(self, ctx, a, b, same, what, text):
        try:
            with repo(), quiet():
                r = (a == b, b == a, not (a != b), not (b != a))
                h = (hash(a), hash(b))
        except core.RepoError as e:
            ctx.violation("equality-raised", "%s: %s" % (what, e.exc), text)
            return False
        if set(r) != {same}:
            ctx.violation("equal" if not same else "unequal", "%s: a == b, b == a, not a != b, not b != a are %r" % (what, r), text)
            return False
        if same and h[0] != h[1]:
            ctx.violation("hash", "%s: equal with different hashes" % what, text)
            return False
        return True

    def mutate(self, rng, t):
        nodes = everything(t)
        kind = rng.choice(["attr", "drop", "swap", "move", "class", "lines", "move", "dup", "tail"])
        rng.shuffle(nodes)
        for n in nodes:
            f = fields(n)
            rng.shuffle(f)
            c = type(n).__name__
            if kind == "lines":
                n.lineno = n.lineno + 7
                return kind, "another line in %s" % c
            if kind == "class":
                from pyverilog.vparser import ast
                alt = {"Plus": "Minus", "Wire": "Reg", "And": "Or", "Input": "Output", "Parameter": "Localparam", "IntConst": "StringConst",
                       "BlockingSubstitution": "NonblockingSubstitution", "Always": "AlwaysFF", "Uminus": "Unot", "CaseStatement": "CasexStatement",
                       "Eq": "NotEq", "Land": "Lor", "Concat": "LConcat", "Lvalue": "Rvalue", "Block": "ParallelBlock", "Initial": "ForeverStatement"}
                if c in alt:
                    n.__class__ = getattr(ast, alt[c])
                    return kind, "%s in place of %s" % (alt[c], c)
            for k, v in f:
                seq = isinstance(v, (list, tuple))
                if kind == "attr" and isinstance(v, str) and v:
                    setattr(n, k, v + "x")
                    return kind, "%s.%s changed" % (c, k)
                if kind == "attr" and isinstance(v, bool):
                    setattr(n, k, not v)
                    return kind, "%s.%s changed" % (c, k)
                if kind == "drop" and isnode(v):
                    setattr(n, k, None)
                    return kind, "%s.%s left out" % (c, k)
                if kind == "drop" and seq and len(v):
                    i = rng.randrange(len(v))
                    setattr(n, k, type(v)(list(v)[:i] + list(v)[i + 1:]))
                    return kind, "element %d of %s.%s left out" % (i, c, k)
                if kind == "tail" and seq and len(v):
                    setattr(n, k, type(v)(list(v)[:-1]))
                    return "drop", "the last element of %s.%s left out" % (c, k)
                if kind == "dup" and seq and len(v):
                    setattr(n, k, type(v)(list(v) + [v[-1]]))
                    return kind, "the last element of %s.%s repeated" % (c, k)
                if kind == "swap" and seq and len(v) > 1:
                    i, j = rng.sample(range(len(v)), 2)
                    l = list(v)
                    l[i], l[j] = l[j], l[i]
                    setattr(n, k, type(v)(l))
                    return kind, "elements %d and %d of %s.%s exchanged" % (i, j, c, k)
                if kind == "move" and isnode(v):
                    empty = [k2 for k2, v2 in f if v2 is None]
                    if empty:
                        k2 = rng.choice(empty)
                        setattr(n, k, None)
                        setattr(n, k2, v)
                        return kind, "%s.%s moved to %s" % (c, k, k2)
        return None


if __name__ == "__main__":
    core.main("P24", Check())
