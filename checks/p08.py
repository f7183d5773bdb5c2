import inspect
from syntax_common import *
from p07 import codegen
from vlib.syn import N, BIN, UN

STMT_KEYS = ("statement", "true_statement", "false_statement")


class Builder(object):
    """expected tree -> nodes built with the public constructors, with nestings no source text would need"""

    def __init__(self, rng, stats):
        import pyverilog.vparser.ast as vast
        self.v = vast
        self.r = rng
        self.stats = stats
        self.memo = {}
        self.gen = False

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def p(self, x):
        return self.r.random() < x

    EXPR = set([c for c, _ in BIN.values()] + list(UN.values()) + ["Cond", "Concat", "Repeat", "IntConst", "FloatConst",
               "StringConst", "Identifier", "Pointer", "Partselect", "IndexedSelect", "FunctionCall", "SystemCall"])

    def rexpr(self, d):
        v, r = self.v, self.r
        k = r.random()
        if d <= 0 or k < 0.12:
            k = r.random()
            if k < 0.6:
                return v.Identifier(r.choice(["a", "b", "state", "\\esc+1", "x$1"]))
            if k < 0.95:
                return v.IntConst(r.choice(["0", "1", "15", "4'b10x1", "8'hfF", "'d3", "3'sb101", "'b1?", "16'hE"]))
            return v.StringConst(r.choice(["s p", "q\\\"", "; ,"]))
        if k < 0.55:
            cls = r.choice(sorted(set(c for c, _ in BIN.values())))
            self.count("built:" + cls)
            return getattr(v, cls)(self.rexpr(d - 1), self.rexpr(d - 1))
        if k < 0.76:
            cls = r.choice(sorted(set(UN.values())) + ["Uplus"])
            self.count("built:" + cls)
            return getattr(v, cls)(self.rexpr(d - 1))
        if k < 0.86:
            self.count("built:Cond")
            return v.Cond(self.rexpr(d - 1), self.rexpr(d - 1), self.rexpr(d - 1))
        if k < 0.90:
            return v.Concat([self.rexpr(d - 1) for _ in range(r.randrange(1, 4))])
        if k < 0.93:
            return v.Repeat(v.Concat([self.rexpr(d - 1) for _ in range(r.randrange(1, 3))]), self.rexpr(d - 1))
        if k < 0.95:
            return v.Pointer(v.Identifier("m"), self.rexpr(d - 1))
        if k < 0.97:
            return v.Partselect(v.Identifier("m"), self.rexpr(d - 1), self.rexpr(d - 1))
        if k < 0.985:
            return v.FunctionCall(v.Identifier("f"), [self.rexpr(d - 1) for _ in range(r.randrange(1, 3))])
        return v.SystemCall("signed", [self.rexpr(d - 1)])

    def build(self, n, key=None):
        # shared parts (one range for several names, one parameter list for several instances) are built once
        if isinstance(n, N):
            if id(n) not in self.memo:
                self.memo[id(n)] = (n, self._build(n, key))
            return self.memo[id(n)][1]
        if isinstance(n, list) and key == "parameterlist":
            if id(n) not in self.memo:
                self.memo[id(n)] = (n, [self.build(x) for x in n])
            return self.memo[id(n)][1]
        return self._build(n, key)

    def _build(self, n, key=None):
        v = self.v
        if n is None or isinstance(n, (str, bool, int)):
            return n
        if isinstance(n, (list, tuple)):
            out = []
            for x in n:
                if isinstance(x, N) and x.cls == "Decl" and key in ("items", "statements", "params") and self.p(0.4) \
                        and not any(y.cls == "Assign" for y in x.f["list"]):
                    out.extend(self.build(y) for y in x.f["list"])      # items given without a Decl around them
                    self.count("bare-declarations")
                    continue
                out.append(self.build(x, key))
            return out if self.p(0.5) else tuple(out)
        if n.cls == "Width" and n.first is None:
            return v.Width(v.IntConst(n.f["msb"].f["value"]), v.IntConst(n.f["lsb"].f["value"]))     # implied range
        if n.cls in self.EXPR and key in ("left", "right", "cond", "comp", "ptr", "msb", "lsb", "delay", "argname", "args", "list",
                                          "true_value", "false_value", "times", "rv") and self.p(0.25):
            return self.rexpr(self.r.choice([1, 2, 3, 4]))
        if n.cls == "Block" and not n.f.get("delayed_if") and n.f["scope"] is None and len(n.f["statements"]) == 1 \
                and key in STMT_KEYS + ("statements",) and self.p(0.7) and n.f["statements"][0].cls not in ("Decl",):
            self.count("unwrapped-blocks")
            return self.build(n.f["statements"][0], key)
        if n.cls == "IndexedSelect":
            b, w = self.build(n.f["base"]), self.build(n.f["width"])
            return v.Partselect(self.build(n.f["var"]), b, w)
        cls = getattr(v, n.cls)
        kw = {}
        names = [p for p in inspect.signature(cls.__init__).parameters if p not in ("self", "lineno")]
        save = getattr(self, "gen", False)
        if n.cls == "GenerateStatement":
            self.gen = True
        elif n.cls.startswith("Always") or n.cls in ("Initial", "Function", "Task"):
            self.gen = False
        for name in names:
            if name in n.f:
                k = "rv" if n.cls == "Rvalue" else ("lv" if n.cls == "Lvalue" else name)
                if n.cls in ("Case",) and name == "cond":
                    k = "args"
                if n.cls in ("Sens", "Repeat") and name in ("sig", "value"):
                    k = "keep"
                if n.cls in ("Assign", "BlockingSubstitution", "NonblockingSubstitution"):
                    k = "keep"
                if n.cls in ("Decl", "LConcat") or n.cls in ("Function", "Task") and name == "statement":
                    k = "keep"
                if n.cls.startswith("Always") and not (n.f.get("sens_list") or n.f["senslist"]).f["list"]:
                    k = "keep"          # "always_comb @(a);" would read the null statement as the event control
                kw[name] = self.build(n.f[name], k)
            elif n.cls == "Source" and name == "name":
                kw[name] = ""
            elif inspect.signature(cls.__init__).parameters[name].default is inspect.Parameter.empty:
                kw[name] = None
        gen, self.gen = self.gen, save          # a generate construct has no empty item to stand for an absent one
        if gen:
            pass
        elif n.cls == "IfStatement" and kw.get("false_statement") is not None and self.p(0.04):
            kw["true_statement"] = None
            self.count("absent-branches")
        elif n.cls in ("ForStatement", "WhileStatement") and self.p(0.04):
            kw["statement"] = None
            self.count("absent-branches")
        if n.cls == "ModuleDef":
            if not n.f["paramlist"].f["params"] and self.p(0.5):
                kw["paramlist"] = None
            if not n.f["portlist"].f["ports"] and self.p(0.5):
                kw["portlist"] = None
        return cls(**kw)


def canon(ast):
    d = astdump.flatten_decls(astdump.dump(ast))
    return norm(astdump.norm_blocks(norm(d)))


def norm(d):
    if isinstance(d, list):
        return [norm(x) for x in d]
    if not isinstance(d, dict):
        return d
    c = d.get("class")
    if c == "Uplus":
        return norm(d["right"])
    d = {k: norm(x) for k, x in d.items()}
    if c == "EventStatement" and d["senslist"] == {"class": "SensList", "list": []}:
        return None
    if c == "ModuleDef":
        d["paramlist"] = d["paramlist"] or {"class": "Paramlist", "params": []}
        d["portlist"] = d["portlist"] or {"class": "Portlist", "ports": []}
    if c == "Real":
        d.pop("width", None)
    if "signed" in d:
        d["signed"] = bool(d["signed"])
    return d


class Check(SynCheck):
    prop = "P08"
    rule = ("trees built through the public constructors: generated module skeletons whose expressions are replaced by random "
            "operator trees (no parentheses intended anywhere), whose single-statement blocks are removed and whose "
            "declarations appear with and without Decl; the generated text must parse to the same tree (begin/end around one "
            "statement, unary plus and declaration grouping aside); non-trivial: distinct generated text of 12 words or more")
    counts = {"quick": 10000, "thorough": 80000}

    def cases(self, tier, seed):
        ops = sorted(set(c for c, _ in BIN.values()))
        uns = sorted(set(UN.values()))
        cs = [["bb", a, b] for a in ops for b in ops] + [["ub", a, b] for a in uns for b in ops] + \
             [["uu", a, b] for a in uns for b in uns] + [["cb", a, ""] for a in ops + uns]
        return cs + [["tree", i, ""] for i in range(self.counts[tier])]

    def small(self, case, v):
        """every operator under every operator, on both sides, in every expression position that drops parentheses"""
        I = lambda s: v.Identifier(s)
        k, a, b = case
        if k == "bb":
            A, B = getattr(v, a), getattr(v, b)
            es = [A(B(I("a"), I("b")), I("c")), A(I("a"), B(I("b"), I("c"))), A(B(I("a"), I("b")), B(I("c"), I("d")))]
        elif k == "ub":
            A, B = getattr(v, a), getattr(v, b)
            es = [A(B(I("a"), I("b"))), B(A(I("a")), I("b")), B(I("a"), A(I("b"))), B(A(I("a")), A(I("b")))]
        elif k == "uu":
            A, B = getattr(v, a), getattr(v, b)
            es = [A(B(I("a"))), A(B(A(I("a"))))]
        else:
            A = getattr(v, a)
            c = v.Cond(I("a"), I("b"), I("c"))
            es = [A(c, I("d")), A(I("d"), c), A(c, c)] if len(inspect.signature(A.__init__).parameters) > 3 else [A(c)]
            es += [v.Cond(e, e, e) for e in es] + [v.Cond(c, v.Cond(c, c, c), c)]
        items = []
        one = v.IntConst("1")
        for e in es:
            items += [v.Assign(v.Lvalue(I("y")), v.Rvalue(e)),
                      v.Assign(v.Lvalue(v.Partselect(I("y"), e, e)), v.Rvalue(v.Pointer(I("m"), e))),
                      v.Assign(v.Lvalue(I("y")), v.Rvalue(v.Concat([e, e, v.Repeat(v.Concat([e]), e)]))),
                      v.Wire("w", v.Width(e, e)), v.Reg("r", None, dimensions=v.Dimensions([v.Length(e, e)])),
                      v.Localparam("p", v.Rvalue(e), v.Width(e, one)),
                      v.Assign(v.Lvalue(I("y")), v.Rvalue(v.FunctionCall(I("f"), [e, e])), v.DelayStatement(e)),
                      v.InstanceList("sub", [v.ParamArg("P", e)], [v.Instance("sub", "u", [v.PortArg("p", e), v.PortArg("q", e)], [v.ParamArg("P", e)])]),
                      v.Always(v.SensList([v.Sens(None, "all")]), v.Block([
                          v.IfStatement(e, v.BlockingSubstitution(v.Lvalue(I("y")), v.Rvalue(e), v.DelayStatement(e), v.DelayStatement(e)), None),
                          v.CaseStatement(e, [v.Case([e, e], v.NonblockingSubstitution(v.Lvalue(I("y")), v.Rvalue(e)))]),
                          v.ForStatement(v.BlockingSubstitution(v.Lvalue(I("i")), v.Rvalue(e)), e,
                                         v.BlockingSubstitution(v.Lvalue(I("i")), v.Rvalue(e)), v.Block([], "s")),
                          v.WhileStatement(e, v.Block([])), v.WaitStatement(e, None),
                          v.SingleStatement(v.SystemCall("display", [e, v.StringConst("x"), e]))]))]
        return v.Source("", v.Description([v.ModuleDef("m", v.Paramlist([v.Parameter("P", v.Rvalue(es[0]))]), v.Portlist([]), items)]))

    def run(self, case, ctx):
        import pyverilog.vparser.ast as vast
        rng = core.rng_for(self.prop, ctx.seed, case)
        ctx.count("kind:" + case[0])
        stats = {}
        if case[0] != "tree":
            ast = self.small(case, vast)
        else:
            cfg = [{}, {"weights": {"always": 40, "initial": 15, "function": 8, "task": 8}, "stmt_depths": [2, 3, 4]},
                   {"depths": [1, 2], "weights": {"assign": 40, "param_item": 20, "instance": 20}}][case[1] % 3]
            g = self.gen(rng, extra_paren=0, indexed=True, **cfg)
            toks, n = g.source()
            b = Builder(rng, stats)
            ast = b.build(n)
        for k, c in stats.items():
            ctx.count(k, c)
        before = astdump.dump(ast)
        self.last_source = None
        t1 = codegen(ast)
        self.last_source = t1
        if astdump.dump(ast) != before:
            ctx.violation("tree-modified", "code generation modified the tree it was given", t1)
        p, ast1 = parse_text(t1)
        d = astdump.diff(canon(ast), canon(ast1))
        if d:
            ctx.violation("tree:" + d.split(": ")[0].split(".")[-1].split("[")[0], d, t1)
            return
        ctx.count("roundtrips")
        if len(t1.split()) > 12:
            ctx.nontrivial(t1)
        if len(ctx.samples) < 2 and 60 < len(t1) < 700:
            ctx.sample(t1)

    def minimums(self, tier):
        return {"roundtrips": self.counts[tier] * 9 // 10, "distinct_nontrivial": self.counts[tier] // 2, "unwrapped-blocks": 200,
                "bare-declarations": 500, "absent-branches": 20, "kind:bb": 500}


if __name__ == "__main__":
    core.main("P08", Check())
