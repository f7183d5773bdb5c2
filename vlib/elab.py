"""Generated hierarchies with the elaboration they must have: parameters, declarations of every kind, instances, generate constructs."""
import random


class E(object):
    """constant expression: text and value under an environment"""
    def __init__(self, text, fn):
        self.text, self.fn = text, fn


def lit(v):
    return E(str(v), lambda env, v=v: v)


def ref(n):
    return E(n, lambda env, n=n: env[n])


class Mod(object):
    def __init__(self, name):
        self.name, self.params, self.ports, self.items, self.funcs, self.text = name, [], [], [], [], None


class Gen(object):
    def __init__(self, rng, depth=3, mods=4, const=None):
        self.r, self.n, self.depth = rng, 0, depth
        self.const = const or self.small
        self.ticks = {}
        self.mods = []
        k = rng.randint(1, mods)
        for i in range(k):
            self.mods.append(self.module("top" if i == k - 1 else self.name("mod"), list(self.mods)))
        self.top = self.mods[-1]
        order = list(self.mods)
        rng.shuffle(order)
        self.text = "\n".join(m.text for m in order)
        self.instances, self.signals, self.simpath = [], [], {}
        self.elab(self.top, "top", {}, "top")

    def tick(self, k):
        self.ticks[k] = self.ticks.get(k, 0) + 1

    def name(self, base):
        self.n += 1
        return "%s%d" % (base, self.n)

    def p(self, x):
        return self.r.random() < x

    # ------------------------------------------------------------ constant expressions with values 1..~20
    def small(self, names, lo=1):
        r = self.r
        k = r.random()
        if not names or k < 0.3:
            return lit(r.randint(lo, 6))
        n = ref(r.choice(names))
        if k < 0.6:
            return n
        j = r.randint(1, 3)
        c = r.choice(["+", "*", "?", "<<", "max", "+", "*", "?", "<<", "max", "clog2", "signed"])
        if c == "clog2":
            self.tick("clog2")
            return E("$clog2(%s + %d)" % (n.text, j), lambda e: (n.fn(e) + j - 1).bit_length())
        if c == "signed":
            return E("$signed(%s)" % n.text, n.fn)
        if c == "+":
            return E("%s + %d" % (n.text, j), lambda e: n.fn(e) + j)
        if c == "*":
            return E("%d * %s" % (j, n.text), lambda e: n.fn(e) * j)
        if c == "<<":
            return E("1 << (%s %% 4)" % n.text, lambda e: 1 << (n.fn(e) % 4))
        m = ref(r.choice(names))
        if c == "?":
            return E("(%s > %d) ? %s : %d" % (n.text, j, m.text, j), lambda e: m.fn(e) if n.fn(e) > j else j)
        return E("(%s < %s) ? %s : %s" % (n.text, m.text, m.text, n.text), lambda e: max(n.fn(e), m.fn(e)))

    def rng(self, names):
        """a declared range -> (text, fn(env) -> (msb, lsb)) or None"""
        r = self.r
        if self.p(0.3):
            return None
        a = self.small(names)
        k = r.random()
        if k < 0.5:
            return "[%s-1:0]" % (a.text if a.text.isidentifier() or a.text.isdigit() else "(%s)" % a.text), lambda e: (a.fn(e) - 1, 0)
        j = r.randint(0, 4)
        if k < 0.7:
            return "[%s:%d]" % ("(%s)+%d" % (a.text, j), j), lambda e: (a.fn(e) + j, j)
        if k < 0.85:
            self.tick("ascending")
            return "[%d:%s]" % (j, "(%s)+%d" % (a.text, j)), lambda e: (j, a.fn(e) + j)
        return "[%d:0]" % j, lambda e: (j, 0)

    def dims(self, names):
        if not self.p(0.2):
            return None
        self.tick("memory")
        a = self.small(names)
        if self.p(0.7):
            return " [0:%s]" % a.text, lambda e: (0, a.fn(e))
        return " [(%s)+1:1]" % a.text, lambda e: (a.fn(e) + 1, 1)

    # ------------------------------------------------------------ modules
    def module(self, name, lib):
        r = self.r
        m = Mod(name)
        names, head = [], []
        ansi = self.p(0.5)
        body = []
        inhead = ansi and self.p(0.6)
        for i in range(r.randint(0, 4)):
            n = self.name("P")
            e = self.const(names)
            m.params.append(("Parameter", n, e))
            (head if inhead else body).append("parameter %s = %s" % (n, e.text))
            names.append(n)
        if not inhead:
            body = self.group(body)
        for i in range(r.randint(0, 2)):
            n = self.name("L")
            e = self.const(names)
            m.params.append(("Localparam", n, e))
            body.append("localparam %s = %s;" % (n, e.text))
            names.append(n)
            self.tick("localparam")
        visible = [n for k, n, e in m.params if k == "Parameter"] if inhead else ([] if ansi else names)
        decl = []
        ports = []
        for i in range(r.randint(1, 5)):
            d = r.choice(["input", "output", "inout"])
            n = self.name(d[0])
            rg = self.rng(visible)
            kind = r.choice(["", "", "wire"]) if d != "output" else r.choice(["", "wire", "reg", "reg"])
            kinds = {d.capitalize()} | ({kind.capitalize()} if kind else set())
            sgn = r.choice(["", "", "", "signed"])
            m.ports.append(n)
            m.items.append(("sig", n, kinds, rg, None))
            t = rg[0] if rg else ""
            if ansi:
                ports.append(" ".join(x for x in (d, kind, sgn, t, n) if x))
            else:
                ports.append(n)
                decl.append(" ".join(x for x in (d, sgn, t, n) if x) + ";")
                if kind:
                    decl.append(" ".join(x for x in (kind, sgn, t, n) if x) + ";")
                    self.tick("port-with-net")
        out = ["module %s %s(%s);" % (name, "#(%s) " % ", ".join(head) if head else "", ", ".join(ports))]
        out += ["  " + x for x in body + decl]
        out += ["  " + x for x in self.body(m.items, names, lib, 0, {"for": 0})]
        out.append("endmodule")
        m.text = "\n".join(out) + "\n"
        return m

    def group(self, decls):
        out = []
        for d in decls:
            if out and self.p(0.4):
                out[-1] = out[-1][:-1] + ", " + d[len("parameter "):] + ";"
            else:
                out.append(d + ";")
        return out

    def body(self, items, names, lib, depth, ctx):
        r, out = self.r, []
        for i in range(r.randint(1, 6) if depth == 0 else r.randint(1, 3)):
            k = r.random()
            if k < 0.45:
                out += self.sigdecl(items, names)
            elif k < 0.65 and lib:
                out += self.inst(items, names, lib, depth)
            elif k < 0.75:
                out += self.proc(items, names, depth)
            elif k < 0.95 and depth < self.depth:
                if ctx.get("gen"):
                    out += self.generate(items, names, lib, depth, ctx)
                else:
                    out.append("generate")
                    c = dict(ctx, gen=True)
                    for j in range(r.randint(1, 2)):
                        out += ["  " + x for x in self.generate(items, names, lib, depth, c)]
                    out.append("endgenerate")
            elif depth == 0:
                out += self.func(names)
            else:
                out += self.sigdecl(items, names)
        return out

    def sigdecl(self, items, names):
        r = self.r
        kind = r.choice(["wire", "reg", "wire", "reg", "integer", "tri"])
        if kind == "integer":
            ns = [self.name("n") for i in range(r.randint(1, 2))]
            for n in ns:
                items.append(("sig", n, {"Integer"}, "integer", None))
            self.tick("integer")
            return ["integer %s;" % ", ".join(ns)]
        rg = self.rng(names)
        sg = "signed " if self.p(0.15) else ""
        parts = []
        for i in range(r.choice([1, 1, 2, 3])):
            n = self.name(kind[0])
            dm = self.dims(names) if kind in ("wire", "reg") else None
            items.append(("sig", n, {kind.capitalize()}, rg, dm))
            parts.append(n + (dm[0] if dm else ""))
        if kind == "wire" and len(parts) == 1 and "[" not in parts[0] and self.p(0.2):
            parts[0] += " = %d" % r.randint(0, 1)
        return ["%s %s%s%s;" % (kind, sg, rg[0] + " " if rg else "", ", ".join(parts))]

    def inst(self, items, names, lib, depth):
        r = self.r
        m = r.choice(lib)
        out = []
        for j in range(r.choice([1, 1, 1, 2])):
            n = self.name("u")
            ps = [(pn) for k, pn, e in m.params if k == "Parameter"]
            over, t = {}, ""
            if ps and self.p(0.7):
                if self.p(0.5):
                    some = ps[:r.randint(1, len(ps))]
                    es = [self.const(names) for x in some]
                    t = "#(%s) " % ", ".join(e.text for e in es)
                    self.tick("ordered-override")
                else:
                    some = r.sample(ps, r.randint(1, len(ps)))
                    es = [self.const(names) for x in some]
                    t = "#(%s) " % ", ".join(".%s(%s)" % (x, e.text) for x, e in zip(some, es))
                    self.tick("named-override")
                over = dict(zip(some, es))
            arr, at = None, ""
            if self.p(0.15):
                lo, hi = r.randint(0, 2), r.randint(1, 2)
                arr = (lo + hi, lo)
                at = " [%d:%d]" % arr
                if self.p(0.5):
                    at = " [%d:%d]" % arr[::-1]
                self.tick("instance-array")
            items.append(("inst", n, m, over, arr))
            self.tick("instance")
            out.append("%s %s%s%s();" % (m.name, t, n, at))
        return out

    def proc(self, items, names, depth):
        n = self.name("b")
        self.tick("procedure")
        if self.p(0.5):
            return ["always @* begin : %s" % n, "end"]
        return ["initial begin", "end"]

    def func(self, names):
        """functions keep their arguments and variables to themselves"""
        r = self.r
        f = self.name("f")
        a, l = self.name("a"), self.name("v")
        rg = self.rng(names)
        self.tick("function")
        return ["function %s%s;" % (rg[0] + " " if rg else "", f), "  input %s;" % a, "  %s %s;" % (r.choice(["reg", "integer", "reg [3:0]"]), l),
                "  begin", "    %s = %s; %s = %s;" % (l, a, f, l), "  end", "endfunction"]

    def generate(self, items, names, lib, depth, ctx):
        r = self.r
        if self.p(0.55):
            v, b = self.name("gv"), self.name("g")
            e = self.small(names)
            lo, step = r.choice([(0, 1), (0, 1), (1, 1), (0, 2)])
            its, t = self.body_of(names + [v], lib, depth, ctx)
            anon = self.p(0.1)
            count = E("(%s) %% 4" % e.text, lambda env: e.fn(env) % 4)
            hi = E("%d + %s" % (lo, count.text), lambda env: lo + count.fn(env))
            items.append(("for", None if anon else b, v, lambda env: range(lo, hi.fn(env), step), its))
            self.tick("generate-for")
            return ["genvar %s;" % v, "for (%s = %d; %s < %s; %s = %s + %d) begin%s" % (v, lo, v, hi.text, v, v, step, "" if anon else " : " + b)] + \
                ["  " + x for x in t] + ["end"]
        self.tick("generate-if")
        return self.genif(items, names, lib, depth, ctx)

    def genif(self, items, names, lib, depth, ctx):
        r = self.r
        if names and self.p(0.9):
            n, j = ref(r.choice(names)), r.randint(1, 5)
            op = r.choice(["==", "!=", "<", ">", "<=", ">="])
            f = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, ">": lambda a, b: a > b,
                 "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}[op]
            c = E("%s %s %d" % (n.text, op, j), lambda e: f(n.fn(e), j))
            if self.p(0.3):
                form = r.choice(["%s - %d", "!(%s - %d)", "%s && (%s - %d)", "-(%s == %d)"])
                c = {"%s - %d": E("%s - %d" % (n.text, j), lambda e: n.fn(e) != j),
                     "!(%s - %d)": E("!(%s - %d)" % (n.text, j), lambda e: n.fn(e) == j),
                     "-(%s == %d)": E("-(%s == %d)" % (n.text, j), lambda e: n.fn(e) == j),
                     "%s && (%s - %d)": E("%s && (%s - %d)" % (n.text, n.text, j), lambda e: n.fn(e) != 0 and n.fn(e) != j)}[form]
                self.tick("generate-arithmetic-condition")
        else:
            c = r.choice([lit(0), lit(1), E("-1", lambda e: 1), E("1 - 3", lambda e: 1)]) if self.p(0.5) else lit(r.randint(0, 1))
        ts, tt = self.body_of(names, lib, depth, ctx)
        tn = self.name("t") if self.p(0.85) else None
        out = ["if (%s) begin%s" % (c.text, " : " + tn if tn else "")] + ["  " + x for x in tt] + ["end"]
        fs, fn = None, None
        if self.p(0.6):
            if self.p(0.3):
                chain = []
                ft = self.genif(chain, names, lib, depth, ctx)
                out[-1] += " else " + ft[0]
                out += ft[1:]
                items.append(("if", c, tn, ts, "chain", chain))
                return out
            fs, ft = self.body_of(names, lib, depth, ctx)
            fn = self.name("e") if self.p(0.85) else None
            out[-1] += " else begin%s" % (" : " + fn if fn else "")
            out += ["  " + x for x in ft] + ["end"]
        items.append(("if", c, tn, ts, fn, fs))
        return out

    def body_of(self, names, lib, depth, ctx):
        its = []
        if self.p(0.2) and names:
            n = self.name("L")
            e = self.small(names)
            its.append(("param", n, e))
            t = ["localparam %s = %s;" % (n, e.text)]
            t += self.body(its, names + [n], lib, depth + 1, dict(ctx, gen=True))
            self.tick("scoped-localparam")
            return its, t
        t = self.body(its, names, lib, depth + 1, dict(ctx, gen=True))
        return its, t

    # ------------------------------------------------------------ elaboration
    def elab(self, m, path, over, sp):
        env = {}
        self.simpath[path] = sp         # the simulator writes u[0] for u_0
        self.instances.append((path, m.name))
        for k, n, e in m.params:
            env[n] = over[n] if n in over and k == "Parameter" else e.fn(env)
            self.signals.append((path + "." + n, frozenset([k]), None, None, env[n]))
        self.scope(m.items, path, env, sp)

    def scope(self, items, path, env, sp):
        env = dict(env)
        for it in items:
            if it[0] == "param":
                env[it[1]] = it[2].fn(env)
                self.signals.append((path + "." + it[1], frozenset(["Localparam"]), None, None, env[it[1]]))
            elif it[0] == "sig":
                _, n, kinds, rg, dm = it
                r = None if rg == "integer" else rg[1](env) if rg else (0, 0)
                self.signals.append((path + "." + n, frozenset(kinds), r, dm[1](env) if dm else None, None))
            elif it[0] == "inst":
                _, n, m, over, arr = it
                vals = {k: e.fn(env) for k, e in over.items()}
                for i in ([None] if arr is None else range(arr[1], arr[0] + 1)):
                    self.elab(m, path + "." + n + ("" if i is None else "_%d" % i), vals, sp + "." + n + ("" if i is None else "[%d]" % i))
            elif it[0] == "for":
                _, b, v, rg, its = it
                for k in rg(env):
                    b2 = ".%s[%d]" % (b or "?", k)
                    self.scope(its, path + b2, dict(env, **{v: k}), sp + b2)
            elif it[0] == "if":
                _, c, tn, ts, fn, fs = it
                if c.fn(env):
                    self.scope(ts, path + "." + (tn or "?"), env, sp + "." + (tn or "?"))
                elif fn == "chain":
                    self.scope(fs, path, env, sp)
                elif fs is not None:
                    self.scope(fs, path + "." + (fn or "?"), env, sp + "." + (fn or "?"))
