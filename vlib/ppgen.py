"""Sources whose preprocessing is known: a token sequence is hidden in macros, include files, conditional sections and several
files or texts; what the preprocessor must give back is the token sequence itself and the directives that stay."""
import os

KEPT = ["`timescale 1ns/1ps", "`timescale 10 ns / 1 ns", "`default_nettype none", "`default_nettype wire", "`celldefine", "`endcelldefine", "`resetall"]
OPEN, CLOSE = "([{", ")]}"


def text(t):
    return getattr(t, "text", t)


def odd(t):
    """a token that the simulator's preprocessor does not carry through a macro"""
    return t[0] == "\\" or t[0] == '"' and not t[1:-1].isalnum()


def balanced(ts, commas=False):
    d = []
    for t in ts:
        if t in ("(*", "*)") or t[:1] == "\\":
            return False
        if t in OPEN:
            d.append(t)
        elif t in CLOSE:
            if not d or OPEN.index(d.pop()) != CLOSE.index(t):
                return False
        elif t == "," and not commas:
            return False
    return not d


class Sources(object):
    def __init__(self, rng, toks, root, nsrc=None, kinds=("file", "text")):
        self.r = rng
        self.root = root
        self.ticks = {}
        self.n = 0
        self.files = {}                 # path -> text
        self.macros = {}                # defined now: name -> (formals or None, tokens of the expansion or None, macros it uses)
        self.undefined = ["never_%d" % i for i in range(3)]
        self.guards = {}
        self.directives = []
        self.define = []
        self.incdirs = [os.path.join(root, d) for d in rng.sample(["inc", "inc two", "lib"], rng.randrange(1, 4))]
        toks = [text(t) for t in toks]
        self.toks = toks
        self.command_line(toks)
        n = nsrc or rng.choice([1, 1, 2, 3, 4])
        ends = [i + 1 for i, t in enumerate(toks) if t == "endmodule"][:-1]
        cuts = set()
        for i in range(n - 1):
            if ends and rng.random() < 0.8:
                cuts.add(rng.choice(ends))
            else:
                cuts.add(rng.randrange(1, len(toks)))
        cuts = [0] + sorted(cuts) + [len(toks)]
        self.sources = []
        self.order = []
        for i, (a, b) in enumerate(zip(cuts, cuts[1:])):
            buf = Buf()
            self.emit(toks[a:b], buf, 0)
            s = buf.text()
            if rng.random() < 0.4:
                s = s.rstrip("\n")
                last = s.split("\n")[-1]
                # (an unterminated directive, define or comment line would be another text)
                if "`" in last or "//" in last:
                    s += "\n"
                else:
                    self.tick("no-final-newline")
            else:
                s += "\n"
            k = rng.choice(kinds)
            self.order.append(k)
            self.tick("source-" + k)
            if k == "file":
                p = os.path.join(root, rng.choice(["a", "src", "x y", "Z"]) + "_%d.v" % (9 - i if rng.random() < 0.5 else i))
                while p in self.files:
                    p = p[:-2] + "_.v"
                self.files[p] = s
                self.sources.append(p)
            else:
                self.sources.append(s)
        if len(set(self.order)) > 1:
            self.tick("mixed-sources")
        if len(self.order) > 1:
            self.tick("several-sources")

    def tick(self, k):
        self.ticks[k] = self.ticks.get(k, 0) + 1

    def fresh(self, p="M"):
        self.n += 1
        return "%s_%d%s" % (p, self.n, self.r.choice(["", "q", "_W", "$x"[:0]]))

    def command_line(self, toks):
        r = self.r
        words = [t for t in toks if (t.isdigit() or t.isidentifier()) and t.isascii()]
        for i in range(r.choice([0, 1, 2, 3])):
            n = self.fresh("CMD")
            k = r.random()
            if k < 0.4 or not words:
                self.define.append(n)
                self.macros[n] = (None, None, set())
                self.tick("define-flag")
            elif k < 0.9:
                w = r.choice(words)
                self.define.append("%s=%s" % (n, w))
                self.macros[n] = (None, [w], set())
                self.tick("define-value")
            else:
                i = r.randrange(len(toks))
                run = toks[i:i + r.randrange(2, 5)]
                if not any(t[:1] in "\"\\" or "=" in t for t in run):
                    self.define.append("%s=%s" % (n, " ".join(run)))
                    self.macros[n] = (None, run, set())
                    self.tick("define-run")

    # ---- pieces
    def emit(self, toks, buf, depth):
        r = self.r
        i = 0
        while i < len(toks):
            k = r.random()
            n = r.choice([1, 2, 3, 5, 8, 13])
            known = [(m, v[1]) for m, v in self.macros.items() if v[0] is None and v[1] and toks[i:i + len(v[1])] == v[1]]
            if known and r.random() < 0.5:
                m, body = max(known, key=lambda x: len(x[1]))
                buf.put("`" + m + " ")
                self.tick("reuse")
                i += len(body)
                continue
            run = toks[i:i + n]
            i += len(run)
            if k < 0.5:
                self.plain(run, buf)
            elif k < 0.63:
                self.object_macro(run, buf)
            elif k < 0.76:
                self.function_macro(run, buf)
            elif k < 0.86:
                more = toks[i:i + r.choice([0, 5, 20, 60])]
                i += len(more)
                self.conditional(run + more, buf, depth)
            elif k < 0.92:
                more = toks[i:i + r.choice([0, 5, 30, 90])]
                i += len(more)
                self.include(run + more, buf, depth)
            elif k < 0.95:
                self.plain(run, buf)
                d = r.choice(KEPT)
                buf.line(r.choice(["", "", "  "]) + d)
                self.directives.append(d)
                self.tick("kept-directive")
            elif k < 0.97:
                self.plain(run, buf)
                ms = [m for m in self.macros if m[0] != "G"]
                if ms:
                    m = r.choice(ms)
                    del self.macros[m]
                    self.invalidate(m)
                    self.undefined.append(m)
                    buf.line("`undef " + m)
                    self.tick("undef")
            else:
                self.plain(run, buf)
                buf.line(r.choice(["// `endif `NOT_A_MACRO `include \"none.vh\"", "/* `define x\n `else */", "", "// \"", "/* ' */"]))

    def plain(self, run, buf):
        for t in run:
            buf.put(t + (self.r.choice([" ", " ", " ", "\n", "\t"])))

    def body(self, run):
        """text of a macro body that expands to run"""
        r = self.r
        out, used = [], []
        j = 0
        while j < len(run):
            known = [(m, v[1]) for m, v in self.macros.items() if v[0] is None and v[1] and run[j:j + len(v[1])] == v[1] and v[1] != run]
            if known and r.random() < 0.6:
                m, b = r.choice(known)
                out.append("`" + m)
                used.append(m)
                self.tick("macro-in-body")
                j += len(b)
            else:
                out.append(run[j])
                j += 1
        s = ""
        for t in out:
            s += t + " "
            if r.random() < 0.1:
                s += "\\\n"
                self.tick("continued-body")
        return s.rstrip().rstrip("\\").rstrip(), used

    def object_macro(self, run, buf):
        r = self.r
        if any(odd(t) for t in run):
            return self.plain(run, buf)
        if len(run) > 2 and r.random() < 0.4:
            # an inner macro for a part of it
            a = r.randrange(len(run) - 1)
            b = r.randrange(a + 1, len(run))
            m = self.fresh()
            t, used = self.body(run[a:b])
            buf.line("`define %s %s" % (m, t))
            self.macros[m] = (None, run[a:b], self.deps(used))
        m = self.name()
        # the body must not depend on the old meaning of its own name
        self.macros.pop(m, None)
        self.invalidate(m)
        t, used = self.body(run)
        buf.line("`define %s %s" % (m, t))
        self.macros[m] = (None, run, self.deps(used))
        buf.put("`%s " % m)
        self.tick("object-macro")

    def invalidate(self, m):
        """m gets another meaning: so do the macros written with it"""
        for x, (f, t, deps) in list(self.macros.items()):
            if m in deps:
                self.macros[x] = (f, None, deps)

    def deps(self, names):
        out = set(names)
        for n in names:
            out |= self.macros[n][2]
        return out

    def name(self):
        r = self.r
        if r.random() < 0.2:
            ms = [m for m in self.macros if m[0] == "M"]
            if ms:
                self.tick("redefinition")
                return r.choice(ms)
        if r.random() < 0.1 and self.undefined:
            m = r.choice(self.undefined)
            if m[0] == "M":
                self.undefined.remove(m)
                return m
        return self.fresh()

    def function_macro(self, run, buf):
        r = self.r
        spans = [(a, b) for a in range(len(run)) for b in range(a + 1, len(run) + 1) if balanced(run[a:b])]
        if not spans or any(odd(t) for t in run):
            return self.plain(run, buf)
        picked = []
        for s in r.sample(spans, min(len(spans), 6)):
            if all(s[1] <= a or s[0] >= b for a, b in picked) and len(picked) < 3:
                picked.append(s)
        picked.sort()
        m = self.fresh("F")
        formals, actuals, body, j = [], [], [], 0
        for a, b in picked:
            f = self.fresh("arg")
            body += run[j:a] + [f]
            j = b
            formals.append(f)
            x = " ".join(run[a:b])
            known = [k for k, v in self.macros.items() if v[0] is None and v[1] == run[a:b]]
            if known and r.random() < 0.7:
                x = "`" + known[0]
                self.tick("macro-as-argument")
            actuals.append(x)
        body += run[j:]
        if r.random() < 0.2:
            formals.append(self.fresh("arg"))
            actuals.append("8'h55")
        if r.random() < 0.3:
            z = list(zip(formals, actuals))
            r.shuffle(z)
            formals, actuals = [x for x, y in z], [y for x, y in z]
        sep = r.choice([",", ", ", " , "])
        buf.line("`define %s(%s) %s" % (m, sep.join(formals), " ".join(body)))
        buf.put("`%s%s(%s) " % (m, r.choice(["", "", " "]), sep.join(actuals)))
        self.macros[m] = (formals, None, set())
        self.tick("function-macro")

    def garbage(self, depth=0):
        r = self.r
        out = []
        for i in range(r.randrange(0, 4)):
            k = r.random()
            if k < 0.35:
                out.append(r.choice(["endmodule", "wire [", "module m(input", "`UNKNOWN_MACRO(1", "end end )", "assign x = 1;", "\"text\" ("]))
            elif k < 0.5 and self.macros:
                out.append("`define %s wrong wrong" % r.choice(sorted(self.macros)))
            elif k < 0.6 and self.macros:
                out.append("`undef %s" % r.choice(sorted(self.macros)))
            elif k < 0.7:
                out.append("`include \"does_not_exist.vh\"")
            elif k < 0.8 and depth < 2:
                out.append("`%s %s\n%s\n`else\n%s\n`endif" % (r.choice(["ifdef", "ifndef"]), r.choice(self.undefined + sorted(self.macros)), self.garbage(depth + 1),
                                                            self.garbage(depth + 1)))
            elif k < 0.9:
                out.append(r.choice(["`timescale 1s/1s", "`default_nettype tri"]))
            else:
                out.append("// comment")
        return "\n".join(out)

    def conditional(self, run, buf, depth):
        r = self.r
        yes = sorted(self.macros)
        if not yes:
            m = self.fresh("C")
            buf.line("`define " + m)
            self.macros[m] = (None, None, set())
            yes = [m]
        no = self.undefined
        # branches before the taken one fail, the taken one holds, later ones may do either
        before = r.choice([0, 0, 1, 2])
        after = r.choice([0, 0, 1])
        first = True

        def test(hold):
            nonlocal first
            if first:
                first = False
                neg = r.random() < 0.5
                return "`%s %s" % ("ifndef" if neg else "ifdef", r.choice(no if neg == hold else yes))
            return "`elsif " + r.choice(yes if hold else no)
        for i in range(before):
            buf.line(test(False))
            buf.raw(self.garbage())
        if first or r.random() < 0.5:
            buf.line(test(True))
            haselse = r.random() < 0.6
        else:
            buf.line("`else")
            haselse = after = 0
        self.emit_or_plain(run, buf, depth)
        for i in range(after):
            buf.line("`elsif " + r.choice(yes + no))
            buf.raw(self.garbage())
        if haselse:
            buf.line("`else")
            buf.raw(self.garbage())
        buf.line("`endif" + r.choice(["", "", " // done"]))
        self.tick("conditional")
        if before:
            self.tick("conditional-elsif-or-else")

    def emit_or_plain(self, run, buf, depth):
        if depth < 3:
            self.emit(run, buf, depth + 1)
        else:
            self.plain(run, buf)

    def include(self, run, buf, depth):
        r = self.r
        self.n += 1
        name = r.choice(["h%d.vh", "h%d.v", "defs_%d.inc", "sub/h%d.vh", "h %d.vh"]) % self.n
        d = r.randrange(len(self.incdirs))
        p = os.path.join(self.incdirs[d], name)
        b = Buf()
        guard = None
        if r.random() < 0.4:
            guard = "G_%d" % self.n
            b.line("`ifndef " + guard)
            b.line("`define " + guard)
            self.macros[guard] = (None, None, set())
        # (inside its own guard the rest of the file is taken)
        self.emit_or_plain(run, b, depth)
        if guard:
            b.line("`endif")
        s = b.text()
        if r.random() < 0.7 or "`" in s.split("\n")[-1]:
            s += "\n"
        self.files[p] = s
        if r.random() < 0.3:
            # a file of the same name in a directory that is searched later
            for e in self.incdirs[d + 1:]:
                self.files[os.path.join(e, name)] = "wrong file\n"
                self.tick("shadowed-include")
        how = '"%s"' % name
        if r.random() < 0.15:
            how = '"%s"' % p
            self.tick("absolute-include")
        buf.line("`include " + how)
        self.tick("include")
        if guard:
            self.tick("guard")
            if r.random() < 0.6:
                buf.line("`include " + how)
                self.tick("guarded-again")
        if depth:
            self.tick("nested-include")

    def write(self):
        for p, s in self.files.items():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(s)


class Buf(object):
    def __init__(self):
        self.s = []

    def put(self, s):
        self.s.append(s)

    def raw(self, s):
        if s:
            self.line(s)

    def line(self, s):
        """s on a line of its own"""
        if self.s and not self.s[-1].endswith("\n"):
            self.s.append("\n")
        self.s.append(s + "\n")

    def text(self):
        return "".join(self.s)
