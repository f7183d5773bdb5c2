from syntax_common import *
import re, shutil, tempfile
from vlib import ppgen

CACHE = {"parser.out", "parsetab.py", "parsetab.pyc", "__pycache__"}      # the parser's own tables, in the directory asked for


def snapshot(*dirs):
    out = {}
    for d in dirs:
        for b, ds, fs in os.walk(d):
            ds[:] = [x for x in ds if x not in CACHE]
            for f in fs:
                if f not in CACHE:
                    with open(os.path.join(b, f), "rb") as h:
                        out[os.path.join(b, f)] = h.read()
    return out


class Check(SynCheck):
    prop = "P06"
    rule = ("token sequences of generated modules hidden in macros with and without arguments, nested and guarded include files, conditional "
            "sections, command line definitions and several files or texts; the parsed tree must be the one the token sequence was generated "
            "with, the directives that stay must be reported in order, and the directories (working, source, include and temporary) must hold "
            "the same files with the same bytes before and after, also when a step fails; non-trivial: distinct source sets with a macro, "
            "include or condition and at least 30 tokens")
    assumptions = ["Icarus Verilog's preprocessor, which the code calls, expands single macros and includes correctly",
                   "the parser's table files (parser.out, parsetab.py) are no debris"]
    counts = {"quick": 8000, "thorough": 40000}
    faults = ["missing-include", "syntax-error", "no-preprocessor", "failing-preprocessor", "not-parsed", "missing-file", "directory", "unterminated-if"]
    extra = ["one-name", "twice", "interleaved", "tuple", "iterator", "order"]

    def cases(self, tier, seed):
        n = self.counts[tier]
        m = n // 12
        return list(range(n)) + [["fault", self.faults[i % len(self.faults)], i] for i in range(m)] + [["extra", self.extra[i % len(self.extra)], i] for i in range(m)]

    def minimums(self, tier):
        q = {"quick": 1, "thorough": 16}[tier]
        m = {"distinct_nontrivial": 1200 * q, "nodes": 50000 * q, "files-compared": 10000 * q, "has:mixed-sources": 250 * q, "has:several-sources": 600 * q,
             "has:no-final-newline": 300 * q, "has:object-macro": 2000 * q, "has:function-macro": 1500 * q, "has:reuse": 1000 * q, "has:redefinition": 200 * q,
             "has:undef": 200 * q, "has:macro-in-body": 200 * q, "has:macro-as-argument": 100 * q, "has:conditional": 1000 * q, "has:conditional-elsif-or-else": 400 * q,
             "has:include": 800 * q, "has:nested-include": 300 * q, "has:guarded-again": 100 * q, "has:shadowed-include": 80 * q, "has:define-flag": 500 * q,
             "has:define-value": 500 * q, "has:kept-directive": 500 * q}
        for f in self.faults + self.extra:
            m["did:" + f] = 15 * q
        return m

    def worker_setup(self, ctx=None):
        self.base = tempfile.mkdtemp(prefix="pp", dir=os.getcwd())
        self.n = 0
        self.null = os.open(os.devnull, os.O_WRONLY)

    def fresh(self):
        """an empty working, source and temporary directory"""
        if not hasattr(self, "base"):
            self.worker_setup()
        d = os.path.join(self.base, "case")
        if os.path.isdir(d):
            os.chdir(self.base)
            shutil.rmtree(d)
        for x in ("src", "tmp", "work"):
            os.makedirs(os.path.join(d, x))
        self.src, self.tmp, self.work = (os.path.join(d, x) for x in ("src", "tmp", "work"))
        self.tables = os.path.join(self.base, "tables")
        os.makedirs(self.tables, exist_ok=True)
        os.chdir(self.work)
        tempfile.tempdir = self.tmp
        os.environ["TMPDIR"] = self.tmp

    def run(self, case, ctx):
        keep = os.dup(2), os.dup(1)
        try:
            self.fresh()
            os.dup2(self.null, 2)       # the preprocessor's messages
            os.dup2(self.null, 1)
            if isinstance(case, list):
                getattr(self, "do_" + case[0])(case, ctx)
            else:
                self.sources(case, ctx)
        finally:
            os.dup2(keep[0], 2)
            os.dup2(keep[1], 1)
            os.close(keep[0])
            os.close(keep[1])
            os.environ.pop("PYVERILOG_IVERILOG", None)
            os.environ.pop("TMPDIR", None)
            tempfile.tempdir = None
            os.chdir(self.base)

    # ---- several ways to parse a set of sources
    def code_parser(self, s, sources=None, **kw):
        from pyverilog.vparser.parser import VerilogCodeParser
        return VerilogCodeParser(s.sources if sources is None else sources, preprocess_include=s.incdirs, preprocess_define=s.define,
                                 outputdir=self.tables, debug=False, **kw)

    def parse_sources(self, s, how):
        with repo(), quiet():
            if how == "preprocess":
                from pyverilog.vparser.preprocessor import preprocess
                text = preprocess(s.sources, include=s.incdirs, define=s.define)
                p = new_parser()
                ast = p.parse(text)
                return ast, p.get_directives()
            if how == "preprocess-output":
                from pyverilog.vparser.preprocessor import VerilogPreprocessor
                out = os.path.join(self.work, "my.out")
                VerilogPreprocessor(s.sources, out, s.incdirs, s.define).preprocess()
                text = open(out).read()
                os.remove(out)
                p = new_parser()
                ast = p.parse(text)
                return ast, p.get_directives()
            if how == "parse":
                from pyverilog.vparser.parser import parse
                return parse(s.sources, preprocess_include=s.incdirs, preprocess_define=s.define, outputdir=self.tables, debug=False)
            p = self.code_parser(s, **({"preprocess_output": "other.out"} if how == "code-output" else {}))
            ast = p.parse()
            return ast, p.get_directives()

    hows = ["preprocess", "code", "parse", "preprocess-output", "code-output"]

    def make(self, rng, **kw):
        g = self.gen(rng, escaped=False, nopragma=True, weights={"pragma": 0})
        toks, exp = g.source()
        s = ppgen.Sources(rng, toks, kw.pop("root", self.src), **kw)
        s.write()
        return toks, exp, s

    def show(self, s):
        return "\n".join(["==== %s" % ("text" if x not in s.files else os.path.relpath(x, self.src)) + "\n" + s.files.get(x, x) for x in s.sources] +
                         ["==== %s\n%s" % (os.path.relpath(f, self.src), t) for f, t in s.files.items() if f not in s.sources] +
                         ["-D %s" % d for d in s.define] + ["-I %s" % os.path.relpath(d, self.src) for d in s.incdirs])

    def unchanged(self, before, ctx, source, what=""):
        after = snapshot(self.src, self.tmp, self.work)
        ctx.count("files-compared", len(before))
        rel = lambda f: os.path.relpath(f, os.path.dirname(self.src))
        new = [rel(f) for f in after if f not in before]
        if new:
            ctx.violation("debris", "files left behind%s: %s" % (what, [re.sub("_[a-z0-9_]{8}", "_x", f) for f in new]), source)
        gone = [rel(f) for f in before if f not in after]
        if gone:
            ctx.violation("removed", "files removed%s: %s" % (what, gone), source)
        for f in before:
            if f in after and after[f] != before[f]:
                ctx.violation("modified", "file changed%s: %s" % (what, rel(f)), source)

    def compare(self, exp, ast, direc, s, ctx, source, what=""):
        cm = syn.Compare()
        try:
            cm.cmp(exp, ast, "")
        except syn.Mismatch as e:
            ctx.violation(mismatch_key(e) + what, str(e), source)
            return False
        ctx.count("nodes", cm.nodes)
        got = [t.strip() for l, t in direc]
        ctx.count("directives", len(got))
        if got != [d.strip() for d in s.directives]:
            ctx.violation("directives" + what, "reported %s, written %s" % (got, s.directives), source)
            return False
        return True

    def sources(self, case, ctx):
        rng = core.rng_for(self.prop, ctx.seed, case)
        toks, exp, s = self.make(rng)
        self.last_source = source = self.show(s)
        before = snapshot(self.src, self.tmp, self.work)
        args = repr((s.sources, s.incdirs, s.define))
        ast, direc = self.parse_sources(s, self.hows[case % len(self.hows)])
        ctx.count("how:" + self.hows[case % len(self.hows)])
        self.compare(exp, ast, direc, s, ctx, source)
        self.unchanged(before, ctx, source)
        if args != repr((s.sources, s.incdirs, s.define)):
            ctx.violation("arguments", "the lists passed in were changed", source)
        for k, n in s.ticks.items():
            ctx.count("has:" + k, n)
        if len(toks) >= 30 and any(k in s.ticks for k in ("object-macro", "function-macro", "include", "conditional")):
            ctx.nontrivial(source)
        if rng.random() < 0.003:
            ctx.sample(source[:1500])

    # ---- failures
    def do_fault(self, case, ctx):
        rng = core.rng_for(self.prop, ctx.seed, case)
        kind = case[1]
        toks, exp, s = self.make(rng, kinds=("file", "text") if case[2] % 3 else ("text",))
        bad = {"missing-include": "`include \"not_there.vh\"\n", "syntax-error": "module m(; endmodule\n", "unterminated-if": "module q; endmodule\n`ifdef X\n"}.get(kind)
        if bad:
            # in a text or in a file, in front or behind
            if rng.random() < 0.5:
                f = os.path.join(self.src, "bad.v")
                s.files[f] = bad
                s.write()
                bad = f
            s.sources.insert(rng.randrange(len(s.sources) + 1), bad)
        if kind == "no-preprocessor":
            os.environ["PYVERILOG_IVERILOG"] = os.path.join(self.base, "not-there")
        elif kind == "failing-preprocessor":
            os.environ["PYVERILOG_IVERILOG"] = "/bin/false"
        elif kind == "missing-file":
            s.sources.insert(rng.randrange(len(s.sources) + 1), os.path.join(self.src, "missing.v"))
        elif kind == "directory":
            s.sources.insert(rng.randrange(len(s.sources) + 1), self.src)
        self.last_source = source = kind + "\n" + self.show(s)
        before = snapshot(self.src, self.tmp, self.work)
        if kind == "not-parsed":
            # a parser that is made and never used
            with repo(), quiet():
                p = self.code_parser(s)
                del p
        else:
            how = self.hows[case[2] // len(self.faults) % len(self.hows)]
            if how == "preprocess-output" and kind == "syntax-error":
                how = "parse"
            if how in ("preprocess-output", "preprocess") and kind in ("missing-file", "directory"):
                how = "code"
            try:
                self.parse_sources(s, how)
                ctx.violation("fault-accepted:" + kind, "%s: a tree is returned" % kind, source)
            except core.HarnessError:
                raise
            except Exception as e:
                ctx.count("error:" + type(e).__name__ + ":" + str(e)[:30])
            if how == "preprocess-output" and os.path.exists("my.out"):
                os.remove("my.out")
        ctx.count("did:" + kind)
        self.unchanged(before, ctx, source, " after %s" % kind)

    # ---- other ways of passing sources
    def do_extra(self, case, ctx):
        rng = core.rng_for(self.prop, ctx.seed, case)
        kind = case[1]
        kw = {"one-name": dict(nsrc=1, kinds=("file", "text")[case[2] % 2:][:1]), "order": dict(nsrc=4)}.get(kind, {})
        toks, exp, s = self.make(rng, **kw)
        self.last_source = source = kind + "\n" + self.show(s)
        before = snapshot(self.src, self.tmp, self.work)
        ctx.count("did:" + kind)
        if kind == "interleaved":
            # two parsers made before either is used
            toks2, exp2, s2 = self.make(rng, root=os.path.join(self.src, "second"))
            before = snapshot(self.src, self.tmp, self.work)
            with repo(), quiet():
                p, q = self.code_parser(s), self.code_parser(s2)
                a2 = q.parse()
                a = p.parse()
            self.compare(exp, a, p.get_directives(), s, ctx, source, ":first")
            self.compare(exp2, a2, q.get_directives(), s2, ctx, source + "\n" + self.show(s2), ":second")
        elif kind == "twice":
            with repo(), quiet():
                p = self.code_parser(s)
                for i in range(2):
                    a = p.parse()
                    self.compare(exp, a, p.get_directives(), s, ctx, source, ":again" if i else "")
        else:
            arg = {"one-name": s.sources[0], "tuple": tuple(s.sources), "iterator": iter(s.sources), "order": list(s.sources)}[kind]
            with repo(), quiet():
                p = self.code_parser(s, arg)
                a = p.parse()
            self.compare(exp, a, p.get_directives(), s, ctx, source, ":" + kind)
        self.unchanged(before, ctx, source)


if __name__ == "__main__":
    core.main("P06", Check())
