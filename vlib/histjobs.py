"""Jobs for P23: every job asks the real code a set of questions about one input and returns {question: canonical answer}.

Run as a program it is a zygote: it imports the code under test, analyses nothing, and forks a child per request, so that a
child starts without history; a child can also be given a sequence of jobs, and then has one.
"""
import hashlib, io, json, os, re, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, astdump
from vlib.core import quiet


def canon(x):
    """text of a value: mappings and sets have no order, sequences do"""
    if isinstance(x, dict):
        return "{" + ", ".join("%s: %s" % (canon(k), canon(v)) for k, v in sorted(x.items(), key=lambda kv: canon(kv[0]))) + "}"
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(sorted(map(canon, x))) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(map(canon, x)) + "]"
    if hasattr(x, "alwaysinfo"):
        return bind(x)
    if hasattr(x, "tostr"):
        return x.tostr()
    return str(x)


def bind(b):
    a = b.alwaysinfo
    return "%s always %s" % (b.tostr(), None if a is None else canon([str(a.clock_name), a.clock_edge, str(a.clock_bit), str(a.reset_name), a.reset_edge, str(a.reset_bit), [str(s) for s in a.senslist]]))


def binds(bd):
    return {str(k): [bind(b) for b in v] for k, v in bd.items()}


def tables(o):
    return dict(terms=canon({str(k): v for k, v in o[0].items()}), binds=canon(binds(o[1])))


def nodes(t, names):
    n = 1
    if type(t).__name__ == "DFTerminal":
        names.append(str(t.name))
    for c in t.children():
        n += nodes(c, names)
    return n


class Sizes(object):
    """about how many nodes the expansion of a name has; names that are too large are not asked"""

    def __init__(self, terms, bd):
        self.bd = {str(k): v for k, v in bd.items()}
        self.mem = {str(k) for k, v in terms.items() if v.dims is not None}
        self.memo = {}

    def size(self, n, steps, active=()):
        if n not in self.bd or n in active:
            return 1
        if (n, steps) in self.memo:
            return self.memo[n, steps]
        total = 0
        for b in self.bd[n]:
            names = []
            k = 1
            if b.msb is not None and type(b.msb).__name__ not in ("DFIntConst", "DFEvalValue") or b.ptr is not None:
                k = 8
            total += k * nodes(b.tree, names) if b.tree is not None else 0
            for x in names:
                reg = x in self.bd and not all(y.isCombination() for y in self.bd[x])
                if not reg or steps:
                    total += k * (1000 if x in self.mem else 1) * self.size(x, steps - reg, active + (n,))
                if total > 100000:
                    self.memo[n, steps] = total
                    return total
        if not active:
            self.memo[n, steps] = total
        return total


class Job(object):
    def __init__(self, d):
        self.out = {}
        self.d = d

    def ask(self, key, f):
        """the same question can be asked more than once; the answer has to stay"""
        try:
            with quiet():
                r = f()
            r = r if isinstance(r, str) else canon(r)
        except core.Hang:
            self.out["hang"] = key
            raise
        except RecursionError:
            r = "raised RecursionError"
        except (SystemExit, Exception) as e:
            r = "raised %s: %s" % (type(e).__name__, e)
        # temporary files have their own names
        r = re.sub(r"pyverilog_temp_\w+", "TEMP", r)
        if key in self.out and self.out[key] != r:
            self.out.setdefault(key + " (asked again)", r)
        self.out.setdefault(key, r)
        return r

    def file(self, name, text):
        with open(name, "w") as f:
            f.write(text)
        return name

    # ---- parsing and generation of code
    def syntax(self):
        from pyverilog.vparser.parser import VerilogParser, VerilogCodeParser, parse
        from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
        d = self.d
        keep = {}

        def do():
            if d.get("via") == "files":
                files, inc, dfn = [self.file(n, t) for n, t in d["files"]], list(d.get("include", [])), list(d.get("define", []))
                for n, t in d.get("extra", []):
                    os.makedirs(os.path.dirname(n) or ".", exist_ok=True)
                    self.file(n, t)
                given = (list(files), list(inc), list(dfn))
                ast, direc = parse(files, preprocess_include=inc, preprocess_define=dfn, debug=False)
                if (files, inc, dfn) != given:
                    self.out["purity:arguments"] = "changed"
            elif d.get("via") == "shared":
                # one parser for all texts of the sequence
                if "parser" not in SHARED:
                    SHARED["parser"] = VerilogParser(debug=False)
                p = SHARED["parser"]
                ast = p.parse(d["text"])
                direc = p.get_directives()
            else:
                p = VerilogParser(debug=False)
                ast = p.parse(d["text"])
                direc = p.get_directives()
            keep["ast"] = ast
            return canon([astdump.dump(ast), list(direc)])
        if self.ask("parse", do).startswith("raised"):
            return
        ast = keep["ast"]
        before = astdump.dump(ast)

        def show():
            b = io.StringIO()
            ast.show(buf=b)
            return b.getvalue()

        def code():
            return ASTCodeGenerator().visit(ast)

        def idents():
            from pyverilog.utils.identifiervisitor import getIdentifiers
            return list(getIdentifiers(ast))
        gen = []

        def code2():
            if not gen:
                gen.append(ASTCodeGenerator())
            return gen[0].visit(ast)
        asks = [("show", show), ("code", code), ("identifiers", idents), ("hash", lambda: str(hash(ast) == hash(ast))), ("code", code2), ("code", code2)]
        core.rng_for(d["order"]).shuffle(asks)
        for k, f in asks:
            self.ask(k, f)
            if astdump.dump(ast) != before:
                self.out["purity:" + k] = "the tree changed: %s" % astdump.diff(before, astdump.dump(ast))
                break

    # ---- analysis
    def flow(self):
        from pyverilog.dataflow.dataflow_analyzer import VerilogDataflowAnalyzer
        import pyverilog.utils.util as util
        d = self.d
        rng = core.rng_for(d["order"])
        keep = {}

        def analyze():
            f = self.file(d["name"], d["text"])
            a = VerilogDataflowAnalyzer([f], "top", noreorder=d.get("noreorder", False))
            real = a.parse

            def parse(*x, **y):
                keep["ast"] = real(*x, **y)
                keep["dump"] = astdump.dump(keep["ast"])
                return keep["ast"]
            a.parse = parse
            a.generate()
            keep["a"] = a
            return "done"
        if self.ask("analysis", analyze).startswith("raised"):
            return
        if astdump.dump(keep["ast"]) != keep["dump"]:
            self.out["purity:analysis"] = "the tree changed: %s" % astdump.diff(keep["dump"], astdump.dump(keep["ast"]))
        a = keep["a"]
        terms, bd = a.getTerms(), a.getBinddict()
        first = tables((terms, bd))

        def state(key):
            now = tables((terms, bd))
            for k in now:
                if now[k] != first[k]:
                    self.out["purity:" + key] = "the %s changed" % k
            if "rt" in keep:
                now = dict(tables((keep["rt"], keep["rb"])), consts=canon(keep["cl"]))
                if now != keep["resolved"]:
                    self.out["purity:" + key] = "the resolved tables changed: %s" % [k for k in now if now[k] != keep["resolved"][k]]
        for k in rng.sample(["instances", "signals", "consts", "terms", "binds"], 5):
            self.ask(k, {"instances": lambda: [(str(x), y) for x, y in a.getInstances()],
                         "signals": lambda: a.getSignals(),
                         "consts": lambda: a.getConsts(),
                         "terms": lambda: first["terms"], "binds": lambda: first["binds"]}[k])
            state(k)

        def optimize():
            from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
            o = VerilogDataflowOptimizer(terms, bd)
            o.resolveConstant()
            rt, rb, cl = o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist()
            if "rt" not in keep:
                keep.update(rt=rt, rb=rb, cl=cl)
                keep["resolved"] = dict(tables((rt, rb)), consts=canon(cl))
            return canon([tables((rt, rb)), {str(k): v for k, v in cl.items()}])
        if self.ask("optimized", optimize).startswith("raised"):
            return
        state("optimized")
        rt, rb, cl = keep["rt"], keep["rb"], keep["cl"]
        args = ("top", terms, bd, rt, rb, cl)
        names = sorted(str(k) for k in bd)
        qrng = core.rng_for(d["pick"])

        def again():
            """the same optimizer resolves a second time"""
            from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
            if "o" not in keep or not d["shared"]:
                keep["o"] = VerilogDataflowOptimizer(terms, bd)
                keep["o"].resolveConstant()
            o = keep["o"]
            o.resolveConstant()
            return canon([tables((o.getResolvedTerms(), o.getResolvedBinddict())), {str(k): v for k, v in o.getConstlist().items()}])

        def reanalyze():
            """the same analyzer analyses a second time"""
            a.generate()
            return tables((a.getTerms(), a.getBinddict()))["binds"]
        asks = [("optimized", optimize), ("optimized", again), ("binds", reanalyze)]
        sel = qrng.sample(names, min(len(names), 5))
        walkers = []

        def walker():
            from pyverilog.dataflow.walker import VerilogDataflowWalker
            if not walkers or not d["shared"]:
                walkers.append(VerilogDataflowWalker(*args))
            return walkers[-1]
        z = Sizes(terms, bd)
        for n in sel:
            asks.append(("tree " + n, lambda n=n: walker().getTree(util.toTermname(n))))
            if z.size(n, 1) > 1200:
                continue
            asks.append(("walk " + n, lambda n=n: walker().walkBind(n, 1)))
        subs, gens = [], []

        def subset():
            from pyverilog.dataflow.subset import VerilogSubset
            if not subs or not d["shared"]:
                subs.append(VerilogSubset(*args))
            return subs[-1]
        words = [n for n in names if "[" not in n]
        for i in range(2):
            ts = qrng.sample(words, min(len(words), qrng.choice([1, 2])))
            if ts:
                asks.append(("subset " + " ".join(ts), lambda ts=ts: canon([binds({k: v for k, v in subset().getBindSourceSubset(list(ts))[0].items()}),
                                                                              {str(x) for x in subset().getBindSourceSubset(list(ts))[1]}])))

                asks.append(("parts " + " ".join(ts), lambda ts=ts: canon(subset().getSubset(list(ts)))))

                def vcode(ts=ts):
                    from pyverilog.dataflow.dataflow_codegen import VerilogCodeGenerator
                    if not gens or not d["shared"]:
                        w = VerilogCodeGenerator(*args)
                        w.set_clock_info("CLK", "posedge")
                        w.set_reset_info("RST", "posedge")
                        gens.append(w)
                    return gens[-1].generateCode(list(ts))
                asks.append(("code " + " ".join(ts), vcode))

        def whole():
            from pyverilog.dataflow.dataflow_codegen import VerilogCodeGenerator
            return VerilogCodeGenerator(*args).generateCode()
        asks.append(("code of all", whole))

        def graph(ts, walk, identical):
            from pyverilog.dataflow.graphgen import VerilogGraphGenerator
            g = VerilogGraphGenerator("top", terms, bd, rt, rb, cl, "g.png", withcolor=True)
            for t in ts:
                g.generate(t, walk=walk, identical=identical, step=1, do_reorder=False, delay=False)
            return g.graph.to_string()
        for i in range(2):
            ts = qrng.sample(names, min(len(names), 2))
            if ts:
                asks.append(("graph %d " % i + " ".join(ts), lambda ts=ts, i=i: graph(ts, i == 1 and all(t in words and z.size(t, 1) < 600 for t in ts), False)))
        cas = []

        def control():
            from pyverilog.controlflow.controlflow_analyzer import VerilogControlflowAnalyzer
            if not cas or not d["shared"]:
                cas.append(VerilogControlflowAnalyzer(*args))
            return cas[-1]

        def machines():
            out = {}
            for n, m in control().getFiniteStateMachines().items():
                out[str(n)] = [{str(s): [(None if c is None else c.tocode(), str(t)) for c, t in x.items()] for s, x in m.fsm.items()},
                               [(None if c is None else c.tocode(), str(t)) for c, t in m.any.items()], m.get_loop()]
            return out

        if d.get("machine"):
            asks.append(("machines", machines))

            acts = []

            def actives():
                from pyverilog.controlflow.active_analyzer import VerilogActiveConditionAnalyzer
                if not acts or not d["shared"]:
                    acts.append(VerilogActiveConditionAnalyzer(*args))
                return acts[-1]

            def active(n):
                return canon(actives().getActiveConditions(util.toTermname(n)))

            def changed(n):
                from pyverilog.controlflow import splitter
                out = []
                for f in (splitter.active_modify, splitter.active_unmodify):
                    out.append(actives().getActiveConditions(util.toTermname(n), condition=f))
                return out
            for n in d["machine"]:
                if n in names:
                    asks.append(("active " + n, lambda n=n: active(n)))
                    asks.append(("changes " + n, lambda n=n: changed(n)))
        asks += qrng.sample(asks, min(len(asks), 4))
        rng.shuffle(asks)
        for k, f in asks:
            self.ask(k, f)
            state(k)


SHARED = {}


def run(d):
    j = Job(d)
    try:
        getattr(j, d["kind"])()
    except core.Hang:
        pass
    except Exception:
        j.out["harness"] = traceback.format_exc()
    return j.out


def child(req):
    import signal
    os.makedirs(req["dir"], exist_ok=True)
    os.chdir(req["dir"])
    sys.setrecursionlimit(16 * 1024)
    SHARED.clear()
    signal.signal(signal.SIGPROF, core._alarm)
    signal.setitimer(signal.ITIMER_PROF, 80)
    out = []
    for d in req["jobs"]:
        out.append(run(d))
        if "hang" in out[-1]:
            break
    return out


def serve():
    sys.setrecursionlimit(16 * 1024)
    scratch = sys.argv[1]
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch, "pyc")
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    inp, outp = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    core.prewarm_parser(scratch)
    import pyverilog.dataflow.dataflow_analyzer, pyverilog.dataflow.optimizer, pyverilog.dataflow.walker, pyverilog.dataflow.subset
    import pyverilog.dataflow.dataflow_codegen, pyverilog.dataflow.graphgen, pyverilog.controlflow.controlflow_analyzer, pyverilog.controlflow.active_analyzer
    import pyverilog.ast_code_generator.codegen, pyverilog.utils.identifiervisitor
    while True:
        l = inp.readline()
        if not l:
            break
        req = json.loads(l)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    res = child(req)
                except BaseException:
                    res = [{"harness": traceback.format_exc()}]
                with os.fdopen(w, "wb") as f:
                    f.write(json.dumps(res).encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        outp.write((data or b"null") + b"\n")
        outp.flush()


if __name__ == "__main__":
    serve()
