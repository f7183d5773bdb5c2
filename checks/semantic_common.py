import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, design, simrun, dfeval, witness
from vlib.core import repo, quiet


def analyze(text, d, top="top", name="dut.v", **kw):
    """dataflow analysis of a text -> (analyzer, terms, binds) keyed by printed name"""
    from pyverilog.dataflow.dataflow_analyzer import VerilogDataflowAnalyzer
    f = os.path.join(d, name)
    with open(f, "w") as h:
        h.write(text)
    with repo(), quiet():
        a = VerilogDataflowAnalyzer([f], top, **kw)
        a.generate()
        terms, binds = a.getTerms(), a.getBinddict()
    return a, terms, binds


class Model(object):
    """value of every reported name on a snapshot: simulated signals from the record, other names from their definitions"""

    def __init__(self, signals, terms, binds):
        self.info = {s["path"]: s for s in signals}
        self.terms = {str(k): v for k, v in terms.items()}
        self.binds = {str(k): v for k, v in binds.items()}
        self.ev = dfeval.Evaluator(self.read, self.shape, self.readmem)
        self.map = {}
        self.shapes = {}
        self.snap = None
        self.internal = 0

    def sim(self, name):
        n = str(name)
        if n not in self.map:
            p = simrun.simname(n)
            self.map[n] = p if p in self.info else None
        return self.map[n]

    def load(self, snap):
        self.snap, self.memo, self.active = snap, {}, set()

    def shape(self, name):
        n = str(name)
        if n not in self.shapes:
            p = self.sim(n)
            if p is not None:
                s = self.info[p]
                if s["const"] is not None:
                    self.shapes[n] = (s["width"] - 1, 0, None)
                else:
                    self.shapes[n] = (s["msb"], s["lsb"], s["dims"])
            else:
                t = self.terms.get(n)
                if t is None:
                    raise dfeval.Bad("name %s is not in the signal table" % n)
                g = lambda x: x if x is None else self.ev.idx(x)
                self.shapes[n] = (g(t.msb) or 0, g(t.lsb) or 0, t.dims)
        return self.shapes[n]

    def read(self, name):
        n = str(name)
        p = self.sim(n)
        if p is not None:
            s = self.info[p]
            if s["const"] is not None:
                return s["const"]
            v = self.snap[p]
            if v is None:
                raise dfeval.Unknown()
            return v
        if n in self.memo:
            return self.memo[n]
        if n in self.active:
            raise dfeval.Bad("definition of %s refers to itself" % n)
        self.active.add(n)
        self.internal += 1
        try:
            bl = self.binds.get(n)
            if not bl:
                raise dfeval.Bad("no definition for %s" % n)
            t = self.terms.get(n)
            if len(bl) == 1 and t is not None and t.termtype == {"Rename"} and bl[0].msb is not None:
                # stands for the value assigned to that part
                v = self.ev.value(bl[0].tree, abs(self.ev.idx(bl[0].msb) - self.ev.idx(bl[0].lsb)) + 1)
            else:
                v = self.defined(n, None)
        except dfeval.Hold:
            raise dfeval.Unknown()
        finally:
            self.active.discard(n)
        self.memo[n] = v
        return v

    def readmem(self, name, i):
        p = self.sim(name)
        if p is None:
            raise dfeval.Bad("memory %s is not declared" % name)
        m = self.snap[p]
        if i not in m:
            raise dfeval.Unknown()
        if m[i] is None:
            raise dfeval.Unknown()
        return m[i]

    def defined(self, n, cur):
        """value its definitions give to name n, in the order reported; bits without an assignment keep cur"""
        msb, lsb, dims = self.shape(n)
        width = abs(msb - lsb) + 1
        full = (1 << width) - 1
        v, known = cur if cur is not None else 0, full if cur is not None else 0
        for b in self.binds[n]:
            try:
                if b.msb is None:
                    v, known = self.ev.value(b.tree, width), full
                    continue
                x, y = self.ev.idx(b.msb), self.ev.idx(b.lsb)
                x, y = (x - lsb, y - lsb) if msb >= lsb else (lsb - x, lsb - y)
                if not 0 <= y <= x < width:
                    raise dfeval.Bad("definition of %s covers [%d:%d]" % (n, x, y))
                m = ((1 << (x - y + 1)) - 1) << y
                v = (v & ~m) | (self.ev.value(b.tree, x - y + 1) << y)
                known |= m
            except dfeval.Hold:
                pass
        if known != full:
            raise dfeval.Hold()
        return v


def describe(m, n):
    out = []
    for b in m.binds.get(n, ()):
        out.append(b.tostr())
        with_names = [t for t in m.binds if "_rn" in t or "functioncall" in t]
    return "\n".join(out)[:1500]


class Keyed(object):
    """a context whose violations carry the name of the fixed design"""
    def __init__(self, ctx, prefix):
        self.__dict__.update(ctx=ctx, prefix=prefix)

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    def violation(self, key, *a):
        self.ctx.violation(self.prefix + key, *a)

    def nontrivial(self, *a):
        pass


class SemCheck(object):
    """one case: generate a design, analyse it, simulate it, compare"""
    prop = None
    cfgs = [{}]
    steps = 12
    maxsignals = 220
    assumptions = ["Icarus Verilog gives the meaning of the designs", "designs are width-uniform and unsigned",
                   "bits the simulator reports as unknown are not compared"]

    def setup(self, scratch):
        if simrun.run([simrun.IVERILOG, "-V"]).returncode:
            raise core.HarnessError("no simulator")

    def size(self, g):
        """characters the analysis has to go through, instance by instance"""
        n = {m.name: len(m.text) for m in g.mods}
        return sum(n[m] for p, m in g.instances)

    def make(self, case, ctx):
        rng = core.rng_for(self.prop, ctx.seed, case)
        cfg = dict(self.cfgs[case[1] % len(self.cfgs)])
        while True:
            g = design.DesignGen(rng, **cfg).design().elaborate()
            if len(g.signals) <= self.maxsignals and len(g.instances) <= 25 and self.size(g) < 8000:
                return rng, g

    def stimulus(self, case, rng, g):
        return simrun.stimulus(rng, g.top, self.steps * (3 if case[0] == "witness" else 1))

    def run(self, case, ctx):
        if case[0] == "witness":
            rng, g = core.rng_for(self.prop, 0, case), witness.get(case[1])
            ctx = Keyed(ctx, "%s:" % case[1])
            ctx.count("witness-designs")
        else:
            rng, g = self.make(case, ctx)
        self.last_source = g.text
        try:
            a, terms, binds = analyze(g.text, self.scratch)
        except core.RepoError as e:
            if case[0] != "witness":
                raise
            ctx.violation("raised:" + type(e.exc).__name__, str(e), g.text)
            return
        for k, n in getattr(g, "ticks", {}).items():
            ctx.count("has:" + k, n)
        stim = self.stimulus(case, rng, g)
        try:
            snaps = simrun.simulate(g, rng, stim, self.scratch)
        except simrun.SimError as e:
            if "Assertion" in str(e):
                ctx.count("simulator-crashes")
                return
            raise core.HarnessError("simulation failed: %s\n%s" % (e, g.text))
        m = Model(g.signals, terms, binds)
        self.raw = terms, binds
        self.again = None, g, rng, stim
        self.judge(case, ctx, g, m, stim, snaps, rng)

    def stands(self, ctx, k, p, value):
        """the value p has at step k does not come from an event the simulator missed"""
        snaps, g, rng, stim = self.again
        if snaps is None:
            try:
                snaps = simrun.simulate(g, rng, stim, self.scratch, slow=True)
            except simrun.SimError:
                return True
            self.again = snaps, g, rng, stim
        if snaps[k][p] == value:
            return True
        ctx.count("simulator-missed-event")
        return False
