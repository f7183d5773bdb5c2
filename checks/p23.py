import hashlib, json, os, subprocess, sys
from syntax_common import *
from vlib import design, fsm, histjobs


class Zygote(object):
    def __init__(self, seed, scratch):
        self.seed = seed
        d = os.path.join(scratch, "z%s" % seed)
        os.makedirs(d, exist_ok=True)
        env = dict(os.environ, PYTHONHASHSEED=str(seed), VERIF_REPO=core.REPO, PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(core.VERIF, "vlib", "histjobs.py"), d], env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(os.path.join(d, "err"), "w"))
        self.dir = d

    def send(self, d, jobs):
        self.p.stdin.write(json.dumps({"dir": d, "jobs": jobs}).encode() + b"\n")
        self.p.stdin.flush()

    def receive(self):
        l = self.p.stdout.readline()
        if not l:
            raise core.HarnessError("a process with hash seed %s ended: %s" % (self.seed, open(os.path.join(self.dir, "err")).read()[-2000:]))
        r = json.loads(l)
        if r is None:
            raise core.HarnessError("a child with hash seed %s ended" % self.seed)
        return r


class Check(SynCheck):
    prop = "P23"
    rule = ("parsing, generated code, analysis, optimization, walks, subsets, graphs, machines and active conditions of generated inputs, "
            "asked in a fresh process, in processes with a history (other inputs, failing inputs, repetitions, other orders of questions, "
            "shared or separate objects) and under other hash seeds; every answer is compared with the first one; trees and tables are "
            "dumped before and after every question; non-trivial: distinct answers of more than 200 characters")
    assumptions = ["mappings and sets are compared without order, sequences and texts with it",
                   "hash seeds are sampled: two per worker and block of cases beside seed 0"]
    counts = {"quick": 160, "thorough": 3000}
    cpu_limit = 300

    def minimums(self, tier):
        q = {"quick": 1, "thorough": 15}[tier]
        return {"processes": 800 * q, "jobs": 2500 * q, "answers-compared": 40000 * q, "answers-with-history": 15000 * q,
                "answers-other-seed": 15000 * q, "answers-after-failure": 3000 * q, "kind:code": 300 * q, "kind:walk": 800 * q,
                "kind:graph": 400 * q, "kind:machines": 50 * q, "kind:parts": 400 * q, "raised-answers": 100 * q}

    zygotes = {}

    def zygote(self, seed):
        if seed not in self.zygotes:
            self.zygotes[seed] = Zygote(seed, self.scratch)
        return self.zygotes[seed]

    def seeds(self, case):
        return [0] + [1 + 2 * (case % 8) + 16 * (case // 200) + i for i in range(2)]

    def broken(self, rng, text):
        """a damaged text"""
        k = rng.randrange(5)
        w = text.split(" ")
        i = rng.randrange(len(w))
        if k == 0:
            return " ".join(w[:i])
        if k == 1:
            return " ".join(w[:i] + ["endmodule"] + w[i:])
        if k == 2:
            return text + "\n`define X 1\nmodule m2;\n /* not closed"
        if k == 3:
            return " ".join(w[:i] + ["\x01"] + w[i:])
        return " ".join(w[:i] + w[i + 1:])

    def inputs(self, rng, case):
        jobs = []
        for i in range(2):
            k = rng.random()
            via = rng.choice(["text", "shared"])
            if k < 0.5:
                g = self.gen(rng)
                toks, exp = g.source(nmod=rng.choice([1, 1, 2]), nitems=rng.randrange(1, 6))
                text, direc = syn.layout(toks, rng, style="mixed")
                if rng.random() < 0.5:
                    text = rng.choice(["`default_nettype none\n", "`timescale 1ns/1ps\n", "// remark\n", "/* a\n b */\n"]) + text
                jobs.append(dict(kind="syntax", via=via, text=text))
            else:
                text = self.design(rng).text
                jobs.append(dict(kind="syntax", via=via, text=text))
        jobs.append(dict(kind="syntax", via=rng.choice(["text", "shared"]), text=self.broken(rng, jobs[0]["text"])))
        # files, included files, macros
        n = rng.randrange(1000)
        body = "`ifdef FOO\nmodule foo(input a, output b); assign b = a `OP 1; endmodule\n`else\nmodule nofoo;\n`include \"inc%d.v\"\nendmodule\n`endif\n" % (n % 2)
        f = dict(kind="syntax", via="files", files=[("f%d.v" % n, body)], extra=[("i/inc0.v", "wire in_i;"), ("j/inc1.v", "wire in_j;"), ("i/inc1.v", "reg both;")],
                 include=rng.choice([[], ["i"], ["j"], ["i", "j"], ["j", "i"]]), define=rng.choice([[], ["OP=+"], ["FOO", "OP=-"], ["FOO=3", "OP=&"]]))
        jobs.append(f)
        if rng.random() < 0.5:
            jobs.append(dict(f, include=rng.choice([[], ["j"], ["j", "i"]]), define=rng.choice([[], ["FOO", "OP=^"]])))
        g = self.design(rng)
        jobs.append(dict(kind="flow", name=rng.choice(["a.v", "b.v"]), text=g.text, noreorder=rng.random() < 0.15))
        if rng.random() < 0.7:
            m = fsm.Fsm(rng)
            jobs.append(dict(kind="flow", name="a.v", text=m.text, machine=[m.path] + [m.prefix + x[0] for x in m.outs]))
        if rng.random() < 0.3:
            # an analysis that fails
            jobs.append(dict(kind="flow", name="a.v", text=rng.choice([g.text.replace("module top", "module tob", 1), self.broken(rng, g.text)])))
        for i, j in enumerate(jobs):
            j["pick"] = "%s/%d" % (case, i)
        return jobs

    def design(self, rng):
        for i in range(20):
            g = design.DesignGen(rng, clocked=rng.choice([0, 0.6]), mem=rng.choice([0, 0.3]), func=rng.choice([0, 0.4]), hier=rng.choice([1, 2, 3])).design().elaborate()
            if len(g.text) < 2600:
                break
        return g

    def run(self, case, ctx):
        rng = core.rng_for(self.prop, ctx.seed, case)
        jobs = self.inputs(rng, case)
        self.last_source = "\n----\n".join(j.get("text", str(j)) for j in jobs)

        def variant(i):
            j = dict(jobs[i], order=rng.randrange(1 << 30), shared=rng.random() < 0.7)
            return i, j
        runs = []       # (hash seed, [(job index, job)])
        # every job alone in a fresh process
        for i in range(len(jobs)):
            runs.append((0, [variant(i)]))
        for s in self.seeds(case):
            seq = [i for i in range(len(jobs)) for k in range(rng.choice([1, 1, 2]))]
            rng.shuffle(seq)
            runs.append((s, [variant(i) for i in seq]))
        first = {}
        n = 0
        where = {}
        by = {}
        for r in runs:
            by.setdefault(r[0], []).append(r)
        # the three interpreters work at the same time
        results = {}
        while any(by.values()):
            now = [(s, l.pop(0)) for s, l in by.items() if l]
            for s, r in now:
                n += 1
                d = os.path.join(self.scratch, "r%d" % n)
                self.zygote(s).send(d, [j for i, j in r[1]])
                results[id(r)] = d
            for s, r in now:
                d = results[id(r)]
                results[id(r)] = self.zygote(s).receive()
                import shutil
                shutil.rmtree(d, ignore_errors=True)
        for r in runs:
            ctx.count("processes")
            failed = False
            for pos, ((i, j), out) in enumerate(zip(r[1], results[id(r)])):
                ctx.count("jobs")
                if "harness" in out:
                    raise core.HarnessError(out["harness"])
                if "hang" in out:
                    ctx.violation("no-answer", "job %d of a sequence: no answer to %s" % (pos, out["hang"]), jobs[i].get("text"))
                    return
                history = "%s, hash seed %s, position %d after %s, questions %s, %s objects" % (
                    jobs[i]["kind"], r[0], pos, [(x, jobs[x]["kind"]) for x, y in r[1][:pos]], j["order"], "shared" if j["shared"] else "separate")
                for k, v in sorted(out.items()):
                    ctx.count("answers-compared")
                    if pos:
                        ctx.count("answers-with-history")
                    if r[0]:
                        ctx.count("answers-other-seed")
                    if failed:
                        ctx.count("answers-after-failure")
                    kind = k.split(" ")[0]
                    ctx.count("kind:" + kind)
                    if k.startswith("purity:"):
                        ctx.violation("modified:" + kind[7:], "%s: %s (%s)" % (k, v, history), jobs[i].get("text"))
                        return
                    if k.endswith("(asked again)"):
                        a, b = self.short(out[k[:-14]], v)
                        ctx.violation("asked-again:" + kind, "%s: first %s\nthen %s\n%s" % (k, a, b, history), jobs[i].get("text"))
                        return
                    if v.startswith("raised "):
                        ctx.count("raised-answers")
                        ctx.count("raised:" + kind)
                    if len(v) > 200:
                        ctx.nontrivial(v)
                    if (i, k) not in first:
                        first[i, k] = v
                        where[i, k] = history
                    elif first[i, k] != v:
                        a, b = self.short(first[i, k], v)
                        ctx.violation("differs:" + kind, "%s: %s\n   in %s\nbut %s\n   in %s" % (k, a, where[i, k], b, history), jobs[i].get("text") or str(jobs[i]))
                        return
                if any(v.startswith("raised ") for v in out.values()):
                    failed = True
        if rng.random() < 0.1:
            ctx.sample("%d processes, jobs %s" % (len(runs), [j["kind"] for j in jobs]))

    def short(self, a, b):
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        i = max(0, i - 100)
        return repr(a[i:i + 400]), repr(b[i:i + 400])


if __name__ == "__main__":
    core.main("P23", Check())
