"""Check runner: workers, counters, watchdogs, known findings, evidence, verdicts.

A check module calls  core.main(PROP, Check)  where Check provides
  cases(tier, seed)   -> list of JSON-able case descriptors (deterministic)
  run(case, ctx)      -> runs one case; reports through ctx
  minimums(tier)      -> {counter: least value}; below it the run is inconclusive (exit 3)
"""
import argparse, hashlib, importlib.util, io, json, os, random, resource, shutil, signal, sys, tempfile, time, traceback
import contextlib, multiprocessing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT") or os.path.join(VERIF, "out")
KNOWN = os.path.join(VERIF, "known_findings.jsonl")
FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))    # stop at the first new violation (mutation runs)
CPU_LIMIT = int(os.environ.get("VERIF_CPU_LIMIT", "90"))          # seconds of CPU time (not wall) one case may use; normal cases use well under 1 s


class Hang(BaseException):
    pass


class HarnessError(Exception):
    pass


class Inconclusive(Exception):
    """Raised by a case that could not be decided (counted, never a verdict)."""


class RepoError(Exception):
    """The code under test raised on an input on which it must answer."""
    def __init__(self, exc, tb):
        Exception.__init__(self, "%s: %s" % (type(exc).__name__, exc))
        self.exc = exc
        self.tb = tb


@contextlib.contextmanager
def repo(what=""):
    """Exceptions escaping the block come from the code under test."""
    try:
        yield
    except (Hang, KeyboardInterrupt, MemoryError):
        raise
    except SystemExit as e:
        raise RepoError(e, traceback.format_exc())
    except Exception as e:
        raise RepoError(e, traceback.format_exc())


def short_tb(tb):
    lines = [l for l in tb.strip().splitlines()]
    return "\n".join(lines[-8:])


class Ctx(object):
    def __init__(self, prop, tier, seed, verbose=False):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.counters = {}
        self.digests = set()
        self.violations = []
        self.samples = []
        self.inconclusive = []
        self.verbose = verbose
        self.case = None
        self.known = {}

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def nontrivial(self, text):
        self.digests.add(hashlib.sha1(text.encode("utf-8", "replace")).hexdigest()[:16])

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(text if len(text) < 1500 else text[:1500] + " ...")

    def violation(self, key, detail, source=None):
        self.violations.append({"key": key, "detail": detail, "source": source, "case": self.case})

    def knownfinding(self, key):
        self.known[key] = self.known.get(key, 0) + 1


def _alarm(signum, frame):
    raise Hang()


class quiet(object):
    """Silences stdout/stderr of the code under test."""
    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e
        return False


def run_case(check, case, ctx):
    ctx.case = case
    ctx.count("evaluations")
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, getattr(check, "cpu_limit", CPU_LIMIT))
    try:
        check.run(case, ctx)
    except Hang:
        ctx.violation("no-answer", "no answer within %d s of CPU time (cases normally need well under one)" % CPU_LIMIT)
    except RepoError as e:
        ctx.violation("raised:" + type(e.exc).__name__, "raised on legal input: %s\n%s" % (e, short_tb(e.tb)),
                      getattr(check, "last_source", None))
    except MemoryError:
        ctx.violation("no-answer", "memory exhausted (6 GB)", getattr(check, "last_source", None))
    except HarnessError:
        raise
    except Inconclusive as e:
        ctx.inconclusive.append(str(e)[:300])
        ctx.count("inconclusive_cases")
    except Exception as e:
        # the monitor met a result of a shape it does not know: never on the unchanged tree
        ctx.violation("unexpected:" + type(e).__name__, "the monitor could not read the result\n" + short_tb(traceback.format_exc()),
                      getattr(check, "last_source", None))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _worker(check, cases, prop, tier, seed, scratch, wid, conn, deadline):
    d = os.path.join(scratch, "w%d" % wid)
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    check.scratch = d
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(3000)
    ctx = Ctx(prop, tier, seed)
    err = None
    skipped = 0
    try:
        known = load_known(prop) if FAILFAST else ()
        if hasattr(check, "worker_setup"):
            check.worker_setup(ctx)
        for c in cases:
            if time.time() > deadline:
                skipped += 1
                continue
            run_case(check, c, ctx)
            if len(ctx.violations) >= 25:
                break
            if FAILFAST and any(v["key"] not in known for v in ctx.violations):
                break
    except BaseException:
        err = "case %r\n%s" % (ctx.case, traceback.format_exc())
    conn.send((ctx.counters, ctx.digests, ctx.violations, ctx.samples, ctx.inconclusive, ctx.known, err, skipped))
    conn.close()
    os._exit(0)


def load_known(prop):
    known = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l or l.startswith("#"):
                continue
            d = json.loads(l)
            if d.get("property") == prop and d.get("kind") == "known":
                known[d["key"]] = d
    return known


def prewarm_parser(scratch):
    """Build the parser tables once from the grammar of this tree and keep them importable for the workers.
    PLY compares the table's grammar signature with the live grammar, so a changed grammar is rebuilt."""
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    from pyverilog.vparser.parser import VerilogParser
    import pyverilog
    if not os.path.realpath(pyverilog.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError("pyverilog imported from %s" % pyverilog.__file__)
    d = os.path.join(scratch, "tables")
    with quiet():
        VerilogParser(outputdir=d, debug=False)
    f = os.path.join(d, "parsetab.py")
    if os.path.exists(f):
        spec = importlib.util.spec_from_file_location("pyverilog.vparser.parsetab", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        sys.modules["pyverilog.vparser.parsetab"] = m


def main(prop, check, level="exploration"):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--limit", type=int, default=0)
    ap.add_argument("--show", action="store_true", help="print all violations")
    a = ap.parse_args()
    t0 = time.time()
    if os.environ.get("PYTHONHASHSEED") is None:
        os.environ["PYTHONHASHSEED"] = "0"
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)
    sys.dont_write_bytecode = True
    base = os.environ.get("TMPDIR", "/tmp")
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop, dir=base)
    sys.pycache_prefix = os.path.join(scratch, "pyc")
    os.environ.pop("PYVERILOG_IVERILOG", None)
    rc = 2
    try:
        os.chdir(scratch)
        rc = _main(prop, check, a, scratch, t0, level)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def _main(prop, check, a, scratch, t0, level):
    os.makedirs(OUT, exist_ok=True)
    if getattr(check, "needs_parser", True):
        try:
            prewarm_parser(scratch)
        except HarnessError:
            raise
        except Exception:
            path = os.path.join(OUT, "%s_load.json" % prop)
            json.dump({"property": prop, "detail": traceback.format_exc()}, open(path, "w"))
            print("the code under test cannot be loaded:\n" + traceback.format_exc())
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
    if hasattr(check, "setup"):
        check.setup(scratch)
    seed = a.seed
    if a.replay:
        rep = json.load(open(a.replay))
        cases = [rep["case"]]
        seed = rep.get("seed", seed)
        a.tier = rep.get("tier", a.tier)
        a.jobs = 1
    else:
        cases = list(check.cases(a.tier, seed))
        if a.limit:
            cases = cases[:a.limit]
    cap = {"quick": 600, "thorough": 3600}[a.tier]
    deadline = t0 + float(os.environ.get("VERIF_WALL_CAP", cap))
    jobs = max(1, min(a.jobs, len(cases)))
    procs = []
    for w in range(jobs):
        r, s = multiprocessing.Pipe(False)
        pid = os.fork()
        if pid == 0:
            r.close()
            try:
                check.seed, check.tier = seed, a.tier
                _worker(check, cases[w::jobs], prop, a.tier, seed, scratch, w, s, deadline)
            finally:
                os._exit(9)
        s.close()
        procs.append((pid, r))
    tot = Ctx(prop, a.tier, seed)
    errors, skipped, lost = [], 0, 0
    for pid, r in procs:
        try:
            c, d, v, sm, inc, kn, err, sk = r.recv()
            for k, n in c.items():
                tot.count(k, n)
            tot.digests |= d
            tot.violations += v
            tot.samples += sm[:1]
            tot.inconclusive += inc
            for k, n in kn.items():
                tot.known[k] = tot.known.get(k, 0) + n
            skipped += sk
            if err:
                errors.append(err)
        except EOFError:
            lost += 1
        os.waitpid(pid, 0)
    known = load_known(prop)
    fresh = []
    for v in tot.violations:
        if v["key"] in known:
            tot.known[v["key"]] = tot.known.get(v["key"], 0) + 1
        else:
            fresh.append(v)
    wall = time.time() - t0
    cov = {"evaluations": tot.counters.get("evaluations", 0), "distinct_nontrivial": len(tot.digests),
           "rule": check.rule, "samples": tot.samples[:4] or ["(none)"],
           "monitor_counters": {k: v for k, v in sorted(tot.counters.items()) if k != "evaluations"},
           "cases_skipped_by_wall_cap": skipped,
           "known_finding_hits": tot.known}
    ev = {"property": prop, "tier": a.tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": getattr(check, "assumptions", []), "wall_s": round(wall, 2), "violations": len(fresh)}
    if not a.replay and not os.environ.get("VERIF_OUT"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    print("%s tier=%s seed=%d: %d evaluations, %d distinct non-trivial, %.1f s" % (
        prop, a.tier, seed, cov["evaluations"], cov["distinct_nontrivial"], wall))
    print("  monitors: " + ", ".join("%s=%d" % kv for kv in cov["monitor_counters"].items()))
    for k in sorted(tot.known):
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
    if fresh:
        keys = {}
        for v in fresh:
            keys.setdefault(v["key"], []).append(v)
        n = 0
        for k, vs in sorted(keys.items(), key=lambda kv: -len(kv[1])):
            v = min(vs, key=lambda x: len(x.get("source") or "") or 10**9) if any(x.get("source") for x in vs) else vs[0]
            path = a.replay or os.path.join(OUT, "%s_%s_%d.json" % (prop, a.tier, n))
            if not a.replay:
                json.dump({"property": prop, "tier": a.tier, "seed": seed, "case": v["case"], "key": v["key"],
                           "detail": v["detail"], "source": v["source"]}, open(path, "w"), indent=1)
            print("--- %s (%d cases)" % (k, len(vs)))
            for x in (vs if a.show else [v]):
                print("    case %s" % json.dumps(x["case"])[:300])
                print("    " + str(x["detail"]).replace("\n", "\n    ")[:2500])
                if a.show or a.replay or n < 3:
                    print("    source:\n" + str(x["source"])[:3000] if x["source"] else "")
            print("VIOLATION property=%s replay=%s" % (prop, path))
            n += 1
            if n >= 12:
                break
        return 1
    if errors:
        print("HARNESS ERROR\n" + errors[0])
        return 2
    if lost:
        print("HARNESS ERROR: %d workers ended without a result" % lost)
        return 2
    if not a.replay and not a.limit:
        short = []
        for k, m in check.minimums(a.tier).items():
            got = len(tot.digests) if k == "distinct_nontrivial" else tot.counters.get(k, 0)
            if got < m:
                short.append("%s=%d < %d" % (k, got, m))
        if short:
            print("INCONCLUSIVE: " + "; ".join(short) + (" first: " + tot.inconclusive[0] if tot.inconclusive else ""))
            return 3
    return 0


def rng_for(*parts):
    return random.Random("/".join(str(p) for p in parts))
