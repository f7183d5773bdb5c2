"""Runs a generated design in Icarus Verilog and records every signal after every step."""
import os, re, subprocess
from . import core

IVERILOG = "/usr/bin/iverilog" if os.path.exists("/usr/bin/iverilog") else "iverilog"
VVP = "/usr/bin/vvp" if os.path.exists("/usr/bin/vvp") else "vvp"

from .design import CLK, RST


def run(cmd, timeout=120, inp=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=timeout, input=inp)


def stimulus(rng, top, steps):
    """list of (kind, {input: value}); clock and reset change alone"""
    ins = [(s.name, s.w.fn(top_env(top))) for d, s in top.ports if d == "input"]
    data = [(n, w) for n, w in ins if n not in CLK + RST]
    clk = [n for n, w in ins if n in CLK]
    rst = [n for n, w in ins if n in RST]
    val = lambda w: rng.choice([rng.randrange(1 << w), rng.randrange(1 << w), 0, (1 << w) - 1])
    cur = {n: rng.randrange(1 << w) for n, w in ins}
    out = [("init", dict(cur))]
    for i in range(steps):
        k = rng.random()
        if clk and k < 0.5:
            cur[clk[0]] ^= 1
            out.append(("clk", {clk[0]: cur[clk[0]]}))
        elif rst and k < 0.6:
            cur[rst[0]] ^= 1
            out.append(("rst", {rst[0]: cur[rst[0]]}))
        else:
            ch = {n: val(w) for n, w in data if rng.random() < 0.7}
            cur.update(ch)
            out.append(("in", ch))
    return out


def top_env(top):
    env = {}
    for (n, fn, kind, rng, w) in top.params:
        env[n] = fn(env)
    return env


class SimError(Exception):
    pass


def simulate(g, rng, stim, d, text=None, keep=None, extra_init=True, signals=None, slow=False, std="-g2005", timeout=120, init_lines=None):
    """-> list of snapshots {path: int | None (unknown bits) | [..] for memories}

    slow: the same stimulus with every @* procedure run at each time unit, whatever it is sensitive to"""
    top = g.top
    env = top_env(top)
    sigs = signals if signals is not None else [s for s in g.signals if "Genvar" not in s["kinds"] and "Integer" not in s["kinds"]]
    cols = []
    for s in sigs:
        p = "dut" + s["path"][len("top"):]
        if s["dims"] is not None:
            for k in range(s["dims"][0], s["dims"][1] + 1):
                cols.append((s["path"], k, "%s[%d]" % (p, k)))
        else:
            cols.append((s["path"], None, p))
    tb = ["module tb;"]
    widths = [(s.name, s.w.fn(env)) for dr, s in top.ports]
    for dr, s in top.ports:
        a, b = s.bounds(env)
        tb.append("  %s [%d:%d] %s;" % ("reg" if dr == "input" else "wire", a, b, s.name))
    tb.append("  top dut(%s);" % ", ".join(".%s(%s)" % (s.name, s.name) for dr, s in top.ports))
    tb.append("  task dump; begin $display(\"S" + " %b" * len(cols) + "\"" + "".join(", " + c[2] for c in cols) + "); end endtask")
    tb.append("  initial begin")
    init = []
    if slow:
        init = g.init_lines
    elif init_lines is not None:
        init = init_lines
    elif extra_init:
        for s in g.signals:
            sg = s.get("sig")
            if sg is not None and any(sg is x for m in g.mods for x in m.regs):
                p = "dut" + s["path"][len("top"):]
                if s["dims"] is not None:
                    for k in range(s["dims"][0], s["dims"][1] + 1):
                        init.append("%s[%d] = %d'd%d;" % (p, k, s["width"], rng.randrange(1 << min(s["width"], 30))))
                else:
                    init.append("%s = %d'd%d;" % (p, s["width"], rng.randrange(1 << min(s["width"], 30))))
    if init_lines is None:
        g.init_lines = init
    for k, ch in stim:
        if k in ("init", "in"):
            # other values first: every process is woken by what it reads
            shake = ["%s = ~%s'd%d;" % (n, dict(widths)[n], v) for n, v in sorted(ch.items()) if n not in CLK + RST]
            if shake and k == "in":
                tb.append("    " + " ".join(shake))
                tb.append("    #1;")
        if k == "init":
            tb.append("    #1;")        # every process waits for its inputs by then
            tb.append("    " + " ".join("%s = %d;" % c for c in sorted(ch.items())))
            for i in range(3):
                tb.append("    #1;")
                tb.append("    " + " ".join(shake if i % 2 == 0 else ["%s = %d;" % c for c in sorted(ch.items()) if c[0] not in CLK + RST]))
            tb.append("    #1;")
            tb += ["    " + i for i in init]
            tb.append("    #1 " + (" ".join(["%s = %d;" % c for c in sorted(ch.items()) if c[0] not in CLK + RST]) or ";"))
        else:
            tb.append("    " + " ".join("%s = %d;" % c for c in sorted(ch.items())))
        tb.append("    #1 dump;")
    tb += ["    $finish;", "  end", "endmodule"]
    src = os.path.join(d, "sim.v")
    if slow:
        tb = [re.sub("#1\\b", "#50", l) for l in tb]
        text = re.sub(r"always\s*@\s*(\*|\(\s*\*\s*\))", "always #1", text if text is not None else g.text)
    with open(src, "w") as f:
        f.write((text if text is not None else g.text) + "\n" + "\n".join(tb) + "\n")
    out = os.path.join(d, "sim.vvp")
    c = run([IVERILOG, std, "-o", out, "-s", "tb", src])
    if c.returncode:
        raise SimError(c.stderr[:2000])
    r = run([VVP, "-n", out], timeout=timeout)
    snaps = []
    for l in r.stdout.splitlines():
        if not l.startswith("S"):
            continue
        vals = l.split()[1:]
        if len(vals) != len(cols):
            raise SimError("simulator line with %d of %d values" % (len(vals), len(cols)))
        sn = {}
        for (path, k, _), v in zip(cols, vals):
            x = int(v, 2) if re.match("^[01]+$", v) else None
            if k is None:
                sn[path] = x
            else:
                sn.setdefault(path, {})[k] = x
        snaps.append(sn)
    if len(snaps) != len(stim):
        raise SimError("simulation stopped early: %s" % (r.stderr[:500] or r.stdout[-500:]))
    return snaps


LABEL = re.compile(r"^(?:[a-z]{2}_)*(generate|for|if|block|always)(\d+)(_ELSE)?(?:\[(-?\d+)\])?$")
ARR = re.compile(r"^(.*)\[(-?\d+)\]$")


def simname(name):
    """hierarchical name as reported -> the simulator's path, None for names internal to the analysis"""
    parts = str(name).split(".")
    out, pend = [], None
    for p in parts:
        m = LABEL.match(p)
        if m:
            kind = m.group(1)
            if kind == "for":
                pend = m.group(4)
            elif kind in ("always", "block"):
                return None
            continue
        if pend is not None:
            p = "%s[%s]" % (p, pend)
            pend = None
        out.append(p)
    return ".".join(out)
