"""Writes /verif/MANIFEST.json from the checks present and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -W ignore"
SYN = "Trusts the generator's own reading of the Verilog-2001 grammar, written independently of the parser. Bounded by the number of random texts per run."
SIM = "Trusts Icarus Verilog as the meaning of the designs. Bounded by the number of random designs and vectors per run."
CHECKS = {
 "P01": ("runtime monitor: generated module texts with their expected trees", SYN),
 "P02": ("runtime monitor: all operator pairs plus generated expressions with their expected trees", SYN),
 "P03": ("runtime monitor: generated procedural texts with their expected trees", SYN),
 "P04": ("runtime monitor: generated layouts with known token lines, directives recorded", SYN),
 "P05": ("runtime monitor: mutated legal texts, errors compared with the line known for the mutation, accepted trees audited by token conservation", "Malformedness and the offending line follow from the kind of mutation (sure kinds exact, loose kinds by lower bounds); token accounting checks lower bounds per token kind."),
 "P06": ("runtime monitor: generated macros, includes and conditionals with the expansion known by construction, file system recorded before and after", "Trusts the generator's expansion; the preprocessor program is iverilog's, whose known quirks the generator avoids."),
 "P07": ("runtime monitor: parse, generate, parse again, compare trees over generated texts", SYN),
 "P08": ("runtime monitor: constructor-built trees, generated text must parse to the same tree", SYN),
 "P09": ("runtime monitor: original and regenerated design simulated side by side, output traces compared", SIM),
 "P10": ("runtime monitor: instance and signal tables vs. the generator's elaboration and the simulator", SIM),
 "P11": ("runtime monitor: definitions evaluated on recorded simulation snapshots", SIM),
 "P12": ("runtime monitor: next-state definitions evaluated on recorded simulation cycles", SIM),
 "P13": ("runtime monitor: resolved constants vs. values printed by the simulator", SIM),
 "P14": ("runtime monitor: reference evaluator on trees before and after optimization", "Trusts the reference evaluator of dataflow trees, itself validated against the simulator by P11/P17."),
 "P15": ("runtime monitor: walked/merged/reordered trees evaluated on recorded simulation snapshots", SIM),
 "P16": ("runtime monitor: reported sources and subsets vs. an independent closure", "Trusts the independent closure over the binds, whose values P11/P12 decide."),
 "P17": ("runtime monitor: rendered text compiled and simulated vs. tree evaluation", SIM),
 "P18": ("runtime monitor: emitted graph vs. the tree it depicts", "Trusts the independent expected graph."),
 "P19": ("runtime monitor: reported machines vs. exhaustive next-state tables", "Icarus Verilog gives the meaning of the designs; state registers of at most 4 bits, every state and input simulated."),
 "P20": ("runtime monitor: reported loops vs. independent cycle enumeration", "Random graphs up to 200 states, at most 4000 cycles each, and machines extracted from designs."),
 "P21": ("runtime monitor: reported active conditions vs. exhaustive simulation of the design", SIM),
 "P22": ("runtime monitor: split pairs and inferred state ranges evaluated on every valuation by a reference evaluator", "Trusts the reference evaluator of dataflow trees; state signals of at most 4 bits, at most 2^9 valuations per tree or 200 random ones."),
 "P23": ("runtime monitor: canonical result dumps across repetitions, orders, processes and hash seeds", "Bounded by the sequences run."),
 "P24": ("runtime monitor: traversal, equality and renaming of generated trees vs. reflection over their fields", SYN),
 "P25": ("runtime monitor: printed forms of random and reported definitions are read back by an independent reader and compared with their fields", SYN),
}
NA = {}
WIP = set()
if __name__ == "__main__":
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        f = "checks/%s.py" % i.lower()
        if os.path.exists(os.path.join(V, f)) and i not in NA and i not in WIP:
            t, n = CHECKS[i]
            checks.append({"property": i, "quick_cmd": "%s %s --tier quick" % (PY, f), "thorough_cmd": "%s %s --tier thorough" % (PY, f),
                           "technique": t, "level": "exploration", "level_note": n})
        else:
            na.append({"property": i, "reason": NA.get(i, "its check is not built yet")})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import ply, jinja2, sys; sys.path.insert(0, \"/repo\"); import pyverilog'",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: every monitor observes public return values, files and raised errors. Each check runs 8 worker processes in scratch directories and imports pyverilog from /repo."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not claimed")
