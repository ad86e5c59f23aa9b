#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and the checks present in svgcheck/props"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the source (disjunctive stores, value numbering modulo ring axioms)"
TECH = {
    "P01": "import/guard reachability and definite-assignment analysis over resolved imports",
    "P02": "name and member resolution: scope analysis, class-hierarchy member universe, definite assignment, call arity",
    "P03": "effect analysis: write sets of operators and queries on abstract stores",
    "P04": "points-to and freshness analysis of copies and stores, field coverage",
    "P05": "relational analysis of comparison outcomes: read coverage, vacuous-comparison and hash agreement",
    "P06": "value numbering of unit conversions over the partition of unit pairs",
    "P07": "text-piece domain with value numbering of unit factors",
    "P08": "decision-table extraction from the keyword lookup, compared with the CSS table",
    "P09": "bit-provenance dataflow of channel packing and unpacking",
    "P10": "abstract interpretation of the parser over an opaque token stream (event typestate)",
    "P11": "abstract interpretation of the parser with absent tokens (exception typestate)",
    "P12": AI + " of builder events",
    "P13": "text-piece domain: provenance of every written operand",
    "P14": "typestate of the cached lengths at every mutator exit",
    "P15": "abstract interpretation of edits: connectivity invariant on abstract segment lists",
    "P16": AI,
    "P17": AI,
    "P18": AI,
    "P19": AI + ", one partition per alignment",
    "P20": "exhaustiveness of the element table and constructor typestate",
    "P21": "heap-shape analysis of the parent/children/document links",
    "P22": "effect analysis of serialisation: every field reaches the writer",
    "P23": "provenance of accessor results to attribute names, per class and accessor",
    "P24": "protocol analysis per constant index; effect analysis of iteration",
    "P26": AI + " (decision trees of closed forms, compared with the ellipse of SVG's implementation notes on valuations of every branch)",
    "P27": AI + " (decision trees of closed forms compared with the integral of the speed; integrands of quadrature; induction step of the recursive refinement)",
    "P30": AI + " (edits of segment sequences against a list model)",
    "P31": AI + " (decision trees over free segment lengths)",
    "P25": AI + " (Bernstein forms and derivative roots)",
}
NOTE = "Decides the stated obligations for all inputs of the analysed abstract shape by inspecting the current source; undecided obligations are listed in the evidence and never reported. Trusts the modelled semantics of built-ins (svgcheck/models.py) and real arithmetic in place of floating point. DESIGN.md gives the shapes and bounds per property."
NA = {
    "P28": "The rendering methods of the shape classes are unfinished on this tree: attributes of loaded and built elements are texts that the methods add and multiply as if they were numbers, and the transform of the element is not applied, so there is no agreed behaviour to hold to the specification; member errors themselves are decided under P02.",
    "P29": "Termination in polynomial time of recursive subdivision and of loops driven by floating-point errors is not decidable from the shape of the code.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, "svgcheck/props/%s.py" % i.lower())):
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "static analysis: " + TECH[i],
            "level": "other",
            "level_note": NOTE,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet in this revision")})
m = {
    "version": 1,
    "setup_cmd": "python3 -m compileall -q svgcheck >/dev/null 2>&1; true",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo; the checks read /repo/svgio/*.py and never import or run it.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
