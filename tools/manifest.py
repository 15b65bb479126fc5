#!/usr/bin/env python3
"""Writes MANIFEST.json (run: python3 tools/manifest.py)."""
import json
import os

CHECKS = {
    "C01": "interprocedural exception-escape fixpoint; product of the parser's automaton with the reference grammar; shape analysis of the rule stack",
    "C02": "product of the parser's automaton with the reference grammar; shape analysis of the rule stack",
    "C03": "abstract evaluation of semantic actions over the product of automaton and reference transducer",
    "C04": "abstract evaluation of semantic actions: full product against isolated constructs",
    "C05": "typestate on abstract paths: tentative captures",
    "C06": "interprocedural effect (mod/ref) analysis with points-to regions; call-graph closure for hidden inputs",
    "C07": "value tracking of the search budget on abstract paths; call graph",
    "C08": "interprocedural exception-escape fixpoint over generated glue; must-raise analysis of handlers",
    "C09": "abstract interpretation: node-kind obligations",
    "C10": "abstract interpretation: nullness obligations",
    "C11": "abstract interpretation: interval/linear-relation bounds obligations",
    "C12": "ownership accounting on abstract paths of the document's members",
    "C14": "abstract interpretation: field-by-field comparison after copies, assignments, swap and clone",
    "C16": "abstract interpretation: chain terms with loop invariants",
    "C15": "abstract interpretation under absence assumptions",
    "C17": "comparison of enumerators; evaluation of conversions for every tag; abstract interpretation of name lookups",
    "C18": "abstract interpretation: classification tables evaluated for every value",
    "C19": "abstract interpretation: symbolic text of every path against the serialisation grammar",
    "C20": "abstract interpretation: symbolic text of every path against its definition",
    "C21": "abstract interpretation of main: exception and stream-state ghosts; typestate of the input stream",
    "C22": "abstract interpretation of main: order of effects on every path",
    "C23": "abstract interpretation of main and of the option table; comparison with the manual page",
    "C24": "abstract interpretation with inductive content terms: the JSON built from the result, and what is printed",
    "C25": "abstract interpretation of the generated glue with inductive content terms and reference counters",
    "C13": "abstract interpretation with ghost state: where pointers into strings come from, whether documents are alive",
    "C29": "abstract interpretation: pointer and length of every text compared as terms",
    "C26": "abstract interpretation: terms of every result against the pattern's definition; overflow obligations",
    "C27": "comparison of declarations, definitions, visibility and class layout across translation units; exception-escape fixpoint; headers compiled alone",
    "C28": "ranking arguments on abstract rounds of every loop; call-graph cycles",
    "C30": "abstract interpretation: every path of matches() against its specification",
    "C31": "abstract interpretation: facts established on every returning path",
    "C32": "abstract interpretation: relational specification of an arbitrary round of every search loop",
    "C33": "abstract interpretation: state left by every building function; arbitrary rounds of its loops",
}
NA = {
    "C40": "which siblings a group takes is a relation between the result and unbounded histories of a backtracking search; the parts that are path properties (mandatory rules are not skipped, complete groups only, no partial captures, progress, every node tried, nothing dropped) are C05, C28, C31 and C32",
    "C41": "the exact text produced is a function of unbounded strings: an in-place two-index rewrite whose result needs an inductive functional proof, not a dataflow argument; its memory safety is C11, its character classes are C18",
    "C42": "functional equality with the documented string functions for all strings is decided inside boost and std algorithms; no static rule in reach bounds it; absent values are C15, termination C28",
    "C43": "depends on Gumbo's parsing algorithm on unbounded text (and does not hold today for text that contains markup characters: see DESIGN.md)",
    "C44": "stack use grows with nesting depth by design (all walks are recursive): the property does not hold today, and bounding stack bytes is a runtime quantity",
    "C45": "which character makes a script invalid is only defined by the grammar's semantics on unbounded input; position arithmetic itself is covered by C11",
}
TODO = {}


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
    for i in ids:
        if i in CHECKS:
            m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                                "technique": "static analysis: " + CHECKS[i], "level": "other",
                                "level_note": "all paths of the analysed functions within the stated models; see DESIGN.md"})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check has been built for it (yet)")})
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
