#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FORMAT = ("bounded-exhaustive stateless model checking of the real parser: every choice sequence of the input driver is "
          "executed and compared with an executable pushdown model of the class-file format")
WALK = ("bounded-exhaustive stateless model checking of the real parser under a monitor: every choice sequence of the input driver "
        "is executed in supervised processes")
POOL = ("explicit exploration of all histories of pool operations up to a depth on the real Pool, checked step by step against a "
        "slot-vector model")
DESC = ("bounded-exhaustive stateless model checking of the real descriptor code against a grammar automaton: all strings / all "
        "descriptors up to the bounds")
HIST = ("exhaustive exploration of all histories of parse and pool calls up to a depth on the real code, each result compared with "
        "the one a fresh process gives")
WORK = ("bounded-exhaustive stateless model checking of the real code under a monitor of its work: every family of growing inputs, "
        "pools and descriptors, and pairs of families, is executed at three sizes with its instructions single-stepped and its memory "
        "requests counted, and at the largest sizes against absolute bounds")
TRUST = " Trusts the reference model (written from the JVM specification; agrees with the parser on 14,468 JDK classes) and the bounds in DESIGN.md."
notes = {
    "C01": (WALK, "No execution within the bounds panics, aborts, overflows a 2 MiB stack or hangs; overflow checks and debug assertions are on. Inputs outside the enumerated families are not covered."),
    "C02": (WALK + " (counting allocator)", "Peak heap of every execution within the bounds is measured by a counting allocator. Inputs outside the enumerated families are not covered."),
    "C29": (HIST, "All histories to the depth in DESIGN.md over about thirty inputs, and two threads interleaved at allocator calls and at instructions."),
    "C30": (WORK, "All families in drivers/work.rs one by one; of the pairs of families the quick tier covers a fixed subset, the thorough tier all. Growth is judged at small sizes by instruction counts, at large sizes by bytes requested and processor time (least of several runs)."),
    "C19": (FORMAT, "All 65,536 flag words in every place that has one; complete for one class shape per place." + TRUST),
}
for k in list(range(3, 19)) + [20]:
    notes["C%02d" % k] = (FORMAT, "Exhaustive within the listed bounds (shapes, one field over its full range, two or three fields over boundary values)." + TRUST)
for k in range(21, 26):
    notes["C%02d" % k] = (POOL, "Exhaustive to the listed depth over an item alphabet with every kind, from new, pre-sized, parsed and nearly full pools. Trusts the slot-vector model.")
for k in range(26, 29):
    notes["C%02d" % k] = (DESC, "Exhaustive over the listed alphabets and lengths, every scalar value in templates, all dimension and parameter counts around the limits. Trusts the grammar model.")
checks = [{
    "property": i,
    "quick_cmd": "./check %s quick" % i,
    "thorough_cmd": "./check %s thorough" % i,
    "technique": notes[i][0],
    "level": "model_checking",
    "level_note": notes[i][1],
} for i in ("C%02d" % k for k in range(1, 31))]
json.dump({"version": 1, "setup_cmd": "./check build", "checks": checks, "not_applicable": [],
           "notes": "No hooks: every check uses the public API only. known_findings.txt lists the repaired defects."},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
