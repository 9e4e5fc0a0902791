#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (kept in step with check.py's CHECKS)."""
import json, os
T = "TLA+ specification checked with TLC; generated behaviours replayed into the real code and recorded traces checked against the specification"
GUARD = "Trusts TLC, gcc, the harness' recording and guard pages. The specification is explored exhaustively within its bounds; the real code is exercised on the enumerated format boundaries and on simulated behaviours, at every instruction-set level of the machine, in three buffer placements per call."
CLAIMED = {
 "C01": ("exploration", "Round trip of every codec over all pairs of levels (%s)"),
 "C02": ("exploration", "Every stream an encoder produced is walked token by token by the specification's reader and must describe exactly the input (%s)"),
 "C03": ("exploration", "Well-formed streams written by the specification, including forms no encoder of this library emits, decoded at every level and compared with the specification's reading (%s)"),
 "C04": ("exploration", "Bounds against the sizes actually needed on inputs built to grow, and the bound functions over the whole size range (%s)"),
 "C05": ("exploration", "Guard pages directly behind and before the buffers plus canaries; faults and breaches are events the specification does not allow (%s)"),
 "C06": ("exploration", "Every enumerated call with missing, too small, too large or contradictory arguments, judged by the specification's list of calls that must be refused (%s)"),
 "C09": ("exploration", "Detection, restriction and dispatch are model checked over all machines; the real code runs on each of those machines emulated (cpuid/xgetbv answered, forbidden instructions replaced by traps) (%s)"),
 "C07": ("exploration", "Header fields, returned sizes and size queries against the specification's reading of the stream (%s)"),
 "C08": ("exploration", "The specification makes the result a function of level and input; calls repeated in other placements, surroundings and histories must agree (%s)"),
 "C10": ("exploration", "The first-use protocol is model checked; every schedule of a pair of real calls at the points where one of them touches shared library state is replayed on the real code, and each call must give what it gives alone (%s)"),
 "C11": ("exploration", "Inputs made of literals and runs together with the size the specification allows them (%s)"),
 "C12": ("exploration", "Move-to-front and delta sequences defined in the specification, compared with what the transforms wrote (%s)"),
 "C13": ("exploration", "Building blocks and sectioned streams walked by the specification's reader (%s)"),
 "C14": ("exploration", "Option lists enumerated and simulated from the specification of the tool's arguments; codecs run, functions called, level and refusals of the real tool judged by it (%s)"),
 "C15": ("exploration", "The verdict logic is model checked; the real tool runs with codecs made to fail in every enumerated way, and its verdicts are judged by the specification (%s)"),
 "C16": ("exploration", "The scan of the analysis is model checked against the definition of runs and gaps; every figure of the real tool's reports is judged by it (%s)"),
 "C17": ("exploration", "The enumeration is model checked to be complete; the inputs the real fuzzer hands to recording codecs are followed step by step by the specification (%s)"),
}
NA = {
}
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                 "technique": T, "level": l, "level_note": n % GUARD} for p, (l, n) in sorted(CLAIMED.items())],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
     "notes": "See DESIGN.md. No hooks are needed in /repo: the checks link the library's own sources."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
