#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties that have a check."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "P01": "generated files of an independent reference writer, decoded and compared field by field with the model",
 "P02": "generated data sets, write/read round trip and text idempotence",
 "P03": "generated meteo files of a reference writer; decode comparison and round trip",
 "P04": "generated navigation files of a reference writer, orbits looked up by name against the format's table",
 "P05": "generated RINEX 4 system message frames of a reference writer, decode comparison",
 "P06": "generated frame sets and instants against a brute-force selection model",
 "P07": "generated Keplerian elements against an independent ICD propagation; numerical derivative for the velocity",
 "P08": "independent CRINEX encoder; decompressed data compared with the model, read sizes randomised",
 "P09": "generated data sets, compression/decompression round trip",
 "P10": "generated sequences, inverse and reference-model comparison",
 "P11": "generated headers, write/read round trip and reference-writer decode",
 "P12": "generated headers and data sets, line layout invariants over everything written",
 "P13": "generated IONEX files of a reference writer, decode and accessor comparison",
 "P14": "generated clock files of a reference writer, decode comparison",
 "P15": "generated ANTEX files of a reference writer, decode comparison; lookups against a brute-force model",
 "P16": "generated DORIS files of a reference writer, decode comparison, iterators against the decoded record",
 "P17": "generated attributes and names, round trip and naming-convention model",
 "P18": "generated dates through text against a civil calendar model",
 "P19": "enumerated and generated codes, round trip and reference tables",
 "P20": "structure-aware mutation fuzzing of every parser entry point, no panic or abort",
 "P21": "differential testing of the entry points over generated files, chunked, interrupted and failing streams",
 "P22": "generated data sets, iterators against brute-force projections of the record",
 "P23": "generated epoch lists, sampling analysis against a brute-force model",
 "P24": "generated pairs of data sets, subtraction against a brute-force model",
 "P25": "generated multi-frequency observations, combinations against their formulas",
 "P27": "generated meteo records, statistics against a brute-force model",
 "P28": "generated files with comments and line ends inserted anywhere, metamorphic comparison with the bare file",
 "P29": "generated ephemerides, receivers and positions, differential comparison with an independent ENU/geodetic computation",
 "P30": "generated values and calls, invariant: the named field changes and nothing else",
 "P31": "generated observation records, differential comparison with the dual frequency formulas over every due pair",
 "P32": "generated files of every kind, serialisation round-trip through CBOR, and metamorphic comparison of pairs that differ by one character",
}
NA = {}
claimed = [l.split('"')[1] for l in open(os.path.join(here, "harness/src/props/ids.txt"))] if False else \
    sorted(f[:-3].upper() for f in os.listdir(os.path.join(here, "harness/src/props")) if f.startswith("p") and f.endswith(".rs"))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "bash build.sh",
 "checks": [{
   "property": p,
   "quick_cmd": f"./check.sh {p} quick",
   "thorough_cmd": f"./check.sh {p} thorough",
   "technique": "property-based testing: " + T[p],
   "level": "exploration",
   "level_note": "generated-input search against an explicit oracle: no violation among the cases explored, absence is not established; bounds and case counts are in DESIGN.md and in the evidence file",
 } for p in props if p in claimed],
 "not_applicable": [{"property": p, "reason": NA.get(p, "no check yet: the machinery for this property is not built")} for p in props if p not in claimed],
 "notes": "The harness (harness/) is built against /repo's working tree through overlay.py, which only removes the git dependencies cargo cannot resolve offline. No hooks are needed in /repo. known_findings.txt lists the genuine defects that were recorded or repaired.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
