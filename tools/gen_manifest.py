#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand; the output is committed)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
T = {
 "C01": "property-based testing: random shapes, indices and read/write histories against a flat-array model",
 "C02": "property-based testing: generated tensors against element-by-element evaluation in the element type",
 "C03": "property-based testing: generated tensors against reference reductions with rounding bounds",
 "C04": "property-based testing: generated tensors against index-map models, plus round trips",
 "C05": "property-based testing: generated contractions against nested-loop evaluation",
 "C06": "stateful property-based testing: random expression DAGs and source changes against a recursive evaluator",
 "C07": "property-based testing: generated ill-formed expressions, each must be refused",
 "C08": "stateful property-based testing: mutation histories with an aliasing detector",
 "C09": "property-based round trips with injected faults at every (enumerated) stream position",
 "C10": "property-based testing: dense input grids and random bit patterns against reference functions",
 "C11": "property-based testing: random networks against an independent reference forward pass",
 "C12": "property-based testing: random networks against an independent reverse-mode reference",
 "C13": "stateful property-based testing: training histories against the momentum recursion model",
 "C14": "stateful property-based testing: call histories against memoised predictions",
 "C15": "property-based round trips over training histories with injected stream faults",
 "C16": "stateful property-based testing: compositions against part-wise prediction",
 "C17": "stateful property-based testing: freezing histories against the unfrozen model of the update rule",
 "C18": "stateful property-based testing: histories with rejected calls against a twin without them",
 "C19": "property-based testing: generated images against pixel-wise reference functions and round trips",
 "C20": "exhaustive enumeration of half-precision patterns and generated float32 values against big-number rounding",
 "C21": "stateful property-based testing: scalar operation sequences against IEEE reference arithmetic",
 "C22": "property-based testing with statistical tests at very small error levels for random contents",
 "C23": "schedule generation: interleaved and parallel scripts against solitary runs, under the Go race detector",
 "C24": "property-based testing: faults injected into generated networks, each must be refused",
 "C25": "property-based testing: generated contents parsed back and compared with references",
 "C26": "property-based testing: generated networks, printed form parsed and compared with their specification",
}
NOTE = {
 "C09": "Every truncation point and every failing write position of each generated stream is enumerated; streams themselves are sampled. Trusts the harness's byte-level model.",
 "C15": "Every truncation point and failing write position of small models is enumerated; architectures and histories are sampled.",
 "C20": "All 65536 half patterns and (thorough) all 2^32 float32 patterns are enumerated for conversion; arithmetic pairs are sampled densely.",
 "C22": "Distribution checks use thresholds with an error probability below 1e-9 per run; shape and content claims are exact.",
 "C23": "Sampled schedules; the race detector reports unsynchronised sharing on any executed pair of accesses, not only on unlucky timings.",
}
m = dict(version=1, setup_cmd="python3 check.py --build", checks=[
  dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
       technique=T[i], level="fault_enumeration" if i in ("C09", "C15") else "exploration",
       level_note=NOTE.get(i, "No counterexample among the generated cases (counts and classes in the evidence file); trusts the reference model in harness/ and the Go toolchain."))
  for i in ids], not_applicable=[],
  notes="One Go test binary (harness/, rapid v1.3.0 from the module cache) holds all checks; check.py rebuilds it against /repo's working tree on every run, spreads the cases over 8 processes and merges their coverage. No hooks in /repo.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
