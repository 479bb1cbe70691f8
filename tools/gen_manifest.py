#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "property-based testing: generated scenes, builders and rays; BVH traversal against an exhaustive f64 ray-triangle oracle",
 "C02": "property-based testing: generated scenes, builders and rays; MBVH traversal against an exhaustive f64 ray-triangle oracle",
 "C03": "property-based testing: generated scenes and divergent packets; BVH packet traversal against an exhaustive f64 oracle per lane",
 "C04": "property-based testing: generated scenes and divergent packets; MBVH packet traversal against an exhaustive f64 oracle per lane",
 "C05": "property-based testing: structural invariants of every generated tree (reachability, disjoint leaf runs, reference counts)",
 "C06": "property-based testing: geometric invariants of every generated tree against primitive boxes and sampled triangle points in f64",
 "C07": "property-based testing: leaf-size invariant over generated scenes including coincident and degenerate ones",
 "C08": "property-based testing: generated bad and good build inputs against the specified verdicts; metamorphic relation own boxes = omitted boxes",
 "C09": "metamorphic property-based testing: repeated builds under varied processor counts, thread pools and schedule jitter must be canonically equal",
 "C10": "property-based testing: converted quad tree compared with the binary tree it came from (differential over conversion routes)",
 "C11": "property-based testing over histories of refits: structural invariants plus hits on moved geometry against the f64 oracle",
 "C12": "structured fuzzing: arbitrary (NaN, infinite, degenerate) queries on generated shallow, deep and empty trees; totality and range oracle, sanitised by bounds, overflow and unsafe-precondition checks",
 "C13": "property-based testing: offered leaves against an f64 ray-box oracle along the path, with the distance changed during traversal",
 "C14": "differential property-based testing of all traversal entry points, with generated sequences of distance changes",
 "C15": "property-based testing: box tests against an f64 slab oracle with three-valued verdicts",
 "C16": "property-based testing: triangle tests against an f64 oracle with three-valued verdicts",
 "C17": "property-based testing: split boxes against exact clipping of the triangle in f64",
 "C18": "property-based testing: box operations against a set-of-points model in f64",
 "C19": "property-based testing: packets and extracted lanes compared with rays constructed directly, by fields and by behaviour",
 "C20": "property-based testing: Morton codes against bit-by-bit interleaving and an f64 grid model; sorted permutation against a stable reference sort",
 "C21": "property-based testing of the C functions over generated buffer layouts behind guard pages; f64 hit oracle and differential against the library's own builds",
 "C22": "model-based testing: generated call histories (one or several threads, nested queries, refused calls) against a model of live handles",
 "C23": "round-trip property-based testing: bincode and JSON, compared by content and by query answers",
 "C25": "property-based testing: node words of built and hand-made nodes against a model of the documented layout; differential queries over nodes rebuilt from those words",
 "C26": "stateful property-based testing: generated interleavings of traversals, builds, copies and threads, each compared with the same operation alone",
 "C27": "property-based testing: surface-area cost, depth and quad merging of every generated scene's trees against a plain greedy surface-area build (f64 reference)",
 "C28": "property-based testing: rays, packets and moves of generated cameras against an f64 model of the view, shared triangles against their definitions, and rendered pixels through every structure against testing everything",
 "C24": "property-based testing: validation verdict against reference counts walked independently, on built and damaged trees",
}
NOTE = "Assurance is that of the generated cases of the run (counts, distribution and samples in the evidence file); the oracle decides only clear cases and leaves a rounding margin, so defects smaller than that margin go unnoticed. Trusts the harness's own oracle, generators and walkers."
EXTRA = {
 "C09": " Thread schedules are those the operating system produces under jitter, not an exhaustive set.",
 "C12": " Out-of-bounds reads that neither crash nor trip a checked index or an unsafe-precondition check would go unnoticed.",
 "C26": " Thread schedules are those the operating system produces.",
 "C27": " The bounds were set from some 200000 generated scenes of the unchanged tree with a margin; losses of efficiency within them go unnoticed.",
 "C22": " Thread schedules are those the operating system produces; a call that does not return within 60 s counts as a violation.",
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "checks": [
  {"property": p["id"], "quick_cmd": f"./check.sh {p['id']}", "thorough_cmd": f"./check.sh {p['id']} thorough",
   "technique": T[p["id"]], "level": "exploration", "level_note": NOTE + EXTRA.get(p["id"], "")}
  for p in props if p["id"] in T],
 "not_applicable": [],
 "notes": "The number of generated cases follows VERIF_TIER; cases are a pure function of VERIF_SEED, property and index. Replay: target/release/harness replay <file>. No hooks in /repo are needed.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
