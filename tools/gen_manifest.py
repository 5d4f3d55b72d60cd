#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {  # property: (deciding method, note)
 "C01": ("model-based testing: random histories of structural operations against a two-dimensional array model", "all operations, sizes 1x1..4x4, histories up to dozens of steps"),
 "C02": ("model-based testing: random histories of storage operations against a list model", "float and integer vectors, lengths 1..4"),
 "C03": ("property-based testing: generated calls with classified valid/invalid arguments, snapshot before/after", "oracle is the argument classification; which error is returned is not judged"),
 "C04": ("property-based testing: histories over arbitrary finite bit patterns, finiteness invariant, exact overflow verdict for elementary operations", "extreme magnitudes, subnormals, overflow"),
 "C05": ("property-based testing: differential against double precision definitions and algebraic laws", "all conforming shapes"),
 "C06": ("property-based testing: differential against double precision definitions and metamorphic relations", "all lengths and both cross product halves"),
 "C07": ("property-based testing: differential against a cofactor determinant, metamorphic row/transposition/product relations", "well-scaled and structured matrices"),
 "C08": ("property-based testing: residual oracle (A X = I, A x = b) and adjugate definition", "conditioning bounded by construction"),
 "C09": ("property-based testing: reconstruction and triangularity oracle", "regular leading minors by construction"),
 "C10": ("property-based testing: matrices with constructed spectrum, reconstruction oracle, both verdicts", "definite and indefinite classes"),
 "C11": ("property-based testing: reconstruction, orthonormality and triangularity oracle", "including rank deficient and tall matrices"),
 "C12": ("property-based testing: symmetric matrices with constructed spectrum, residual oracle, budget exhaustion", "every iteration budget class, both iterations"),
 "C13": ("property-based testing: predicates against definitions, with deviations planted above and below the tolerance", "both verdicts of every predicate"),
 "C14": ("property-based testing: exponential of generated rotation vectors as inverse oracle", "angles up to and including pi"),
 "C15": ("property-based testing: differential against the definition, endpoint and symmetry relations", "weights in and out of range"),
 "C16": ("property-based testing: Hamilton product model and algebraic laws", "all quaternions of moderate size"),
 "C17": ("property-based testing: differential against the power series definition, inverse relation", "pure, real and general quaternions"),
 "C18": ("property-based testing: differential against q v q*, composition and orthogonality relations", "all unit quaternions"),
 "C19": ("property-based testing: round trip through the direction cosine matrix for every conversion method", "all rotations incl. half turns, small rotations"),
 "C20": ("property-based testing: round trip through elementary rotations, gimbal lock classes", "all unit quaternions"),
 "C21": ("property-based testing: accessor model, refusal leaves unchanged", "all component accessors"),
 "C22": ("property-based testing: differential against matrix times (raw minus bias), read-back of configurations", "three sensors, reconfiguration sequences"),
 "C23": ("model-based testing: life-cycle histories with injected invalid data", "three sensors"),
 "C24": ("model-based testing: update histories against exact double precision integration, splitting and undoing relations", "closed form"),
 "C25": ("property-based testing: truncation-error bound against exact integration", "all orders and methods"),
 "C26": ("property-based testing: invariant over histories of arbitrary measurements", "both filters, all modes and settings"),
 "C27": ("model-based testing: life-cycle histories against a fresh filter as twin", "three filters; one listed known finding"),
 "C28": ("property-based testing: attitude built from the two measured directions as oracle", "all directions incl. inverted and near-vertical"),
 "C29": ("property-based testing: differential against a double precision model of the update, limit-gain relations", "branch neighbourhoods excluded"),
 "C30": ("property-based testing: convergence histories with monotone tilt error and fixed point", "any heading incl. opposite"),
 "C31": ("property-based testing: differential with explicit gain, history independence", "both sides of the reference"),
 "C32": ("property-based testing: metamorphic, calibrated filter against hand-corrected readings", "both filters and modes, reconfiguration"),
 "C33": ("property-based testing: differential against double precision complex arithmetic", "all operations and refusals, extreme magnitudes, large angles"),
 "C34": ("property-based testing: differential against exact definitions over bit patterns", "all helper functions"),
 "C36": ("property-based testing: oracle listing the causes present in each generated call, compared with the returned error", "every public fallible call; when several causes are present any of them may be named"),
 "C37": ("property-based testing: round trip from stored elements to captured standard output", "standard output is diverted to a file in memory around each call"),
 "C38": ("property-based testing: differential against reversal of the written bits, involution, refusals", "complete over the 65,536 inputs in practice; reached through a hook"),
 "C39": ("property-based testing: differential against the transform in double precision", "all kinds of sequences up to the largest magnitudes; reached through a hook"),
 "C40": ("property-based testing: differential against double precision complex arithmetic, agreement of both forms", "all operations and refusals of the prototype"),
 "C41": ("property-based testing: differential against exact definitions over bit patterns", "all helper functions of the prototype"),
 "C42": ("property-based testing: simulated motions as oracle, error bound over the history, convergence", "noise-free motions in the convention of the repository's generator"),
 "C43": ("property-based testing: metamorphic, two filters differing only in the field", "single updates with any rates; histories at rest or without gyrometer"),
 "C44": ("model-based testing: interleaved histories of several objects against each alone, bit for bit", "any interleaving in one thread, and unsynchronised threads in part of the cases"),
 "C45": ("model-based testing: continuation of a history against a fresh object at the reported state", "pasts of up to 65,700 updates, long ones periodic"),
 "C46": ("property-based testing: double-precision update without the missing correction as oracle", "null measurements, by the readings or by the calibration"),
 "C47": ("property-based testing: rotations composed axis by axis as oracle", "the function over its arguments and one run of the program; numpy is replaced by a stand-in where it is not installed"),
 "C48": ("property-based testing: the oracles of the other properties in a build without the std feature", "the cases of 40 properties, at a share of their counts"),
 "C35": ("property-based testing: invariants over every requested number", "complete over the 256 inputs"),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = [{"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
           "technique": T[i][0], "level": "exploration",
           "level_note": "Generated-input search, not a proof: " + T[i][1] + ". Bounds in DESIGN.md.",
           "evidence_file": f"evidence/{i}.json"} for i in ids]
m = {"version": 1, "setup_cmd": "bash run.sh build",
     "hooks": {"guard": "cfg(verif)", "enable": "RUSTFLAGS='--cfg verif' (run.sh, for C38 to C41 only)", "source_commits": ["fc51cb6", "7f6c474"]},
     "checks": checks, "not_applicable": [],
     "notes": "C47 runs the Python generator of the repository (pycheck/); all others use the Rust harness. The harness uses only the public API of /repo's crates, and one hook each for C38 and C39. C48 builds the harness and the library a second time without the std feature. The prototype under temp/ is compiled in from its sources. Genuine defects found are repaired by the fix: commits of /repo, or listed in known_findings.txt."}
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
