#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "deterministic simulation with fault injection: "
notes = {
 "C01": ("seeded tampering, replay and forgery of whole aggregate messages by a simulated prover that knows the setup secret, with lying and substituting advice oracles; verdict judged by an executable model of the verification relation", "sampled attacks on one circuit shape; a lie the prover model does not know how to exploit is not tried"),
 "C02": ("whole honest verifications of real and simulated proofs after aborted sessions, after rejected messages and next to concurrent sessions", "sampled messages and histories"),
 "C03": ("curve operations against honest, failing and lying advice (wrong, negated, endomorphism image, stale, swapped, shifted), results checked against the group law", "advice of gnark's own gadgets is honest"),
 "C04": ("instance hashing against a lying oracle (self-consistent hashes of other bytes, carries across bytes and words), result checked against Keccak-256", "sampled instances and lies"),
 "C05": ("transcripts of real, simulated and corrupted proofs, challenges compared with an independent transcript model; sensitivity of every absorbed word", "sampled transcripts"),
 "C06": ("random straight-line programs of field operations with aliasing, wrong division hints and lying reductions, compared with exact arithmetic", "sampled programs"),
 "C07": ("hash circuits over messages of boundary lengths with corrupted, truncated, reordered and foreign digests", "sampled messages up to a few hundred bytes"),
 "C08": ("whole transcripts with each point in turn moved off the curve in several ways, plus single on-curve checks in several number representations", "sampled displacements, all positions visited"),
 "C09": ("pairing statements built with known discrete logarithms, true and false in several ways, and point loading", "sampled scalars"),
 "C10": ("credentials: valid, forged, replayed, malleated, out of conditions, and aborted sessions", "sampled credentials and conditions"),
 "C11": ("concurrent sessions interleaved at every statement by a seeded scheduler with aborts and lies in neighbours; every session compared with the same session alone in a fresh process", "preemption at statements of the package and at backend calls"),
 "C12": ("sequences of sessions in one process with crashes, refusals and failing advice between them, and repeated presentation of the same objects; compared with fresh-process runs", "sampled histories"),
 "C13": ("parallel and repeated calls of the advice functions with recycled and aliased buffers, compared with the group law, Keccak-256 and division", "sampled arguments and interleavings"),
 "C14": ("injected failures: advice errors, panics, missing or out-of-range answers, backend refusals, shortened messages; no session may accept after one", "sampled failure points"),
 "C15": ("compiled systems (PLONK and R1CS) solved by gnark's solver with scheduled, lying and failing advice, compared with direct evaluation and the reference", "the parts of the verifier that can be compiled; the aggregate circuit as a whole cannot be"),
 "C16": ("range and non-zero checks on operands drawn near bounds and field edges", "sampled operands"),
 "C17": ("multi-scalar and single-operation circuits with true and false claims, repeated, equal and opposite points, repeated presentation", "sampled statements"),
 "C18": ("hostile messages and advice under a budget of simulated steps, compared with the work of the honest session of the same shape", "sampled hostile inputs"),
 "C19": ("the sequence of advice requests of each session under concurrency compared with a fresh process", "sampled sessions"),
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    t, n = notes[i]
    checks.append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
                   "technique": T + t, "level": "exploration", "level_note": n, "evidence_file": "evidence/%s.json" % i})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none in /repo", "enable": "the checks instrument a copy of the working tree at build time (go test -overlay); /repo carries no hooks", "source_commits": []},
     "checks": checks, "not_applicable": [],
     "notes": "See DESIGN.md. Replay a violation with ./run.sh replay FILE."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
