#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

AGG = ["circuit.go", "AggregatorVerifierStep1.go", "AggregatorVerifierStep2.go",
       "AggregatorVerifierStep3.go", "aggregator_lib_circuit.go", "fr.go", "pairing_circuit.go"]

p("C01", "Only a valid aggregate proof for the stated instance is accepted",
  "The aggregate-proof circuit accepts a delivered message (104 proof words, division hints, inner instance, public targets) only if the proof is a valid halo2/ShPlonk proof for exactly those public targets. Any corruption of the message on its way - flipped, swapped, truncated, repeated, replayed or spliced words, or a prover that rebuilds every other word to fit - leads to rejection. This holds whatever values the prover-side advice oracle supplies.",
  ["inputs", "fault_sequences", "histories"],
  "every proof, instance and division-hint message, every corruption of one, every advice answer and every earlier session",
  "The tests verify one hard-coded proof and never a wrong one: no test feeds the aggregate verifier an invalid message, so an acceptance of a false proof is invisible to them.",
  AGG, [("whole verification", "circuit.go AggregatorCircuit.Define"), ("transcript", "aggregator_lib_circuit.go GetChallengesShPlonkCircuit"),
        ("constraint evaluation and multi-open", "AggregatorVerifierStep1.go/Step2.go/Step3.go VerifyProof1..3"), ("final pairing", "pairing_circuit.go VerifyBN256Pairing")],
  [("buf", "43 words of verifier state: instance commitment, challenges, accumulated points")], ["return value/panic of Define run by the evaluation engine"])

p("C02", "Every valid aggregate proof is accepted",
  "If the proof satisfies the halo2/ShPlonk verification equations for the stated public targets, its division hints are the true quotients and the advice oracle answers honestly, the aggregate-proof circuit accepts. This holds for every such proof, not only the shipped one, and regardless of earlier failed, aborted or concurrent verifications in the same process.",
  ["inputs", "histories", "schedules"],
  "every accepting transcript (any points, evaluations, challenges, targets) of the fixed verifying key, any history of other sessions, any schedule",
  "One fixed proof exercises one value of each challenge, evaluation and point; a term that vanishes or coincides there, or that depends on earlier sessions, is not tested.",
  AGG, [("whole verification", "circuit.go AggregatorCircuit.Define"), ("powers and combination of openings", "AggregatorVerifierStep2.go, AggregatorVerifierStep3.go")])

p("C03", "Curve arithmetic results are right whatever the advice oracle answers",
  "Every scalar multiplication and point addition that the circuits perform with prover-supplied advice either yields exactly the group-law result for its operands or makes the session fail. With honest advice, an operation on finite points whose result is finite succeeds with that result.",
  ["inputs", "fault_sequences"],
  "all operand points and scalars, every advice answer: wrong, negated, swapped, stale, replayed from another operation, zero, off the curve",
  "Tests call the operations with honest hint functions only; soundness against a lying hint is never exercised, and only a few operands are tried.",
  ["aggregator_lib_circuit.go", "msm.go", "fr.go"],
  [("multiplication with advice", "aggregator_lib_circuit.go CalcVerifyBN256Msm, MsmHint"), ("addition with advice", "aggregator_lib_circuit.go CalcVerifyBN256Add, AddHint"),
   ("in-circuit re-computation", "msm.go VerifyBN254ScalarMul, VerifyBN254Add"), ("users", "fr.go ecc_mul, ecc_mul_add")])

p("C04", "The proof is bound to the public targets through the instance hash",
  "The instance value used by the aggregate verification is the Keccak-256 digest, reduced to the scalar field, of exactly the big-endian 32-byte encodings of the public targets followed by the inner instance, no matter what the advice oracle answers. An advice answer that hashes any other bytes, or claims another digest, makes the session fail.",
  ["inputs", "fault_sequences"],
  "all public targets and inner instances, every advice answer, including internally consistent digests of other data",
  "The only test runs the honest hint on one instance; a prover who hashes different inputs consistently is never simulated.",
  ["circuit.go", "aggregator_lib_circuit.go", "utils.go"],
  [("instance hash", "circuit.go VerifyInstanceHash, Keccak256Hint"), ("in-circuit digest", "aggregator_lib_circuit.go VerifyKeccak256"), ("packing", "utils.go PackUInt8Variables")])

p("C05", "Every challenge commits to the whole transcript before it",
  "Each of the eight verifier challenges equals the Fiat-Shamir value computed from the verifying-key digest, the instance commitment and every proof message sent before that challenge, in order. Altering, dropping, reordering or replaying any earlier message changes that challenge and all later ones; no other message influences it.",
  ["inputs", "histories", "fault_sequences"],
  "all transcripts, all positions and kinds of message fault, any earlier transcript processed in the same process",
  "The test checks one squeeze of one transcript; omission of a message from the absorbed data is invisible as long as the fixed proof verifies.",
  ["aggregator_lib_circuit.go"],
  [("transcript", "aggregator_lib_circuit.go GetChallengesShPlonkCircuit"), ("squeeze", "aggregator_lib_circuit.go SqueezeChallenge")],
  [("absorbing", "words absorbed since the last squeeze")])

p("C06", "Field operations and prover-supplied quotients are exact",
  "Addition, subtraction, negation, multiplication, powering and reduction used by the verifier yield the exact scalar-field value for all operands, whatever the advice oracle answers, or make the session fail. A division hint is accepted only if it is the quotient of the two operands.",
  ["inputs", "fault_sequences"],
  "all field operands including 0, 1, r-1 and aliased operands, every division hint, every advice answer",
  "No test calls the field helpers; they run only on the one honest trace, where quotients and reductions are always right.",
  ["fr.go"], [("field helpers", "fr.go fr_add, fr_sub, fr_neg, fr_mul, fr_pow, mod"), ("division by hint", "fr.go fr_div"), ("advice", "fr.go modHint")])

p("C07", "Hash circuits accept exactly the true digest",
  "The Keccak-256 and SHA-256 circuits accept a message and digest if and only if the digest is the hash of that message, for every message length and content, including block-boundary lengths and digests corrupted in any single byte.",
  ["inputs", "fault_sequences"],
  "all messages, all digest corruptions, interleaved with other hashing sessions",
  "Tests hash a couple of fixed messages and never present a wrong digest.",
  ["aggregator_lib_circuit.go"], [("Keccak-256", "aggregator_lib_circuit.go VerifyKeccak256"), ("SHA-256", "aggregator_lib_circuit.go VerifySha256")])

p("C08", "Points off the curve are rejected before they are used",
  "A proof that carries a point not on the BN254 curve at any of its point positions is rejected, and no curve operation is ever requested of the advice oracle on that point. The stand-alone on-curve circuits accept exactly the points of the curve.",
  ["inputs", "fault_sequences"],
  "every point position of the proof, every off-curve pair (perturbed, swapped coordinates, twists of other curves), any advice",
  "Tests check a few points on the curve; no test sends an off-curve point at each proof position.",
  ["aggregator_lib_circuit.go"], [("point check", "aggregator_lib_circuit.go VerifyCheckOnCurve, VerifyCheckOnCurveVar"), ("positions", "aggregator_lib_circuit.go GetChallengesShPlonkCircuit")])

p("C09", "The final pairing check accepts exactly opening equations that hold",
  "The pairing circuit accepts two finite G1 and two finite G2 points if and only if the product of their pairings is one, and with a point at infinity among them it never accepts a product that is not one. Loading the verifier's own points keeps them unchanged, refuses G1 inputs off the curve, and always uses the fixed verifying-key G2 points, in every session.",
  ["inputs", "histories"],
  "all related and unrelated point pairs, negations, swaps, points at infinity excluded, any earlier session",
  "Two fixed accepting examples are tested; a wrong pairing equation that still accepts them, and any false equation, are untested.",
  ["pairing_circuit.go"], [("pairing check", "pairing_circuit.go VerifyBN256Pairing, BN256PairingCircuit.Define"), ("loading", "pairing_circuit.go FillVerifyCircuitsG1, FillVerifyCircuitsG2, GetVerifyCircuitsG2Jac")])

p("C10", "A KYC credential is accepted only if signed and within the public conditions",
  "The KYC circuit accepts if and only if the signature on the credential hash verifies under the fixed issuer key, the age lies within the public inclusive range and the country is in the public list. A forged, truncated, replayed (other hash) or malleated-beyond-ECDSA signature, an age outside, or a foreign country is rejected.",
  ["inputs", "fault_sequences", "histories"],
  "all signatures, hashes, ages, countries, ranges and lists (including empty, single and duplicate entries), every message corruption",
  "One accepting credential is proved by the tests; no rejection case is tested.",
  ["kyc.go", "aggregator_lib_circuit.go"], [("credential circuit", "kyc.go Circuit.Define"), ("range", "aggregator_lib_circuit.go VerifyRangeCheck")])

p("C11", "Concurrent sessions do not influence one another",
  "When any number of verification sessions run concurrently in one process, each one's verdict and intermediate results are those it would have had alone. No interleaving lets one session's messages, advice or failure leak into another.",
  ["schedules", "histories"],
  "all interleavings, at statement granularity, of sessions of every kind (aggregate stages, curve and field operations, hashing, KYC, range, hint evaluation)",
  "Every test runs alone on one goroutine (the test runner even uses one process per test); no test runs two sessions at once.",
  ["circuit.go", "fr.go", "aggregator_lib_circuit.go", "msm.go", "kyc.go", "pairing_circuit.go"],
  [("session state", "circuit.go AggregatorCircuit.Define buf"), ("advice functions run by solver goroutines", "aggregator_lib_circuit.go MsmHint, AddHint; circuit.go Keccak256Hint; fr.go modHint")],
  [("MODULUS and package variables", "process-wide state shared by all sessions")])

p("C12", "An aborted or repeated session leaves no trace",
  "If a session is aborted at any step - by a crash, a failed constraint or a failing advice oracle - retrying it, or running any other session, in the same process gives the same verdict and results as in a fresh process. A session never modifies the message it was given, so the same message can be verified again with the same outcome.",
  ["crash_points", "histories"],
  "every abort point of every kind of session, every sequence of sessions before and after it",
  "Each test runs one session in its own process; abort and retry, and re-verification of the same objects, never happen.",
  ["circuit.go", "aggregator_lib_circuit.go", "fr.go", "msm.go", "pairing_circuit.go", "kyc.go"],
  [("caller-owned inputs", "aggregator_lib_circuit.go VerifyBN256Msm, VerifyBN256Add; circuit.go AggregatorCircuit fields"), ("process-wide state", "aggregator_lib_circuit.go MODULUS, init")])

p("C13", "Advice functions are pure, exact and safe to run in parallel",
  "Each registered advice function computes the documented value (scalar multiple, sum, Keccak digest with its input bytes, quotient and remainder) from its inputs alone. It leaves its inputs and all shared values unchanged, hands out results that alias nothing, and gives the same answers when many calls overlap, some of them fail, or result buffers are recycled by the caller.",
  ["schedules", "inputs", "histories"],
  "all operands, all overlaps of calls, all failure points and all reuse of result buffers by the solver",
  "Tests call each function sequentially from the evaluation engine, on a handful of operands; the solver's parallel calls and pooled buffers are not covered.",
  ["aggregator_lib_circuit.go", "circuit.go", "fr.go"],
  [("advice functions", "aggregator_lib_circuit.go MsmHint, AddHint; circuit.go Keccak256Hint; fr.go modHint"), ("text decoding", "aggregator_lib_circuit.go extractAndConvert, hexToDecimalString")])

p("C14", "Every failure inside a session ends in rejection",
  "Whatever fails while a session runs - the advice oracle returns an error, panics, leaves its answers unset or answers out of range, a message is shorter than expected, or the evaluation backend refuses a step - the session ends in an error or abort. It never ends in acceptance, and an operation that failed is never reported as successful to its caller.",
  ["fault_sequences", "crash_points"],
  "every failure kind at every advice request and backend step of every kind of session, singly and combined",
  "Tests have no failing dependency; error paths (including ignored error returns) are never executed.",
  ["fr.go", "aggregator_lib_circuit.go", "circuit.go", "msm.go", "AggregatorVerifierStep1.go", "AggregatorVerifierStep2.go", "AggregatorVerifierStep3.go"],
  [("error propagation", "fr.go ecc_mul, ecc_mul_add, mod; aggregator_lib_circuit.go CalcVerifyBN256Msm, CalcVerifyBN256Add; circuit.go Define")])

p("C15", "Compiled circuits solve in a fresh process exactly as direct evaluation does",
  "Every circuit of the package that compiles to a constraint system can be solved for an honest witness by a freshly started process with only the advice functions the package itself registers, and its constraints accept and reject the same statements as direct evaluation of the circuit. Replacing any advice answer by a wrong one never makes the compiled constraints accept a false statement.",
  ["inputs", "configurations", "fault_sequences"],
  "all statements, both arithmetisations, every wrong advice answer, a process restart between compilation and solving",
  "Tests solve compiled circuits for a few honest witnesses in the process that compiled them; the compiled form is never compared with direct evaluation nor attacked with other advice.",
  ["aggregator_lib_circuit.go", "fr.go", "circuit.go", "kyc.go", "pairing_circuit.go", "msm.go"],
  [("advice registration", "aggregator_lib_circuit.go init"), ("field helpers", "fr.go"), ("instance hash", "circuit.go VerifyInstanceHash"), ("circuits", "kyc.go, pairing_circuit.go, msm.go, aggregator_lib_circuit.go")])

p("C16", "Range and non-zero checks accept exactly the values they should",
  "The range check accepts a value if and only if it lies between the inclusive bounds as integers below the field modulus, and the non-zero check accepts exactly the non-zero field elements, for all operands including bounds in the wrong order and values next to the modulus.",
  ["inputs", "fault_sequences"],
  "all values and bounds, neighbours of the bounds, extremes of the field, in direct and compiled evaluation",
  "The range check has no test of its own, and the non-zero check only runs on four values.",
  ["aggregator_lib_circuit.go"], [("range", "aggregator_lib_circuit.go VerifyRangeCheck"), ("non-zero", "aggregator_lib_circuit.go VerifyNotZero")])

p("C17", "Multi-scalar and single-operation curve circuits accept exactly true results",
  "The circuits that check a multi-scalar multiplication, a single scalar multiplication or a point addition accept a claimed result if and only if it is the group-law result of the given points and scalars. Presenting the same objects again gives the same verdict.",
  ["inputs", "histories", "fault_sequences"],
  "all numbers of terms, points and scalars (including repeated and opposite points), all wrong claims, repeated presentation",
  "Tests check one or two honest statements per circuit and no wrong claim.",
  ["msm.go", "aggregator_lib_circuit.go"], [("multi-scalar", "msm.go VerifyMultiScalarMul"), ("single operations", "msm.go BN254ScalarMul, BN254Add; aggregator_lib_circuit.go BN256MsmCircuit, BN256AddCircuit")])

p("C18", "Every session terminates within a bounded amount of work",
  "Each verification session ends, in acceptance or rejection, after a bounded number of steps that does not depend on the values in the message or the advice answers, however malformed or hostile they are. After all faults stop, a pending honest session completes within the same bound.",
  ["inputs", "fault_sequences", "schedules"],
  "all messages and advice answers, extreme scalars and exponents, every fault sequence followed by a quiet period",
  "Tests only time out as a whole on honest inputs; no bound is asserted and no hostile input is tried.",
  ["fr.go", "aggregator_lib_circuit.go", "circuit.go"], [("loops", "fr.go fr_pow; aggregator_lib_circuit.go GetChallengesShPlonkCircuit"), ("retries", "circuit.go Define")])

p("C19", "The proof pipeline is deterministic and its stages see the same public inputs",
  "Given the same message and the same advice answers, every run of a session, in any process, makes the same requests to the advice oracle in the same order with the same operands and reaches the same verdict. In particular the requested operations depend only on the message, not on scheduling, time, process history or memory layout.",
  ["schedules", "histories", "configurations"],
  "all messages, all schedules of other sessions, any process history, different processes",
  "No test runs a session twice and compares; nondeterminism that still verifies would break reproducible compilation and proving and stay unnoticed.",
  ["circuit.go", "aggregator_lib_circuit.go", "fr.go"], [("advice requests", "aggregator_lib_circuit.go CalcVerifyBN256Msm, CalcVerifyBN256Add; fr.go mod; circuit.go VerifyInstanceHash")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
