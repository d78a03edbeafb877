#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run from /verif)."""
import json, subprocess
TECH = {
 "C01": ("forgery fuzzing with an independent signer as oracle", "Every alteration class is applied to freshly signed tokens of every key type; acceptance of anything the harness did not sign with the issuer's key is a violation. Trusts the crypto crates."),
 "C02": ("differential field monitor over signed bytes", "Every accessor, on tokens and on altered structured forms, is compared with the harness's own reading of the signed bytes."),
 "C03": ("grammar-based malformed-token fuzzing with an independent acceptance grammar", "Each string is classified by the harness's own grammar of tokens; the decoder must agree."),
 "C04": ("round-trip monitor over random builder content", "Build/sign/encode/decode/validate round trips with random content and all key types, including determinism and order independence."),
 "C05": ("round-trip and content-address monitor", "Re-encoding and CIDs are compared byte by byte with the harness's own computation."),
 "C06": ("boundary monitor under a substituted clock", "Verdicts at and around both bounds, explicit and wall-clock time, at chain depths 0-5; the clock is substituted through clock_gettime."),
 "C07": ("model-based monitoring of chain construction with sabotage injection", "An independent acceptance model judges random proof graphs, sound or broken in chosen places, through all three entry points."),
 "C08": ("event-trace monitoring of verifications and store reads", "Every verification and read is logged and checked against the graph; single verifications are made to fail."),
 "C09": ("model-based monitoring of reduced capabilities (upper bound)", "Every reported (capability, originator) pair is compared with an independent unmerged attribution model."),
 "C10": ("model-based monitoring of reduced capabilities (lower bound) and metamorphic reordering", "Every granted pair of the model must be reported, also after reordering, duplication and unknown capabilities."),
 "C11": ("model-based monitoring of redelegation", "Selections of every form over 0-14 proofs; passed-on and held-back capabilities are checked one by one."),
 "C12": ("window monitor over accepted chains", "Every reported window is compared with the outermost token's and all below, under random and sabotaged windows."),
 "C13": ("exhaustive small-domain and random differential monitor of enablement", "All pairs and triples of a small capability domain plus random ones against an independent definition; order laws and monotonicity."),
 "C14": ("exhaustive small-domain and random differential monitor of caveats", "All pairs over a small caveat domain plus random nested objects against the definition."),
 "C15": ("parse/render round-trip monitor with an independent parser", "Every resource form, wildcards and foreign texts, under three semantics."),
 "C16": ("conversion monitor across every construction path", "Sequence, JSON value, nested map, serde JSON, DAG-CBOR and token paths are compared with an independent flattening."),
 "C17": ("model-based monitoring of builder call sequences under a substituted clock", "Random call sequences against a model of the builder, including unrepresentable content and extreme lifetimes."),
 "C18": ("freshness monitor across threads, clones and processes", "All nonces ever observed in the run, across threads, clones, child processes and a stopped clock, are distinct."),
 "C19": ("history-differential monitor of the DID parser", "Long-used and fresh parsers are compared on valid, similar and malformed DIDs in random order."),
 "C20": ("differential monitor against OpenSSL/WebCrypto golden vectors and the crypto crates", "Signatures in both directions plus negatives of every kind for each key type."),
 "C21": ("linearizability checking of recorded concurrent histories", "Threads with injected delays inside encode/decode; histories are checked per CID; both tiers repeat under ThreadSanitizer."),
 "C22": ("round-trip monitor through DAG-CBOR", "JWT to IPLD to DAG-CBOR and back, byte identity, fields and refusal of the unrepresentable."),
 "C23": ("differential monitor against an independent varsig codec", "Every algorithm, lengths 0-70000, and altered envelopes against an independent decoder."),
 "C24": ("round-trip and injectivity monitor of principals", "DIDs of every kind and arbitrary bytes; text identity, DAG-CBOR identity and pairwise distinctness."),
 "C25": ("mutation fuzzing of every entry point with crash, hang and stack monitors", "Panics, aborts, overflows and hangs are caught in a child process with overflow checks; two known findings are demonstrated on each run."),
 "C26": ("schedule-controlled interleaving and thread stress with verdict comparison", "Every interleaved or concurrent validation is compared with the isolated verdict; both tiers repeat under ThreadSanitizer."),
 "C27": ("fault enumeration at every store read", "Every read of the chain's construction fails in every way, then the store heals."),
}
LEVEL = {"C27": "fault_enumeration"}
props = [json.loads(l) for l in open("properties.jsonl")]
have = subprocess.run(["target/release/monitor", "--list"], capture_output=True, text=True).stdout.split()
NA = {"C28": "The WebCrypto key type compiles only for wasm32 in a browser; there is no wasm32 target, no browser and no network here, so no execution of that code can be observed."}
checks = []
na = []
for p in props:
    i = p["id"]
    if i in have and i in TECH:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --thorough",
            "technique": "runtime monitoring: " + TECH[i][0], "level": LEVEL.get(i, "exploration"), "level_note": TECH[i][1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check has been built for it yet.")})
json.dump({"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: everything is observed through the public API, the harness's own keys and stores, and a substituted clock_gettime."},
  open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
