#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below (run by hand; the json is committed)."""
import json
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
G = "Held on the executions of this run only (randomised workloads, seeded); "
R = "trusts rustc, the harness's own reference code and "
S = "the real crate, built against offline stand-ins for dependencies which are not available here (their own internals are not judged); "+R+"the stand-ins in /verif/shim."
C = {
 "T01": ("differential monitor: independent TLS wire writer/reader vs. the real codec", G+R+"the RFC tables transcribed in it."),
 "T02": ("hostile-input monitor: panic, over-read, memory and accounting oracles over mutated messages", G+"Rust's own bounds checks are part of the oracle."),
 "T03": ("exhaustive header sweep plus boundary payloads against a record-format oracle", "All headers of the swept fields are run; payload lengths are sampled with all boundaries."),
 "T04": ("trace monitor: same record stream under random chunk/fault schedules, sync and async readers", G+"schedules are injected at the reader boundary."),
 "T05": ("conservation monitor over fragmented output", G+"all small lengths and limit boundaries are run."),
 "T06": ("history monitor: reassembled messages vs. the messages that were packed", G+R+"its packing of messages into records."),
 "T07": ("differential monitor against RFC 5246 P_SHA256 over another hash implementation", G+"trusts ring's SHA-256."),
 "T08": ("encoding and injectivity monitor for record additional data", G+"sequence numbers and types are sampled with all boundaries."),
 "T09": ("generated PKIs judged by an independent path model", G+R+"its own DER builder and signer."),
 "T10": ("generated certificate-transparency worlds judged by an independent policy model", G+R+"its own DER builder and signer."),
 "T11": ("generated signed handshakes with single-field mutations, verdict oracle", G+R+"its own signer."),
 "T12": ("scheme x key x version matrix with mutated signatures, verdict and reported-algorithm oracle", G+R+"its own signer."),
 "T13": ("exhaustive code-point sweep and random preference lists against a first-match model", "All 65536 schemes and all suites are swept; lists are random."),
 "T14": ("grammar oracle and pairwise encoding-injectivity monitor", G+R+"its name grammar."),
 "T15": ("model-based monitor: accessor answers vs. the extension list that was put on the wire", G+R+"its extension model."),
 "T16": ("exhaustive sweep of all 8/16-bit code points against registry tables", "Every code point of every registry is run."),
 "T17": ("DER reader over issuer names of generated roots, all length classes", G+R+"its DER reader."),
 "T18": ("round-trip monitor over two serialization formats", "All code points are run; other values are random."),
 "T19": ("byte-position monitor over resumption, retry and binder encodings", G+R+"its independent encoder."),
 "T20": ("freshness monitor: positions, bits, repeats across requests, threads and processes", G+"statistical thresholds; the operating system's generator is assumed sound."),
 "T21": ("model-based monitor over key-exchange bodies, every truncation and form", G+R+"its wire reader."),
 "F01": ("concurrent HTTPS client histories judged against a route table", G+"trusts rustls and hyper; schedules come from pipe capacities, pieces and real threads."),
 "F02": ("concurrent TLS session histories: commands, echoes and endings", G+"trusts rustls and hyper; schedules come from pipe capacities, pieces and real threads."),
 "F03": ("model-based monitor of plan expansion and network layout", G+"all prefix lengths are run."),
 "F04": ("independent HTTP reader over every sample and cut", "Every sample is run completely."),
 "C01": ("model-based monitor: trees over an independent Merkle model, every index set of small trees, mutated proofs", G+S),
 "C02": ("known vectors and independent hash implementations, freshness monitor over blinders", G+S),
 "C03": ("model-based monitor: random operation histories on redacted transcripts vs. a byte-position model", G+S),
 "C04": ("provenance monitor: proofs and their mutations judged by recomputed openings", G+S),
 "C05": ("cover oracle: exact-cover search over the commitments by brute force", G+S),
 "C06": ("history monitor over builder calls vs. a list model", G+S),
 "C07": ("generated PKIs and signed handshakes with single-component mutations, verdict oracle", G+S),
 "C08": ("hostile-serialization monitor: rule oracles, panic, memory and round-trip oracles", G+S),
 "C09": ("generated TLS 1.2 sessions with known parts; reconstruction compared with the generator's record", G+S),
 "C10": ("tamper monitor: every byte and every structural change of presented attestations, verdict oracle", G+S),
 "C11": ("request/attestation histories judged by an acceptance model", G+S),
 "C12": ("part-exchange and tamper monitor over presentations of two sessions", G+S),
 "C13": ("cross-implementation signature monitor (ring and an independent big-integer ECDSA)", G+S),
 "C14": ("provenance monitor: HTTP and JSON streams generated together with the spans of their parts; committed ranges vs. the documented set", G+S+" The stand-in for the span parser is held to the crate's own handler tests."),
 "C15": ("generated exchanges and rule lists judged by an independent selection model over the generator's known spans", G+S+" The stand-in for the span parser is held to the crate's own handler tests."),
 "C16": ("configuration model: all subsets of set and unset options, extreme values, serialized forms", G+S),
 "M01": ("differential monitor: jointly computed keys and finished values vs. RFC 5246/7627 over another hash implementation", G+S),
 "M02": ("differential monitor: key streams and applied ciphertexts vs. another AES implementation; position-reuse monitor", G+S),
 "M03": ("fault injection at outputs and inputs of one party's executions; detection oracle at finalization", G+S),
 "M04": ("differential monitor against P-256 arithmetic of another implementation; injected share faults", G+S),
 "M05": ("fault injection on records between a ring-based TLS server and the two-party record layer; acceptance, release and secrecy oracles", G+S),
 "M06": ("history monitor of whole sessions: exactly-once, order, nonces and limits of records at server, prover and verifier", G+S),
 "M08": ("a lying prover made of the real one: altered message histories between prover and verifier, acceptance and secrecy oracles", G+S),
 "M09": ("whole-session truth monitor: verifier's results vs. the server's record; every value it learns is searched for hidden ones; lying prover", G+S),
 "M10": ("fault injection on whole sessions: cuts at every byte, departures, refusals, garbage; liveness by simulated time and completeness oracles", G+S),
 "M11": ("SDK sessions against an own HTTPS server: request, response, disclosure and openings compared with the server's record and own hashes; limit grid; call-order monitor", G+S),
 "M12": ("stream adapter against a page that answers late, at once, with ends, errors and exceptions, decided by a byte model; whole sessions described as plain values, compared with the server's record; limits, rules and log filters against models", G+S),
 "M13": ("whole benchmarks and tests between two executors over loopback sockets with counting, slow relays; reported bytes and times vs. what passed; absent and faulty servers and peers", G+S),
 "M07": ("sessions with an own TLS 1.2 server, honest and hostile; no-data-before-authentication monitor", G+S),
}
NA = {
}
m = {
 "version": 1,
 "setup_cmd": "bash /verif/run.sh setup",
 "hooks": {"guard": "none", "enable": "no hooks: the checks use public interfaces only", "source_commits": []},
 "checks": [{"property": p, "quick_cmd": f"bash /verif/run.sh {p}", "thorough_cmd": f"bash /verif/run.sh {p}",
             "technique": C[p][0], "level": "exploration", "level_note": C[p][1]} for p in props if p in C],
 "not_applicable": [{"property": p, "reason": NA[p[0]]} for p in props if p not in C],
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
