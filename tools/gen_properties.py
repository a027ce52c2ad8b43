#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand; the jsonl is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title), title)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
T = "crates/tls-core/src/"
C = "crates/core/src/"
A = "crates/attestation/src/"

# ---------------------------------------------------------------- TLS core
p("T01", "TLS handshake messages survive encode/decode without loss or change",
  "Every well-formed TLS handshake, alert and change-cipher-spec message (hellos being required to carry an extensions block, and certificate lists limited to 64 KiB) is decoded into exactly the fields its bytes carry, in the order they carry them, and encoding the decoded value reproduces the original bytes. Encoding a message value and decoding it again yields an equal value whose accessors return what was put in.",
  ["inputs"], "all message types, all extension combinations and orders, all field values and lengths the format admits",
  "Unit tests decode a handful of sample hellos; they never compare the decoded fields with an independent encoder over the space of extension lists, lengths and unknown code points.",
  [T+"msgs/handshake.rs", T+"msgs/codec.rs", T+"msgs/base.rs", T+"msgs/alert.rs", T+"msgs/ccs.rs", T+"msgs/message.rs"],
  [("typed codecs with length-prefixed sub-readers", T+"msgs/codec.rs, "+T+"msgs/handshake.rs"), ("unknown extensions kept as opaque payload", T+"msgs/handshake.rs")],
  ["message decode/encode API"])
p("T02", "Malformed or truncated TLS messages are rejected, never crash or over-read",
  "For any byte string offered as a TLS message body, extension, vector or record, decoding terminates without panicking, without reading outside the input, and returns either a value that accounts for every byte of the message or a refusal. A message that is truncated, carries trailing bytes, or whose inner length fields disagree with the outer length is refused.",
  ["inputs"], "arbitrary byte strings, in particular every truncation, extension and length-field corruption of valid messages",
  "Tests truncate two fixed hellos; hostile bytes at every length field of every message type are not sampled, and no sanitizer is run.",
  [T+"msgs/handshake.rs", T+"msgs/codec.rs", T+"msgs/base.rs", T+"msgs/message.rs"],
  [("bounded Reader/sub-reader and all-consumed checks", T+"msgs/codec.rs"), ("legacy length-prefixed vector readers with caps", T+"msgs/codec.rs")],
  ["decode results; ASan and Miri reports"])
p("T03", "TLS record headers are accepted exactly when they are legal",
  "A TLS record is read from a byte stream exactly when its content type is known, its version is a TLS 3.x version, its length is below 2^14+2048 and non-zero unless it carries application data; it is then returned with exactly the type, version and payload bytes of the wire and consumes exactly header plus payload. Incomplete records ask for more data instead of being treated as invalid, and writing a record reproduces the bytes it was read from.",
  ["inputs"], "all 5-byte headers and all payload lengths including the limits",
  "Tests read seven canned records; the 2^40 header space and the boundary lengths are not covered.",
  [T+"msgs/message.rs"], [("header validation order and size limits", T+"msgs/message.rs")], ["record read/encode API"])
p("T04", "Record extraction from a byte stream is independent of how it is chunked",
  "However the network splits a stream of TLS records, exactly the same records come out once each, in order and byte-identical, with leftovers kept for the next read. After the first illegal record the stream is reported as corrupt and no further record is produced; end-of-stream and read errors are passed on, and the synchronous and asynchronous readers behave the same.",
  ["inputs", "schedules", "fault_sequences"], "all record streams, all chunkings, would-block/error/EOF placements, corruption positions",
  "Tests feed a few fixed files in whole or byte-at-a-time; they do not explore chunk schedules with faults in between, oversized or empty records, or the asynchronous path.",
  [T+"msgs/deframer.rs"], [("fixed-size reassembly buffer with consume/compact", T+"msgs/deframer.rs"), ("desynchronised latch", T+"msgs/deframer.rs")],
  ["frames queue, desynced flag, has_pending, read result"], [("buffered prefix", "bytes received but not yet a whole record", T+"msgs/deframer.rs")])
p("T05", "Outgoing messages are split into legal records that concatenate to the input",
  "Splitting an outgoing message for a configured maximum record size yields records of the same type and version, each within the limit, whose payloads concatenate to the original payload in order; nothing is lost, duplicated or re-ordered. A limit outside the legal range is refused.",
  ["inputs", "configurations"], "all payload lengths and contents, all configured limits",
  "One test with a limit of 3 bytes; boundary lengths (multiples of the limit, 2^14) and other limits are not covered.",
  [T+"msgs/fragmenter.rs"], [("chunked split", T+"msgs/fragmenter.rs")], ["fragment and fragment_borrow output"])
p("T06", "Handshake messages are reassembled exactly, whatever record boundaries",
  "However a sequence of handshake messages is spread over or packed into records, exactly those messages come out, once each and in order, and the reassembler reports itself empty only at message boundaries. Messages longer than the protocol cap or malformed are refused, other content types are not consumed, and the amount buffered stays bounded.",
  ["inputs", "schedules"], "all message sequences, all splits into records, malformed bodies at any position",
  "Tests join three hand-made splits; arbitrary boundaries, pipelining with partial tails and limits are not explored.",
  [T+"msgs/hsjoiner.rs"], [("pending buffer with length-driven extraction", T+"msgs/hsjoiner.rs")], ["take_message result, frames, is_empty"])
p("T07", "Key-derivation output equals the TLS 1.2 PRF for every input",
  "For every secret, label, seed and output length, key material equals the TLS 1.2 pseudorandom function with SHA-256 as specified in RFC 5246, and shorter outputs are prefixes of longer ones.",
  ["inputs"], "all secret/label/seed lengths and contents and all output lengths, including non-multiples of the hash size",
  "One published vector is tested; other lengths and block boundaries are not.",
  [T+"prf.rs"], [("P_hash expansion", T+"prf.rs")], ["prf output"])
p("T08", "Record authentication data binds sequence number, type, version and length",
  "The additional data authenticated with every TLS 1.2 record is the RFC 5246 encoding of its sequence number, content type, version and plaintext length, so two records that differ in any of these never share it.",
  ["inputs"], "all sequence numbers, content types, versions and lengths",
  "No unit test examines it.",
  [T+"cipher.rs"], [("fixed-layout AAD encoding", T+"cipher.rs")], ["make_tls12_aad output"])
p("T09", "A certificate is accepted only if it chains, is in date and names the host",
  "The certificate verifier accepts a chain exactly when a path of valid signatures leads from the end-entity certificate over the supplied intermediates to a configured root, every certificate below the root is inside its validity period at the given time and permitted for its role, and the end-entity certificate is valid for the requested name; anything else is refused with an error of the right class.",
  ["inputs", "configurations"], "generated PKIs: roots, intermediates, orders, missing links, key usages, validity windows, names and wildcards, tampered signatures; all times around each boundary",
  "One test checks two live-site chains at a fixed time; rejection paths and boundaries are untested.",
  [T+"verify.rs", T+"anchors.rs", T+"dns.rs"], [("path building over configured anchors", T+"verify.rs"), ("error mapping", T+"verify.rs")], ["verify_server_cert verdict"])
p("T10", "Certificate-transparency policy is enforced when it is in force",
  "When transparency logs are configured, the policy has not expired and the server supplied timestamps, a certificate is accepted only if one of them verifies under one of those logs for exactly that certificate and is not in the future; timestamps from unknown logs or of unknown versions do not satisfy the policy, and one that is forged, malformed or from the future ends the search with a refusal. When no timestamps are supplied (enforcement is documented as opportunistic), no logs are configured, or the policy date has passed, timestamps are not required.",
  ["inputs", "configurations"], "all log sets, timestamp lists (valid, unknown log, bad signature, future, malformed), policy dates and times",
  "No test exercises the policy at all.",
  [T+"verify.rs"], [("policy check before path result", T+"verify.rs")], ["verify_server_cert verdict"])
p("T11", "A key exchange is accepted only if signed by the certified server key",
  "A recorded handshake verifies exactly when its certificate chain is acceptable for the name and time and the key-exchange signature, made with the key in the end-entity certificate, covers the client random, the server random and the key-exchange parameters; changing any bit of these, of the signature, or of its algorithm makes verification fail, and an empty chain is refused.",
  ["inputs"], "all chains, randoms, parameters, signatures and single-field or single-bit changes to them",
  "No test covers it: the path is only run inside a full session.",
  [T+"handshake.rs", T+"ke.rs", T+"cert.rs", T+"verify.rs"], [("signature over randoms and parameters", T+"handshake.rs")], ["handshake verify verdict"])
p("T12", "Handshake signatures verify only under an allowed scheme matching the key",
  "A TLS 1.2 or 1.3 handshake signature is accepted exactly when its declared scheme is one the verifier advertises and permits in that protocol version, the scheme fits the certified key, and the signature is cryptographically valid over the exact message; the algorithm reported for an accepted signature is the one that verified it. Advertised schemes are all verifiable.",
  ["inputs"], "all scheme code points x key types x protocol versions x messages and signature mutations",
  "No test exercises scheme/key mismatches or version-specific scheme restrictions.",
  [T+"verify.rs"], [("scheme to algorithm tables", T+"verify.rs"), ("TLS 1.3 restricted table and context strings", T+"verify.rs")], ["verify_tls12_signature, verify_tls13_signature verdicts, supported schemes"])
p("T13", "Cipher-suite and signature negotiation picks only mutually supported options",
  "A negotiated cipher suite is always offered by both sides and is the most preferred one of the side whose preference counts; filtering suites by version or by the peer's signature schemes keeps exactly the compatible ones in order; a signature scheme is deemed usable for a suite exactly when its key type fits. When there is no common option none is chosen.",
  ["inputs", "configurations"], "all offered lists and orders of suites, versions and schemes, including unknown code points",
  "Tests use three hand-picked lists.",
  [T+"suites/mod.rs", T+"suites/tls12.rs", T+"suites/tls13.rs", T+"versions.rs"], [("ordered selection helpers", T+"suites/mod.rs")], ["negotiation helpers"])
p("T14", "Server names are parsed, compared and encoded without ambiguity",
  "A string is accepted as a server name exactly when it is a legal DNS name, and two accepted names have the same encoding, or one encoding that starts the other, only if they are spelled the same. The name indication sent for a name is that name without a trailing dot, and a certificate checked for a name is checked for precisely that name.",
  ["inputs"], "all strings, in particular case, trailing dots, underscores, wildcards, digits, label and name lengths and IP literals",
  "Two tests check three names; the grammar and injectivity are not explored.",
  [T+"dns.rs", T+"msgs/handshake.rs"], [("name validation and tagged length-prefixed encoding", T+"dns.rs")], ["ServerName conversion, encode, for_sni"])
p("T15", "Hello and extension queries reflect the message that was received",
  "Questions asked of a received hello, retry request, certificate entry or certificate request (which name, versions, groups, key shares, schemes, protocols, session, ticket, duplicates, status) are answered exactly from the extensions present: absent extensions give no answer, present ones give their content, repeated extensions are always detected, and a protocol choice with more than one entry gives no single value. Two session identifiers are equal exactly if they have the same bytes.",
  ["inputs"], "all extension sets, orders, duplicates and contents",
  "Tests call each accessor on one sample with and without the extension, not on combinations, duplicates or re-ordered lists.",
  [T+"msgs/handshake.rs"], [("extension lookup and duplicate detection helpers", T+"msgs/handshake.rs")], ["accessor results compared with an independent model"])
p("T16", "Protocol code points map one-to-one between names and wire values",
  "Every protocol code point (content types, handshake types, versions, suites, groups, schemes, alerts, extension types and the like) decodes to the name the TLS registries give it and encodes back to the same number; unassigned numbers are preserved unchanged, and no two names share a number within a registry.",
  ["inputs"], "all 8- and 16-bit values of every registry",
  "Tests look at the first and last member of each registry only.",
  [T+"msgs/enums.rs", T+"msgs/macros.rs"], [("enum builder macro", T+"msgs/macros.rs")], ["codec of every registry"])
p("T17", "Trust anchors present themselves as correctly encoded issuer names",
  "The list of acceptable issuers derived from configured roots contains exactly one well-formed DER name per root, in order, equal to that root's subject, for every subject length; length-prefix wrapping used for it always yields valid DER whose content is the input.",
  ["inputs"], "all subjects and content lengths including 0, 127, 128, 255, 256 and 65535",
  "Tests wrap three sizes; roots with long subjects are not tried.",
  [T+"anchors.rs", T+"x509.rs"], [("DER length encoding", T+"x509.rs")], ["subjects(), wrap_in_sequence output"])
p("T18", "TLS values sent between the parties deserialize to what was serialized",
  "Every TLS value that the two parties exchange or archive in serialized form (certificates, keys, handshake details, randoms, payloads and every protocol code point) is restored equal to the original, also for unknown code points and empty or maximal contents.",
  ["inputs"], "all values of the exchanged types",
  "No test serializes these values.",
  [T+"msgs/enums.rs", T+"msgs/message.rs", T+"msgs/base.rs", T+"key.rs", T+"cert.rs", T+"ke.rs", T+"handshake.rs"], [("serde derives", "crates/tls-core/src")], ["bincode and JSON round trips"])
p("T19", "Resumption, retry and pre-shared-key bindings are computed over the right bytes",
  "The bytes a pre-shared-key binder signs are the hello message without exactly its binder list, a placed binder appears at its position and leaves every other byte unchanged, a synthetic handshake hash message embeds exactly the given hash, and retry requests are distinguished from ordinary server hellos only by their special random.",
  ["inputs"], "all hellos ending in a pre-shared-key offer, binder counts and lengths, all hashes, all randoms",
  "One sample hello with one binder is tested.",
  [T+"msgs/handshake.rs", T+"msgs/message.rs"], [("binder truncation and fix-up", T+"msgs/handshake.rs")], ["get_encoding_for_binder_signing and friends"])
p("T20", "Fresh randomness is drawn for every hello, session and nonce",
  "Every request for random bytes fills the whole requested buffer with fresh, unpredictable bytes: values never repeat between requests, also when requested concurrently from several threads, and no fixed bytes remain at any position or length.",
  ["inputs", "schedules"], "all lengths; sequences of requests from one or many threads",
  "Only used indirectly; no test looks at the distribution or at concurrent use.",
  [T+"rand.rs", T+"msgs/handshake.rs"], [("thread-local CSPRNG", T+"rand.rs")], ["random_vec, fill_random, random_u32, Random::new, SessionID::random"])
p("T21", "Server key-exchange parameters are decoded only for the agreed key exchange",
  "Server key-exchange parameters are interpreted only under the key exchange that was agreed, only as a named curve with a public point and a signature that fill the message exactly, and re-encoding them yields the received bytes; client parameters decode to exactly the public point sent. Any other form is refused or kept uninterpreted.",
  ["inputs"], "all curve types, groups, point lengths, schemes and signature lengths, trailing or missing bytes",
  "Tests decode one valid and a few invalid samples.",
  [T+"msgs/handshake.rs", T+"suites/tls12.rs", T+"suites/mod.rs"], [("two-stage decode of opaque key exchange", T+"msgs/handshake.rs")], ["unwrap_given_kxa, decode_ecdh_params"])

# ---------------------------------------------------------------- fixtures / harness (built by the baseline)
p("F01", "The test server returns exactly the content each request asks for",
  "The HTTP test server answers each route with the documented status, type and body: a byte request with exactly the requested number of bytes, a sized document with that document or 'not found', protected resources only with the right bearer token, and requests on the same or different connections do not influence each other's answers. A request that asks for shutdown ends the server at once, whether or not its client reads the answer.",
  ["inputs", "schedules", "histories"], "all routes, sizes, header combinations, pipelined and concurrent connections",
  "Two tests fetch two documents; authentication, limits and concurrency are not tested.",
  ["crates/server-fixture/server/src/lib.rs"], [("axum routes and auth check", "crates/server-fixture/server/src/lib.rs")], ["HTTP responses"])
p("F02", "The TLS test server handshakes only as configured and echoes faithfully",
  "The TLS test servers present the certificate for their test name, negotiate TLS 1.2 or 1.3 as the client offers, and execute each command or echo each body byte-identically for any size and chunking, on several connections at once; a connection closed by either side ends that session and no other.",
  ["inputs", "schedules"], "all bodies, sizes, chunkings, several concurrent sessions, early close",
  "Used by other tests with one canned exchange only.",
  ["crates/tls-server-fixture/src/lib.rs", "crates/server-fixture/server/src/lib.rs", "crates/server-fixture/certs/src/lib.rs"], [("rustls acceptor and hyper service", "crates/tls-server-fixture/src/lib.rs")], ["client-side bytes"])
p("F03", "Benchmark plans expand to exactly the configured measurements",
  "A benchmark file expands to one measurement per entry and requested sample, ordered by group and name, each with the most specific setting that was given (entry before group before default); results are filed under the configuration that produced them, and control messages survive transport unchanged. Network layouts give every host a distinct usable address inside its subnet.",
  ["inputs", "configurations"], "all benchmark files, groups, overrides and sample counts; all subnets",
  "One or two small plans are parsed in tests; override precedence is not explored.",
  ["crates/harness/core/src/bench.rs", "crates/harness/core/src/network.rs"], [("group/default merge", "crates/harness/core/src/bench.rs")], ["to_benches(), NetworkConfig::new"])

p("F04", "HTTP sample messages are what their names say",
  "Every sample HTTP message offered to tests and examples is a complete, well-formed message whose method or status, headers, empty headers, body kind and framing are those its name and description announce, and no two differently named samples are the same bytes.",
  ["inputs"], "all sample messages and all truncations of them",
  "The samples are only used as inputs; nothing checks them, so a wrongly wired sample silently weakens every test that uses it.",
  ["crates/data-fixtures/src/http.rs"], [("compile-time inclusion of data files", "crates/data-fixtures/src/http.rs")], ["fixture bytes"])

# ---------------------------------------------------------------- core
p("C01", "Merkle inclusion proofs verify for exactly the leaves that are in the tree",
  "A proof produced for any set of positions of any tree verifies against that tree's root for exactly those leaves at those positions; it is refused when a leaf, position, root, hash function or proof element differs, when leaves are missing or repeated, and never crashes on hostile proofs.",
  ["inputs"], "all tree sizes and insertion batches, all index sets, all single mutations of proof, leaves and root, arbitrary deserialized proofs",
  "Tests use trees of five leaves with fixed index sets.",
  [C+"merkle.rs"], [("multi-proof verification with sorted unique indices", C+"merkle.rs")], ["MerkleProof::verify verdict"])
p("C02", "Hash commitments are algorithm-bound, blinded and deterministic",
  "For each supported algorithm (SHA-256, BLAKE3, Keccak-256) a hash equals the standard function of prefix plus data, is tagged with its algorithm and is unchanged by serialization, digests of more than 64 bytes being refused; a blinded commitment is the hash of the data followed by its blinder, opens only with the same data, blinder and algorithm, and blinders are fresh for every commitment. Unknown algorithms are refused rather than substituted.",
  ["inputs"], "all data, blinders and algorithm ids, digest lengths from 0 to beyond the cap",
  "No unit test compares against independent implementations or explores serialization limits.",
  [C+"hash.rs", C+"transcript/hash.rs"], [("typed hashes and provider lookup", C+"hash.rs")], ["hash outputs, provider lookups, serde"])
p("C03", "Redacted transcripts keep exactly the authenticated bytes and nothing else",
  "A redacted transcript contains exactly the selected bytes of each direction at their positions, with every other byte blanked by a zero placeholder that depends on nothing secret (or whatever fixed byte the user chose); merging, extending and re-redacting transcripts produces the set-union of authenticated positions with unchanged contents, and lengths always match the original.",
  ["inputs", "histories"], "all transcripts, range sets and sequences of merges, insertions and re-redactions",
  "Tests merge a few overlapping pairs on a short fixture.",
  [C+"transcript.rs"], [("range-set bookkeeping", C+"transcript.rs")], ["PartialTranscript accessors"])
p("C04", "A transcript proof never reveals bytes that were not committed to",
  "Verifying a transcript proof succeeds only when every revealed byte is covered by openings that hash to commitments of the attested transcript in the same direction, at the same positions and with the same algorithm, and then yields exactly those bytes; altered data, blinders, positions, directions or lengths are refused.",
  ["inputs"], "all commitment layouts, reveal sets and all mutations of proofs, openings, commitments and lengths",
  "Tests flip one blinder or byte in one layout.",
  [C+"transcript/proof.rs", C+"transcript/hash.rs"], [("opening recomputation and coverage accounting", C+"transcript/proof.rs")], ["TranscriptProof::verify_with_provider"])
p("C05", "Anything coverable by commitments can be revealed, and nothing more leaks",
  "A reveal request is accepted exactly when it lies inside the transcript and can be covered exactly by commitments of an allowed kind, choosing kinds in the configured order; the resulting proof verifies, opens only commitments that lie entirely inside the requested ranges, and discloses exactly the requested positions.",
  ["inputs", "configurations"], "all commitment layouts, kinds preferences and reveal sets including empty, adjacent and out-of-bounds ranges",
  "Tests try a few layouts on one fixture.",
  [C+"transcript/proof.rs", C+"transcript/commit.rs"], [("cover search and kind preference", C+"transcript/proof.rs")], ["TranscriptProofBuilder results"])
p("C06", "Commitment requests stay within the transcript and keep their kinds",
  "A commitment configuration contains exactly the ranges that were asked for in each direction with the kind in force when they were added, each once (BLAKE3 hashes unless another kind was chosen); ranges outside the transcript are refused and leave the configuration unchanged.",
  ["inputs", "histories"], "all sequences of additions, kinds, directions and ranges",
  "Two tests add one out-of-range commitment.",
  [C+"transcript/commit.rs", C+"config/prove.rs"], [("bounds checks in the builder", C+"transcript/commit.rs")], ["builder results"])
p("C07", "Server identity is proven only by the certified key over this session",
  "Session handshake data verifies for a name exactly when the certificate chain is valid for it at the session time, the ephemeral key claimed for the session is the one signed, and the certified key's signature covers both session randoms and that key; any altered component, name or time outside validity is refused.",
  ["inputs"], "generated chains, names, times, randoms, keys, signature algorithms; all single-field mutations",
  "Tests run six mutations on two captured sessions.",
  [C+"connection.rs", C+"webpki.rs"], [("HandshakeData verification", C+"connection.rs")], ["verify verdict"])
p("C08", "Deserialized values obey the same rules as constructed ones",
  "Every value with a validity rule (host names, range sets inside transcripts, transcript lengths, digest lengths, session limits, commitment contents, proof structures) is refused on deserialization when it breaks the rule that constructing it would enforce, valid values survive serialization unchanged, and hostile bytes never crash the reader.",
  ["inputs"], "arbitrary and mutated serialized forms of all exchanged types",
  "A few hand-written negative cases exist.",
  [C+"connection.rs", C+"transcript.rs", C+"transcript/commit.rs", C+"hash.rs", C+"merkle.rs", C+"config/tls_commit/mpc.rs"], [("try_from on unchecked mirrors", C)], ["deserialize results"])
p("C09", "A recorded TLS session is reconstructed faithfully from its raw bytes",
  "From the raw bytes of a TLS 1.2 session the record list, sequence numbers, nonces, ciphertexts, tags, handshake parameters and handshake hashes are reconstructed exactly as the protocol defines them; sessions with missing, malformed, mis-ordered or short records (the client hello comes first, each side's first protected record is its Finished with sequence number zero, and sequence numbers increase), unsupported groups, versions or schemes are refused without crashing, and application data is assigned to records without gaps or overlaps.",
  ["inputs"], "generated TLS 1.2 sessions with all extension, ticket, fragmentation and record-size variations, and their mutations",
  "Tests parse one captured session.",
  [C+"transcript/tls/builder.rs", C+"transcript/tls.rs"], [("two-stream parse around change-cipher-spec", C+"transcript/tls/builder.rs")], ["TlsTranscript accessors"])
p("C10", "An attestation cannot be altered after it was signed",
  "A presented attestation verifies exactly when its header is signed by its verifying key under its declared algorithm and every body field is bound by the header's root under its declared hash; altering, exchanging, re-tagging or re-numbering any field, the header, the key, the signature or the proof makes verification fail.",
  ["inputs"], "all field combinations, algorithms and all single-byte and structural mutations of serialized attestations",
  "Tests corrupt the signature of one fixture.",
  [A+"lib.rs", A+"proof.rs", A+"signing.rs", A+"serialize.rs"], [("domain-separated field hashes in a signed Merkle root", A+"lib.rs")], ["AttestationProof::verify"])
p("C11", "An attestation answers the request it was made for",
  "An attestation is issued only for requests whose signature algorithm, hash and extensions the notary accepts and for which all connection facts were supplied, and contains exactly those facts, commitments and extensions; a requester accepts an attestation exactly when its signature algorithm, hash algorithm and server-certificate commitment are those of the request, it contains every extension of the request, and its signature over the header is valid.",
  ["inputs", "configurations", "histories"], "all requests, notary configurations, providers and mutations of the attestation",
  "Tests check one mismatch each on one fixture.",
  [A+"builder.rs", A+"request.rs", A+"request/builder.rs"], [("accept/validate checks", A+"builder.rs, "+A+"request.rs")], ["builder and validate results"])
p("C12", "A presentation proves only facts of the attested session",
  "A verified presentation reports a server name only if its identity opening matches the attested commitment and verifies for the attested time and ephemeral key, reports transcript bytes only if proven against the attested commitments and lengths, and otherwise reports nothing; mixing parts of different attestations or tampering with any part is refused.",
  ["inputs", "histories"], "pairs of sessions, all part exchanges between them, all mutations, all subsets of optional parts",
  "One end-to-end test with valid data.",
  [A+"presentation.rs", A+"connection.rs"], [("staged verification", A+"presentation.rs")], ["Presentation::verify"])
p("C13", "Signatures interoperate with the standards they name and bind key and message",
  "A signature made by a supported signer verifies under the matching key, algorithm and message with an independent implementation of the named standard, and a signature is rejected for any other key, key type, algorithm, message or altered encoding of either (the recovery byte of an Ethereum-style signature is a hint the verifier does not rely on); recoverable signatures recover to the signing key.",
  ["inputs"], "all keys, messages, algorithms, signature encodings and mutations",
  "Tests corrupt one signature each.",
  [A+"signing.rs"], [("per-algorithm signer and verifier", A+"signing.rs")], ["sign/verify results"])
p("C14", "Format-aware commitments cover the whole document and respect its structure",
  "For every parsable HTTP transcript the default committer commits to exactly the documented ranges: each whole message, its structure without target, headers and body, the request target, each header with and without its value, and the body as a whole or, for JSON, each element of the document; together they cover every request and response byte, each range lies within its message and direction, and structure-only commitments exclude exactly the values they claim to exclude. Input that is not HTTP is refused.",
  ["inputs"], "all HTTP messages with headers, bodies and JSON documents",
  "Fixtures with a few documents.",
  ["crates/formats/src/http/commit.rs", "crates/formats/src/json/commit.rs"], [("recursive committers", "crates/formats/src")], ["committed ranges"])
p("C15", "Reveal handlers disclose exactly the parts the user selected",
  "For every request, response and list of reveal rules, the disclosed and committed ranges are exactly the selected parts (start line, headers, body or JSON members): a rule that hides the key or the value of a header or of a member of a JSON object never discloses it, rules for one direction never touch the other, hash rules never reveal plaintext, a header or body that is absent selects nothing, and a JSON path that leads nowhere, a part which the direction does not have, or a rule that hides both key and value is refused. (A regex rule selects what its pattern and flags match in the message.)",
  ["inputs", "configurations"], "all HTTP/JSON documents, rules and rule combinations",
  "Thirty fixed cases on one document.",
  ["crates/sdk-core/src/handler/mod.rs", "crates/sdk-core/src/handler/extract.rs"], [("range extraction per handler", "crates/sdk-core/src/handler/extract.rs")], ["compute_reveal output"])
p("C16", "Session limits and options survive negotiation unchanged and are validated",
  "Every configuration that can be built satisfies its documented constraints, applies documented defaults for what was not set, and is refused when a mandatory part is missing or limits contradict each other, whether built or deserialized; the request derived from a configuration carries exactly the parts the peer is meant to see and none of the secrets.",
  ["configurations", "inputs"], "all combinations of set, unset and extreme values",
  "Builders are only exercised on the happy path.",
  [C+"config/tls_commit/mpc.rs", C+"config/prove.rs", C+"config/tls.rs", C+"config/verifier.rs", "crates/mpc-tls/src/config.rs"], [("builder validation", C+"config")], ["builder results"])

# ---------------------------------------------------------------- protocol (two parties)
p("M01", "Jointly computed session keys and finished values equal the TLS 1.2 ones",
  "For every premaster secret, pair of randoms and pair of handshake hashes, both supported computation modes yield exactly the session keys and client and server finished values of RFC 5246/7627, and the parties obtain nothing before the inputs it depends on were set.",
  ["inputs", "configurations", "schedules"], "all secrets, randoms, hashes, modes, and orders of setting inputs and flushing",
  "Tests use a handful of fixed inputs.",
  ["crates/components/hmac-sha256/src/prf.rs", "crates/components/hmac-sha256/src/hmac.rs", "crates/components/hmac-sha256/src/prf/function/normal.rs", "crates/components/hmac-sha256/src/prf/function/reduced.rs"], [("PRF state machine", "crates/components/hmac-sha256/src/prf.rs")], ["decoded outputs"])
p("M02", "Jointly computed record encryption equals AES-128-GCM counter mode",
  "The joint cipher's key stream, single blocks and applied ciphertexts equal AES-128 in counter mode for every key, nonce, counter and length, and the same key stream position is never applied to two different plaintexts.",
  ["inputs"], "all keys, nonces, counters and lengths, including partial blocks",
  "Tests use one key and two block counts.",
  ["crates/components/cipher/src/aes/mod.rs", "crates/components/cipher/src/lib.rs"], [("keystream allocation and assignment", "crates/components/cipher/src")], ["decoded outputs"])
p("M03", "Any divergence between the two executions of a joint computation is caught",
  "When both parties follow the protocol the doubly executed computation returns the correct outputs; when one party's execution yields a different output or uses different inputs in the two executions, finalization reports it before the result is accepted.",
  ["inputs", "histories", "fault_sequences"], "all programs of allocations, inputs, calls and decodes; all single-output and single-input corruptions",
  "Tests corrupt one AES call.",
  ["crates/components/deap/src/lib.rs", "crates/components/deap/src/map.rs"], [("equality check of both executions", "crates/components/deap/src/lib.rs")], ["finalize verdict, decoded values"])
p("M04", "The shared premaster secret equals the ECDH secret and neither share reveals it",
  "For every server key the two parties' shares combine to the x-coordinate of the Diffie-Hellman point of the joint client key and the server key, the published client key is the sum of the parties' keys, and a party that supplies inconsistent shares is detected.",
  ["inputs", "fault_sequences"], "all private keys and server points, corrupted shares of either party",
  "Tests use a few random keys.",
  ["crates/components/key-exchange/src/exchange.rs", "crates/components/key-exchange/src/point_addition.rs", "crates/components/key-exchange/src/circuit.rs"], [("point addition in shares and equality check", "crates/components/key-exchange/src")], ["pms output, finalize verdict"])
p("M05", "Jointly computed record tags equal GCM tags and forged records are refused",
  "Tags computed jointly equal AES-GCM tags for every key, nonce, additional data and ciphertext. A session in which a record of the server had its ciphertext, tag, nonce, type, version, length or position altered on the way never completes for the prover, its application gets only what the server really sent before, and the verifier learns nothing of the contents; a verifier which is told of a record other than the one the server sent does not accept the session.",
  ["inputs", "fault_sequences"], "all record sizes and contents and all single-field alterations",
  "Tests use a few records.",
  ["crates/mpc-tls/src/record_layer/aead/ghash.rs", "crates/mpc-tls/src/record_layer/aead/aes_gcm.rs", "crates/mpc-tls/src/record_layer/decrypt.rs", "crates/tlsn/src/tag.rs", "crates/tlsn/src/ghash.rs"], [("GHASH shares, tag checks", "crates/mpc-tls/src/record_layer")], ["tags, verification verdicts"])
p("M06", "The record layer keeps order, counts and limits",
  "Records are encrypted and decrypted in the order they were pushed with consecutive sequence numbers and fresh nonces, never exceed the configured totals, application data is held back until traffic has started, and the committed session lists every record exactly once.",
  ["histories", "schedules", "configurations"], "all sequences of pushes, flushes, starts and commits, record sizes and limits",
  "One path through the session tests.",
  ["crates/mpc-tls/src/record_layer.rs", "crates/mpc-tls/src/record_layer/encrypt.rs", "crates/mpc-tls/src/record_layer/decrypt.rs"], [("sequence counters, limits, buffers", "crates/mpc-tls/src/record_layer.rs")], ["record outputs and commit result"])
p("M07", "The TLS client completes a handshake only with an authentic TLS 1.2 server",
  "The client sends application data only after the server proved its identity, key exchange and finished value; any unexpected, duplicated, re-ordered, missing or altered server message, unoffered parameter or downgrade ends the handshake with an error and no application data is accepted or released.",
  ["inputs", "histories", "fault_sequences"], "all server flights and their single mutations, drops, duplications and re-orderings",
  "Integration tests talk to one honest server.",
  ["crates/mpc-tls/src/client/hs.rs", "crates/mpc-tls/src/client/tls12.rs", "crates/mpc-tls/src/client/conn.rs", "crates/mpc-tls/src/client/check.rs"], [("typed state machine", "crates/mpc-tls/src/client")], ["connection results"])
p("M08", "The verifying party accepts only a consistent session from the prover",
  "The verifying party accepts a session only if every message came at most once and in a legal order, the session time is near its own clock, both finished values match those of the recorded session, closing is proper and the parameters are supported; otherwise it aborts with an error and yields no session.",
  ["histories", "inputs", "fault_sequences"], "all message sequences of a hostile prover",
  "Only honest sessions are tested.",
  ["crates/mpc-tls/src/follower.rs", "crates/mpc-tls/src/utils.rs"], [("follower message loop", "crates/mpc-tls/src/follower.rs")], ["follower result"])
p("M09", "The verifier's view of a finished session equals what really happened",
  "When a session between prover, verifier and server completes, the verifier's server name, lengths, revealed bytes and commitments equal those of the real connection and of the prover's disclosure request, and reveal nothing else; when the prover lies about any of them, the verifier reports an error.",
  ["inputs", "configurations", "fault_sequences"], "all requests/responses, reveal and commit configurations, both connection modes, all lies a prover can tell in its messages",
  "A few end-to-end sessions with fixed data exist and need a network of crates.",
  ["crates/tlsn/src/prover.rs", "crates/tlsn/src/verifier.rs", "crates/tlsn/src/verifier/verify.rs", "crates/tlsn/src/prover/prove.rs", "crates/tlsn/src/transcript_internal/auth.rs", "crates/tlsn/src/transcript_internal/commit/hash.rs"], [("authenticated decoding of transcript", "crates/tlsn/src/transcript_internal/auth.rs")], ["VerifierOutput, ProverOutput"])
p("M10", "Session set-up agrees on one compatible configuration or fails cleanly",
  "Prover and verifier start a session only with compatible versions and a configuration the verifier accepted; a rejected, incompatible or interrupted set-up gives both sides an error within bounded time, and a dropped connection at any point ends both sides without hanging.",
  ["configurations", "fault_sequences", "crash_points"], "all version pairs, accept/reject decisions, and disconnects at every message",
  "One version test exists.",
  ["crates/tlsn/src/session.rs", "crates/tlsn/src/verifier.rs", "crates/tlsn/src/prover.rs", "crates/tlsn/src/msg.rs"], [("handshake messages and session driver", "crates/tlsn/src/session.rs")], ["results of both sides"])

p("M11", "The SDK's sessions do what their caller asked for and nothing else",
  "In a session of SdkProver and SdkVerifier the server receives exactly the HTTP request the caller described (method, target, each header once, body), the caller receives the server's response (status, every header with its name, body), transcript() is what was really exchanged, the verifier learns exactly the ranges and the identity the caller revealed, and the i-th opening returned belongs to the i-th range the caller committed to. The verifier refuses a session whose stated limits exceed its own and accepts one within them; steps called out of order, requests that are none, and ranges or servers that do not fit are errors without a result for either side.",
  ["inputs", "configurations", "histories"], "all requests, responses, reveal and commit lists, limits, and call orders in both modes",
  "The SDK's unit tests construct configurations only; no test runs a session of it.",
  ["crates/sdk-core/src/prover.rs", "crates/sdk-core/src/verifier.rs", "crates/sdk-core/src/types.rs", "crates/sdk-core/src/io.rs", "crates/sdk-core/src/config.rs"], [("request, reveal and opening assembly", "crates/sdk-core/src/prover.rs"), ("limits and results of the verifier", "crates/sdk-core/src/verifier.rs")], ["results of every call on both sides, and the bytes at the server"])

p("M12", "The browser bindings carry bytes, settings and results unchanged",
  "The stream adapter of the wasm crate delivers exactly the bytes the page hands over, in order and once, whatever the size of the reads and whenever the page answers; it asks the page for one read at a time, wakes the reader when the answer arrives, reports the end of the stream (and then always the end) and an error of the page as an error, hands every accepted write to the page unchanged and in order, accepts none after a close, and closes the page's stream once. A session of JsProver and JsVerifier described with plain values behaves like the SDK session with the same settings: request, response, transcripts, openings, limits, identity and mode are the ones given; progress is reported in order and grows, and a callback that throws changes nothing. compute_reveal gives the SDK's ranges. An event is logged exactly if the first filter for its crate, or else the general level, admits it.",
  ["inputs", "schedules", "configurations"], "all page behaviours (late, immediate, failing, ending), read and write sizes, settings, requests, rules and log filters",
  "The wasm crate has no tests that run its adapter or sessions; it is compiled for a browser only.",
  ["crates/wasm/src/io.rs", "crates/wasm/src/prover/mod.rs", "crates/wasm/src/verifier/mod.rs", "crates/wasm/src/types.rs", "crates/wasm/src/handler.rs", "crates/sdk-core/src/logging.rs"], [("stream adapter", "crates/wasm/src/io.rs"), ("conversion of settings and results", "crates/wasm/src/types.rs")], ["results of every call; calls the page's objects receive"])

p("M13", "The harness executor runs whole sessions over sockets and measures them truly",
  "Two executors connected over a network complete a benchmark in joint or proxy mode, whichever of them starts first and however slow the links are, with one connection to the server, a request of the configured upload size and a response of the configured download size. The metrics are true: bytes uploaded and downloaded are the bytes that passed between the parties (only the closing of the session apart), the parts do not exceed the totals, in proxy mode the server's traffic is among them, and the times do not exceed the time that went by. Every listed test exists once and passes for both roles; a name not listed is refused. Where the server is absent, hangs up or answers nonsense, where the request does not fit, or where the peer never comes, both executors report an error and none waits forever; a peer that comes a little late is waited for.",
  ["schedules", "configurations", "failures"], "all benchmark settings, start orders, link speeds and failures of the server or the peer",
  "The executor is driven only by the harness runner, which needs root networking and a browser; it has no tests.",
  ["crates/harness/executor/src/lib.rs", "crates/harness/executor/src/provider.rs", "crates/harness/executor/src/bench/prover.rs", "crates/harness/executor/src/bench/verifier.rs", "crates/harness/executor/src/bench/io.rs", "crates/harness/executor/test_plugins/basic.rs"], [("metered connection", "crates/harness/executor/src/bench/io.rs"), ("benchmark", "crates/harness/executor/src/bench/prover.rs")], ["results of commands; bytes that pass relays between the parties and before the server"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
