#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
R="spdmlib/src/responder/"; Q="spdmlib/src/requester/"; C="spdmlib/src/common/"; M="spdmlib/src/message/"

p("C01","A responder survives any bytes from the other side",
 "Whatever bytes arrive at a responder, in the clear or inside a session and in whatever protocol state it is, processing them returns to the caller without a crash, abort, out-of-bounds access, arithmetic overflow or unbounded recursion. For each message processed the responder emits at most one response, and it keeps serving later well-formed requests from a fresh GET_VERSION.",
 ["inputs","histories"],"every byte string, as plain, secured or garbage transport frame, after every prefix of a valid conversation, for every responder configuration",
 "Existing tests feed a few hand-written well-formed requests to single handlers; crashes sit at length fields, index values and states no one wrote down.",
 [R+"context.rs",R,M,"codec/src/codec.rs"],[("receive/dispatch",R+"context.rs"),("message parsers",M)],["return of one message-processing call","frames sent"])
p("C02","A requester survives any peer and always terminates",
 "Whatever bytes a responder (or an attacker in its place) returns, every requester operation ends with a result after a bounded number of request messages, and never crashes, aborts, reads out of bounds, overflows or loops. When an operation fails it reports an error instead of a result.",
 ["inputs","histories"],"every response byte string, mutated honest responses and forged fields, at every step of every requester operation and configuration",
 "Tests run the requester against the in-tree responder only, which never sends a malformed, truncated, oversized or contradictory response.",
 [Q],[("response handlers",Q),("bounded certificate loop",Q+"get_certificate_req.rs")],["operation result","requests sent"])
p("C03","Message decoders are total and never read past their input",
 "Decoding any byte string as any protocol message, under any negotiated parameter set, yields either a value or a clean failure: no crash, no read beyond the given bytes, and no more bytes reported consumed than supplied. Re-encoding a decoded value into a buffer of any size either succeeds with exactly the number of bytes it reports or fails cleanly when the buffer is too small.",
 ["inputs","configurations"],"every byte string up to the maximum message size, every message kind, every negotiated algorithm/version/capability set, every output buffer size",
 "Unit tests decode one or two fixed encodings per message with one fixed context.",
 ["codec/src/codec.rs",M,C+"spdm_codec.rs",C+"opaque.rs","spdmlib/src/protocol/algo.rs"],[("Reader/Writer bounds","codec/src/codec.rs"),("length checks",M)],["decode/encode results"])
p("C04","Messages follow the SPDM wire format and round-trip",
 "Encoding any valid message value produces exactly the byte layout of the SPDM specification for the negotiated version (field order, little-endian widths, length and count fields, reserved bytes zero), and decoding those bytes gives the same value back. Fields the specification calls reserved are ignored on receipt.",
 ["inputs","configurations"],"every message kind, version 1.0-1.2, field value and negotiated size combination",
 "Round-trip tests fix one value per message and compare the codec only with itself, so a layout error made on both sides is invisible.",
 [M,C+"spdm_codec.rs",C+"opaque.rs","spdmlib/src/protocol/"],[("spdm_encode/spdm_read pairs",M)],["encoded bytes","decoded values"])
p("C05","Negotiation gives both sides the same compatible parameters",
 "Connecting a requester and a responder with any two configurations either fails, or leaves both sides with the same version, the same view of each other's capabilities, timing and size limits, and the same algorithm selection. The version is the highest one both were configured with, each selected algorithm is one that both sides offered, and connecting succeeds whenever the two configurations have a common choice in every category that their capabilities require.",
 ["configurations"],"all pairs of requester/responder configurations: version lists, capability flags, algorithm sets, timing exponents, buffer sizes",
 "Tests use one fixed pair of nearly identical configurations.",
 [Q+"get_version_req.rs",Q+"get_capabilities_req.rs",Q+"negotiate_algorithms_req.rs",R+"version_rsp.rs",R+"capability_rsp.rs",R+"algorithm_rsp.rs","spdmlib/src/protocol/algo.rs"],[("version choice",Q+"get_version_req.rs"),("algorithm prioritisation","spdmlib/src/protocol/algo.rs")],["negotiated parameters on both sides"])
p("C06","Algorithm choice is strongest-first and never outside the offer",
 "A responder answers an algorithm negotiation with at most one algorithm per category, always one contained in both the request and its own configuration, and picks the strongest common one (larger hash, larger curve or key, ECDSA over PSS over PKCS#1 v1.5, AES-256 over AES-128 over ChaCha20) regardless of how the offer was ordered or which unknown bits it carries. A requester refuses an answer that selects an algorithm or version it did not offer, or more than one in a category.",
 ["inputs","configurations"],"every offered and supported algorithm set including unknown bits, every forged answer",
 "Tests check prioritisation on a couple of constant pairs and never show the requester a dishonest selection.",
 ["spdmlib/src/protocol/algo.rs",R+"algorithm_rsp.rs",Q+"negotiate_algorithms_req.rs",M+"algorithm.rs"],[("prioritize","spdmlib/src/protocol/algo.rs"),("algorithm response checks",Q+"negotiate_algorithms_req.rs")],["algorithm response bytes","requester result"])
p("C07","Certificate retrieval returns exactly the provisioned chain",
 "For every chain length and slot, retrieving a certificate chain piecewise gives the requester exactly the bytes the responder was provisioned with, prefixed by the right length and root hash; the responder serves exactly the requested window, with the exact remainder, for any offset and length, and refuses slots and offsets that do not exist. The requester keeps a chain only if its length field is consistent, the chain verifies, its root digest is right and, when a trusted root is provisioned, it starts with that root.",
 ["inputs","histories","configurations"],"every chain length up to the maximum, slot, offset/length window, portion size the peer chooses to return, and corruption of any chain byte",
 "Tests use one chain and one portion size and never vary the windows or corrupt a byte.",
 [Q+"get_certificate_req.rs",R+"certificate_rsp.rs",M+"certificate.rs",C+"mod.rs"],[("portion loop",Q+"get_certificate_req.rs"),("window computation",R+"certificate_rsp.rs"),("chain verification",Q+"get_certificate_req.rs")],["certificate responses","stored peer chain"])
p("C08","Digest responses list the right hash for every provisioned slot",
 "A digests response names exactly the provisioned slots in its slot mask and carries, in ascending slot order, the hash of each slot's complete certificate chain under the negotiated hash algorithm. This holds for every combination of provisioned slots, both in the clear and inside a session.",
 ["configurations","inputs"],"all 255 slot subsets, chain contents and hash algorithms",
 "Tests provision a single slot.",
 [R+"digest_rsp.rs",M+"digest.rs",Q+"encap_digest.rs"],[("digest construction",R+"digest_rsp.rs")],["digests response bytes"])
p("C09","Challenge succeeds iff the device's signature covers the real exchange",
 "An honest challenge exchange succeeds at the requester for every slot, version and algorithm, and the responder's signature verifies, under the device key, over exactly the specification's transcript of this connection (negotiation, digests, certificates, challenge messages) with the specification's signing context. If any byte of any of those messages is altered in transit, in either direction, or the signature is by another key or for another exchange, the challenge does not succeed.",
 ["inputs","histories","configurations"],"all configurations and optional message orders, and every single-byte or structural modification of any contributing message",
 "Tests have no crypto backend or a self-consistent one, with both ends sharing the transcript code, and never tamper.",
 [Q+"challenge_req.rs",R+"challenge_rsp.rs",C+"mod.rs"],[("signature generation",R+"challenge_rsp.rs"),("signature verification",Q+"challenge_req.rs"),("transcript buffers",C+"mod.rs")],["requester result","wire messages"])
p("C10","Measurements delivered are the device's own, and signed ones are authentic",
 "A measurement query returns to the requester exactly the measurement blocks the device reports for the requested index (none for the total-count query, all, or one), in the clear or in a session, for every version. When a signature is requested, it covers exactly the measurement transcript since the last signature, and altering any byte of a contributing message makes the requester report failure instead of measurements.",
 ["inputs","histories","configurations"],"all measurement sets, indices, sequences of signed and unsigned queries, versions, slots, and single-byte modifications in transit",
 "Tests request a single fixed record; multi-query transcripts, tampering, and empty, large or sparse sets are untested.",
 [Q+"get_measurements_req.rs",R+"measurement_rsp.rs",M+"measurement.rs"],[("measurement signature",R+"measurement_rsp.rs"),("signature verification",Q+"get_measurements_req.rs")],["requester's returned records","wire messages"])
p("C11","A key-exchange session exists only after an untampered handshake",
 "With compatible configurations a certificate-based session start succeeds, and then both sides hold the same session id, algorithms and keys and can exchange data in both directions. If any byte of any message from the negotiation through the final handshake message is modified, replayed from another handshake, or signed or MACed with a wrong key, the two sides never both hold the session as established with each other, and a requester never reports a session whose responder identity and handshake transcript it has not verified.",
 ["inputs","histories","configurations"],"all configurations and every single modification or substitution of a handshake message",
 "Tests only run the happy path with stubbed crypto; the negative space (each byte of each message) is never visited.",
 [Q+"key_exchange_req.rs",Q+"finish_req.rs",R+"key_exchange_rsp.rs",R+"finish_rsp.rs",C+"session.rs"],[("signature + HMAC checks",Q+"key_exchange_req.rs"),("finish HMAC",R+"finish_rsp.rs")],["session state on both sides","requester result"])
p("C12","Session keys are the ones the specification's key schedule prescribes",
 "For every version, hash and AEAD algorithm and for DHE and pre-shared-key sessions, the handshake, finished, application and exporter secrets and record keys in use on both sides equal those computed independently from the wire transcript and the shared secret by the specification's schedule. Handshake and application keys, the two directions, and different sessions never share a key.",
 ["configurations","inputs"],"all versions, hash and AEAD algorithms, key-exchange kinds, random secrets and transcripts",
 "Both ends use the same key-schedule code, so an end-to-end test passes with any self-consistent but wrong schedule; unit tests only check that derivation returns something.",
 [C+"key_schedule.rs",C+"session.rs",C+"mod.rs"],[("bin_concat and labels",C+"key_schedule.rs"),("key generation",C+"session.rs")],["finished HMACs on the wire","ability to decrypt wire records with independently derived keys","derived keys"])
p("C13","A pre-shared-key session needs the same key and an untampered handshake",
 "With compatible configurations and the same pre-shared key a PSK session start succeeds, with or without the finish step the peer's mode requires, and both sides then share session id and keys. With a different key, hint or context, or with any byte of a contributing message altered, no session is established.",
 ["inputs","histories","configurations"],"all PSK modes, hints, contexts, versions, algorithms, and every single-byte modification",
 "PSK paths have only happy-path unit tests with stub secrets.",
 [Q+"psk_exchange_req.rs",Q+"psk_finish_req.rs",R+"psk_exchange_rsp.rs",R+"psk_finish_rsp.rs"],[("HMAC checks",Q+"psk_exchange_req.rs")],["session state on both sides"])
p("C14","Mutual authentication authenticates the requester's real identity",
 "When both sides support it and the responder asks for it, session start retrieves the requester's certificate chain through encapsulated requests (or the already known slot), and the session is established only if the requester's finish message carries a valid signature by the key of that chain over the session transcript. Sessions that need no mutual authentication work unchanged on builds with mutual authentication enabled.",
 ["inputs","histories","configurations"],"all mutual-authentication request modes, requester chain lengths and slots, algorithms, and modifications of encapsulated and finish messages",
 "There is one test per encapsulated message codec and none that runs the whole flow or a wrong identity.",
 [Q+"encap_req.rs",Q+"finish_req.rs",Q+"mutual_authenticate.rs",R+"encap_rsp.rs",R+"encap_get_certificate.rs",R+"finish_rsp.rs"],[("encapsulated flow",R+"encap_rsp.rs"),("finish signature",R+"finish_rsp.rs")],["session state on both sides","chain held by the responder"])
p("C15","Secured records are delivered exactly once, in order, unmodified, or not at all",
 "Inside a session every message the peer accepts is one that the other side protected for this session, this direction and this position; modified, truncated, extended (other than by alignment padding behind the record, which is ignored), replayed, reordered, reflected or cross-session records are rejected and produce no protected output, handler call or state change other than the failed receive. Records carry the session id, sequence bytes and length fields of the secured-message specification and are encrypted or authenticated so that an independent implementation of that specification with the session keys recovers exactly the data sent, for every payload size.",
 ["inputs","histories"],"every sequence of sends with arbitrary sizes, and every attacker action on the record stream, on both transports",
 "The only codec test needs a crypto backend that is absent; it sends one record.",
 [C+"session.rs",C+"mod.rs"],[("encode/decode_spdm_secured_message",C+"session.rs")],["wire records","handler deliveries"])
p("C16","No nonce is ever reused under a session key",
 "Across any history of traffic, failed receives, key updates and concurrently open sessions, no two records are ever encrypted under the same key and nonce; each direction's sequence number starts at zero for a new key and grows by one per record. When the counter cannot grow the send fails rather than reusing or wrapping a value.",
 ["histories"],"all interleavings of sends, receives, errors, key updates, session starts and ends, including counters near their maximum",
 "Nonce reuse is a property of whole histories; no test records nonces.",
 [C+"session.rs"],[("sequence number handling",C+"session.rs")],["(key, nonce) pairs reaching the AEAD"])
p("C17","Key updates keep both sides in step and retire old keys",
 "After any sequence of single-side and both-side key updates interleaved with traffic, both sides agree on the current keys of each direction, which equal the specification's update derivation applied that many times, and traffic continues in both directions. Records protected with a retired key are rejected, once an update has completed neither side's session entry holds the keys it retired, and an update that the peer refuses or that fails leaves both sides able to go on or the session unusable, never accepting both key generations.",
 ["histories","fault_sequences"],"all sequences of update kinds, traffic, refused or dropped update messages",
 "Tests perform one update with a stubbed peer.",
 [Q+"key_update_req.rs",R+"key_update_rsp.rs",C+"session.rs"],[("create/activate data secret update",C+"session.rs")],["derived keys","traffic after updates"])
p("C18","Concurrent sessions are independent and bounded, and slots are never leaked",
 "At least the configured number of sessions can be open at once, all with distinct non-zero ids; starting one more is refused without disturbing the others. Operations, failures and closings in one session never change another's keys, counters or state, and every handshake that a side sees fail, and every session that ends, frees its slot on that side, so that new sessions can always be started again.",
 ["histories","fault_sequences"],"all interleavings of starting (successfully or not), using and closing sessions up to and beyond the limit",
 "Tests open a single session; leaks only show after several failed handshakes.",
 [C+"session.rs",C+"mod.rs",R+"key_exchange_rsp.rs",R+"psk_exchange_rsp.rs",Q+"key_exchange_req.rs",Q+"psk_exchange_req.rs"],[("session table",C+"mod.rs")],["session table","ability to start further sessions"])
p("C19","An ended session is unusable and its keys are gone",
 "After a session ends (normal end, or the connection is re-initialised) neither side accepts or produces records for it, its keys, secrets and transcripts are erased from the session table, and its slot returns to the initial state. Ending a session takes effect on both sides at the acknowledgement, and its id gives no access to a later session.",
 ["histories"],"all histories that end sessions, followed by attempts to use recorded or forged records",
 "Tests end a session but never try to use it again or inspect what remains.",
 [Q+"end_session_req.rs",R+"end_session_rsp.rs",C+"session.rs",R+"context.rs"],[("teardown",C+"session.rs")],["session table contents","responses to late records"])
p("C20","The responder serves requests only in the states that allow them",
 "For every history of requests, the responder's answer (the success response or an error) follows the SPDM state rules: nothing before version negotiation, capabilities then algorithms in order and once, challenge/measurement/key-exchange only after negotiation and only if the advertised capabilities allow, session-only messages only inside an established session, finish only inside the handshake of its own session, encapsulated messages only inside a handshake that asked for mutual authentication, and no session-forbidden request inside a session. A refused request changes neither the connection state nor any session.",
 ["histories","configurations"],"all sequences of requests, in the clear and in up to four sessions, with any responder capabilities",
 "Tests visit each handler in the one right state.",
 [R+"context.rs",R],[("dispatch tables",R+"context.rs"),("state checks",R)],["response code per request","connection and session state"])
p("C21","Every response is a well-formed answer to its request",
 "For every request that the responder answers, the answer is exactly one message whose code is the success response of that request or an error, whose version field is the negotiated version (1.0 before and in version negotiation), which parses completely under the specification's layout with no stray bytes, and whose echoed fields match the request. Malformed requests are answered with an invalid-request error (or, for a wrong version field, a version-mismatch error), requests out of order with unexpected-request, and unknown ones get no success response.",
 ["inputs","histories"],"all well-formed and malformed requests in all states and all internal failure points of a handler",
 "Tests look at the handler's return value rather than at the bytes sent, and never make a handler fail half-way.",
 [R+"error_rsp.rs",R],[("error writing",R+"error_rsp.rs")],["frames sent by the responder"])
p("C22","A requester never takes an error or a mismatched answer for success",
 "If the answer to a requester operation is an error message of any kind, a message of another kind, a message for a different version, or one whose echoed fields contradict the request, the operation reports failure and records nothing from that answer. Not-ready and busy answers are not taken for success, and a resynchronisation request makes the requester drop the negotiated state so that it must connect anew.",
 ["inputs","histories"],"every operation, in the clear and in a session, with every error code and mismatched response",
 "Tests cover the error handler with a few codes in isolation.",
 [Q,Q+"handle_error_response_req.rs"],[("error handling",Q+"handle_error_response_req.rs"),("response code checks",Q)],["operation result","requester state"])
p("C23","Vendor-defined requests and responses arrive unchanged",
 "A vendor-defined request of any registry, vendor id and payload that fits is delivered to the registered handler byte for byte, and the handler's reply reaches the requester byte for byte, in the clear and inside a session, without disturbing the connection or any session. A handler failure or an oversized declared length is reported as an error and delivers nothing.",
 ["inputs","configurations"],"all payload lengths and contents, registry ids, vendor ids, with and without a session",
 "The one test stubs the transport and checks nothing about the payload or the session.",
 [Q+"vendor_req.rs",R+"vendor_rsp.rs",M+"vendor.rs"],[("vendor dispatch",R+"vendor_rsp.rs")],["handler input","returned payload"])
p("C24","Application data passes through an established session untouched",
 "Application messages of any content and size that fits are handed to the registered application handler with the right session id exactly as sent, and its reply returns exactly as produced, whatever bytes they contain. They are accepted only in an established session and never change the session's own state; a handler error is contained.",
 ["inputs","histories"],"all contents (including ones that look like protocol messages) and sizes, in every session state",
 "Tests never send application data with adversarial content.",
 [R+"context.rs",R+"app_message_handler.rs",C+"mod.rs"],[("application dispatch",R+"context.rs")],["handler input","reply at the requester","session state"])
p("C25","Transport framing round-trips and rejects foreign frames",
 "For both transport bindings (MCTP and PCI DOE) framing then unframing any message that fits returns it unchanged (up to zero padding to the transport's alignment) with its secured or application marking intact, in the binding's standard header layout. Frames of other types, vendors or inconsistent lengths, or ones that do not fit the buffer, are refused without a crash, and the whole protocol works identically over either transport.",
 ["inputs","configurations"],"all message lengths, contents, buffer sizes and header values on both transports",
 "Tests encode single headers and a few buffers.",
 ["mctp_transport/src/header.rs","pcidoe_transport/src/header.rs"],[("encap/decap","mctp_transport/src/header.rs"),("encap/decap","pcidoe_transport/src/header.rs")],["framed bytes","unframed bytes"])
p("C26","Backend and device failures are reported, never turned into success",
 "If the device I/O, random source, hash, key agreement, key derivation, AEAD, signing, certificate or measurement backend fails at any call during any operation, no side crashes, the running requester operation reports failure or the responder sends no success answer, no session becomes established on the strength of the failed step, and the connection can be re-initialised and used afterwards.",
 ["fault_sequences","histories"],"a failure injected at every backend call of every operation (single faults exhaustively, combinations randomly)",
 "Tests use backends that never fail.",
 [Q,R,C],[("error propagation",C+"mod.rs")],["operation results","frames sent","recovery run"])
p("C27","The X.509 chain format check accepts exactly well-formed chains",
 "The built-in certificate-chain format check accepts every concatenation of structurally valid version-3 DER certificates whose last certificate uses the negotiated signature algorithm, returning their number, and rejects chains with truncated or trailing bytes, wrong tags, versions, lengths or leaf algorithm. It never crashes, whatever the bytes.",
 ["inputs"],"all generated chains of varied field sizes and length encodings, all truncations and single-field corruptions, and arbitrary bytes",
 "Tests use a few certificate files and fixed byte strings.",
 ["spdmlib/src/crypto/x509v3.rs"],[("DER walker","spdmlib/src/crypto/x509v3.rs")],["result of the check"])
p("C28","Byte readers, writers and message buffers behave like a simple list",
 "The byte reader and writer and the accumulating message buffers behave exactly like a bounded list of bytes: reads return the next bytes or fail without consuming beyond the end, writes append exactly their encoding or fail without corrupting what is there, integers use little-endian order at their width, and appending beyond capacity is refused leaving the contents unchanged. The containers of secrets (the scrubbed byte buffer, the fixed-size key types and their conversions) hold exactly the bytes put into them, refuse sizes that do not fit, and erase their contents when they are dropped.",
 ["histories","inputs"],"all sequences of operations, sizes and values",
 "Unit tests perform a few operations with plenty of room.",
 ["codec/src/codec.rs",C+"mod.rs","spdmlib/src/crypto/bytes_mut_scrubbed.rs"],[("Reader/Writer","codec/src/codec.rs"),("managed buffers",C+"mod.rs"),("secret containers",C.replace("common/","")+"protocol/algo.rs")],["contents after each operation"])
p("C29","Secured-message version selection through opaque data is agreed or refused",
 "In a session handshake the requester offers its supported secured-message versions and the responder selects one both support; the session start fails if there is none. Opaque data offering unknown formats, wrong element headers or inconsistent lengths is refused or ignored without affecting anything else, and lists round-trip through their encoding.",
 ["inputs","configurations"],"all supported-version sets of both sides and all opaque encodings, well-formed or not",
 "Tests encode one fixed opaque structure.",
 [C+"opaque.rs",R+"key_exchange_rsp.rs",R+"psk_exchange_rsp.rs",Q+"key_exchange_req.rs"],[("opaque parsing and selection",C+"opaque.rs")],["opaque data in responses","session start result"])
p("C30","Negotiated message-size limits are honoured in both directions",
 "After negotiating version 1.2 neither side ever transmits a protocol message larger than the transfer size its peer announced: a responder replies with a response-too-large error instead, a requester reports failure without sending. Values below the specification's minimum are refused in capability negotiation.",
 ["configurations","inputs"],"all announced transfer sizes on both sides, all operations with small to large messages",
 "Tests use the default maximum sizes only.",
 [R+"context.rs",Q+"context.rs",M+"capability.rs"],[("size checks",R+"context.rs"),("size checks",Q+"context.rs")],["length of frames sent"])
p("C31","Re-initialising a connection starts from a clean slate",
 "After any history, a new version negotiation makes requester and responder behave exactly as after their first start with the same configuration: earlier negotiated parameters, transcripts, peer certificates and sessions have no influence on later messages, signatures or keys, even when the peer now negotiates different versions or algorithms.",
 ["histories","configurations"],"all histories followed by re-initialisation with the same or a different peer configuration, compared with a fresh start",
 "Tests use a new object for each scenario.",
 [C+"mod.rs",R+"version_rsp.rs",Q+"get_version_req.rs"],[("reset_context",C+"mod.rs")],["messages on the wire after re-initialisation versus fresh"])
p("C32","Nonces, random fields and contexts are fresh for every message",
 "Each challenge nonce, measurement nonce, key-exchange and PSK context or random field sent by either side comes unmodified and in full from the random source at that moment, so no two messages carry the same value and no field is constant or partly zero. Ephemeral key pairs are generated anew for every key exchange.",
 ["histories","configurations"],"all operations repeated in any order with all versions and modes",
 "Tests do not look at the random fields.",
 [Q+"challenge_req.rs",R+"challenge_rsp.rs",Q+"key_exchange_req.rs",R+"key_exchange_rsp.rs",Q+"psk_exchange_req.rs",R+"psk_exchange_rsp.rs",R+"measurement_rsp.rs",Q+"get_measurements_req.rs"],[("random source use","spdmlib/src/crypto/mod.rs")],["random fields on the wire versus random source output"])
p("C33","Running-hash and stored-transcript builds behave identically",
 "The two build variants (keeping running transcript hashes, or whole transcripts) produce the same wire messages, results and keys for the same inputs, random values and configuration at protocol version 1.2, including failures, and interoperate with each other.",
 ["configurations","histories"],"all 1.2 configurations and operation sequences, run in both builds with the same random source",
 "The test suite runs in one build variant at a time and never compares them.",
 [C+"mod.rs",C+"session.rs",Q,R],[("transcript handling",C+"mod.rs")],["wire logs of both builds"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
