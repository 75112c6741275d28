# Writes the R-properties (tls-core) of properties.jsonl to stdout.
import json
T="crates/tls-core/src/"
def p(id,title,statement,over,text,why,files,mech,obs):
    print(json.dumps(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=[T+f for f in files],mechanism=[dict(name=n,where=T+w) for n,w in mech],observe_at=obs,hook_needed=None))))
p("R01","Record stream is recovered exactly under any delivery",
 "For every sequence of valid TLS records and every way the transport delivers the bytes (split or merged anywhere, read errors and interruptions, delays, cancelled asynchronous reads, the peer dying at any byte), the receiver yields exactly the records whose bytes have fully arrived: in order, each once, with type, version and payload unchanged. It reports pending data exactly while undelivered records or a partial record are buffered, each read reports exactly the number of bytes it consumed, and it always has room to make progress.",
 ["schedules","inputs","fault_sequences","crash_points"],"all record sequences (sizes 0 to the maximum), all chunkings of the byte stream, read errors, cancellation points and truncation points",
 "The unit tests feed a few fixed captures in a handful of fixed splits; delivery order, error points and cancellation are unbounded.",
 ["msgs/deframer.rs","msgs/message.rs"],[("deframer buffer management and try_deframe_one","msgs/deframer.rs"),("record header decoding","msgs/message.rs")],["records yielded by the deframer","read return values","pending and desynchronised flags"])
p("R02","A malformed record stream is detected at the malformed record",
 "Whenever a delivered byte stream contains a record header with an unknown content type, a version whose major number is not 3, a length above the protocol maximum, or an empty payload of a type that may not be empty, the receiver delivers exactly the records before it, reports the stream as desynchronised, and never delivers anything after it. Streams without such a header are never reported as desynchronised, and no byte stream makes the receiver panic or loop.",
 ["inputs","fault_sequences","schedules"],"all corruptions of record streams (bit flips, lost, duplicated, reordered or injected segments, malformed headers) under all deliveries",
 "Tests cover one bad type, version and length each, in one read; corruption position and delivery interact.",
 ["msgs/deframer.rs","msgs/message.rs","msgs/enums.rs"],[("header validity and size limits","msgs/message.rs"),("desynchronised state","msgs/deframer.rs")],["records yielded","desynchronised flag"])
p("R03","Fragmentation is lossless and respects the limit in force",
 "For every message and every fragment-size limit the peer may negotiate or change between messages, the sender splits the message into records that each fit the limit in force, none empty unless the message is, keeping type and version, in the minimal number; concatenating them after transport restores the message exactly. Limits outside 32..=16389 wire bytes are refused and leave the limit in force unchanged; without a limit records carry at most 16384 payload bytes.",
 ["inputs","histories","schedules"],"all message lengths, limits and sequences of limit changes, over all deliveries",
 "Two fixed-size unit tests exist; boundary arithmetic across limit changes and reassembly over a link is untested.",
 ["msgs/fragmenter.rs"],[("fragmenter limit arithmetic","msgs/fragmenter.rs")],["fragments produced","reassembled payload at the receiver"])
p("R04","Handshake messages are reassembled exactly from any record split",
 "For every flight of handshake messages and every way it is cut into records and delivered, the receiver reconstructs exactly the messages that fully arrived, in order, each once, with every field equal to what was sent, and reports how many each record completed and whether a partial message is buffered. A message announcing more than 65535 bytes is refused as soon as its header is complete, and one of the maximal size is accepted.",
 ["inputs","schedules","crash_points"],"all flights of all message kinds, all cuts into records, all deliveries, sender crash at any byte",
 "Tests join a handful of hand-picked splits of two messages.",
 ["msgs/hsjoiner.rs","msgs/handshake.rs","msgs/codec.rs"],[("handshake joiner","msgs/hsjoiner.rs"),("length-prefixed decoding","msgs/codec.rs")],["joined messages and their fields","joiner emptiness and counts"])
p("R05","Accepted handshake messages are exactly the bytes received",
 "Every handshake message the receiver accepts re-encodes to exactly the bytes that were received, including unknown types, unknown extensions and fields, so both sides hash the same transcript; every well-formed handshake message, alert and change-cipher-spec of TLS 1.2 and 1.3 decodes to exactly the kinds, code points and values that were sent, and questions asked of it (duplicate extensions, offered versions, names, key shares) answer for its content. Bytes that are not a well-formed message (padded or shortened inner structures included) are refused, and no byte string makes decoding panic.",
 ["inputs","fault_sequences"],"all well-formed flights, all messages of both protocol versions and all corruptions of them, under all record cuts and deliveries",
 "The round-trip tests cover one fixed instance of each message and single-byte truncations of it.",
 ["msgs/handshake.rs","msgs/codec.rs","msgs/base.rs","msgs/enums.rs","msgs/message.rs"],[("handshake message codecs","msgs/handshake.rs"),("enum codecs","msgs/enums.rs"),("length-prefixed payloads","msgs/base.rs")],["decoded fields","re-encoding of accepted messages"])
p("R06","A server is accepted exactly when its whole evidence is valid now",
 "A server handshake is accepted if and only if, at the verifier's clock, the presented chain leads to a configured trust anchor with every certificate within its validity and permitted as CA (or as TLS server for the leaf) and within the name constraints of those above it, the leaf covers the requested name, the key-exchange signature by the leaf key over client random, server random and key share verifies under the stated scheme, and any configured and unexpired certificate-transparency policy is met by an acceptable timestamp. Names of every length and shape are requested, encoded and verified as given, and a trust store names exactly its anchors. This holds for every clock value, including exactly at validity boundaries, and for every order, omission, duplication or substitution of presented certificates.",
 ["inputs","configurations","fault_sequences"],"all generated PKIs, presented chains, names, signatures, timestamps and clock skews or jumps",
 "The existing tests verify a few captured chains at one time each; clock skew, chain reordering and tampering combinations are unbounded.",
 ["verify.rs","handshake.rs","anchors.rs","ke.rs","cert.rs","dns.rs"],[("handshake verification","handshake.rs"),("certificate and CT verification","verify.rs")],["verdict of handshake verification"])
p("R07","Stored handshake evidence cannot come back altered and still verify",
 "A verified server handshake that is stored and reloaded intact is equal and still verifies. One that comes back torn, corrupted, zeroed in part or spliced with another session's record either fails to load, fails to verify, or is in its certificate, randoms and key share exactly a handshake the server really signed; no damage makes loading or verification panic.",
 ["crash_points","fault_sequences","inputs"],"all generated handshakes and all torn, corrupting or splicing damages to their stored form, binary and JSON",
 "No test damages stored evidence; round-trip tests use one instance.",
 ["handshake.rs","ke.rs","cert.rs","key.rs","msgs/handshake.rs","verify.rs"],[("serialised handshake evidence","handshake.rs"),("signature coverage","handshake.rs")],["reload result","verdict after reload"])
p("R08","The recorded signature algorithm is the one that verifies",
 "When the client determines the algorithm of a server's key-exchange signature, it reports exactly the algorithm (key type, curve, hash, padding) under which the signature verifies with the server's certificate, so an auditor re-checking the evidence under that algorithm agrees. A signature that is altered, truncated, mislabelled, made by another key or over other randoms is refused. A TLS 1.3 CertificateVerify is accepted exactly when the certificate's key signed this transcript in this role under a scheme TLS 1.3 allows for its curve. Every scheme the verifier can verify is offered.",
 ["inputs","fault_sequences"],"all supported key types and schemes, with substitutions of label, signature, certificate and randoms by the network",
 "No test exercises algorithm determination at all.",
 ["verify.rs"],[("algorithm determination","verify.rs")],["reported algorithm","independent verification under it"])
p("R09","A benign TLS 1.2 session completes and both ends agree",
 "Over any benign network (arbitrary latency, short reads and writes, backpressure, either side's record fragmentation), a TLS 1.2 client built from the library completes against a standard server exactly when their offers are compatible by the library's suite tables, and both ends agree on keys, suite (the one the tables choose), signature scheme, server name, application protocol, stapled response, requested client authorities and session ticket. All application bytes arrive unchanged in both directions and both ends see an orderly close.",
 ["schedules","configurations","inputs"],"all suites, key types, extension mixes, fragment sizes, payload sizes and network schedules",
 "Unit tests check message codecs and the key-derivation function in isolation; nothing runs a session.",
 ["prf.rs","suites/mod.rs","suites/tls12.rs","cipher.rs","msgs/handshake.rs","msgs/fragmenter.rs"],[("pseudo-random function","prf.rs"),("suite tables and key-exchange decoding","suites/tls12.rs"),("additional data and nonces","cipher.rs")],["exported keys","application data","negotiated parameters"])
p("R10","A hostile network cannot make a session accept false or cut data",
 "Whatever the network does to a TLS 1.2 session built from the library (altering, dropping, duplicating, reordering, replaying, injecting, retyping, truncating or re-splitting records, or cutting the connection at any byte), each end accepts only a prefix of what the other sent, reports an orderly close only after all of it, and completes the handshake only with equal keys and the server's genuine certificate. Once the transport is closed both ends terminate, and an undisturbed session succeeds.",
 ["fault_sequences","schedules","crash_points"],"all sequences of record-level attacks and connection cuts under all schedules",
 "No test puts an attacker or a failing network between two ends.",
 ["msgs/deframer.rs","msgs/hsjoiner.rs","msgs/message.rs","cipher.rs","prf.rs","verify.rs","handshake.rs"],[("record integrity data","cipher.rs"),("Finished computation","prf.rs"),("handshake verification","handshake.rs")],["accepted application data","close state","completed handshakes"])
p("R11","What is drawn for a session is fresh, whole and from the system's entropy",
 "Every client random, session id and random value the library draws has its full length, comes from the operating system's entropy, has no byte that never changes, and never repeats a value drawn before, in the same process or after any number of restarts with the same clock. Interrupted and short answers of the entropy source are invisible; while the source fails, nothing is produced rather than something predictable.",
 ["histories","fault_sequences","crash_points"],"all sequences of draws across process restarts, and all interruptions, short answers and failures of the entropy source",
 "No test restarts a process, repeats a clock or makes the entropy source misbehave; one draw looks as good as any other.",
 ["rand.rs","msgs/handshake.rs"],[("random source","rand.rs"),("client random and session id","msgs/handshake.rs")],["values drawn"])
