# Writes the S-properties (whole sessions) of properties.jsonl to stdout.
import json
def p(id,title,statement,over,text,why,files,mech,obs):
    ex=lambda f: 'crates/'+f
    print(json.dumps(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=[ex(f) for f in files],mechanism=[dict(name=n,where=ex(w)) for n,w in mech],observe_at=obs,hook_needed=None))))
T="tlsn/src/"; M="mpc-tls/src/"; CO="core/src/"; K="components/"
PR=[T+f for f in ("prover.rs","prover/client.rs","prover/client/mpc.rs","prover/client/proxy/mod.rs","prover/conn.rs","prover/prove.rs","verifier.rs","verifier/verify.rs","session.rs")]
MP=[M+f for f in ("leader.rs","follower.rs","record_layer.rs","record_layer/encrypt.rs","record_layer/decrypt.rs","record_layer/aead/aes_gcm.rs","client/conn.rs","utils.rs")]
p("S01","An honest session ends with both parties holding the server's transcript",
 "When prover, verifier and server follow their protocols within the negotiated limits, both parties finish, the application receives exactly the bytes the server sent, the server exactly the bytes the application wrote and, where it asks for one, the client's configured certificates with proof of their key, and both parties hold the same record transcript of that connection. Every disclosure then shows the verifier exactly the selected bytes, the true server name, and commitments that open to the true bytes. This holds in MPC and in proxy mode for every conversation, record layout, decryption schedule and network timing.",
 ["schedules","inputs","configurations"],"all conversations within the limits, record fragmentations, toggles of decryption, cipher suites and certificates, selections to reveal and commit, network delays, fragmentations and back-pressure",
 "The end-to-end tests run one fixed conversation against one server over loopback.",
 PR+MP,[("prover state machine",T+"prover.rs"),("MPC-TLS client",T+"prover/client/mpc.rs"),("leader",M+"leader.rs"),("follower",M+"follower.rs"),("record layer",M+"record_layer.rs"),("disclosure",T+"prover/prove.rs"),("verification",T+"verifier/verify.rs")],["application bytes","server bytes","transcripts of both parties","prover and verifier output"])
p("S02","No dishonest prover makes the verifier accept anything false",
 "Whatever messages a prover sends in place of the protocol's, the verifier either ends with an error or accepts only what is true: a transcript of records the server really exchanged, revealed bytes equal to what was sent and received, the server identity the handshake proves, and commitments to true plaintext; every value it learned from the two-party computation was proven to it before it commits. The verifier never panics, loops or waits forever once the prover is gone.",
 ["inputs","fault_sequences","schedules"],"all forged, altered, truncated, duplicated, replayed, swapped and withheld messages of the prover, at every step, in both modes",
 "No test runs a prover that deviates from the protocol.",
 PR+MP+[K+"deap/src/lib.rs",K+"hmac-sha256/src/prf.rs"],[("follower",M+"follower.rs"),("record layer",M+"record_layer.rs"),("transcript verification",M+"utils.rs"),("verification",T+"verifier/verify.rs"),("dual execution",K+"deap/src/lib.rs")],["verifier outcome and output"])
p("S03","Crashes and lost connections end the session without false results",
 "If the prover, the verifier, the server or the application crashes or is cancelled, or a connection is cut in one or both directions, at any point, then every remaining party returns within bounded steps, its session driver ends, and no party reports a transcript or disclosure that is not true.",
 ["crash_points","fault_sequences","schedules"],"all crash, cancellation and cut points of generated sessions in both modes",
 "No test interrupts a session.",
 PR+MP,[("prover polling",T+"prover.rs"),("connection closing",T+"prover/future.rs"),("session driver",T+"session.rs")],["outcome of each party","pending tasks"])
p("S04","However the server ends the connection, both parties reach the right verdict",
 "A connection that the server ends after its data, with or without a close_notify, is committed to by both parties with all data delivered; one that fails in the handshake, carries a fatal alert, a record out of place or one that does not authenticate is refused by both. Whatever the ending, both parties return and neither accepts what the other refuses.",
 ["fault_sequences","schedules","inputs"],"all endings: close_notify, silent close, reset, fatal alert, close before data or within the handshake, damaged and torn records, at all timings",
 "The tests' server always ends the connection in the same orderly way.",
 PR+MP,[("server close",T+"prover/client/mpc.rs"),("close verification",M+"utils.rs"),("follower",M+"follower.rs")],["outcome of each party","application bytes"])
p("S05","The agreed sizes bind both parties",
 "A conversation within the negotiated numbers of bytes and records completes. One that exceeds the negotiated bytes by more than the room for protocol records is refused by both parties: neither commits to it. Whatever its size, both parties reach the same verdict, neither panics and neither waits forever. Settings that contradict each other are refused, whether built or received.",
 ["inputs","configurations","schedules"],"all combinations of negotiated sizes and record counts with conversations just within, around and far beyond them, with and without online decryption",
 "The tests use generous limits and never exceed them.",
 MP+[T+"prover/client/mpc.rs",M+"config.rs",CO+"config/tls_commit/mpc.rs"],[("send and receive accounting",M+"record_layer.rs"),("allocation",M+"record_layer/aead/aes_gcm.rs"),("configuration",CO+"config/tls_commit/mpc.rs")],["outcome of each party","accepted transcript"])
p("S06","The verifier relies on its own clock",
 "The connection time the verifier accepts is within the tolerance of its own clock, whatever the prover's clock says: in MPC mode parties whose clocks are further apart do not commit, in proxy mode the time is the verifier's. An identity is accepted only from a certificate that is valid at the verifier's time, and the prover connects only to servers whose certificate is valid at its own. Clocks that jump once the connection is under way change nothing.",
 ["fault_sequences","configurations","schedules"],"all clock offsets of prover and verifier from milliseconds to years, jumps after the handshake, and certificate validity periods around either clock, in both modes",
 "The tests run both parties on one clock and with certificates that are always valid.",
 [M+"follower.rs",M+"leader.rs",T+"verifier.rs",T+"proxy/verifier.rs",T+"verifier/verify.rs",CO+"webpki.rs"],[("time check",M+"follower.rs"),("connection time",T+"verifier.rs"),("identity verification",CO+"connection.rs")],["outcome of each party","accepted time and identity"])
p("S07","Only an orderly TLS handshake leads to a committed connection",
 "A connection whose handshake departs from what TLS 1.2 permits and the client offered - a message missing, repeated, out of place, malformed or unexpected; an unoffered version, compression, curve or extension; a signature by another key, over other randoms or under another scheme; a wrong, misplaced or replayed Finished; a key change missing, repeated, too early or within a message; other records in between - is committed to by neither party, and no application data passes in either direction. Departures that TLS 1.2 permits (session identifiers, acknowledged names, stapled responses, extended master secret, warnings, any fragmentation) are committed to by both. Both parties always return.",
 ["inputs","fault_sequences","schedules"],"all single departures of the server from a regular handshake, at all positions, fragmentations and timings, in both modes",
 "The tests' server always performs the same regular handshake.",
 [M+"client/hs.rs",M+"client/tls12.rs",M+"client/conn.rs",M+"client/check.rs",T+"prover/client/proxy/mod.rs",T+"proxy.rs"],[("handshake states",M+"client/tls12.rs"),("server hello",M+"client/hs.rs"),("message handling",M+"client/conn.rs")],["outcome of each party","application bytes"])
p("S08","What is not disclosed does not reach the verifier",
 "The verifier, even one that forges the values it opens, receives no part of the application data that the prover did not ask to disclose, no blinder of a commitment, no session key of a direction that is not disclosed in full, and in MPC mode neither the server's name nor its certificate unless the identity is disclosed. No two commitments share a blinder. In MPC mode the prover learns no session key before it has closed the connection.",
 ["inputs","schedules","fault_sequences"],"all conversations, decryption schedules, selections to reveal and commit, and forged values of the verifier, in both modes",
 "The tests look at what the verifier ends up with, not at what crosses the boundary on the way.",
 PR+MP+[T+"transcript_internal/auth.rs",T+"transcript_internal/commit/hash.rs",K+"hmac-sha256/src/prf.rs",K+"key-exchange/src/exchange.rs"],[("plaintext authentication",T+"transcript_internal/auth.rs"),("masked decoding",M+"decode.rs"),("key release",M+"leader.rs"),("proof request",T+"prover.rs"),("hash commitments",T+"transcript_internal/commit/hash.rs")],["values opened to the verifier","messages of the prover","values opened to the prover before it closed"])
p("S09","No dishonest verifier makes the prover accept anything false",
 "Whatever messages a verifier sends in place of the protocol's, the prover either ends with an error or holds the true transcript of its connection, and its application never receives bytes that the server did not send. The prover never panics, loops or waits forever once the verifier is gone.",
 ["inputs","fault_sequences","schedules"],"all forged, altered, truncated, duplicated, replayed, swapped and withheld messages of the verifier, at every step, in both modes",
 "No test runs a verifier that deviates from the protocol.",
 PR+MP+[K+"deap/src/lib.rs"],[("leader",M+"leader.rs"),("record layer",M+"record_layer.rs"),("dual execution",K+"deap/src/lib.rs")],["prover outcome","application bytes"])
p("S10","What either end sends arrives without waiting for unrelated traffic",
 "While the connection is open, data written by the application, its close, data sent by the server and changes of the decryption setting take effect within bounded time, without further traffic having to arrive first.",
 ["schedules","histories"],"all sequences of writes, reads, closes and decryption toggles around servers that go quiet, in both modes",
 "The tests' server answers at once and closes, which hides missed wake-ups.",
 PR,[("prover polling",T+"prover.rs"),("MPC-TLS client",T+"prover/client/mpc.rs"),("proxy client",T+"prover/client/proxy/mod.rs"),("decryption control",T+"prover/control.rs")],["time at which each application action completes"])
p("S11","Parties that share a session do not affect each other",
 "Several provers and verifiers, in either role, may run over one session at a time. Each reaches the outcome it would reach alone: those whose peer rejects the request, runs another version, or whose server is untrusted or fails, end with an error on both sides, the reason for a rejection reaches the prover, and all others complete with the transcript of their own connection. The session ends once all are done.",
 ["schedules","fault_sequences","histories"],"all interleavings of up to three parties with mixed modes, roles and fates over one slow and fragmenting channel",
 "The tests run one prover per session.",
 PR+[T+"msg.rs"],[("session",T+"session.rs"),("negotiation",T+"verifier.rs"),("commitment request",T+"prover.rs")],["outcome of each party","session driver"])
SD="sdk-core/src/"
p("S12","An HTTP exchange through the SDK is carried, disclosed and verified exactly",
 "A request given to the SDK's prover reaches the server as it was given, and the response comes back whole: status, every header with its name and value, body. Handlers name exactly the bytes they describe or are refused; what they reveal reaches the SDK's verifier and nothing else does; every range committed to comes back with the opening of that very range, in the order asked for. A prover that asks for more than the verifier's configuration allows is refused before it connects. When the server, the connection or the request fails, both sides end with an error; neither hangs.",
 ["inputs","configurations","schedules","fault_sequences"],"all HTTP exchanges (methods, headers, JSON and other bodies, content length, chunks, end of connection), handlers and their parameters, ranges, limits of both sides, modes, client certificates, cuts and server failures at any point",
 "The SDK's tests cover handlers on fixed messages and constructors; no test runs an exchange.",
 [SD+f for f in ("prover.rs","verifier.rs","config.rs","types.rs","io.rs","handler/mod.rs","handler/extract.rs")],[("prover",SD+"prover.rs"),("verifier",SD+"verifier.rs"),("handlers",SD+"handler/extract.rs")],["server bytes","HttpResponse","ComputeRevealOutput","RevealOutput","VerifierOutput"])
AT="attestation/src/"
p("S13","A notarised HTTP conversation can be shown part by part",
 "A conversation run through a session in either mode is committed to by the default HTTP committer at exactly the parts it documents: every message, its bare structure, request targets, each header with and without its value, bodies, each JSON key, value, object and array. The notary attests to it over the session's reclaimed connection, and the prover accepts the attestation. From the stored attestation and secrets any union of committed parts, and nothing else, can be presented, with or without the server's name; a verifier holding only the presentation learns the server's name if shown, the notary's key, the time, the true amount of data, and of the conversation exactly the bytes shown, as the server sent and received them. When a connection is cut, there is no attestation or one that is just as valid.",
 ["inputs","configurations","schedules","fault_sequences"],"all conversations of requests and responses (headers, targets, JSON and other bodies, chunked or not), modes, deferred decryption, hash and signature algorithms, key types, unions of parts, cuts at any point",
 "The format tests commit to fixed messages and the attestation tests use fixtures; no test goes from a session to a presentation.",
 ["formats/src/http/commit.rs","formats/src/json/commit.rs","formats/src/http/mod.rs",AT+"request.rs",AT+"builder.rs",AT+"presentation.rs",AT+"secrets.rs",T+"session.rs"],[("committer","formats/src/http/commit.rs"),("attestation",AT+"builder.rs"),("presentation",AT+"presentation.rs")],["committed ranges","Request","Attestation","Presentation","PresentationOutput"])
p("S14","The browser bindings carry an application's session faithfully",
 "An application of JavaScript values, channels of promises and callbacks obtains through the browser bindings what the SDK gives: every configuration option, request, reveal and commitment it states arrives with the meaning documented, and the response, transcript, openings, ranges and verifier output it is handed are those of the session, in both modes, however its channels split, delay or end their reads, and whether its progress callback throws or not. A channel never sees a second read before the first one ended, nor a read behind its end, nor a write or a second close behind its close. Progress reaches the callback in the documented order, never decreases, and ends at FINALIZED exactly when the session succeeds. A channel that throws, rejects or ends, a missing or superfluous server channel, and unusable options end in an error and never in a verified result that differs from the session.",
 ["inputs","configurations","schedules","fault_sequences"],"all configurations, HTTP exchanges, reveals, splits and delays of channels of both modes, with a channel failing at any operation by either of its ways, cuts at any point",
 "The crate has no tests that run here at all: its tests need a browser and a server.",
 ["wasm/src/io.rs","wasm/src/prover/mod.rs","wasm/src/prover/config.rs","wasm/src/verifier/mod.rs","wasm/src/verifier/config.rs","wasm/src/types.rs","wasm/src/handler.rs"],[("channel","wasm/src/io.rs"),("prover","wasm/src/prover/mod.rs"),("verifier","wasm/src/verifier/mod.rs")],["IoChannel reads, writes and closes","ProverConfig","VerifierOutput","RevealOutput","progress"])
