# Writes the A-properties (core, attestation) of properties.jsonl to stdout.
import json
def p(id,title,statement,over,text,why,files,mech,obs):
    ex=lambda f: 'crates/'+f
    print(json.dumps(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=[ex(f) for f in files],mechanism=[dict(name=n,where=ex(w)) for n,w in mech],observe_at=obs,hook_needed=None))))
AT="attestation/src/"; CO="core/src/"
p("A01","Every session ends attested and presented exactly, despite faults",
 "Once faults stop, every session whose parties are willing ends with the prover holding a valid attestation and the verifier having accepted a presentation that shows exactly the chosen part of the true transcript, the true server name and the true connection facts. This holds whatever was lost, duplicated or delayed on the network, whichever node crashed and restarted from its (possibly torn) stored files, and whatever the nodes' clocks say; nothing false is accepted on the way.",
 ["schedules","crash_points","fault_sequences","inputs"],"all sessions, selections, message losses, duplications and delays, node crashes and torn writes, clock skews",
 "The tests run one happy path in one process with no network, storage or clock.",
 [AT+f for f in ("request.rs","request/builder.rs","builder.rs","presentation.rs","secrets.rs","signing.rs")]+[CO+"transcript/proof.rs"],
 [("attestation building",AT+"builder.rs"),("request validation",AT+"request.rs"),("presentation",AT+"presentation.rs")],["attestation held by the prover","output of presentation verification"])
p("A02","A verified presentation shows only what the notary attested",
 "When a presentation verifies under a trusted key, everything the verifier is given (connection facts, server name, extensions, authenticated bytes and commitments) is what the notary attested in one single attestation, and every authenticated byte equals the true transcript at its position and was revealed to the notary or opened from a commitment. No alteration, splice with other sessions, replay, rogue notary or dishonest prover achieves more, and no input makes verification panic.",
 ["inputs","fault_sequences","histories"],"all alterations and recombinations of presentations of generated sessions, and all dishonest provers of the generated kinds",
 "The tests verify a few honest presentations and single hand-made alterations.",
 [AT+"presentation.rs",AT+"proof.rs",AT+"lib.rs",AT+"signing.rs",CO+"transcript/proof.rs",CO+"merkle.rs",CO+"connection.rs",CO+"transcript.rs"],
 [("presentation verification",AT+"presentation.rs"),("body proof",AT+"proof.rs"),("transcript proof",CO+"transcript/proof.rs"),("identity proof",CO+"connection.rs")],["verification verdict","verified output"])
p("A03","A presentation contains nothing the prover withheld",
 "The bytes of a presentation never contain transcript bytes outside the disclosed ranges, the opening or blinder of a commitment that was not opened, nor the server's name, certificates or blinder when the identity was withheld. This holds for every selection, in every encoding in which the presentation is sent.",
 ["inputs","configurations"],"all transcripts, commitments and disclosure selections",
 "No test inspects an encoded presentation for withheld data.",
 [AT+"presentation.rs",AT+"secrets.rs",CO+"transcript.rs",CO+"transcript/proof.rs",CO+"connection.rs"],
 [("partial transcript construction",CO+"transcript.rs"),("proof building",CO+"transcript/proof.rs")],["encoded presentation bytes"])
p("A04","A disclosure is provable exactly when commitments cover it",
 "For every set of commitments and every set of ranges asked to be disclosed, building the proof succeeds exactly when the ranges lie in the transcript and are a union of committed ranges of the permitted hash kinds; the resulting proof verifies and discloses exactly those ranges. Otherwise an error naming the cause is returned and no partial proof is produced.",
 ["inputs","configurations","histories"],"all transcripts, overlapping commitments of all hash kinds, kind preferences and sequences of reveal calls",
 "Tests cover a few fixed non-overlapping commitments.",
 [CO+"transcript/proof.rs",CO+"transcript/commit.rs",CO+"transcript.rs"],
 [("proof building and covering",CO+"transcript/proof.rs"),("commitment index",CO+"transcript/commit.rs")],["result of proof building","ranges disclosed by the verified proof"])
p("A05","A prover accepts only the attestation of its own request",
 "The prover accepts an attestation if and only if it answers its request: same server certificate commitment, signature and hash algorithms, extensions, a body matching the signed header, and a genuine signature. Any alteration of the attestation, exchange with another session's, or altered request is refused without panicking.",
 ["inputs","fault_sequences","histories"],"all alterations and exchanges of attestations of generated sessions",
 "Tests change one request field at a time and never the attestation's body, ids or signature.",
 [AT+"request.rs",AT+"lib.rs",AT+"builder.rs",AT+"signing.rs"],
 [("request validation",AT+"request.rs")],["validation verdict"])
p("A06","Damaged stored artefacts never pass for something else",
 "Attestations, requests, secrets and presentations read back from storage after torn writes, bit rot, zeroed or misdirected blocks either fail to load, or are refused when used, or yield only what the intact artefact would. No damage makes loading, presenting or verifying panic or exhaust memory; intact files read back equal.",
 ["crash_points","fault_sequences","inputs"],"all artefacts of generated sessions, binary and JSON, and all storage damages of the generated kinds",
 "No test damages a stored artefact.",
 [AT+"lib.rs",AT+"presentation.rs",AT+"secrets.rs",AT+"serialize.rs",AT+"proof.rs",CO+"transcript.rs",CO+"transcript/proof.rs",CO+"merkle.rs"],
 [("canonical and serde encodings",AT+"serialize.rs"),("partial transcript decoding",CO+"transcript.rs")],["load result","verdict and output after reload"])
p("A07","A notary issues exactly what its configuration permits",
 "A notary issues an attestation if and only if the request's signature and hash algorithms are among those it supports and can sign with, its extension validator accepts the request's extensions, and the connection facts it must attest are present and consistent; otherwise it refuses with an error naming the cause. An issued attestation contains the request's commitment and extensions and the notary's own connection facts, unchanged and complete.",
 ["configurations","inputs"],"all notary and request configurations, missing or inconsistent inputs",
 "Tests check three hand-picked refusals.",
 [AT+"builder.rs",AT+"config.rs",AT+"request/config.rs",AT+"extension.rs",AT+"signing.rs"],
 [("attestation builder",AT+"builder.rs"),("notary configuration",AT+"config.rs")],["verdict of the builder","content of the issued attestation"])
p("A08","Handshake evidence verifies exactly when it is all genuine",
 "The recorded handshake evidence of a session is accepted if and only if the key share equals the one recorded, the chain leads to a trusted root at the time of the connection, the leaf covers the server name, and the leaf's key made the signature over the randoms and key share under the stated algorithm; a refusal names a cause that is really present. The verdict does not depend on the verifying node's clock, and no evidence or root store makes verification panic.",
 ["inputs","configurations","fault_sequences","histories"],"all generated PKIs, chains, names, clock skews and jumps, relabelled or tampered evidence, restarts from storage",
 "Tests use one captured handshake and one alteration each.",
 [CO+"connection.rs",CO+"webpki.rs"],
 [("handshake data verification",CO+"connection.rs"),("certificate verification",CO+"webpki.rs")],["verdict and stated cause"])
p("A09","The recorded TLS transcript is rebuilt faithfully or refused",
 "From the recorded messages and records of a connection the transcript builder derives the certificates, signature and its algorithm, version, binding, handshake hashes as TLS 1.2 defines them, and the decrypted record sequence exactly as they occurred on the wire, and the plaintext transcript of both directions equals the application data. A recording that is truncated, reordered, inconsistent or malformed is refused with an error, never accepted as something else and never a panic.",
 ["inputs","fault_sequences","crash_points","histories"],"all generated connections (tickets, client authentication, extensions, record layouts) and all recording faults",
 "Tests build from one fixture and never from damaged recordings.",
 [CO+"transcript/tls.rs",CO+"transcript/tls/builder.rs",CO+"connection.rs"],
 [("transcript building",CO+"transcript/tls/builder.rs"),("record to transcript",CO+"transcript/tls.rs")],["fields of the built transcript","build verdict"])
p("A10","Partial disclosures merge to exactly what was disclosed",
 "For every history of disclosures and merges, including lost, duplicated, reordered and repeated ones and restarts from storage, a partial transcript authenticates exactly the union of what was merged into it, with the true bytes there and filler elsewhere, and its length, completeness and missing ranges agree. Requests outside the transcript, and merges of transcripts of different lengths, are refused and change nothing.",
 ["histories","schedules","inputs","crash_points"],"all transcripts, disclosure ranges, merge orders, duplications and losses",
 "Tests merge two fixed partial transcripts.",
 [CO+"transcript.rs",CO+"config/prove.rs"],
 [("partial transcript",CO+"transcript.rs"),("disclosure configuration",CO+"config/prove.rs")],["authenticated ranges and bytes of replicas"])
p("A11","A Merkle proof verifies only its own leaves at their places",
 "For every tree, grown in any batches and reloaded at any time, and every selection of leaves, the proof made for them verifies against the tree's root. No other leaf value, position, subset, superset, order or root verifies with it, and no altered proof or selection makes proving or verifying panic.",
 ["inputs","histories","fault_sequences"],"all tree sizes, growth histories, hash functions, selections and alterations of the generated kinds",
 "Tests use a handful of fixed trees and alterations.",
 [CO+"merkle.rs",CO+"hash.rs"],
 [("Merkle tree and proofs",CO+"merkle.rs")],["root and verification verdict"])
p("A12","A signature holds only for its key, scheme and message",
 "A notary's signature is accepted exactly under the key and the scheme it was made with and for the very message signed: any other message, key, key type, scheme label, signature length or signature value is refused with an error, never a panic (the sign of s and the Ethereum recovery byte are not part of what is verified). Ethereum-style signatures recover the notary's key the way ecrecover does, and signature or hash algorithms which an application configures are used exactly where it configured them: a node that lacks one refuses, one that has it reaches the same verdicts as with the built-in ones.",
 ["inputs","configurations","fault_sequences"],"all messages, keys, schemes, relabellings and alterations of the generated kinds, and all assignments of additional algorithms to prover, notary and verifier",
 "Tests sign and verify one fixed message per scheme.",
 [AT+"signing.rs",AT+"provider.rs",AT+"request.rs",AT+"presentation.rs",CO+"hash.rs"],
 [("signers and verifiers",AT+"signing.rs"),("hash provider",CO+"hash.rs")],["verification verdict","recovered key","algorithm labels"])
