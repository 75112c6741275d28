#[path = "../../records/src/certs.rs"]
#[allow(dead_code)]
mod certs;
#[path = "../../records/src/ecdsa.rs"]
#[allow(dead_code)]
mod ecdsa;
mod core_props;
mod flow;
mod link;
mod mutate;
mod pres;
mod sigs;
mod world;
use simkit::driver::{Property, Scenario};
use simkit::{RunResult, Sim};

const REAL: &[&str] = &["tlsn-attestation: request, config, builder, signing, presentation, proofs", "tlsn-core: transcript, commitments, proofs, merkle, hashing, handshake verification", "tls-core, rustls-webpki, ring"];
const STUB: &[&str] = &["two-party computation of commitments (simulator hashes the plaintext)", "TLS server and certificate authorities (generated PKI)", "third-party crates not in the offline cache: k256, p256, bcs, rangeset, rs_merkle, blake3, tiny-keccak (re-implemented to their published interface)", "network, disk, clock, entropy (simulated)"];
const COMMON: &[&str] = &[
    "runs are sampled from a seeded generator; nothing is enumerated exhaustively",
    "ring, rustls-webpki and the hash and signature stand-ins are correct",
];

fn main() {
    fn sc(name: &'static str, weight: u64, run: fn(&Sim) -> RunResult) -> Scenario { Scenario { name, weight, run } }
    let p = |id, scenarios, quick_runs, real, stub, rule, must_hit| Property { id, scenarios, quick_runs, thorough_secs: 1200, level: "exploration", rule, real, stub, assumptions: COMMON, must_hit };
    simkit::driver::main(vec![
        p("A01", vec![sc("lifecycle", 1, flow::a01)], 20_000, REAL, STUB,
            "a run is non-trivial when at least one fault was injected; every run carries at least one session through attestation, presentation and verification", &["message_lost", "message_duplicated", "message_delayed", "crash_restart", "torn_write", "clock_skew", "presentation_verified", "damaged_attestation_refetched"]),
        p("A02", vec![sc("relay", 3, pres::a02_relay), sc("prover", 2, pres::a02_prover)], 25000, REAL, STUB, "a run is non-trivial when at least one attack or fault was injected; every run puts attested sessions before a verifier", &["accepted", "rejected", "undecodable", "untrusted_key", "claim_more_bytes_authenticated", "opening_ranges_changed", "header_from_other_session", "body_from_other_session", "proof_from_other_session", "identity_from_other_session", "signature_from_other_session", "rogue_notary", "prover_edits_transcript", "prover_widens_commitment", "impersonating_certificate", "bit_flip"]),
        p("A03", vec![sc("privacy", 1, pres::a03)], 25000, REAL, STUB, "every run scans at least one presentation for withheld data", &["commitment_kept_closed", "identity_withheld"]),
        p("A04", vec![sc("builder", 1, pres::a04)], 40000, REAL, STUB, "every run queries a proof builder; queries are in and out of bounds, coverable and not", &["not_coverable", "out_of_bounds_query", "proof_verified", "reveal_accepted", "reveal_refused"]),
        p("A05", vec![sc("validate", 1, pres::a05)], 25000, REAL, STUB, "a run is non-trivial when the notary's answer was altered or exchanged", &["rejected", "validated", "attestation_of_other_session", "body_altered", "field_ids_altered", "notary_alters_request", "signature_altered"]),
        p("A06", vec![sc("stored", 1, pres::a06)], 30000, REAL, STUB, "a run is non-trivial when a stored artefact was damaged", &["accepted", "rejected", "unreadable", "damaged_attestation_loaded", "damaged_request_loaded", "damaged_secrets_loaded", "bit_flip", "truncated", "block_from_other_file", "block_zeroed"]),
        p("A07", vec![sc("config", 1, pres::a07)], 40000, REAL, STUB, "a run is non-trivial when some party is not willing or able to proceed", &["issued", "request_refused", "issue_refused", "connection_info_missing", "ephemeral_key_missing"]),
        p("A08", vec![sc("handshake", 1, core_props::a08)], 40000, REAL, STUB, "every run verifies at least one presented handshake", &["expect_accept", "expect_reject", "only_key_bad", "only_chain_bad", "only_name_bad", "only_signature_bad", "clock_skew_to_validity_boundary", "garbage_intermediate", "restart_from_storage", "algorithm_relabelled", "no_certificates"]),
        p("A09", vec![sc("recording", 1, core_props::a09)], 40000, REAL, STUB, "a run is non-trivial when the connection or its recording was faulty", &["built", "refused", "recorder_crashed", "session_ticket", "client_auth", "server_message_missing", "client_message_missing", "bad_protected_record", "records_reordered", "first_record_seq", "first_record_not_finished", "other_group", "unsupported_curve", "version_1_3_label", "sequence_gap"]),
        p("A10", vec![sc("disclosure", 1, core_props::a10)], 100000, REAL, STUB, "a run is non-trivial when a message or a node was lost, delayed or duplicated", &["message_lost", "message_duplicated", "message_reordered", "crash_restart", "merged", "truncated", "out_of_bounds_request", "stored_parts_disagree"]),
        p("A11", vec![sc("merkle", 1, core_props::a11)], 100000, REAL, STUB, "every run damages proofs over at least one tree", &["proof_ok", "proof_refused", "leaf_replaced", "leaf_withheld", "leaf_added", "leaf_duplicated", "leaves_exchanged", "other_root", "proof_hash_altered", "proof_hash_lost", "restart_from_storage"]),
        p("A12", vec![sc("signatures", 2, sigs::signatures), sc("own-algorithms", 1, sigs::own_algorithms)], 20000, REAL, STUB, "every run puts genuine and altered signatures before the real verifiers", &["genuine_accepted", "recovered", "accepted", "rejected", "signature_bit", "message_altered", "scheme_relabelled", "key_relabelled", "other_key", "other_signature", "signature_length", "key_damaged", "key_shared_between_schemes", "node_lacks_algorithm", "notary_refused", "own_signature_verified", "own_hash_verified"]),
    ]);
}
