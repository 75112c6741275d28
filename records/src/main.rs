mod certs;
mod ecdsa;
mod fresh;
mod hs;
mod link;
mod msgs;
mod names;
mod wire;
use simkit::driver::{Property, Scenario};
use simkit::{RunResult, Sim};

const WIRE_REAL: &[&str] = &["tls-core: message deframer (sync and async), fragmenter, handshake joiner, record and handshake codecs"];
const WIRE_STUB: &[&str] = &["byte transport (simulated link: short reads, interruptions, delays, cancellation, cuts)", "record producer (generator with an independent encoder / reference parser)"];
const CERT_REAL: &[&str] = &["tls-core: handshake data, certificate verifier, CT policy, trust anchors, codecs", "rustls-webpki, sct, ring"];
const CERT_STUB: &[&str] = &["certificate authorities, CT logs and server (generated PKI)", "clock (interposed clock_gettime)", "entropy (interposed getrandom)"];
const HS_REAL: &[&str] = &["tls-core: records, joiner, fragmenter, codecs, suites, PRF, certificate and signature verification", "rustls 0.22 server, ring"];
const HS_STUB: &[&str] = &["client state machine (harness, assembled from tls-core parts)", "network (simulated)", "clock and entropy (interposed)"];
const COMMON: &[&str] = &[
    "runs are sampled from a seeded generator; nothing is enumerated exhaustively",
    "ring, rustls-webpki, sct and rustls are correct",
];

fn main() {
    fn sc(name: &'static str, weight: u64, run: fn(&Sim) -> RunResult) -> Scenario { Scenario { name, weight, run } }
    let p = |id, scenarios, quick_runs, real, stub, rule, must_hit| Property { id, scenarios, quick_runs, thorough_secs: 1200, level: "exploration", rule, real, stub, assumptions: COMMON, must_hit };
    simkit::driver::main(vec![
        p("R01", vec![sc("benign", 3, link::r01_benign), sc("crash", 2, link::r01_truncated)], 160_000, WIRE_REAL, WIRE_STUB,
            "a run is non-trivial when at least one record crossed the link and every delivery step was compared with the reference parse", &["short_read", "read_interrupted", "read_would_block", "delivery_delayed", "read_cancelled", "peer_crash_mid_stream"]),
        p("R02", vec![sc("corrupt", 1, link::r02_corrupt), sc("malformed", 1, link::r02_malformed)], 180_000, WIRE_REAL, WIRE_STUB,
            "a run is non-trivial when at least one corruption fault was applied to the stream", &["bit_flip", "byte_overwrite", "segment_lost", "segment_duplicated", "segments_reordered", "garbage_injected", "header_bad_type", "header_bad_version", "header_oversize", "header_zero_length", "desynced"]),
        p("R03", vec![sc("fragment", 1, link::r03_fragment)], 35_000, WIRE_REAL, WIRE_STUB,
            "a run is non-trivial when at least one message was fragmented, delivered and reassembled", &["limit_changed_mid_stream", "limit_refused", "short_read"]),
        p("R04", vec![sc("flight", 3, link::r04_flight), sc("oversize", 1, link::r04_oversize)], 150_000, WIRE_REAL, WIRE_STUB,
            "a run is non-trivial when a flight of at least one handshake message crossed the link cut into records", &["peer_crash_mid_flight", "oversize_handshake_announced", "max_size_handshake"]),
        p("R05", vec![sc("flight", 1, link::r04_flight), sc("corrupt", 2, link::r05_corrupt_flight), sc("typed", 2, msgs::r05_typed)], 200_000, WIRE_REAL, WIRE_STUB,
            "a run is non-trivial when a handshake flight was delivered; in two thirds of runs bytes of it were corrupted first", &["bit_flip", "length_nudged", "inner_structure_padded", "inner_structure_shortened", "segment_lost", "segment_duplicated", "flight_rejected", "corrupt_but_wellformed", "flight_typed", "trailing_byte_after_message", "oversized_session_id", "illegal_host_name", "certificate_list_too_long", "ske_refused_on_demand"]),
        p("R06", vec![sc("exact", 1, certs::r06_exact)],  50_000, CERT_REAL, CERT_STUB,
            "every run presents one handshake and compares the verdict with the model; distinct by chain, clock, name and tampering", &["clock_skew_to_validity_boundary", "clock_jump", "clock_reset_to_epoch", "intermediate_lost", "impostor_ca_presented", "leaf_signed_by_impostor", "expect_accept", "expect_reject", "only_chain_bad", "only_name_bad", "only_signature_bad", "only_ct_bad", "ct_policy_deadline_boundary", "sct_from_the_future"]),
        p("R07", vec![sc("stored", 1, certs::r07_stored)], 45_000, CERT_REAL, &["storage (in-memory file with torn, corrupted and spliced writes)", "certificate authorities and server (generated PKI)", "clock and entropy (interposed)"],
            "every run stores one valid handshake, damages the file and reloads it", &["bit_flip", "torn_write", "block_from_other_file", "block_zeroed", "unreadable", "rejected", "still_verifies_unaltered"]),
        p("R08", vec![sc("algorithm", 2, certs::r08_algorithm), sc("tls13", 1, certs::r08_tls13)], 120_000, CERT_REAL, CERT_STUB,
            "every run has one server signature recorded and re-verified, or an altered one refused", &["scheme_mislabelled", "signature_altered", "certificate_replaced", "recorded", "rejected", "role_reflected", "transcript_altered", "tls13_accept", "tls13_refuse"]),
        p("R09", vec![sc("benign", 1, hs::r09_benign)], 60_000, HS_REAL, HS_STUB,
            "a run is non-trivial when the handshake completed and data crossed", &["completed", "extended_master_secret", "ocsp_stapled", "offers_incompatible", "client_certificate_requested", "long_authority_name", "session_ticket"]),
        p("R10", vec![sc("hostile", 1, hs::r10_hostile)], 80_000, HS_REAL, HS_STUB,
            "a run is non-trivial when at least one record was attacked or the connection was cut", &["record_payload_bit_flipped", "record_dropped", "record_duplicated", "record_reordered", "record_type_changed", "record_truncated", "record_injected", "record_replayed", "record_resegmented", "transport_timeout", "handshake_completed", "handshake_refused"]),
        p("R11", vec![sc("fresh", 1, fresh::r11_fresh)], 20_000, &["tls-core: client random, session id and random values", "rand, getrandom"], &["operating-system entropy (interposed getrandom: seeded, interrupted, short, failing)", "processes (one thread each, with entropy of its own)"],
            "every run draws at least 128 values in at least two processes", &["process_restarted", "entropy_source_failed", "entropy_request_short_or_interrupted"]),
    ])
}
