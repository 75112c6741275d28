#[path = "../../records/src/certs.rs"]
#[allow(dead_code)]
mod certs;
#[path = "../../records/src/ecdsa.rs"]
#[allow(dead_code)]
mod ecdsa;
mod closure;
mod crash;
mod evil;
mod handshake;
mod link;
mod limits;
mod live;
mod multi;
mod notarise;
mod rig;
#[cfg(feature = "browser")]
mod browser;
mod sdk;
mod secret;
mod skew;
mod server;
mod spans;
mod truth;
use simkit::driver::{Property, Scenario};
use simkit::{RunResult, Sim};

const REAL: &[&str] = &["tlsn: prover, verifier, session, proxy mode, disclosure and verification", "mpc-tls: leader, follower, TLS client, record layer", "components: deap, cipher, hmac-sha256, key-exchange", "tlsn-core, tlsn-attestation, tlsn-formats, tlsn-sdk-core, tls-core, hyper, rustls-webpki, ring, rustls 0.22 (proxy mode)"];
const STUB: &[&str] = &["mpz: ideal functionalities with the published interface (garbled VM, zk VM, OT, OLE, share conversion, hashing); inputs, outputs and messages pass the simulator", "tlsn-mux, serio, futures-plex: re-implemented to their published interface", "third-party crates not in the offline cache (p256, k256, aes, ghash, bcs, rangeset, ...)", "TLS server: independent implementation in session/src/server.rs", "application, network, clock, entropy, scheduler (simulated)"];
const COMMON: &[&str] = &[
    "runs are sampled from a seeded generator; nothing is enumerated exhaustively",
    "the two-party protocols of mpz realise their ideal functionalities",
    "ring, rustls, rustls-webpki and the stand-ins are correct; a stream closed by one side is closed by the other (tlsn-mux)",
];

fn main() {
    spans::install();
    fn sc(name: &'static str, weight: u64, run: fn(&Sim) -> RunResult) -> Scenario { Scenario { name, weight, run } }
    let p = |id, scenarios, quick_runs, rule, must_hit| Property { id, scenarios, quick_runs, thorough_secs: 1200, level: "exploration", rule, real: REAL, stub: STUB, assumptions: COMMON, must_hit };
    const SENT: &[&str] = &["message_forged", "bits_flipped", "message_truncated", "message_extended", "message_dropped", "message_duplicated", "messages_swapped", "message_replayed", "stuck_until_peer_left"];
    const FORGE_P: &[&str] = &[SENT[0], SENT[1], SENT[2], SENT[3], SENT[4], SENT[5], SENT[6], SENT[7], SENT[8], "verifier_accepted", "verifier_refused"];
    const FORGE_V: &[&str] = &[SENT[0], SENT[1], SENT[2], SENT[3], SENT[4], SENT[5], SENT[6], SENT[7], SENT[8], "prover_completed", "prover_refused"];
    simkit::driver::main(vec![
        p("S01", vec![sc("mpc", 1, truth::s01_mpc), sc("proxy", 1, truth::s01_proxy)], 9_000, "every run carries a session to its end on both sides; non-trivial when the network misbehaved", &["session_mpc", "session_proxy", "several_disclosures", "session_ticket", "client_authentication", "warning", "extended_master_secret", "backpressure", "net_delay", "short_read", "short_write"]),
        p("S02", vec![sc("mpc", 2, evil::s02_mpc), sc("proxy", 1, evil::s02_proxy)], 9_000, "non-trivial when a message of the prover was altered or the network misbehaved", FORGE_P),
        p("S03", vec![sc("mpc", 1, crash::s03_mpc), sc("proxy", 1, crash::s03_proxy)], 9_000, "non-trivial when something crashed, was cancelled or cut", &["crash_prover", "crash_verifier", "crash_server", "cancel_prover", "cancel_verifier", "cut_parties", "cut_server", "application_dropped", "both_committed", "neither_committed", "one_committed"]),
        p("S04", vec![sc("mpc", 1, closure::s04_mpc), sc("proxy", 1, closure::s04_proxy)], 7_000, "every run ends the connection in one of the listed ways", &["close_notify_close", "close_without_notify", "close_before_data", "close_in_handshake", "fatal_alert", "fatal_alert_in_passing", "record_out_of_place", "damaged_record", "torn_record", "reset"]),
        p("S05", vec![sc("mpc", 1, limits::s05_limits)], 5_000, "every run has sizes around the agreed limits", &["fits", "within_slack", "refused", "too_much_sent", "too_much_received"]),
        p("S06", vec![sc("mpc", 1, skew::s06_mpc), sc("proxy", 1, skew::s06_proxy)], 6_000, "non-trivial when a clock was off or jumped", &["clock_skew", "clock_jump", "clocks_refused", "prover_refused_certificate", "identity_accepted", "identity_refused", "complete"]),
        p("S07", vec![sc("mpc", 1, handshake::s07_mpc), sc("proxy", 1, handshake::s07_proxy)], 9_000, "every run has one departure from the usual handshake, forbidden or permitted", &["server_deviates", "finished", "signature", "point", "curve", "version", "missing_message", "repeated_message", "swapped_messages", "unexpected_message", "overlong_message", "short_message", "compression", "extensions", "record_in_flight", "before_key_change", "behind_key_change", "no_key_change", "key_change_content", "split_key_change", "other_key", "stale_signature", "scheme_label", "finished_sequence", "finished_content", "finished_damaged", "usual", "session_id", "server_name_ack", "point_formats", "stapled", "warning_in_flight", "downgrade_marker", "warning_before_key_change", "extended_master_secret"]),
        p("S08", vec![sc("mpc", 2, secret::s08_mpc), sc("proxy", 1, secret::s08_proxy)], 7_000, "every run compares all that reaches the verifier with what was disclosed", &["undisclosed_data", "identity_withheld", "commitment_sent", "commitment_received", "opened_to_the_prover", "verifier_cheated", "message_forged"]),
        p("S09", vec![sc("mpc", 1, evil::s09_mpc), sc("proxy", 1, evil::s09_proxy)], 9_000, "non-trivial when a message of the verifier was altered or the network misbehaved", FORGE_V),
        p("S10", vec![sc("mpc", 1, live::s10_mpc), sc("proxy", 1, live::s10_proxy)], 7_000, "every run makes a party wait on a quiet server", &["half_closed", "read_after_wait"]),
        p("S11", vec![sc("shared", 1, multi::s11_shared)], 5_000, "non-trivial when parties of a session meet different fates", &["request_rejected", "version_refused", "version_mismatch", "server_untrusted", "unaffected", "all_complete", "both_roles", "crash_server", "application_dropped", "cancel_prover", "cancel_verifier"]),
        p("S12", vec![sc("mpc", 1, sdk::s12_mpc), sc("proxy", 1, sdk::s12_proxy)], 5_000, "every run carries an HTTP exchange of the SDK to its end", &["sdk_mpc", "sdk_proxy", "sdk_verified", "bad_config", "handlers", "handler_refused", "several_openings", "limit_refused", "server_refused", "range_refused", "cut_parties", "cut_server"]),
        p("S13", vec![sc("mpc", 1, notarise::s13_mpc), sc("proxy", 1, notarise::s13_proxy)], 5_000, "every run carries an HTTP conversation to its notary", &["attested_mpc", "attested_proxy", "not_attested", "several_exchanges", "presented", "not_a_union", "cut_parties", "cut_server"]),
        #[cfg(feature = "browser")]
        p("S14", vec![sc("mpc", 1, sdk::s14_mpc), sc("proxy", 1, sdk::s14_proxy)], 5_000, "every run carries an HTTP exchange of the browser bindings to its end", &["sdk_mpc", "sdk_proxy", "sdk_verified", "handlers", "handler_refused", "several_openings", "limit_refused", "server_refused", "range_refused", "cut_parties", "cut_server", "channel_breaks", "wrong_channel", "progress"]),
    ]);
}
