//! simkit: a small deterministic-simulation kit.
//!
//! One simulated execution ("run") is a pure function of its *choice tape*:
//! every scheduling decision, delay, fault and generated operation is drawn
//! through [`Sim::pick`], from a PRNG seeded by (VERIF_SEED, property,
//! scenario, run index) or, on replay and while minimising, from a recorded
//! tape.  Runs execute each on a fresh OS thread whose clock
//! (`clock_gettime`) and entropy (`getrandom`) are interposed (see `seam`),
//! so the code under test sees only simulated time and simulated randomness.
pub mod driver;
pub mod exec;
pub mod net;
pub mod rng;
pub mod seam;
pub mod sim;

pub use sim::{Sim, Violation};
pub type RunResult = Result<(), Violation>;

/// Fails the run with a violation when the condition is false.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($fmt:tt)*) => {
        if !$cond {
            return Err($crate::Violation::new($class, format!($($fmt)*)));
        }
    };
}

/// Returns a violation.
#[macro_export]
macro_rules! violate {
    ($class:expr, $($fmt:tt)*) => {
        return Err($crate::Violation::new($class, format!($($fmt)*)))
    };
}

/// Logs one event of the run (text only kept when tracing).
#[macro_export]
macro_rules! ev {
    ($sim:expr, $($fmt:tt)*) => {
        if $sim.tracing() { $sim.log(format!($($fmt)*)); }
    };
}
