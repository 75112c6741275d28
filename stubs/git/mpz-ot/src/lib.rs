pub use mpz_ideal::ot::{chou_orlandi, cot, ferret, kos, rcot, rot};
