pub mod field;
pub mod group;
pub mod log;
pub mod rng;
pub mod r1cs;
pub mod io;
pub mod hist;
pub mod fs;
pub mod codec;
pub mod par;
pub mod blind;
pub mod sim;
pub use field::{Fp, FpPar, GOLD};
pub use group::{Eng, Gt, G};
pub use rng::*;
pub use r1cs::*;
pub use io::*;
pub use serde_json::{json, Value};
