//! Reference model, workload generators and the monitor runtime.
//! Deliberately independent of the code under test: this crate does not depend on it.
pub mod gen;
pub mod net;
pub mod rng;
pub mod run;
pub use net::*;
pub use rng::Rng;
pub use run::*;
pub use serde_json;
