//! The deterministic simulator: simulated threads are OS threads that run one at a time, handing a
//! baton over at scheduling points. Everything that could differ between two executions (who
//! runs next, which weak operation fails, which job is stolen, what the entropy source returns) is
//! drawn from generators seeded by the run's seed and recorded so a run can be replayed and shrunk.
pub mod entropy;
pub mod rng;
mod sched;
pub mod sync;

pub use rng::Rng;
pub use sched::*;
