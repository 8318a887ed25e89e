//! Model checking machinery for dynamixel2-rs.
#[macro_use]
pub mod engine;
pub mod dev;
pub mod ops;
pub mod party;
pub mod port;
pub mod refmodel;
pub mod slots;

pub use engine::*;
pub use dev::*;
pub use ops::*;
pub use port::*;
pub use refmodel::*;
pub use slots::*;
pub use std::time::Duration;
