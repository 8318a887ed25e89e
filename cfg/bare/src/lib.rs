#![no_std]
pub use dynamixel2::{Client, Device};
