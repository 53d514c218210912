#![allow(unexpected_cfgs)]
pub mod engine;
pub mod monitor;
pub mod node;
pub mod scen;
pub mod task;
pub mod types;
pub mod quorum;
pub mod conf;
pub mod ble;
#[cfg(feature = "unicache")]
pub mod uni;
