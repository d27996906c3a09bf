//! Stand-in for the constants of parachains-common that the code under test uses (12 s blocks).
#![no_std]
pub const MILLISECS_PER_BLOCK: u64 = 12000;
pub const MINUTES: u32 = 60_000 / (MILLISECS_PER_BLOCK as u32);
pub const HOURS: u32 = MINUTES * 60;
pub const DAYS: u32 = HOURS * 24;
