#![allow(clippy::all)]
pub mod ciphers;
pub mod fields;
pub mod hashes;
pub mod histories;
pub mod macs;
pub mod keccaks;
pub mod modes;
pub mod rsas;
#[cfg(feature = "native")]
pub mod groups;
#[cfg(feature = "native")]
pub mod native;
pub mod rt;
pub mod spec;
pub mod zucs;
