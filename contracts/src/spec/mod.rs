pub mod hash;
pub mod cipher;
pub mod keccak;
pub mod zuc; pub mod tables;
pub mod big;
