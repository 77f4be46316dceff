//! A crate without std that derives every type of the corpus: nothing generated may need more than core and alloc.
#![no_std]
#![allow(non_camel_case_types, dead_code, unused_imports)]
extern crate alloc;
#[cfg(feature = "bin")]
pub mod types_bin;
#[cfg(feature = "json")]
pub mod types_json;
#[cfg(feature = "ron")]
pub mod types_ron;
#[cfg(feature = "toml")]
pub fn parse(s: &str) -> Result<alloc::collections::BTreeMap<alloc::string::String, nanoserde::Toml>, nanoserde::TomlErr> { nanoserde::TomlParser::parse(s) }
pub mod errors {
    #[cfg(feature = "bin")]
    pub fn bin(e: &nanoserde::DeBinErr) -> &dyn core::error::Error { e }
    #[cfg(feature = "json")]
    pub fn json(e: &nanoserde::DeJsonErr) -> &dyn core::error::Error { e }
    #[cfg(feature = "ron")]
    pub fn ron(e: &nanoserde::DeRonErr) -> &dyn core::error::Error { e }
}
