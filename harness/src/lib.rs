#![allow(bare_trait_objects)]
#[macro_use]
pub mod runner;
pub mod build;
pub mod dict;
pub mod form;
pub mod gen;
pub mod json;
pub mod mimes;
pub mod resp;
pub mod src;
pub mod wire;
pub mod routes;

pub use runner::{fail, Case, Fail, Prop, Res};
pub use src::Src;
