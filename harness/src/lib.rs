//! Reference functions.  Each pair `NAME__impl` / `NAME__spec` states one behaviour of the public API
//! (`impl`) next to an independent, direct definition of what it must compute (`spec`).  Nothing here
//! is ever run: the compiler lowers the pairs to MIR and the analysis interprets both sides of a
//! pair over the same abstract input.
#![allow(non_snake_case, unexpected_cfgs, clippy::all)]
#[cfg(not(no_modifiers))]
pub mod modifiers;
#[cfg(not(no_config))]
pub mod config;
#[cfg(not(no_consts))]
pub mod consts;
#[cfg(not(no_pipeline))]
pub mod pipeline;
#[cfg(not(no_tables))]
pub mod tables;

#[cfg(not(no_shared))]
pub mod shared;
