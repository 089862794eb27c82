//! Generated-input checks of the semantic properties of serdere.

pub mod catalog;
pub mod cli;
pub mod dom;
pub mod dynamic;
pub mod engine;
pub mod format;
pub mod io;
pub mod machine;
pub mod mem;
pub mod model;
pub mod props;
pub mod script;
pub mod text;
pub mod tree;
