//! Type definitions which are written by `verif run C20`.
#![allow(warnings)]

use serdere::{Deserialize, Serialize};
use verif::catalog::{enum_ty, field, field_default, field_flat, struct_ty, tag_ty, Held, Model, Px};
use verif::model::{Dv, FieldKind, FieldTy, Ty};

include!(concat!(env!("VERIF_GEN_DIR"), "/types.rs"));

fn main() {
    verif::props::derive::set_types(all(), include_str!(concat!(env!("VERIF_GEN_DIR"), "/types.rs")));
    verif::cli::main();
}
