//! Replays specification-generated tests of the untyped API on a target of 32 bits.
#[path = "../../common/json.rs"]
#[macro_use]
#[allow(dead_code)]
mod json;
#[path = "../../val/src/construct.rs"]
mod construct;
#[path = "../../common/deep.rs"]
mod deep;
mod ffi;
mod guard;
#[path = "../../common/model.rs"]
#[allow(dead_code)]
mod model;
#[path = "../../val/src/ops.rs"]
mod ops;
#[path = "../../common/wide.rs"]
mod wide;
#[path = "../../common/wasm.rs"]
mod wasm;

use guard::{call, doing};
use json::J;
use model::*;
use oasis_cbor::{reader, writer, Value};

extern crate alloc;

fn replay(t: &J) -> (String, Option<J>) {
    ops::replay("P29", t)
}
