//! Replays specification-generated tests of the serde layer on a target of 32 bits.
#[path = "../../common/json.rs"]
#[macro_use]
#[allow(dead_code)]
mod json;
#[path = "../../common/wide.rs"]
#[allow(dead_code)]
mod wide;
#[path = "../../common/deep.rs"]
mod deep;
mod guard;
#[path = "../../common/model.rs"]
#[allow(dead_code)]
mod model;
#[path = "../../common/wasm.rs"]
mod wasm;

#[path = "../../typed/src/conv.rs"]
#[allow(dead_code)]
mod conv;
#[path = "../../serde/src/data.rs"]
mod data;
#[path = "../../serde/src/table.rs"]
#[macro_use]
mod table;
#[path = "../../serde/src/ops.rs"]
mod ops;
#[path = "../../../build/gen/serde_types.rs"]
mod types;

use json::J;

fn replay(t: &J) -> (String, Option<J>) {
    thread_local! {
        static TABLE: ops::Table = ops::Table::new();
    }
    TABLE.with(|table| ops::replay(table, "P29", t))
}
