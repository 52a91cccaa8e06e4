//! Replays specification-generated tests of the typed API and records sessions of it.
#[path = "../../common/json.rs"]
#[macro_use]
#[allow(dead_code)]
mod json;
#[path = "../../common/cat.rs"]
mod cat;
#[path = "../../common/wide.rs"]
#[allow(dead_code)]
mod wide;
#[path = "../../common/deep.rs"]
mod deep;
#[path = "../../common/gen.rs"]
#[allow(dead_code)]
mod gen;
#[path = "../../common/guard.rs"]
#[allow(dead_code)]
mod guard;
#[path = "../../common/model.rs"]
#[allow(dead_code)]
mod model;
#[path = "../../common/rng.rs"]
#[allow(dead_code)]
mod rng;
#[path = "../../common/run.rs"]
mod run;

mod conv;
#[macro_use]
mod table;
mod ops;
mod record;
#[path = "../../../build/gen/types.rs"]
mod types;
const CATALOGUE: &str = include_str!("../../../build/gen/catalogue.json");

fn main() {
    run::main(|a| match a[1].as_str() {
        "exec" => {
            let t = ops::Table::new();
            run::exec(&a[2], &a[3], |prop, j| ops::replay(&t, prop, j))
        }
        "record" => record::record(CATALOGUE, &a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5]),
        _ => panic!("HARNESS: usage"),
    });
}
