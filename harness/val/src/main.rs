//! Replays specification-generated tests of the untyped API and records sessions of it.
#[path = "../../common/json.rs"]
#[macro_use]
#[allow(dead_code)]
mod json;
#[path = "../../common/deep.rs"]
mod deep;
#[path = "../../common/gen.rs"]
#[allow(dead_code)]
mod gen;
#[path = "../../common/guard.rs"]
#[allow(dead_code)]
mod guard;
#[path = "../../common/model.rs"]
#[allow(dead_code)]
mod model;
#[path = "../../common/rng.rs"]
#[allow(dead_code)]
mod rng;
#[path = "../../common/wide.rs"]
mod wide;

use guard::{call, doing};
use json::J;
use model::*;
use oasis_cbor::{reader, writer, Value};
use rng::Rng;
use std::io::{BufRead, Write};

extern crate alloc;

mod construct;
mod ffi;
mod ops;
mod record;

fn main() {
    guard::install();
    std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(real_main)
        .unwrap()
        .join()
        .unwrap_or_else(|_| std::process::exit(3));
}

fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "exec" => exec(&a[2], &a[3]),
        "record" => record::record(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5]),
        _ => panic!("HARNESS: usage"),
    }
}

/// Replay tests emitted by TLC and compare.  `-` reads TLC's own output, whose other lines are
/// passed on with a prefix.
fn exec(prop: &str, path: &str) {
    let f: Box<dyn BufRead> = if path == "-" {
        Box::new(std::io::BufReader::with_capacity(1 << 20, std::io::stdin()))
    } else {
        Box::new(std::io::BufReader::new(std::fs::File::open(path).unwrap()))
    };
    let (mut n, mut bad, mut deep_bad) = (0usize, 0usize, 0usize);
    let out = std::io::stdout();
    let mut out = out.lock();
    let mut kinds = std::collections::BTreeMap::new();
    for line in f.lines() {
        let mut line = line.unwrap();
        if path == "-" {
            match line.strip_prefix("\"@@") {
                Some(l) => line = l[..l.len() - 1].replace("\\\"", "\""),
                None => {
                    writeln!(out, "TLC {}", line).unwrap();
                    continue;
                }
            }
        }
        let t = json::parse(&line);
        n += 1;
        // Wrongly accepted chains cost more and more, and say nothing new.
        let deep = t.f("op").str() == "deep";
        if deep && deep_bad >= 20 {
            *kinds.entry("deep given up".into()).or_insert(0usize) += 1;
            continue;
        }
        let (kind, got) = ops::replay(prop, &t);
        let c = kinds.entry(kind).or_insert(0usize);
        *c += 1;
        if *c <= 2 {
            writeln!(out, "SAMPLE {}", t.show()).unwrap();
        }
        if let Some(got) = got {
            deep_bad += deep as usize;
            bad += 1;
            if bad <= 20 {
                let mut t = t.clone();
                t.set("got", got);
                writeln!(out, "BAD {}", t.show()).unwrap();
            }
        }
    }
    for (k, c) in kinds {
        writeln!(out, "KIND {} {}", c, k).unwrap();
    }
    writeln!(out, "DONE {} {}", n, bad).unwrap();
}
