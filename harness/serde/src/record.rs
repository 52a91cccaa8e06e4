//! Random sessions with the serde layer: data of every type of the catalogue, edited values, and
//! bytes.
use crate::cat::{mutate, nodes, Cat};
use crate::gen;
use crate::guard::{call, doing};
use crate::json::J;
use crate::model::*;
use crate::ops::{outcome, Table};
use crate::rng::Rng;
use crate::table::Row;
use oasis_cbor::Value;
use std::io::Write;

fn ser(row: &Row, x: &J) -> (J, Option<Value>) {
    let mut e = obj! {"op" => J::s("ser"), "ty" => J::s(row.id), "x" => x.clone()};
    doing(&e);
    let v = call(|| (row.value)(x)).0;
    e.set("v", outcome(v.clone().map(|r| r.map(|v| val(&v)))));
    let b = call(|| (row.bytes)(x)).0;
    e.set("b", outcome(b.clone().map(|r| r.map(|b| bytes(&b)))));
    let slice = b.ok().and_then(|b| b.ok()).map(|b| outcome(call(|| (row.slice)(&b)).0));
    e.set("rs", J::Arr(slice.into_iter().collect()));
    let v = v.ok().and_then(|v| v.ok());
    let back = v.clone().map(|v| outcome(call(|| (row.from_value)(v)).0));
    e.set("rv", J::Arr(back.into_iter().collect()));
    (e, v)
}
fn slice(row: &Row, b: &[u8]) -> J {
    let mut e = obj! {"op" => J::s("slice"), "ty" => J::s(row.id), "b" => bytes(b)};
    doing(&e);
    e.set("r", outcome(call(|| (row.slice)(b)).0));
    e
}

/// Nesting around the limit, in data of any shape.
fn deep(r: &mut Rng) -> Vec<u8> {
    let n = 60 + r.below(9);
    let mut b = vec![];
    for _ in 0..n {
        match r.below(6) {
            0 => b.extend([0xa1, 0x01]),
            1 => b.push(0xa1),
            2 => b.extend([0x82, 0xf6]),
            _ => b.push(0x81),
        }
    }
    b.push(0xf6);
    b.extend(std::iter::repeat(0xf6).take(b.iter().filter(|x| **x == 0xa1).count()));
    // Only some of these are complete; where they are not, that is the only thing wrong.
    if let Some(k) = (0..b.len()).find(|k| oasis_cbor::reader::read_nested(&b[..*k], None).is_ok()) {
        b.truncate(k);
    }
    b
}

pub fn record(groups: &str, seed: u64, n: usize, out: &str) {
    let cat = Cat::load(include_str!("../../../build/gen/serde.json"));
    let table = Table::new();
    let groups: Vec<&str> = groups.split(',').collect();
    let types: Vec<_> = cat.types.iter().filter(|t| groups.contains(&t.1.as_str())).collect();
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for s in 0..n {
        let mut r = Rng::new(seed, s as u64);
        let (id, _, ty) = if s < types.len() { types[s] } else { *r.pick(&types) };
        let row = table.get(id);
        let mut evs = vec![];
        for _ in 0..2 {
            let mut pool = vec![];
            let mut vs = vec![];
            for _ in 0..3 {
                let x = cat.datum(ty, &mut r, 3);
                let (e, v) = ser(row, &x);
                evs.push(e);
                if let Some(v) = v {
                    nodes(&v, &mut pool);
                    vs.push(v);
                }
            }
            for _ in 0..6 {
                let mut v = match r.below(8) {
                    0 => gen::value(&mut r, 2),
                    _ if vs.is_empty() => gen::value(&mut r, 2),
                    _ => r.pick(&vs).clone(),
                };
                if pool.is_empty() {
                    pool.push(v.clone());
                }
                for _ in 0..r.below(4) {
                    v = mutate(v, &mut r, &pool);
                }
                let mut e = obj! {"op" => J::s("des"), "ty" => J::s(row.id), "v" => val(&v)};
                doing(&e);
                e.set("r", outcome(call(|| (row.from_value)(v.clone())).0));
                evs.push(e);
                let mut b = vec![];
                let (soft, hard) = (r.chance(1, 2), r.chance(1, 4));
                gen::emit(&v, &mut r, gen::Dmg { rate: if soft || hard { 80 } else { 0 }, soft, hard }, &mut b);
                evs.push(slice(row, &b));
            }
        }
        // Only a type that takes anything shows where the limit is.
        if s % 8 == 0 {
            let row = table.get(cat.types.iter().find(|t| t.2.f("t").str() == "dyn").unwrap().0.as_str());
            for _ in 0..4 {
                evs.push(slice(row, &deep(&mut r)));
            }
        }
        let mut line = String::new();
        obj! {"evs" => J::Arr(evs)}.write(&mut line);
        writeln!(f, "{}", line).unwrap();
    }
}
