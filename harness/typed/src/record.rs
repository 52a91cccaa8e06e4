//! Random sessions with the typed API: data of every type of the catalogue, edited encodings, and
//! bytes.
use crate::cat::{mutate, nodes, Cat};
use crate::gen;
use crate::guard::{call, doing};
use crate::json::J;
use crate::model::*;
use crate::ops::{outcome, Table};
use crate::rng::Rng;
use crate::table::Row;
use oasis_cbor::Value;
use std::io::Write;

fn enc(row: &Row, x: &J, stray: bool) -> (J, Option<Value>) {
    let mut e = obj! {"op" => J::s("enc"), "ty" => J::s(row.id), "x" => x.clone()};
    doing(&e);
    let v = call(|| (row.value)(x)).0.ok();
    e.set("v", v.as_ref().map_or(J::Arr(vec![]), val));
    let o = call(|| (row.optional)(x)).0;
    e.set(
        "o",
        match &o {
            Err(()) => J::s("panic"),
            Ok(None) => J::Arr(vec![]),
            Ok(Some(v)) => J::Arr(vec![val(v)]),
        },
    );
    // Entries with equal keys cannot be encoded, which to_vec does not report.
    let mut w = vec![];
    let b = match &v {
        Some(v) if oasis_cbor::writer::write(v.clone(), &mut w).is_ok() => call(|| (row.bytes)(x)).0.map_or(J::s("panic"), |b| bytes(&b)),
        Some(_) => J::s("dup"),
        None => J::s("panic"),
    };
    if let (Some(d), J::Arr(b)) = (&row.dec, &b) {
        let b: Vec<u8> = b.iter().map(|x| x.num() as u8).collect();
        e.set("rt", outcome(call(|| (d.slice)(&b)).0));
    }
    e.set("b", b);
    // Variants without a map of their own are left to the replayed tests (see known-findings.txt).
    if row.marked && !stray {
        e.set(
            "m",
            match call(|| (row.map)(x)).0 {
                Err(()) => J::s("panic"),
                Ok(None) => J::Arr(vec![]),
                Ok(Some((m, entries))) => J::Arr(vec![val(&m), val(&Value::Map(entries))]),
            },
        );
    }
    (e, v)
}

pub fn record(catalogue: &str, groups: &str, seed: u64, n: usize, out: &str) {
    let cat = Cat::load(catalogue);
    let table = Table::new();
    let groups: Vec<&str> = groups.split(',').collect();
    let types: Vec<_> = cat.types.iter().filter(|t| groups.contains(&t.1.as_str())).collect();
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for s in 0..n {
        let mut r = Rng::new(seed, s as u64);
        let (id, _, ty) = if s < types.len() { types[s] } else { *r.pick(&types) };
        let row = match table.get(id) {
            Some(row) => row,
            None => continue,
        };
        let mut evs = vec![];
        for _ in 0..2 {
            let mut pool = vec![];
            let mut vs = vec![];
            for _ in 0..3 {
                let x = cat.datum(ty, &mut r, 3);
                let (e, v) = enc(row, &x, cat.stray(ty, &x));
                evs.push(e);
                if let Some(v) = v {
                    nodes(&v, &mut pool);
                    vs.push(v);
                }
            }
            if let Some(d) = &row.dec {
                for _ in 0..6 {
                    let mut v = match r.below(8) {
                        0 => gen::value(&mut r, 2),
                        _ if vs.is_empty() => gen::value(&mut r, 2),
                        _ => r.pick(&vs).clone(),
                    };
                    if pool.is_empty() {
                        pool.push(v.clone());
                    }
                    for _ in 0..r.below(4) {
                        v = mutate(v, &mut r, &pool);
                    }
                    let mut e = obj! {"op" => J::s("dec"), "ty" => J::s(row.id), "v" => val(&v)};
                    doing(&e);
                    e.set("r", outcome(call(|| (d.from_value)(v.clone())).0));
                    e.set("r2", outcome(call(|| (d.element)(v.clone())).0));
                    evs.push(e);
                    let mut b = vec![];
                    let (soft, hard) = (r.chance(1, 2), r.chance(1, 4));
                    gen::emit(&v, &mut r, gen::Dmg { rate: if soft || hard { 80 } else { 0 }, soft, hard }, &mut b);
                    let mut e = obj! {"op" => J::s("slice"), "ty" => J::s(row.id), "b" => bytes(&b)};
                    doing(&e);
                    e.set("rs", outcome(call(|| (d.slice)(&b)).0));
                    e.set("rl", outcome(call(|| (d.lenient)(&b)).0));
                    evs.push(e);
                }
            }
        }
        let mut line = String::new();
        obj! {"evs" => J::Arr(evs)}.write(&mut line);
        writeln!(f, "{}", line).unwrap();
    }
}
