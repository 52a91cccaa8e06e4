//! Random data of the types of a catalogue, and random changes to values.
use super::gen;
use super::json::{self, J};
use super::model::*;
use super::rng::Rng;
use oasis_cbor::Value;

fn untagged(v: Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.into_iter().map(untagged).collect()),
        Value::Map(m) => Value::Map(m.into_iter().map(|(k, v)| (untagged(k), untagged(v))).collect()),
        Value::Tag(_, v) => untagged(*v),
        v => v,
    }
}

pub struct Cat {
    pub defs: std::collections::HashMap<String, J>,
    /// Name, group and type.
    pub types: Vec<(String, String, J)>,
}

impl Cat {
    /// From a catalogue's JSON.
    pub fn load(text: &str) -> Cat {
        let j = json::parse(text);
        let defs = match j.f("defs") {
            J::Obj(o) => o.iter().cloned().collect(),
            _ => panic!("HARNESS: defs"),
        };
        let s = |j: &J, k: &str| j.f(k).str().to_string();
        let types = j.f("types").arr().iter().map(|t| (s(t, "id"), s(t, "g"), t.f("ty").clone())).collect();
        Cat { defs, types }
    }

    fn field(&self, d: &J, f: &J, r: &mut Rng, depth: usize) -> J {
        let ty = if f.f("ty").f("t").str() == "par" { d.f("par") } else { f.f("ty") };
        if f.f("ser").str() == "conv::succ" {
            return int(r.below(256) as i128);
        }
        self.datum(ty, r, depth)
    }

    /// A datum of a skipped or embedded variant.
    pub fn stray(&self, ty: &J, x: &J) -> bool {
        if ty.f("t").str() != "ref" || self.defs[ty.f("n").str()].f("kind").str() != "enum" {
            return false;
        }
        self.defs[ty.f("n").str()]
            .f("variants")
            .arr()
            .iter()
            .any(|v| v.f("n").str() == x.arr()[0].str() && (v.f("skip").bool() || v.f("embed").bool()))
    }

    /// A random datum of a type.
    pub fn datum(&self, ty: &J, r: &mut Rng, depth: usize) -> J {
        let d = depth.saturating_sub(1);
        let flat = |e: &J| matches!(e.f("t").str(), "u" | "i" | "bool" | "char" | "unit" | "u128");
        let count = |e: &J, r: &mut Rng| match depth {
            0 => r.below(2),
            2.. if flat(e) && r.chance(1, 40) => *r.pick(&[31, 32, 33, 64, 100, 128, 255, 256, 257, 300]),
            _ => gen::len(r, 5),
        };
        match ty.f("t").str() {
            "u" => {
                let bits = 8 * ty.f("w").num() as u32;
                int((r.u64ish() >> (if r.chance(1, 2) { 64 - bits } else { 0 }) & (u64::MAX >> (64 - bits))) as i128)
            }
            "i" => {
                let bits = 8 * (ty.f("w").num() as u32).min(8);
                let m = ((r.u64ish() >> (if r.chance(1, 2) { 64 - bits } else { 0 })) & (u64::MAX >> (65 - bits))) as i128;
                int(if r.chance(1, 2) { m } else { -1 - m })
            }
            "u128" => digits(match r.below(4) {
                0 => r.below(300) as u128,
                1 => r.u64ish() as u128,
                2 => (r.u64ish() as u128) << r.below(65),
                _ => ((r.next() as u128) << 64 | r.next() as u128) >> r.below(128),
            }),
            "bool" => J::Num(r.below(2) as i64),
            "str" | "human" => bytes(gen::text(r).as_bytes()),
            "char" => {
                let c = loop {
                    let n = match r.below(3) {
                        0 => r.below(128) as u32,
                        1 => *r.pick(&[0xd7ff, 0xe000, 0x10ffff, 0x10000, 0xffff, 0x7ff, 0x800]),
                        _ => r.below(0x110000) as u32,
                    };
                    if let Some(c) = char::from_u32(n) {
                        break c;
                    }
                };
                digits(c as u128)
            }
            "bytes" | "bbuf" => bytes(&gen::blob(r)),
            "f" => J::Arr(vec![]),
            "dyn" => val(&untagged(gen::value(r, 2))),
            "pairs" => J::Arr((0..count(ty.f("k"), r)).map(|_| J::Arr(vec![self.datum(ty.f("k"), r, d), self.datum(ty.f("v"), r, d)])).collect()),
            "barr" => bytes(&(0..ty.f("n").num()).map(|_| r.next() as u8).collect::<Vec<_>>()),
            "bor" => self.datum(ty.f("e"), r, depth),
            "unit" => J::Arr(vec![]),
            "value" => val(&gen::value(r, 2)),
            "vec" => J::Arr((0..count(ty.f("e"), r)).map(|_| self.datum(ty.f("e"), r, d)).collect()),
            "arr" => J::Arr((0..ty.f("n").num()).map(|_| self.datum(ty.f("e"), r, d)).collect()),
            "bset" | "hset" => {
                let mut v: Vec<J> = vec![];
                for _ in 0..count(ty.f("e"), r) {
                    let x = self.datum(ty.f("e"), r, d);
                    if !v.contains(&x) {
                        v.push(x);
                    }
                }
                J::Arr(v)
            }
            "tup" => J::Arr(ty.f("es").arr().iter().map(|t| self.datum(t, r, d)).collect()),
            "opt" => J::Arr(if r.chance(1, 3) { vec![] } else { vec![self.datum(ty.f("e"), r, d)] }),
            "bmap" | "hmap" => {
                let mut v: Vec<J> = vec![];
                for _ in 0..count(ty.f("k"), r) {
                    let k = self.datum(ty.f("k"), r, d);
                    if !v.iter().any(|p| p.arr()[0] == k) {
                        v.push(J::Arr(vec![k, self.datum(ty.f("v"), r, d)]));
                    }
                }
                J::Arr(v)
            }
            "ref" => {
                let def = &self.defs[ty.f("n").str()];
                if def.f("kind").str() == "struct" {
                    J::Arr(def.f("fields").arr().iter().map(|f| self.field(def, f, r, d)).collect())
                } else {
                    let v = r.pick(def.f("variants").arr());
                    J::Arr(vec![
                        v.f("n").clone(),
                        J::Arr(v.f("fields").arr().iter().map(|f| self.field(def, f, r, d)).collect()),
                    ])
                }
            }
            t => panic!("HARNESS: type {}", t),
        }
    }
}

pub fn nodes(v: &Value, out: &mut Vec<Value>) {
    out.push(v.clone());
    match v {
        Value::Array(a) => a.iter().for_each(|x| nodes(x, out)),
        Value::Map(m) => m.iter().for_each(|(k, x)| {
            nodes(k, out);
            nodes(x, out)
        }),
        Value::Tag(_, x) => nodes(x, out),
        _ => {}
    }
}

/// Change something somewhere.
pub fn mutate(v: Value, r: &mut Rng, pool: &[Value]) -> Value {
    fn other(r: &mut Rng, pool: &[Value]) -> Value {
        match r.below(5) {
            0 => gen::value(r, 1),
            1 => gen::simple(r),
            _ => r.pick(pool).clone(),
        }
    }
    match v {
        Value::Array(mut a) if !a.is_empty() && r.chance(4, 5) => {
            let i = r.below(a.len());
            match r.below(8) {
                0 => drop(a.remove(i)),
                1 => a.push(other(r, pool)),
                2 => a.insert(i, other(r, pool)),
                3 => {
                    let j = r.below(a.len());
                    a.swap(i, j)
                }
                4 => a.truncate(i),
                _ => a[i] = mutate(a[i].clone(), r, pool),
            }
            Value::Array(a)
        }
        Value::Map(mut m) if !m.is_empty() && r.chance(7, 8) => {
            let i = r.below(m.len());
            match r.below(9) {
                0 => drop(m.remove(i)),
                1 => m.push((other(r, pool), other(r, pool))),
                2 => m.insert(i, (other(r, pool), other(r, pool))),
                3 => {
                    let j = r.below(m.len());
                    m.swap(i, j)
                }
                4 => m[i].0 = other(r, pool),
                _ => m[i].1 = mutate(m[i].1.clone(), r, pool),
            }
            Value::Map(m)
        }
        Value::Unsigned(n) if r.chance(1, 3) => Value::Unsigned(n.wrapping_add(r.below(3) as u64).wrapping_sub(1)),
        _ => other(r, pool),
    }
}
