
//! Seeded generators of values and byte strings.  Nothing here is trusted: every produced input is
//! logged with what the library did, and judged by the specification.
use super::rng::Rng;
use oasis_cbor::{SimpleValue, Value};

pub const TEXTS: &[&str] = &[
    "", "a", "b", "aa", "ab", "b\u{0}", "\u{7f}", "\u{80}", "ü", "水", "𐅑", "\u{7ff}", "\u{800}", "\u{d7ff}", "\u{e000}",
    "\u{ffff}", "\u{10000}", "\u{10ffff}", "key", "abcdefghijklmnopqrstuvw", "abcdefghijklmnopqrstuvwx",
];

pub fn text(r: &mut Rng) -> String {
    match r.below(8) {
        0..=3 => r.pick(TEXTS).to_string(),
        4 => "x".repeat(*r.pick(&[22, 23, 24, 25, 255, 256, 257])),
        5 => {
            let n = r.below(5);
            (0..n).map(|_| *r.pick(&['a', 'b', 'z', 'é', '水', '𐅑', '\u{0}'])).collect()
        }
        _ => {
            let n = r.below(30);
            (0..n).map(|_| (97 + r.below(26)) as u8 as char).collect()
        }
    }
}
pub fn blob(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        0 => *r.pick(&[22, 23, 24, 25, 255, 256, 257]),
        1 => 16 + r.below(3) - 1,
        _ => r.below(5),
    };
    (0..n).map(|_| *r.pick(&[0u8, 1, 0x17, 0x18, 0x7f, 0x80, 0xff, 0x61])).collect()
}
pub fn tag(r: &mut Rng) -> u64 {
    if r.chance(1, 2) {
        *r.pick(&[0, 1, 2, 3, 4, 5, 21, 22, 23, 24, 30, 32, 37, 42, 100, 256, 258, 259, 1001, 55799, 65535, 65536])
    } else {
        r.u64ish()
    }
}
pub fn simple(r: &mut Rng) -> Value {
    Value::Simple(
        r.pick(&[SimpleValue::FalseValue, SimpleValue::TrueValue, SimpleValue::NullValue, SimpleValue::Undefined])
            .clone(),
    )
}
pub fn leaf(r: &mut Rng) -> Value {
    match r.below(12) {
        0..=3 => Value::Unsigned(r.u64ish()),
        4..=5 => Value::Negative(-1 - r.u64ish() as i128),
        6..=7 => Value::ByteString(blob(r)),
        8..=9 => Value::TextString(text(r)),
        _ => simple(r),
    }
}
/// Keys: from a small pool, so that neighbours, prefixes and duplicates are common.
pub fn key(r: &mut Rng, d: usize) -> Value {
    match r.below(14) {
        0..=2 => Value::Unsigned(*r.pick(&[0, 1, 2, 10, 23, 24, 25, 100, 255, 256, 65535, 65536, u64::MAX])),
        3 => Value::Negative(-1 - *r.pick(&[0, 1, 22, 23, 24, 25, 255, 256, 65536, u64::MAX]) as i128),
        4..=6 => Value::TextString(r.pick(&["", "a", "b", "c", "aa", "ab", "ba", "aaa", "key", "z", "é"]).to_string()),
        7 => Value::ByteString(r.pick(&[&b""[..], b"a", b"\0", b"\xff", b"ab", b"b"]).to_vec()),
        8 => simple(r),
        9..=11 if d > 0 => container(r, d - 1, 3),
        _ => leaf(r),
    }
}
pub fn len(r: &mut Rng, small: usize) -> usize {
    match r.below(60) {
        0 => *r.pick(&[22, 23, 24, 25, 26]),
        _ => r.below(small + 1),
    }
}
pub fn container(r: &mut Rng, d: usize, small: usize) -> Value {
    match r.below(7) {
        0..=1 => Value::Array((0..len(r, small)).map(|_| value(r, d)).collect()),
        2 => {
            // A run of similar items.
            let x = leaf(r);
            Value::Array((0..len(r, small)).map(|_| x.clone()).collect())
        }
        3..=5 => {
            let dup = r.chance(1, 8);
            let mut m: Vec<(Value, Value)> = vec![];
            for _ in 0..len(r, small) {
                let k = key(r, d);
                if dup || !m.iter().any(|x| crate::model::val(&x.0) == crate::model::val(&k)) {
                    m.push((k, value(r, d.saturating_sub(1))));
                }
            }
            Value::Map(m)
        }
        _ => Value::Tag(tag(r), Box::new(value(r, d.saturating_sub(1)))),
    }
}
pub fn value(r: &mut Rng, d: usize) -> Value {
    if d > 0 && r.chance(1, 2) {
        container(r, d - 1, 4)
    } else {
        leaf(r)
    }
}
/// A chain of exactly `depth` levels through all kinds of child positions.
pub fn chain(r: &mut Rng, depth: usize, kind: Option<usize>) -> Value {
    let mut v = match r.below(5) {
        0 => Value::Array(vec![]),
        1 => Value::Map(vec![]),
        _ => leaf(r),
    };
    for i in 0..depth {
        let k = kind.unwrap_or_else(|| r.below(7));
        v = match k {
            0 => Value::Array(vec![v]),
            1 => Value::Map(vec![(Value::Unsigned(i as u64 % 30), v)]),
            2 => Value::Map(vec![(v, Value::Unsigned(1))]),
            3 => Value::Tag(tag(r), Box::new(v)),
            4 => Value::Array(vec![Value::Unsigned(7), v]),
            5 => Value::Array(vec![v, Value::Array(vec![])]),
            _ => Value::Map(vec![(Value::Unsigned(3), Value::Map(vec![])), (Value::TextString("t".into()), v)]),
        };
    }
    v
}

/// How to damage an encoding on the way out.
#[derive(Clone, Copy)]
pub struct Dmg {
    /// Chance (out of 1000) of damage at each item.
    pub rate: usize,
    /// Allow damage that non-strict decoding tolerates / that nothing tolerates.
    pub soft: bool,
    pub hard: bool,
}
pub fn head(major: u8, n: u64, wide: u8, out: &mut Vec<u8>) {
    let min: u8 = match n {
        0..=23 => 0,
        24..=0xff => 1,
        0x100..=0xffff => 2,
        0x10000..=0xffff_ffff => 4,
        _ => 8,
    };
    let w = min.max(wide);
    match w {
        0 => out.push(major << 5 | n as u8),
        1 => out.extend([major << 5 | 24, n as u8]),
        2 => {
            out.push(major << 5 | 25);
            out.extend((n as u16).to_be_bytes())
        }
        3..=4 => {
            out.push(major << 5 | 26);
            out.extend((n as u32).to_be_bytes())
        }
        _ => {
            out.push(major << 5 | 27);
            out.extend(n.to_be_bytes())
        }
    }
}
pub fn emit(v: &Value, r: &mut Rng, g: Dmg, out: &mut Vec<u8>) {
    let hit = r.below(1000) < g.rate;
    let kind = r.below(12);
    let mut wide = 0;
    let mut lie = 0i64;
    if hit {
        match kind {
            0..=3 if g.soft => wide = *r.pick(&[1u8, 2, 4, 8]),
            4 if g.soft => {
                // A float or an unknown simple value instead.
                match r.below(5) {
                    0 => out.extend([0xe0 + r.below(20) as u8]),
                    1 => out.extend([0xf8, *r.pick(&[0u8, 19, 20, 21, 22, 23, 24, 31, 32, 255])]),
                    2 => out.extend([0xf9, *r.pick(&[0u8, 0, 0x3c, 0xff]), *r.pick(&[0u8, 20, 21, 22, 23, 24])]),
                    3 => out.extend([0xfa, 0, 0, 0, *r.pick(&[0u8, 20, 21, 22, 23])]),
                    _ => out.extend([0xfb, 0, 0, 0, 0, 0, 0, 0, *r.pick(&[0u8, 20, 21, 22, 23, 64])]),
                }
                return;
            }
            5 if g.hard => {
                out.push((r.below(8) as u8) << 5 | *r.pick(&[28u8, 29, 30, 31]));
                return;
            }
            6 if g.hard => lie = *r.pick(&[-1i64, 1, 2, 1000, i64::MAX]),
            7 if g.hard => {
                // Text that is not UTF-8.
                let bad: &[&[u8]] = &[
                    b"\xff", b"\x80", b"\xc0\x80", b"\xc1\xbf", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x8f\xbf\xbf",
                    b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xc3", b"\xe6\xb0", b"a\xe6\xb0", b"\xf0\x90\x85", b"\xf8\x88\x80\x80\x80",
                ];
                let b = *r.pick(bad);
                head(3, b.len() as u64, 0, out);
                out.extend(b);
                return;
            }
            _ => {}
        }
    }
    let lied = |n: usize| if lie == i64::MAX { u64::MAX } else { (n as i64 + lie).max(0) as u64 };
    match v {
        Value::Unsigned(n) => head(0, *n, wide, out),
        Value::Negative(n) => head(1, (-1 - *n) as u64, wide, out),
        Value::ByteString(b) => {
            head(2, lied(b.len()), wide, out);
            out.extend(b)
        }
        Value::TextString(s) => {
            head(3, lied(s.len()), wide, out);
            out.extend(s.as_bytes())
        }
        Value::Array(a) => {
            head(4, lied(a.len()), wide, out);
            a.iter().for_each(|x| emit(x, r, g, out))
        }
        Value::Map(m) => {
            let mut es: Vec<(Vec<u8>, &Value, &Value)> = m
                .iter()
                .map(|(k, v)| {
                    let mut b = vec![];
                    emit(k, r, Dmg { rate: 0, soft: false, hard: false }, &mut b);
                    (b, k, v)
                })
                .collect();
            es.sort_by(|x, y| x.0.cmp(&y.0));
            es.dedup_by(|x, y| x.0 == y.0);
            if hit && g.soft && es.len() > 1 && kind >= 7 {
                let i = r.below(es.len());
                let j = r.below(es.len());
                match kind {
                    7..=9 => es.swap(i, j),
                    10 => {
                        let e = es[i].clone();
                        es.insert(j, e)
                    }
                    _ => es[j] = es[i].clone(),
                }
            }
            head(5, lied(es.len()), wide, out);
            for (b, k, v) in es {
                if g.rate == 0 {
                    out.extend(b);
                } else {
                    emit(k, r, g, out);
                }
                emit(v, r, g, out);
            }
        }
        Value::Tag(t, v) => {
            head(6, *t, wide, out);
            emit(v, r, g, out)
        }
        Value::Simple(s) => {
            let n = match s {
                SimpleValue::FalseValue => 20,
                SimpleValue::TrueValue => 21,
                SimpleValue::NullValue => 22,
                SimpleValue::Undefined => 23,
            };
            head(7, n, if hit && kind < 3 && g.soft { 1 } else { 0 }, out)
        }
    }
}
pub fn canonical(v: &Value, r: &mut Rng) -> Vec<u8> {
    let mut b = vec![];
    emit(v, r, Dmg { rate: 0, soft: false, hard: false }, &mut b);
    b
}
/// A byte string: canonical, damaged, truncated, extended, flipped or random.
pub fn bytes(r: &mut Rng, soft: bool, hard: bool) -> Vec<u8> {
    let v = value(r, 4);
    let rate = *r.pick(&[0, 0, 30, 120, 300]);
    let mut b = vec![];
    emit(&v, r, Dmg { rate, soft, hard }, &mut b);
    if hard {
        match r.below(16) {
            0 => {
                let n = r.below(b.len() + 1);
                b.truncate(n)
            }
            1 => b.extend(blob(r)),
            2 => b.push(*r.pick(&[0u8, 0xff, 0xf6])),
            3 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8)
            }
            4 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] = r.next() as u8
            }
            5 => {
                let n = r.below(12);
                b = (0..n).map(|_| r.next() as u8).collect()
            }
            6 if !b.is_empty() => {
                let i = r.below(b.len());
                b.remove(i);
            }
            _ => {}
        }
    } else if soft && r.chance(1, 8) {
        b.extend(blob(r));
    }
    b
}
