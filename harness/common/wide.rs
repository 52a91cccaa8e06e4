//! Strings and containers of many elements, described by the specification WideMachine.
use super::json::J;
use super::model::to_bytes;
use oasis_cbor::{SimpleValue, Value};

/// Where the elements come.
fn place(n: usize, f: &str, i: usize) -> usize {
    match f {
        "swap" if i >= n - 2 => 2 * n - 3 - i,
        "swapmid" if i == n / 2 => i - 1,
        "swapmid" if i == n / 2 - 1 => i + 1,
        "rev" => n - 1 - i,
        "riffle" if i < (n + 1) / 2 => 2 * i,
        "riffle" => 2 * (i - (n + 1) / 2) + 1,
        "dup" if i == n - 1 => n - 2,
        "dupfar" if i == n - 1 => 0,
        _ => i,
    }
}
fn string(j: &J, n: usize, f: &str, succ: bool) -> Vec<u8> {
    let p = to_bytes(j.f("p"));
    let r = n % p.len();
    let mut s: Vec<u8> = (0..n).map(|i| if i < r { 97 } else { p[(i - r) % p.len()] }).collect();
    match f {
        "utf" => s[n - 1] = 255,
        "utfmid" => s[n / 2] = 255,
        _ => {}
    }
    if succ {
        s[n - 1] += 1;
    }
    s
}
fn uint(n: usize) -> Vec<u8> {
    match n {
        0..=23 => vec![n as u8],
        24..=255 => vec![24, n as u8],
        256..=65535 => vec![25, (n >> 8) as u8, n as u8],
        _ => vec![26, (n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8],
    }
}

fn item(j: &J, head: &str, n: usize, f: &str, succ: bool) -> Vec<u8> {
    let mut b = to_bytes(j.f(head));
    match j.f("k").num() {
        2 | 3 => b.extend(string(j, n, f, succ)),
        4 => (0..n).for_each(|i| b.extend(uint(i + (succ && i == n - 1) as usize))),
        _ => (0..n).for_each(|i| {
            b.extend(uint(place(n, f, i)));
            b.push((succ && i == n - 1) as u8)
        }),
    }
    b
}
fn wrapped(w: i64, x: Vec<u8>, y: impl Fn() -> Vec<u8>) -> Vec<u8> {
    let zero = vec![0];
    match w {
        0 => x,
        1 => [vec![130], x, zero].concat(),
        2 => [vec![161], x, zero].concat(),
        3 => [vec![161, 0], x].concat(),
        4 => [vec![193], x].concat(),
        5 => [vec![162], x, zero.clone(), y(), zero].concat(),
        6 => [vec![162], y(), zero.clone(), x, zero].concat(),
        _ => [vec![162], x.clone(), zero.clone(), x, zero].concat(),
    }
}
/// The bytes to decode.
pub fn expand(j: &J) -> Vec<u8> {
    let (n, f) = (j.f("n").num() as usize, j.f("f").str());
    wrapped(j.f("w").num(), item(j, "head", n, f, false), || item(j, "head", n, f, true))
}
/// The canonical bytes for as many elements as are announced.
pub fn canonical(j: &J) -> Vec<u8> {
    let m = j.f("m").num() as usize;
    let w = j.f("w").num();
    wrapped(if w == 6 { 5 } else { w }, item(j, "canon", m, "", false), || item(j, "canon", m, "", true))
}
/// The value, with its entries as they come.
#[allow(dead_code)]
pub fn value(j: &J) -> Value {
    let (n, m, f) = (j.f("n").num() as usize, j.f("m").num() as usize, j.f("f").str());
    let v = |succ: bool| match j.f("k").num() {
        2 => Value::ByteString(string(j, n, "", succ)[..m].to_vec()),
        // (No value at all if the last character is cut.)
        3 => match String::from_utf8(string(j, n, "", succ)[..m].to_vec()) {
            Ok(s) => Value::TextString(s),
            Err(_) => Value::Simple(SimpleValue::Undefined),
        },
        4 => Value::Array((0..m).map(|i| Value::Unsigned((i + (succ && i == n - 1) as usize) as u64)).collect()),
        _ => Value::Map(
            (0..m).map(|i| (Value::Unsigned(place(n, f, i) as u64), Value::Unsigned((succ && i == n - 1) as u64))).collect(),
        ),
    };
    let zero = || Value::Unsigned(0);
    match j.f("w").num() {
        0 => v(false),
        1 => Value::Array(vec![v(false), zero()]),
        2 => Value::Map(vec![(v(false), zero())]),
        3 => Value::Map(vec![(zero(), v(false))]),
        4 => Value::Tag(1, Box::new(v(false))),
        5 => Value::Map(vec![(v(false), zero()), (v(true), zero())]),
        6 => Value::Map(vec![(v(true), zero()), (v(false), zero())]),
        _ => Value::Map(vec![(v(false), zero()), (v(false), zero())]),
    }
}
/// The value, alone, and its successor, and one that has another element, but lesser ones.
#[allow(dead_code)]
pub fn ordered(j: &J) -> Vec<Value> {
    let n = j.f("n").num() as usize;
    let longer = match j.f("k").num() {
        2 => Value::ByteString(vec![0; n + 1]),
        3 => Value::TextString(String::from_utf8(vec![0; n + 1]).unwrap()),
        4 => Value::Array(vec![Value::Unsigned(0); n + 1]),
        _ => Value::Map((0..=n).map(|i| (Value::Unsigned(i as u64), Value::Unsigned(0))).collect()),
    };
    let mut j = j.clone();
    let x = value(&j);
    if n == 0 {
        return vec![x, longer];
    }
    j.set("w", J::Num(5));
    match value(&j) {
        Value::Map(mut m) => vec![x, m.remove(1).0, longer],
        _ => unreachable!(),
    }
}
/// Values are compared by what they are, without relying on their own comparison.
#[allow(dead_code)]
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Unsigned(a), Value::Unsigned(b)) => a == b,
        (Value::ByteString(a), Value::ByteString(b)) => a == b,
        (Value::TextString(a), Value::TextString(b)) => a == b,
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (Value::Map(a), Value::Map(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(&a.0, &b.0) && same(&a.1, &b.1))
        }
        (Value::Tag(a, x), Value::Tag(b, y)) => a == b && same(x, y),
        _ => false,
    }
}
