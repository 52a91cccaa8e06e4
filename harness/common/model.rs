
//! The projection between real values and the specification's values.
use super::json::J;
use oasis_cbor::{SimpleValue, Value};

pub fn digits(n: u128) -> J {
    bytes(&n.to_be_bytes()[n.leading_zeros() as usize / 8..])
}
pub fn bytes(b: &[u8]) -> J {
    J::Arr(b.iter().map(|x| J::Num(*x as i64)).collect())
}
pub fn to_bytes(j: &J) -> Vec<u8> {
    j.arr().iter().map(|x| x.num() as u8).collect()
}
pub fn to_nat(j: &J) -> u128 {
    j.arr().iter().fold(0u128, |a, x| (a << 8) | x.num() as u128)
}
/// Integers: [0, n] is n, [1, n] is -1-n.
pub fn int(i: i128) -> J {
    if i >= 0 {
        J::Arr(vec![J::Num(0), digits(i as u128)])
    } else {
        J::Arr(vec![J::Num(1), digits((-1 - i) as u128)])
    }
}
pub fn to_int(j: &J) -> i128 {
    let n = to_nat(&j.arr()[1]) as i128;
    if j.arr()[0].num() == 0 {
        n
    } else {
        -1 - n
    }
}

pub fn depth(v: &Value) -> usize {
    match v {
        Value::Array(a) => a.iter().map(|x| 1 + depth(x)).max().unwrap_or(0),
        Value::Map(m) => m.iter().map(|(k, v)| 1 + depth(k).max(depth(v))).max().unwrap_or(0),
        Value::Tag(_, v) => 1 + depth(v),
        _ => 0,
    }
}
/// Postfix tokens, for values too deep for nested JSON: [9, tokens].
fn flat(v: &Value, out: &mut Vec<J>) {
    let n = |t: i64, n: usize| J::Arr(vec![J::Num(10 + t), J::Num(n as i64)]);
    match v {
        Value::Array(a) => {
            a.iter().for_each(|x| flat(x, out));
            out.push(n(4, a.len()))
        }
        Value::Map(m) => {
            m.iter().for_each(|(k, v)| {
                flat(k, out);
                flat(v, out)
            });
            out.push(n(5, m.len()))
        }
        Value::Tag(t, v) => {
            flat(v, out);
            out.push(J::Arr(vec![J::Num(16), digits(*t as u128)]))
        }
        v => out.push(nested(v)),
    }
}
pub fn val(v: &Value) -> J {
    if depth(v) > 40 {
        let mut t = vec![];
        flat(v, &mut t);
        J::Arr(vec![J::Num(9), J::Arr(t)])
    } else {
        nested(v)
    }
}
fn nested(v: &Value) -> J {
    let t = J::Num(match v {
        Value::Unsigned(_) => 0,
        Value::Negative(_) => 1,
        Value::ByteString(_) => 2,
        Value::TextString(_) => 3,
        Value::Array(_) => 4,
        Value::Map(_) => 5,
        Value::Tag(..) => 6,
        Value::Simple(_) => 7,
    });
    let t = |x: Vec<J>| {
        let mut a = vec![t];
        a.extend(x);
        J::Arr(a)
    };
    match v {
        Value::Unsigned(n) => t(vec![digits(*n as u128)]),
        // Anything outside the range of CBOR shows up as more than eight digits.
        Value::Negative(n) if *n < 0 => t(vec![digits((-1 - *n) as u128)]),
        Value::Negative(_) => t(vec![bytes(&[1; 20])]),
        Value::ByteString(b) => t(vec![bytes(b)]),
        Value::TextString(s) => t(vec![bytes(s.as_bytes())]),
        Value::Array(a) => t(vec![J::Arr(a.iter().map(nested).collect())]),
        Value::Map(m) => t(vec![J::Arr(m.iter().map(|(k, v)| J::Arr(vec![nested(k), nested(v)])).collect())]),
        Value::Tag(n, v) => t(vec![digits(*n as u128), nested(v)]),
        Value::Simple(s) => t(vec![J::Num(match s {
            SimpleValue::FalseValue => 20,
            SimpleValue::TrueValue => 21,
            SimpleValue::NullValue => 22,
            SimpleValue::Undefined => 23,
        })]),
    }
}

pub fn to_val(j: &J) -> Value {
    let a = j.arr();
    match a[0].num() {
        0 => Value::Unsigned(to_nat(&a[1]) as u64),
        1 => Value::Negative(-1 - to_nat(&a[1]) as i128),
        2 => Value::ByteString(to_bytes(&a[1])),
        3 => Value::TextString(String::from_utf8(to_bytes(&a[1])).expect("HARNESS: text")),
        4 => Value::Array(a[1].arr().iter().map(to_val).collect()),
        5 => Value::Map(a[1].arr().iter().map(|p| (to_val(&p.arr()[0]), to_val(&p.arr()[1]))).collect()),
        6 => Value::Tag(to_nat(&a[1]) as u64, Box::new(to_val(&a[2]))),
        _ => Value::Simple(match a[1].num() {
            20 => SimpleValue::FalseValue,
            21 => SimpleValue::TrueValue,
            22 => SimpleValue::NullValue,
            _ => SimpleValue::Undefined,
        }),
    }
}

/// The value with the entries of all maps in an order that depends on the entries only.
pub fn unordered(v: Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.into_iter().map(unordered).collect()),
        Value::Map(m) => {
            let mut m: Vec<_> = m.into_iter().map(|(k, v)| (unordered(k), unordered(v))).collect();
            m.sort_by_cached_key(|(k, v)| (val(k).show(), val(v).show()));
            Value::Map(m)
        }
        Value::Tag(t, v) => Value::Tag(t, Box::new(unordered(*v))),
        v => v,
    }
}

/// A nesting limit: an integer, 1000000 for none.
pub const NO_LIMIT: i64 = 1_000_000;
pub fn lim(l: Option<i8>) -> J {
    J::Num(l.map_or(NO_LIMIT, |x| x as i64))
}
pub fn to_lim(j: &J) -> Option<i8> {
    match j.num() {
        NO_LIMIT => None,
        x => Some(x as i8),
    }
}
