use crate::guard::call;
use crate::json::J;
use crate::model::*;
use crate::table::*;
use std::collections::HashMap;

pub struct Table(HashMap<&'static str, Row>);
impl Table {
    pub fn new() -> Table {
        Table(crate::types::table().into_iter().map(|r| (r.id, r)).collect())
    }
    pub fn get(&self, id: &str) -> &Row {
        &self.0[id]
    }
}

/// Only P28 tells the kinds of errors apart.
pub fn outcome(r: Result<Outcome<J>, ()>) -> J {
    match r {
        Ok(Ok(x)) => obj! {"k" => J::s("ok"), "x" => x},
        Ok(Err(e)) => obj! {"k" => J::s("err"), "e" => J::s(&e)},
        Err(()) => obj! {"k" => J::s("panic")},
    }
}
pub fn admits(row: &Row, want: &J, got: &J) -> bool {
    match (want.f("k").str(), got.f("k").str()) {
        (_, "panic") => false,
        ("any", _) => true,
        ("ok", "ok") => (row.model)(want.f("x")) == *got.f("x"),
        (w, g) => w == g && g == "err",
    }
}

/// The error is of a kind the specification admits.
pub fn why(want: &J, got: &J) -> bool {
    want.f("k").str() != "err" || (got.f("k").str() == "err" && want.f("es").arr().iter().any(|e| e.str() == got.f("e").str()))
}

fn checks(list: Vec<(&str, bool, J)>) -> Option<J> {
    let bad: Vec<J> = list
        .into_iter()
        .filter(|(_, ok, _)| !ok)
        .map(|(n, _, got)| obj! {"wrong" => J::s(n), "got" => got})
        .collect();
    if bad.is_empty() {
        None
    } else {
        Some(J::Arr(bad))
    }
}

pub fn replay(t: &Table, prop: &str, j: &J) -> (String, Option<J>) {
    if j.f("op").str() == "deep" {
        let b = crate::deep::expand(j);
        let strict = j.f("strict").str();
        let mut list = vec![];
        for row in t.0.values() {
            let o = outcome(call(|| (row.slice)(&b)).0);
            let ok = o.f("k").str() != "panic" && (strict == "" || o.f("k").str() == "err");
            list.push((row.id, ok && (prop != "P28" || bytes_blamed(strict, &o)), o));
        }
        return (format!("deep {}", strict), checks(list));
    }
    if j.f("op").str() == "wide" {
        return wide(prop, j);
    }
    if j.f("op").str() == "read" {
        return read(t, j);
    }
    let row = t.get(j.f("ty").str());
    let kind = format!("{} {} {}", j.f("op").str(), row.group, j.f("r").f("k").str());
    let got = match j.f("op").str() {
        "ser" => ser(row, prop, j),
        "des" => des(row, prop, j),
        op => panic!("HARNESS: op {}", op),
    };
    (kind, got)
}

/// An error of the bytes is told exactly as the specification of the decoder has it.
fn bytes_blamed(e: &str, o: &J) -> bool {
    match o.f("k").str() {
        "err" => (e != "" && o.f("e").str() == format!("byte:{}", e)) || (e == "" && !o.f("e").str().starts_with("byte:")),
        _ => e == "",
    }
}
/// Behaviours of the decoder's machine, for a few types.
fn read(t: &Table, j: &J) -> (String, Option<J>) {
    if j.f("s").show() != "true" || j.f("l").show() != "64" {
        return ("read, another mode".into(), None);
    }
    let b = to_bytes(j.f("b"));
    let mut list = vec![];
    for row in t.0.values().filter(|r| r.group == "sprim") {
        let o = outcome(call(|| (row.slice)(&b)).0);
        list.push((row.id, bytes_blamed(j.f("e").str(), &o), o));
    }
    (format!("read {}", j.f("e").str()), checks(list))
}

fn ser(row: &Row, prop: &str, j: &J) -> Option<J> {
    let x = j.f("x");
    let value = call(|| (row.value)(x)).0;
    let bytes = call(|| (row.bytes)(x)).0;
    let mut list = vec![];
    if prop == "P28" {
        let o = outcome(value.clone().map(|r| r.map(|v| val(&v))));
        list.push(("to_value", why(j.f("r"), &o), o));
        let o = outcome(bytes.clone().map(|r| r.map(|b| self::bytes(&b))));
        list.push(("to_vec", why(j.f("b"), &o), o));
    } else if prop != "P20" {
        let (r, b) = (j.f("r"), j.f("b"));
        // Values are compared up to the order of map entries, which only the bytes fix.
        let o = outcome(value.clone().map(|r| r.map(|v| val(&unordered(v)))));
        let ok = match r.f("k").str() {
            "ok" => o.f("k").str() == "ok" && *o.f("x") == val(&unordered(to_val(r.f("x")))),
            _ => o.f("k").str() == "err",
        };
        list.push(("to_value", ok, o));
        let o = outcome(bytes.clone().map(|r| r.map(|b| self::bytes(&b))));
        let ok = match b.f("k").str() {
            "ok" => o == *b,
            _ => o.f("k").str() == "err",
        };
        list.push(("to_vec", ok, o));
    }
    if prop == "P20" || prop == "P29" {
        if let Ok(Ok(v)) = value {
            let o = outcome(call(|| (row.from_value)(v)).0);
            let same = !j.f("lossless").bool() || (o.f("k").str() == "ok" && *o.f("x") == (row.model)(x));
            list.push(("from_value of to_value", same && admits(row, j.f("back"), &o), o));
        }
        if let Ok(Ok(b)) = bytes {
            let o = outcome(call(|| (row.slice)(&b)).0);
            let same = !j.f("lossless").bool() || j.f("deep").bool() || (o.f("k").str() == "ok" && *o.f("x") == (row.model)(x));
            list.push(("from_slice of to_vec", same && admits(row, j.f("backb"), &o), o));
        }
    }
    checks(list)
}

fn des(row: &Row, prop: &str, j: &J) -> Option<J> {
    let v = to_val(j.f("v"));
    let (r, rb) = (j.f("r"), j.f("rb"));
    let ok = |w: &J, o: &J| match prop {
        "P06" => o.f("k").str() != "panic",
        "P28" => why(w, o),
        _ => admits(row, w, o),
    };
    // What nests too deep is refused before its end is seen.
    let deep = rb.f("k").str() == "err" && rb.f("es").arr().iter().any(|e| e.str().starts_with("byte:"));
    let cut = |e: &str, o: &J| o.f("k").str() == "err" && (prop != "P28" || deep || bytes_blamed(e, o));
    let mut list = vec![];
    let o = outcome(call(|| (row.from_value)(v.clone())).0);
    list.push(("from_value", ok(r, &o), o));
    let mut b = vec![];
    if oasis_cbor::writer::write(v, &mut b).is_ok() {
        let o = outcome(call(|| (row.slice)(&b)).0);
        list.push(("from_slice", ok(rb, &o), o));
        let o = outcome(call(|| (row.slice)(&b[..b.len() - 1])).0);
        list.push(("from_slice, truncated", cut("IncompleteCborData", &o), o));
        b.push(0);
        let o = outcome(call(|| (row.slice)(&b)).0);
        list.push(("from_slice, one byte too many", cut("ExtraneousData", &o), o));
    }
    checks(list)
}

/// Items of many elements, for the types they are made for.
fn wide(prop: &str, j: &J) -> (String, Option<J>) {
    use oasis_cbor::serde::{from_slice, from_value, to_value, to_vec};
    use std::collections::{BTreeMap, BTreeSet};
    let b = crate::wide::expand(j);
    let canon = crate::wide::canonical(j);
    let repeated = j.f("refusal").str() != "";
    let want = j.f("strict").str();
    let mut list: Vec<(&'static str, bool, J)> = vec![];
    macro_rules! check {
        ($ty:ty) => {
            let r = call(|| from_slice::<$ty>(&b)).0;
            let fine = match &r {
                Err(()) => false,
                _ if prop == "P06" => true,
                Ok(Err(e)) => want != "" && (prop != "P28" || format!("{:?}", e) == format!("ByteDecoder({})", want)),
                Ok(Ok(x)) => {
                    want == ""
                        && call(|| to_vec(x).ok() == Some(canon.clone())).0 == Ok(true)
                        && call(|| from_value::<$ty>(to_value(x).unwrap()).map_or(false, |y| y == *x)).0 == Ok(true)
                }
            };
            list.push(("from_slice", fine, J::Str(format!("{:?} as {}", r.map(|r| r.map(|_| "...")), stringify!($ty)))));
            // The value need not be in canonical order.
            if j.f("writable").bool() && !repeated {
                let r = call(|| from_value::<$ty>(crate::wide::value(j)).map(|x| to_vec(&x).ok() == Some(canon.clone()))).0;
                let fine = match &r {
                    Err(()) => false,
                    _ if prop == "P06" => true,
                    r => matches!(r, Ok(Ok(true))),
                };
                list.push(("from_value", fine, J::Str(format!("{:?} as {}", r, stringify!($ty)))));
            }
        };
    }
    match (j.f("w").num(), j.f("k").num()) {
        (0, 3) => {
            check!(String);
            check!(Box<str>);
        }
        (0, 4) => {
            check!(Vec<u64>);
            check!(Vec<u32>);
            check!(BTreeSet<u64>);
        }
        (0, 5) => {
            check!(BTreeMap<u64, u64>);
            check!(HashMap<u64, u64>);
        }
        (1, 3) => {
            check!((String, u8));
        }
        (1, 4) => {
            check!((Vec<u64>, u8));
        }
        (1, 5) => {
            check!((BTreeMap<u64, u64>, u8));
        }
        (2 | 5 | 6 | 7, 3) => {
            check!(BTreeMap<String, u64>);
            check!(HashMap<String, u64>);
        }
        (2 | 5 | 6 | 7, 4) => {
            check!(BTreeMap<Vec<u64>, u64>);
        }
        (3, 3) => {
            check!(HashMap<u64, String>);
        }
        (3, 4) => {
            check!(HashMap<u64, Vec<u64>>);
        }
        (3, 5) => {
            check!(HashMap<u64, HashMap<u64, u64>>);
        }
        _ => {}
    }
    (format!("wide {}", want), checks(list))
}
