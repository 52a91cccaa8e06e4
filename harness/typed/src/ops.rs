use crate::guard::call;
use crate::json::J;
use crate::model::*;
use crate::table::*;
use std::collections::HashMap;

pub struct Table(HashMap<&'static str, Row>);
impl Table {
    pub fn new() -> Table {
        Table(crate::types::table().into_iter().map(|r| (r.id, r)).collect())
    }
    pub fn get(&self, id: &str) -> Option<&Row> {
        self.0.get(id)
    }
}

pub fn outcome(r: Result<Result<J, DecodeError>, ()>) -> J {
    match r {
        Ok(Ok(x)) => obj! {"k" => J::s("ok"), "x" => x},
        Ok(Err(e)) => obj! {"k" => J::s("err"), "e" => J::Str(format!("{:?}", e))},
        Err(()) => obj! {"k" => J::s("panic")},
    }
}
/// Is the outcome one that the specification admits?
pub fn admits(row: &Row, want: &J, got: &J) -> bool {
    match (want.f("k").str(), got.f("k").str()) {
        (_, "panic") => false,
        ("any", _) => true,
        ("ok", "ok") => (row.model)(want.f("x")) == *got.f("x"),
        ("err", "err") => want.f("es").arr().iter().any(|e| e.str() == got.f("e").str()),
        _ => false,
    }
}

fn checks(list: Vec<(&str, bool, J)>) -> Option<J> {
    let bad: Vec<J> = list
        .into_iter()
        .filter(|(_, ok, _)| !ok)
        .map(|(n, _, got)| obj! {"wrong" => J::s(n), "got" => got})
        .collect();
    if bad.is_empty() {
        None
    } else {
        Some(J::Arr(bad))
    }
}

pub fn replay(t: &Table, prop: &str, j: &J) -> (String, Option<J>) {
    if j.f("op").str() == "deep" {
        return deep(t, j);
    }
    if j.f("op").str() == "wide" {
        return wide(prop, j);
    }
    if j.f("op").str() == "read" {
        return read(t, j);
    }
    let row = match t.get(j.f("ty").str()) {
        Some(r) => r,
        None => return ("not compiled".into(), None),
    };
    match j.f("op").str() {
        "enc" if prop == "P17" => {
            let kind = format!("{} {}", if row.marked { "usable as map" } else { "not usable as map" }, row.group);
            (kind, enc(row, prop, j))
        }
        "enc" => (format!("enc {}", row.group), enc(row, prop, j)),
        "dec" => {
            let r = j.f("r");
            let kind = match r.f("k").str() {
                "err" => format!("dec {} {}", row.group, r.f("es").arr().iter().map(|x| x.str()).collect::<Vec<_>>().join("+")),
                k => format!("dec {} {}", row.group, k),
            };
            (kind, dec(row, prop, j))
        }
        op => panic!("HARNESS: op {}", op),
    }
}

/// Behaviours of the decoder's machine, decoded into primitive types: malformed bytes are a parsing
/// failure, others decode as the value they denote.
fn read(t: &Table, j: &J) -> (String, Option<J>) {
    let (b, strict, e) = (to_bytes(j.f("b")), j.f("s").bool(), j.f("e").str());
    if j.f("l").show() != "64" {
        panic!("HARNESS: limit");
    }
    let mut list = vec![];
    for row in t.0.values().filter(|r| r.group == "prim") {
        let d = match &row.dec {
            Some(d) => d,
            None => continue,
        };
        let o = outcome(call(|| if strict { (d.slice)(&b) } else { (d.lenient)(&b) }).0);
        let ok = if e != "" {
            parsing_failed(&o)
        } else {
            o == outcome(call(|| (d.from_value)(to_val(j.f("v")))).0)
        };
        list.push((row.id, ok, o));
    }
    (format!("read {} {}", if strict { "strict" } else { "lenient" }, e), checks(list))
}

fn enc(row: &Row, prop: &str, j: &J) -> Option<J> {
    let x = j.f("x");
    let v = unordered(to_val(j.f("v")));
    let b = to_bytes(j.f("b"));
    let value = match call(|| (row.value)(x)).0 {
        Ok(v) => v,
        Err(()) => return Some(J::s("panic in to_value")),
    };
    let same = |w: &Value| unordered(w.clone()) == v;
    // Types with duplicate entries in a map have no encoding.
    let bytes = if j.f("dup").bool() {
        None
    } else {
        match call(|| (row.bytes)(x)).0 {
            Ok(b) => Some(b),
            Err(()) => return Some(J::s("panic in to_vec")),
        }
    };
    let by = |n: &'static str| (n, bytes.as_ref().map_or(true, |x| *x == b), bytes.as_ref().map_or(J::Bool(false), |b| self::bytes(b)));
    let eq = (
        "value",
        same(&value),
        val(&value),
    );
    match prop {
        "P17" => {
            let (m, entries) = match call(|| (row.map)(x)).0 {
                Err(()) => return Some(J::s("panic in into_cbor_map")),
                Ok(None) => return None,
                Ok(Some(r)) => r,
            };
            if !matches!(v, Value::Map(_)) && eq.1 && same(&m) && entries.is_empty() {
                // The type should not be usable here; named so that listed findings are recognised.
                let var = match x.arr().first() {
                    Some(J::Str(n)) => n.clone(),
                    _ => String::new(),
                };
                return Some(obj! {"finding" => J::Str(format!("{}/{}", row.id, var)), "got" => val(&m)});
            }
            checks(vec![
                ("map", matches!(m, Value::Map(_)) && same(&m), val(&m)),
                ("entries", same(&Value::Map(entries.clone())), val(&Value::Map(entries))),
                eq,
            ])
        }
        "P23" => {
            let more: Vec<Vec<u8>> = if j.f("dup").bool() { vec![] } else { (0..6).map(|_| (row.bytes)(x)).collect() };
            let mut list = vec![by("bytes")];
            for m in more {
                list.push(("bytes again", bytes.as_ref() == Some(&m), self::bytes(&m)));
            }
            checks(list)
        }
        "P24" => {
            // What comes back is the datum itself if the type is lossless (and the specification
            // says so: its RoundTrip invariant), else what the specification says.
            if bytes.is_none() {
                return None;
            }
            let d = row.dec.as_ref()?;
            let mut list = vec![];
            let back = |n, r: Result<Result<J, DecodeError>, ()>| {
                let o = outcome(r);
                let same = !j.f("lossless").bool() || (o.f("k").str() == "ok" && *o.f("x") == (row.model)(x));
                (n, same && admits(row, j.f("back"), &o), o)
            };
            let bb = bytes.as_ref().unwrap();
            // Unless it is nested too deeply for the decoder.
            let deep = j.f("deep").bool();
            let cut = |n, r| {
                let o = outcome(r);
                (n, parsing_failed(&o), o)
            };
            let slices = [("from_slice of to_vec", d.slice), ("from_slice_non_strict of to_vec", d.lenient)];
            list.extend(slices.iter().map(|(n, f)| if deep { cut(*n, call(|| f(bb)).0) } else { back(*n, call(|| f(bb)).0) }));
            list.push(back("from_value of to_value", call(|| (d.from_value)(value.clone())).0));
            checks(list)
        }
        "P27" => {
            let m = match call(|| (row.method)(x)).0 {
                Ok(v) => v,
                Err(()) => return Some(J::s("panic in into_cbor_value")),
            };
            let mut list = vec![("method", unordered(m.clone()) == unordered(value.clone()), val(&m))];
            if let Some(b) = &bytes {
                let mut w = vec![];
                let ok = oasis_cbor::writer::write(value.clone(), &mut w).is_ok();
                list.push(("bytes", ok && w == *b, self::bytes(b)));
            }
            checks(list)
        }
        "P06" => None,
        _ => {
            let o = match call(|| (row.optional)(x)).0 {
                Ok(o) => o,
                Err(()) => return Some(J::s("panic in into_optional_cbor_value")),
            };
            let none = j.f("none").bool();
            let opt_ok = match &o {
                None => none,
                Some(v) => !none && same(v),
            };
            let mut list = vec![eq, by("bytes"), ("optional", opt_ok, o.as_ref().map_or(J::s("None"), val))];
            if j.f("ground").bool() {
                let e = (row.empty)(x);
                list.push(("empty", e == none, J::Bool(e)));
            }
            checks(list)
        }
    }
}

fn dec(row: &Row, prop: &str, j: &J) -> Option<J> {
    let d = row.dec.as_ref()?;
    let v = to_val(j.f("v"));
    let (r, r2) = (j.f("r"), j.f("r2"));
    let def = outcome(call(|| (d.default)(v.clone())).0);
    let elem = outcome(call(|| (d.element)(v.clone())).0);
    let mut list = vec![];
    let calm = |o: &J| o.f("k").str() != "panic";
    match prop {
        "P06" => {
            list.push(("no panic (default position)", calm(&def), def));
            list.push(("no panic (element position)", calm(&elem), elem));
            let mut b = vec![];
            if oasis_cbor::writer::write(v, &mut b).is_ok() {
                let o = outcome(call(|| (d.slice)(&b)).0);
                list.push(("no panic (strict)", calm(&o), o));
                let o = outcome(call(|| (d.lenient)(&b)).0);
                list.push(("no panic (non-strict)", calm(&o), o));
            }
        }
        "P27" => {
            let o = outcome(call(|| (d.from_value)(v.clone())).0);
            list.push(("from_value", o == def, o));
            let mut b = vec![];
            if oasis_cbor::writer::write(v, &mut b).is_ok() && r.f("k").str() != "any" {
                if j.f("deep").bool() {
                    for (n, f) in [("from_slice, too deep", d.slice), ("from_slice_non_strict, too deep", d.lenient)] {
                        let o = outcome(call(|| f(&b)).0);
                        list.push((n, parsing_failed(&o), o));
                    }
                    return checks(list);
                }
                // What the bytes denote.
                let w = match oasis_cbor::reader::read(&b) {
                    Ok(w) => w,
                    Err(e) => return Some(J::Str(format!("unreadable: {:?}", e))),
                };
                let def = outcome(call(|| (d.default)(w)).0);
                let same = |o: &J| *o == def || (o.f("k").str() == "err" && admits(row, r, o) && admits(row, r, &def));
                let o = outcome(call(|| (d.slice)(&b)).0);
                list.push(("from_slice", same(&o), o));
                let o = outcome(call(|| (d.lenient)(&b)).0);
                list.push(("from_slice_non_strict", same(&o), o));
                // Malformed bytes fail before any type is looked at.
                let o = outcome(call(|| (d.slice)(&b[..b.len() - 1])).0);
                list.push(("truncated", parsing_failed(&o), o));
                b.push(0);
                let o = outcome(call(|| (d.slice)(&b)).0);
                list.push(("extra byte", parsing_failed(&o), o));
                let o = outcome(call(|| (d.lenient)(&b)).0);
                list.push(("extra byte, non-strict", same(&o), o));
            }
        }
        _ => {
            if j.f("null").bool() {
                let o = outcome(call(|| (d.missing)()).0);
                list.push(("missing", admits(row, r, &o), o));
            }
            list.push(("default position", admits(row, r, &def), def));
            list.push(("element position", admits(row, r2, &elem), elem));
        }
    }
    checks(list)
}
fn parsing_failed(o: &J) -> bool {
    o.f("k").str() == "err" && o.f("e").str() == "ParsingFailed"
}

/// Chains of containers, offered to every type.
fn deep(t: &Table, j: &J) -> (String, Option<J>) {
    let b = crate::deep::expand(j);
    let (strict, lenient) = (j.f("strict").str(), j.f("lenient").str());
    let mut list = vec![];
    for row in t.0.values() {
        if let Some(d) = &row.dec {
            for (name, f, want) in [("from_slice", d.slice, strict), ("from_slice_non_strict", d.lenient, lenient)] {
                let o = outcome(call(|| f(&b)).0);
                let fine = if want == "" { o.f("k").str() != "panic" && !parsing_failed(&o) } else { parsing_failed(&o) };
                list.push((row.id, fine, obj! {"entry" => J::s(name), "got" => o}));
            }
        }
    }
    (format!("deep {}", strict), checks(list))
}

/// Items of many elements, for the types they are made for.
fn wide(prop: &str, j: &J) -> (String, Option<J>) {
    use std::collections::{BTreeMap, BTreeSet, HashSet};
    let b = crate::wide::expand(j);
    let canon = crate::wide::canonical(j);
    let repeated = j.f("refusal").str() != "";
    let mut list: Vec<(&'static str, bool, J)> = vec![];
    macro_rules! check {
        ($ty:ty, $size:expr) => {
            for (entry, r, want) in [
                ("strict", call(|| oasis_cbor::from_slice::<$ty>(&b)).0, j.f("strict").str()),
                ("lenient", call(|| oasis_cbor::from_slice_non_strict::<$ty>(&b)).0, j.f("lenient").str()),
            ] {
                let size: Option<usize> = $size;
                let fine = match &r {
                    Err(()) => false,
                    _ if prop == "P06" => true,
                    Ok(Err(_)) if prop == "P23" => true,
                    Ok(Err(DecodeError::ParsingFailed)) => want != "",
                    Ok(Err(_)) => want == "" && size.map_or(repeated, |n| n as i64 != j.f("m").num()),
                    // What has been decoded is encoded canonically.
                    Ok(Ok(x)) => {
                        want == ""
                            && size.map_or(true, |n| n as i64 == j.f("m").num())
                            && (repeated || call(|| oasis_cbor::to_vec(x.clone()) == canon).0 == Ok(true))
                    }
                };
                let show = match r {
                    Ok(r) => J::Str(format!("{:?}", r.map(|_| "...")) + " as " + stringify!($ty)),
                    Err(()) => J::s("panic"),
                };
                list.push((entry, fine, show));
            }
        };
    }
    match (j.f("w").num(), j.f("k").num()) {
        (0, 2) => {
            check!(Vec<u8>, None);
            check!([u8; 23], Some(23));
            check!([u8; 256], Some(256));
            check!([u8; 65536], Some(65536));
        }
        (0, 3) => {
            check!(String, None);
        }
        (0, 4) => {
            check!(Vec<u64>, None);
            check!(Vec<u32>, None);
            check!(BTreeSet<u64>, None);
            check!(HashSet<u64>, None);
            check!([u64; 24], Some(24));
            check!([u32; 257], Some(257));
        }
        (0, 5) => {
            check!(BTreeMap<u64, u64>, None);
            check!(HashMap<u64, u64>, None);
        }
        (1, 2) => {
            check!((Vec<u8>, u8), None);
        }
        (1, 3) => {
            check!((String, u8), None);
        }
        (1, 4) => {
            check!((Vec<u64>, u8), None);
        }
        (1, 5) => {
            check!((BTreeMap<u64, u64>, u8), None);
        }
        (2 | 5 | 6 | 7, 2) => {
            check!(BTreeMap<Vec<u8>, u64>, None);
            check!(HashMap<Vec<u8>, u64>, None);
        }
        (2 | 5 | 6 | 7, 3) => {
            check!(BTreeMap<String, u64>, None);
            check!(HashMap<String, u64>, None);
        }
        (2 | 5 | 6 | 7, 4) => {
            check!(BTreeMap<Vec<u64>, u64>, None);
        }
        (3, 2) => {
            check!(HashMap<u64, Vec<u8>>, None);
        }
        (3, 3) => {
            check!(HashMap<u64, String>, None);
        }
        (3, 4) => {
            check!(HashMap<u64, Vec<u64>>, None);
        }
        (3, 5) => {
            check!(HashMap<u64, HashMap<u64, u64>>, None);
        }
        _ => {
            check!(Value, None);
        }
    }
    (format!("wide {}", j.f("strict").str()), checks(list))
}
