//! Building values through the public conversions and macros, and taking maps apart.
use super::*;
use oasis_cbor::macros::{destructure_cbor_map_peek_value, destructure_cbor_map_peek_value_strict};
use oasis_cbor::values::{IntoCborValue, IntoCborValueOption};
use oasis_cbor::{
    cbor_array, cbor_array_vec, cbor_bool, cbor_bytes, cbor_bytes_lit, cbor_false, cbor_int, cbor_map, cbor_map_collection,
    cbor_map_options, cbor_null, cbor_tagged, cbor_text, cbor_true, cbor_undefined, cbor_unsigned, destructure_cbor_map, assert_sorted_keys, DecodeError,
    SimpleValue,
};

/// An operand, still in the type the constructor would be given.
#[derive(Clone)]
enum Any {
    U64(u64),
    I64(i64),
    I32(i32),
    Vec(Vec<u8>),
    Slice(Vec<u8>),
    String(String),
    Str(String),
    Bool(bool),
    Items(Vec<Value>),
    Pairs(Vec<(Value, Value)>),
    Value(Value),
}
impl From<Any> for Value {
    fn from(x: Any) -> Value {
        match x {
            Any::U64(x) => Value::from(x),
            Any::I64(x) => Value::from(x),
            Any::I32(x) => Value::from(x),
            Any::Vec(x) => Value::from(x),
            Any::Slice(x) => Value::from(&x[..]),
            Any::String(x) => Value::from(x),
            Any::Str(x) => Value::from(&x[..]),
            Any::Bool(x) => Value::from(x),
            Any::Items(x) => Value::from(x),
            Any::Pairs(x) => Value::from(x),
            Any::Value(x) => x,
        }
    }
}

fn word(j: &J) -> u64 {
    to_bytes(j).iter().fold(0, |a, x| a << 8 | *x as u64)
}
fn text(j: &J) -> String {
    String::from_utf8(to_bytes(j)).expect("HARNESS: text")
}

/// All ways of supplying the entries of an optional map: the type of each entry is either the bare
/// value or an option.
fn map_options(m: &[&str], p: Vec<(Any, Any)>) -> Value {
    let some: Vec<(Any, Option<Any>)> = p.iter().cloned().zip(m).map(|((k, v), m)| (k, if *m == "none" { None } else { Some(v) })).collect();
    let plain = |i: usize| m[i] == "plain";
    macro_rules! go {
        ($($i:tt $k:ident $v:ident $e:expr),*) => {{
            $( let $k = p[$i].0.clone(); let $v = $e; )*
            cbor_map_options! { $( $k => $v, )* }
        }};
    }
    let b = |i: usize| p[i].1.clone();
    let o = |i: usize| some[i].1.clone();
    match m.len() {
        0 => cbor_map_options! {},
        1 if plain(0) => go!(0 k0 v0 b(0)),
        1 => go!(0 k0 v0 o(0)),
        2 => match (plain(0), plain(1)) {
            (true, true) => go!(0 k0 v0 b(0), 1 k1 v1 b(1)),
            (true, false) => go!(0 k0 v0 b(0), 1 k1 v1 o(1)),
            (false, true) => go!(0 k0 v0 o(0), 1 k1 v1 b(1)),
            (false, false) => go!(0 k0 v0 o(0), 1 k1 v1 o(1)),
        },
        3 => match (plain(0), plain(1), plain(2)) {
            (true, true, true) => go!(0 k0 v0 b(0), 1 k1 v1 b(1), 2 k2 v2 b(2)),
            (true, true, false) => go!(0 k0 v0 b(0), 1 k1 v1 b(1), 2 k2 v2 o(2)),
            (true, false, true) => go!(0 k0 v0 b(0), 1 k1 v1 o(1), 2 k2 v2 b(2)),
            (true, false, false) => go!(0 k0 v0 b(0), 1 k1 v1 o(1), 2 k2 v2 o(2)),
            (false, true, true) => go!(0 k0 v0 o(0), 1 k1 v1 b(1), 2 k2 v2 b(2)),
            (false, true, false) => go!(0 k0 v0 o(0), 1 k1 v1 b(1), 2 k2 v2 o(2)),
            (false, false, true) => go!(0 k0 v0 o(0), 1 k1 v1 o(1), 2 k2 v2 b(2)),
            (false, false, false) => go!(0 k0 v0 o(0), 1 k1 v1 o(1), 2 k2 v2 o(2)),
        },
        n => panic!("HARNESS: {} optional entries", n),
    }
}


fn array(a: Vec<Any>) -> Value {
    let x = |i: usize| a[i].clone();
    match a.len() {
        0 => cbor_array![],
        1 => cbor_array![x(0)],
        2 => cbor_array![x(0), x(1),],
        3 => cbor_array![x(0), x(1), x(2)],
        4 => cbor_array![x(0), x(1), x(2), x(3),],
        n => panic!("HARNESS: array of {}", n),
    }
}
fn map(p: Vec<(Any, Any)>) -> Value {
    let k = |i: usize| p[i].0.clone();
    let v = |i: usize| p[i].1.clone();
    match p.len() {
        0 => cbor_map! {},
        1 => cbor_map! {k(0) => v(0)},
        2 => cbor_map! {k(0) => v(0), k(1) => v(1),},
        3 => cbor_map! {k(0) => v(0), k(1) => v(1), k(2) => v(2)},
        n => panic!("HARNESS: map of {}", n),
    }
}

fn step(st: &mut Vec<Any>, i: &J) {
    let a = i.f("a");
    let n = i.f("n").num() as usize;
    let args = st.split_off(st.len() - n);
    let pairs = || {
        let mut it = args.clone().into_iter();
        let mut p = vec![];
        while let (Some(k), Some(v)) = (it.next(), it.next()) {
            p.push((k, v));
        }
        p
    };
    let flag = || to_bytes(a)[0] == 1;
    let vals = || args.iter().cloned().map(Value::from).collect::<Vec<_>>();
    let val_pairs = || pairs().into_iter().map(|(k, v)| (Value::from(k), Value::from(v))).collect::<Vec<_>>();
    st.push(match i.f("c").str() {
        "u64" => Any::U64(word(a)),
        "cbor_unsigned" => Any::Value(cbor_unsigned!(word(a))),
        "i64" => Any::I64(word(a) as i64),
        "cbor_int" => Any::Value(cbor_int!(word(a) as i64)),
        "i32" => Any::I32(word(a) as u32 as i32),
        "vec" => Any::Vec(to_bytes(a)),
        "slice" => Any::Slice(to_bytes(a)),
        "cbor_bytes" => Any::Value(cbor_bytes!(to_bytes(a))),
        "cbor_bytes_lit" => Any::Value({
            let b = to_bytes(a);
            cbor_bytes_lit!(&b[..])
        }),
        "string" => Any::String(text(a)),
        "str" => Any::Str(text(a)),
        "cbor_text_string" => Any::Value(cbor_text!(text(a))),
        "cbor_text_str" => Any::Value({
            let s = text(a);
            cbor_text!(&s[..])
        }),
        "bool" => Any::Bool(flag()),
        "cbor_bool" => Any::Value(cbor_bool!(flag())),
        "cbor_true" => Any::Value(cbor_true!()),
        "cbor_false" => Any::Value(cbor_false!()),
        "cbor_null" => Any::Value(cbor_null!()),
        "cbor_undefined" => Any::Value(cbor_undefined!()),
        "cbor_array" => Any::Value(array(args)),
        "cbor_array_vec" => Any::Value(cbor_array_vec!(args)),
        "from_vec" => Any::Items(vals()),
        "cbor_map" => Any::Value(map(pairs())),
        "cbor_map_collection" => Any::Value(cbor_map_collection!(val_pairs())),
        "from_pairs" => Any::Pairs(val_pairs()),
        "cbor_map_options" => {
            let m: Vec<&str> = i.f("m").arr().iter().map(|x| x.str()).collect();
            Any::Value(map_options(&m, pairs()))
        }
        "cbor_tagged" => Any::Value(cbor_tagged!(word(a), Value::from(args.into_iter().next().unwrap()))),
        "into" => Any::Value(args.into_iter().next().unwrap().into_cbor_value()),
        c => panic!("HARNESS: constructor {}", c),
    });
}
/// Run a program of constructor calls: the value, by two routes, and its label.
pub fn build(prog: &J) -> J {
    let r = call(|| {
        let mut st = vec![];
        for i in prog.arr() {
            step(&mut st, i);
        }
        st.pop().map(|x| (x.clone().into_cbor_value_option(), x.into_cbor_value()))
    });
    match r.0 {
        Ok(Some((Some(o), v))) => obj! {"k" => J::s("ok"), "v" => val(&v), "o" => val(&o), "label" => J::Num(v.type_label() as i64)},
        Ok(_) => obj! {"k" => J::s("none")},
        Err(()) => obj! {"k" => J::s("panic")},
    }
}
pub fn simple(n: &J) -> J {
    let n = word(n);
    match call(|| SimpleValue::from_integer(n)).0 {
        Ok(r) => J::Arr(r.iter().map(|x| J::Num(x.clone() as i64)).collect()),
        Err(()) => J::s("panic"),
    }
}

type It = std::iter::Peekable<std::vec::IntoIter<(Value, Value)>>;
fn entries(m: &J) -> Vec<(Value, Value)> {
    m.arr().iter().map(|p| (to_val(&p.arr()[0]), to_val(&p.arr()[1]))).collect()
}
fn answer(r: Result<Result<Option<Value>, DecodeError>, ()>) -> (J, J) {
    let none = J::Arr(vec![]);
    match r {
        Ok(Ok(Some(v))) => (J::s("some"), val(&v)),
        Ok(Ok(None)) => (J::s("none"), none),
        Ok(Err(DecodeError::UnknownField)) => (J::s("unknown"), none),
        Ok(Err(_)) => (J::s("other"), none),
        Err(()) => (J::s("panic"), none),
    }
}
/// Ask for one key after the other: the answers and what is left.
pub fn destructure(m: &J, calls: &[(bool, Value)]) -> (Vec<(J, J)>, J) {
    let mut it: It = entries(m).into_iter().peekable();
    let answers = calls
        .iter()
        .map(|(strict, k)| {
            let k = k.clone();
            answer(call(|| if *strict { destructure_cbor_map_peek_value_strict(&mut it, k) } else { Ok(destructure_cbor_map_peek_value(&mut it, k)) }).0)
        })
        .collect();
    let rest = J::Arr(it.map(|(k, v)| J::Arr(vec![val(&k), val(&v)])).collect());
    (answers, rest)
}
/// The same through the macro, for up to six keys.
pub fn destructure_macro(m: &J, k: &[Value]) -> Option<Vec<(J, J)>> {
    let m = entries(m);
    let k = k.to_vec();
    let r = call(|| {
        macro_rules! go {
            ($($i:tt $x:ident),*) => {{
                destructure_cbor_map! { let { $( k[$i].clone() => $x, )* } = m; }
                vec![$( $x ),*]
            }};
        }
        match k.len() {
            1 => go!(0 a),
            2 => go!(0 a, 1 b),
            3 => go!(0 a, 1 b, 2 c),
            4 => go!(0 a, 1 b, 2 c, 3 d),
            5 => go!(0 a, 1 b, 2 c, 3 d, 4 e),
            6 => go!(0 a, 1 b, 2 c, 3 d, 4 e, 5 f),
            _ => vec![],
        }
    });
    if k.is_empty() || k.len() > 6 {
        return None;
    }
    Some(match r.0 {
        Ok(vs) => vs.into_iter().map(|v| answer(Ok(Ok(v)))).collect(),
        Err(()) => vec![answer(Err(()))],
    })
}

/// Does the key order assertion hold for these keys?
pub fn sorted_keys(keys: &[Value]) -> bool {
    let k = |i: usize| keys[i].clone();
    call(|| match keys.len() {
        1 => { assert_sorted_keys!(k(0),); }
        2 => { assert_sorted_keys!(k(0), k(1),); }
        3 => { assert_sorted_keys!(k(0), k(1), k(2),); }
        4 => { assert_sorted_keys!(k(0), k(1), k(2), k(3),); }
        n => panic!("HARNESS: {} keys", n),
    })
    .0
    .is_ok()
}
