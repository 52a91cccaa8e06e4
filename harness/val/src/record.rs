use super::*;
use gen::Dmg;
use ops::{outcome, read, write};

pub struct Rec {
    pub evs: Vec<J>,
    pub buf: Vec<u8>,
}

impl Rec {
    fn read(&mut self, b: &[u8], l: Option<i8>, s: bool) {
        let mut e = obj! {"op" => J::s("read"), "b" => bytes(b), "l" => lim(l), "s" => J::Bool(s)};
        doing(&e);
        let (r, _, peak) = read(b, l, s);
        e.set("r", r);
        e.set("peak", J::Num(peak.min(1 << 30) as i64));
        self.evs.push(e);
    }
    /// The default-limit entry point.
    fn read_default(&mut self, b: &[u8]) {
        let mut e = obj! {"op" => J::s("read"), "b" => bytes(b), "l" => J::Num(127), "s" => J::Bool(true)};
        doing(&e);
        let (r, peak) = call(|| reader::read(b));
        e.set("r", outcome(r).0);
        e.set("peak", J::Num(peak.min(1 << 30) as i64));
        self.evs.push(e);
    }
    fn both(&mut self, b: &[u8], l: Option<i8>) {
        let mut e = obj! {"op" => J::s("readboth"), "b" => bytes(b), "l" => lim(l)};
        doing(&e);
        let rs = read(b, l, true).0;
        e.set("rs", rs);
        e.set("rl", read(b, l, false).0);
        self.evs.push(e);
    }
    fn reenc(&mut self, b: &[u8], l: Option<i8>) {
        let mut e = obj! {"op" => J::s("reenc"), "b" => bytes(b), "l" => lim(l)};
        doing(&e);
        let (r, v, _) = read(b, l, true);
        e.set("r", r);
        if let Some(v) = v {
            let mut out = vec![];
            let mut w = write(v, &mut out, l);
            w.set("b", bytes(&out));
            e.set("w", w);
        }
        self.evs.push(e);
    }
    fn reread(&mut self, v: &Value, l: Option<i8>) {
        let mut e = obj! {"op" => J::s("reread"), "v" => val(v), "l" => lim(l)};
        doing(&e);
        let mut out = vec![];
        let mut w = write(v.clone(), &mut out, l);
        w.set("b", bytes(&out));
        e.set("w", w);
        e.set("r", read(&out, l, true).0);
        self.evs.push(e);
    }
    fn write(&mut self, v: &Value, l: Option<i8>) {
        self.write_with(v, l, false)
    }
    fn write_with(&mut self, v: &Value, l: Option<i8>, default: bool) {
        let mut e = obj! {"op" => J::s("write"), "v" => val(v), "l" => lim(l)};
        doing(&e);
        let old = self.buf.clone();
        let w = if default {
            assert!(l == Some(127));
            match call(|| writer::write(v.clone(), &mut self.buf)).0 {
                Ok(Ok(())) => obj! {"k" => J::s("ok")},
                Ok(Err(x)) => obj! {"k" => J::s("err"), "e" => ops::err_name(&x)},
                Err(()) => obj! {"k" => J::s("panic")},
            }
        } else {
            write(v.clone(), &mut self.buf, l)
        };
        e.set("r", w);
        let keep = self.buf.len() >= old.len() && self.buf[..old.len()] == old[..];
        e.set("keep", J::Bool(keep));
        e.set("add", bytes(&self.buf[old.len().min(self.buf.len())..]));
        e.set("len", J::Num(self.buf.len() as i64));
        self.evs.push(e);
    }
    fn inspect(&mut self) {
        self.evs.push(obj! {"op" => J::s("buf"), "b" => bytes(&self.buf)});
    }
    fn cmp(&mut self, a: &Value, b: &Value) {
        let mut e = obj! {"op" => J::s("cmp"), "a" => val(a), "b" => val(b)};
        doing(&e);
        let o = |x: Option<std::cmp::Ordering>| J::Num(x.map_or(9, |x| x as i64));
        let (x, _) = call(|| (a.cmp(b), b.cmp(a), a.partial_cmp(b), a == b));
        match x {
            Ok((c, rc, pc, eq)) => {
                e.set("c", o(Some(c)));
                e.set("rc", o(Some(rc)));
                e.set("pc", o(pc));
                e.set("eq", J::Bool(eq));
            }
            Err(()) => e.set("c", J::Num(8)),
        }
        self.evs.push(e);
    }
    fn ffi(&mut self, b: &[u8]) {
        let mut e = obj! {"op" => J::s("ffi"), "b" => bytes(b)};
        doing(&e);
        e.set("ret", J::Num(ffi::verdict(b)));
        self.evs.push(e);
    }
    fn build(&mut self, prog: Vec<J>) {
        let mut e = obj! {"op" => J::s("build"), "prog" => J::Arr(prog)};
        doing(&e);
        let r = construct::build(e.f("prog"));
        e.set("r", r);
        self.evs.push(e);
    }
    fn simple(&mut self, n: u64) {
        let mut e = obj! {"op" => J::s("simple"), "n" => digits(n as u128)};
        doing(&e);
        let r = construct::simple(e.f("n"));
        e.set("r", r);
        self.evs.push(e);
    }
    fn sorted_keys(&mut self, k: &[Value]) {
        let mut e = obj! {"op" => J::s("sortedkeys"), "keys" => J::Arr(k.iter().map(val).collect())};
        doing(&e);
        e.set("r", J::Bool(construct::sorted_keys(k)));
        self.evs.push(e);
    }
    fn destructure(&mut self, m: Vec<(Value, Value)>, calls: Vec<(bool, Value)>) {
        let pair = |a: J, b: J| J::Arr(vec![a, b]);
        let shown = calls.iter().map(|(s, k)| obj! {"mode" => J::s(if *s { "strict" } else { "lenient" }), "key" => val(k)}).collect();
        let mut e = obj! {"op" => J::s("destructure"), "m" => J::Arr(m.iter().map(|(k, v)| pair(val(k), val(v))).collect()), "calls" => J::Arr(shown)};
        doing(&e);
        let answers = |a: Vec<(J, J)>| J::Arr(a.into_iter().map(|(a, v)| pair(a, v)).collect());
        let (out, rest) = construct::destructure(e.f("m"), &calls);
        let mac = if calls.iter().all(|c| !c.0) {
            construct::destructure_macro(e.f("m"), &calls.iter().map(|c| c.1.clone()).collect::<Vec<_>>())
        } else {
            None
        };
        e.set("out", answers(out));
        e.set("rest", rest);
        e.set("viamacro", answers(mac.unwrap_or_default()));
        self.evs.push(e);
    }
    fn sort(&mut self, vs: &[Value]) {
        let mut e = obj! {"op" => J::s("sort"), "inp" => J::Arr(vs.iter().map(val).collect())};
        doing(&e);
        let mut s = vs.to_vec();
        let r = call(|| s.sort()).0;
        e.set("out", if r.is_ok() { J::Arr(s.iter().map(val).collect()) } else { J::Arr(vec![]) });
        self.evs.push(e);
    }
}

fn limit(r: &mut Rng) -> Option<i8> {
    *r.pick(&[Some(127), Some(127), Some(64), None, None, Some(10), Some(3), Some(0), Some(-1), Some(-128)])
}
/// A limit that the value should not meet.
fn roomy(r: &mut Rng) -> Option<i8> {
    *r.pick(&[Some(127), Some(64), None])
}
/// Put equivalent insertion orders and nested maps in front of the writer.
fn shuffle(r: &mut Rng, v: &Value) -> Value {
    match v {
        Value::Map(m) => {
            let mut m: Vec<_> = m.iter().map(|(k, v)| (shuffle(r, k), shuffle(r, v))).collect();
            for i in (1..m.len()).rev() {
                m.swap(i, r.below(i + 1));
            }
            Value::Map(m)
        }
        Value::Array(a) => Value::Array(a.iter().map(|x| shuffle(r, x)).collect()),
        Value::Tag(t, x) => Value::Tag(*t, Box::new(shuffle(r, x))),
        x => x.clone(),
    }
}
/// A small change somewhere, to compare near neighbours.
fn tweak(r: &mut Rng, v: &Value) -> Value {
    match v {
        Value::Unsigned(n) => match r.below(3) {
            0 => Value::Unsigned(n.wrapping_add(1)),
            1 => Value::Negative(-1 - *n as i128),
            _ => Value::Unsigned(n.wrapping_sub(1)),
        },
        Value::Negative(n) if *n > -(1 << 64) => Value::Negative(n - 1),
        Value::ByteString(b) if r.chance(1, 2) => {
            Value::TextString(String::from_utf8(b.clone()).unwrap_or_default())
        }
        Value::ByteString(b) => {
            let mut b = b.clone();
            if b.is_empty() || r.chance(1, 3) {
                b.push(0)
            } else {
                let i = r.below(b.len());
                b[i] = b[i].wrapping_add(1)
            }
            Value::ByteString(b)
        }
        Value::TextString(s) => Value::TextString(if r.chance(1, 2) { format!("{}a", s) } else { s.chars().rev().collect() }),
        Value::Array(a) if !a.is_empty() => {
            let mut a = a.clone();
            let i = r.below(a.len());
            match r.below(4) {
                0 => {
                    a.remove(i);
                }
                1 => {
                    let j = r.below(a.len());
                    a.swap(i, j)
                }
                _ => a[i] = tweak(r, &a[i]),
            }
            Value::Array(a)
        }
        Value::Map(m) if !m.is_empty() => {
            let mut m = m.clone();
            let i = r.below(m.len());
            match r.below(4) {
                0 => {
                    m.remove(i);
                }
                1 => m[i].0 = tweak(r, &m[i].0),
                _ => m[i].1 = tweak(r, &m[i].1),
            }
            Value::Map(m)
        }
        Value::Tag(t, x) => {
            if r.chance(1, 2) {
                Value::Tag(t.wrapping_add(1), x.clone())
            } else {
                Value::Tag(*t, Box::new(tweak(r, x)))
            }
        }
        _ => gen::leaf(r),
    }
}
fn sorted(v: &Value) -> Value {
    match v {
        Value::Map(m) => {
            let mut m: Vec<_> = m.iter().map(|(k, v)| (sorted(k), sorted(v))).collect();
            let mut r = Rng(1);
            m.sort_by_cached_key(|(k, _)| gen::canonical(k, &mut r));
            Value::Map(m)
        }
        Value::Array(a) => Value::Array(a.iter().map(sorted).collect()),
        Value::Tag(t, x) => Value::Tag(*t, Box::new(sorted(x))),
        x => x.clone(),
    }
}
/// Lengths at every head-width boundary, and long runs.
fn sized(r: &mut Rng, n: usize) -> Value {
    match r.below(5) {
        0 => Value::ByteString((0..n).map(|i| (i * 7) as u8).collect()),
        1 => Value::TextString("x".repeat(n)),
        2 => Value::Array((0..n).map(|i| Value::Unsigned(i as u64 % 24)).collect()),
        3 => Value::Map((0..n).map(|i| (Value::Unsigned(((i * 7919) % n) as u64), Value::Simple(oasis_cbor::SimpleValue::NullValue))).collect()),
        _ => Value::Map((0..n).map(|i| (Value::TextString(format!("{}", n - i)), Value::Unsigned(1))).collect()),
    }
}

/// Add a key unless it is there, or is a map with the same key twice.
fn push_new(keys: &mut Vec<Value>, seen: &mut Vec<String>, k: Value) {
    let s = val(&k).show();
    if !seen.contains(&s) && !duplicates(&k) {
        seen.push(s);
        keys.push(k);
    }
}
fn duplicates(v: &Value) -> bool {
    match v {
        Value::Array(a) => a.iter().any(duplicates),
        Value::Tag(_, x) => duplicates(x),
        Value::Map(m) => {
            let mut s: Vec<String> = m.iter().map(|(k, _)| val(k).show()).collect();
            s.sort();
            s.windows(2).any(|w| w[0] == w[1]) || m.iter().any(|(k, v)| duplicates(k) || duplicates(v))
        }
        _ => false,
    }
}
fn instr(c: &str, a: &[u8], n: usize, m: Vec<J>) -> J {
    obj! {"c" => J::s(c), "a" => bytes(a), "n" => J::Num(n as i64), "m" => J::Arr(m)}
}
/// A program that leaves exactly one value.
fn program(r: &mut Rng, size: usize) -> Vec<J> {
    let mut p = vec![];
    let mut depth = 0usize;
    for _ in 0..size {
        if depth > 0 && r.chance(2, 5) {
            let n = r.below(depth.min(4) + 1);
            let e = r.below(depth.min(6) / 2 + 1);
            let (c, n, m) = match r.below(9) {
                0 => ("cbor_array", n, 0),
                1 => ("cbor_array_vec", n, 0),
                2 => ("from_vec", n, 0),
                3 => ("cbor_map", 2 * e, 0),
                4 => ("cbor_map_collection", 2 * e, 0),
                5 => ("from_pairs", 2 * e, 0),
                6 => ("cbor_map_options", 2 * e, e),
                7 => ("cbor_tagged", 1, 0),
                _ => ("into", 1, 0),
            };
            let a = if c == "cbor_tagged" { gen::tag(r).to_be_bytes().to_vec() } else { vec![] };
            let m = (0..m).map(|_| J::s(*r.pick(&["some", "none", "plain"]))).collect();
            p.push(instr(c, &a, n, m));
            depth = depth - n + 1;
        } else {
            let int = r.u64ish();
            let neg = r.chance(1, 2);
            let w = if neg { !int } else { int }.to_be_bytes();
            let (c, a) = match r.below(9) {
                0 => (*r.pick(&["u64", "cbor_unsigned"]), w.to_vec()),
                1..=2 => (*r.pick(&["i64", "cbor_int"]), w.to_vec()),
                3 => ("i32", w[4..].to_vec()),
                4 => (*r.pick(&["vec", "slice", "cbor_bytes", "cbor_bytes_lit"]), gen::blob(r)),
                5..=6 => (*r.pick(&["string", "str", "cbor_text_str", "cbor_text_string"]), gen::text(r).into_bytes()),
                7 => (*r.pick(&["bool", "cbor_bool"]), vec![r.below(2) as u8]),
                _ => (*r.pick(&["cbor_null", "cbor_undefined", "cbor_true", "cbor_false"]), vec![]),
            };
            p.push(instr(c, &a, 0, vec![]));
            depth += 1;
        }
    }
    while depth > 1 {
        let n = depth.min(4);
        p.push(instr(*r.pick(&["cbor_array", "from_vec"]), &[], n, vec![]));
        depth = depth - n + 1;
    }
    p
}

fn session(profile: &str, r: &mut Rng, i: usize) -> Rec {
    let mut c = Rec { evs: vec![], buf: vec![] };
    match profile {
        // Strict acceptance, values, errors, re-encoding.
        "strict" => {
            for _ in 0..12 {
                let b = gen::bytes(r, true, true);
                let l = roomy(r);
                c.read(&b, l, true);
            }
            let b = gen::bytes(r, false, false);
            c.read_default(&b);
            let b = gen::bytes(r, true, true);
            c.read_default(&b);
        }
        "lenient" => {
            for _ in 0..8 {
                let hard = r.chance(1, 3);
                let b = gen::bytes(r, true, hard);
                let l = limit(r);
                c.read(&b, l, false);
                let (soft, hard) = (r.chance(1, 3), r.chance(1, 4));
                let b = gen::bytes(r, soft, hard);
                c.both(&b, l);
            }
        }
        "errors" => {
            // Several defects at once.
            for _ in 0..14 {
                let v = gen::value(r, 4);
                let mut b = vec![];
                let rate = 200 + r.below(400);
                gen::emit(&v, r, Dmg { rate, soft: true, hard: true }, &mut b);
                if r.chance(1, 3) {
                    let n = r.below(b.len() + 1);
                    b.truncate(n);
                }
                if r.chance(1, 4) {
                    b.push(0);
                }
                let l = limit(r);
                c.read(&b, l, r.clone_chance());
            }
        }
        "write" => {
            for _ in 0..10 {
                let d = 1 + r.below(4);
                let v = gen::value(r, d);
                let l = roomy(r);
                if r.chance(1, 3) {
                    c.buf.clear();
                    c.evs.push(obj! {"op" => J::s("clear")});
                }
                c.write_with(&v, l, l == Some(127));
            }
        }
        "roundtrip" => {
            for _ in 0..8 {
                let hard = r.chance(1, 4);
                let b = gen::bytes(r, hard, hard);
                let l = limit(r);
                c.reenc(&b, l);
                let v = gen::value(r, 4);
                c.reread(&v, l);
            }
        }
        "nesting" => {
            // Around every limit, through every kind of child position, both directions.
            let l = match i % 12 {
                0 => Some(127),
                1 => Some(64),
                2 => Some(126),
                3 => Some(63),
                4 => Some(1),
                5 => Some(0),
                6 => Some(-1),
                7 => Some(-128),
                8 => None,
                9 => Some(2),
                10 => Some(65),
                _ => Some(r.below(127) as i8),
            };
            for kind in [None, Some(r.below(7))] {
                let n = l.map_or(300, |x| x as i64);
                for d in [n - 1, n, n + 1, n + 2] {
                    let d = d.max(0) as usize;
                    let v = gen::chain(r, d, kind);
                    c.buf.clear();
                    c.evs.push(obj! {"op" => J::s("clear")});
                    c.write(&v, l);
                    let b = gen::canonical(&v, r);
                    c.read(&b, l, true);
                    c.read(&b, l, false);
                    if l == Some(127) {
                        c.read_default(&b);
                        c.buf.clear();
                        c.evs.push(obj! {"op" => J::s("clear")});
                        c.write_with(&v, l, true);
                    }
                }
            }
        }
        "append" => {
            let n = r.below(6);
            c.buf = (0..n).map(|_| r.next() as u8).collect();
            let buf0 = c.buf.clone();
            let base = gen::value(r, 3);
            for _ in 0..6 {
                let v = match r.below(4) {
                    0 => gen::value(r, 3),
                    1 => tweak(r, &base),
                    _ => shuffle(r, &base),
                };
                let l = limit(r);
                c.write(&v, l);
                if r.chance(1, 2) {
                    c.inspect();
                }
            }
            c.inspect();
            c.buf = buf0; // remembered below as the initial contents
        }
        "order" => {
            let d = 1 + r.below(3);
            let a = gen::value(r, d);
            let canon = r.chance(2, 3);
            let fix = |v: Value| if canon { sorted(&v) } else { v };
            let a = fix(a);
            let mut vs = vec![a.clone()];
            for _ in 0..7 {
                let b = match r.below(4) {
                    0 => gen::value(r, 2),
                    1 => shuffle(r, &a),
                    _ => tweak(r, r.0.pick_last(&vs)),
                };
                let b = fix(b);
                c.cmp(&a, &b);
                let x = r.pick(&vs).clone();
                c.cmp(&x, &b);
                c.cmp(&b, &b);
                vs.push(b);
            }
            c.sort(&vs);
        }
        "memory" => {
            for _ in 0..10 {
                // Headers that announce far more than there is, at some nesting position.
                let mut b = vec![];
                for _ in 0..r.below(4) {
                    match r.below(4) {
                        0 => b.push(0x81),
                        1 => b.push(0xa1),
                        2 => b.extend([0xa1, 0x00]),
                        _ => b.push(0xc1),
                    }
                }
                let n = match r.below(5) {
                    0 => u64::MAX >> r.below(8),
                    1 => 1 << (10 + r.below(50)),
                    2 => (1 << (10 + r.below(50))) - 1,
                    3 => 1000 + r.below(100000) as u64,
                    _ => r.u64ish(),
                };
                gen::head(*r.pick(&[2u8, 3, 4, 5, 4, 5]), n, 0, &mut b);
                let tail = r.below(40);
                let x = *r.pick(&[0x00u8, 0x80, 0xa0, 0x61, 0xf6]);
                b.extend(std::iter::repeat(x).take(tail));
                let l = roomy(r);
                c.read(&b, l, r.clone_chance());
            }
            if i % 8 == 0 {
                let v = sized(r, [1000, 3000][i / 8 % 2]);
                let b = gen::canonical(&v, r);
                c.read(&b, None, true);
                let v = gen::chain(r, 100, Some(i / 8 % 7));
                let b = gen::canonical(&v, r);
                c.read(&b, None, true);
                c.read(&b, None, false);
            }
        }
        "ffi" => {
            for _ in 0..10 {
                let (soft, hard) = (r.chance(2, 3), r.chance(1, 2));
                let b = gen::bytes(r, soft, hard);
                c.ffi(&b);
            }
            for kind in [None, Some(r.below(7))] {
                let d = 63 + r.below(3);
                let v = gen::chain(r, d, kind);
                let b = gen::canonical(&v, r);
                c.ffi(&b);
            }
            c.ffi(&[]);
        }
        "build" => {
            for _ in 0..6 {
                let n = 1 + r.below(8);
                let p = program(r, n);
                c.build(p);
                let n = match r.below(4) {
                    0 => r.u64ish(),
                    1 => (20 + r.below(4) as u64) | 1 << (5 + r.below(59)),
                    _ => r.below(300) as u64,
                };
                c.simple(n);
            }
        }
        "destructure" => {
            for _ in 0..6 {
                let n = r.below(7);
                let mut seen = vec![];
                let mut keys: Vec<Value> = vec![];
                for _ in 0..n {
                    let k = if keys.is_empty() || r.chance(2, 3) { gen::key(r, 2) } else {
                        let x = r.pick(&keys).clone();
                        tweak(r, &x)
                    };
                    push_new(&mut keys, &mut seen, sorted(&k));
                }
                // What is asked for: some of them, some others.
                let mut asked = vec![];
                let mut have = vec![];
                for k in &keys {
                    if r.chance(1, 2) {
                        push_new(&mut asked, &mut have, k.clone());
                    }
                    if r.chance(1, 3) {
                        let x = tweak(r, k);
                        push_new(&mut asked, &mut have, sorted(&x));
                    }
                }
                if r.chance(1, 2) {
                    let x = gen::key(r, 1);
                    push_new(&mut asked, &mut have, sorted(&x));
                }
                let mut rr = Rng(1);
                keys.sort_by_cached_key(|k| gen::canonical(k, &mut rr));
                asked.sort_by_cached_key(|k| gen::canonical(k, &mut rr));
                if r.chance(1, 2) && !asked.is_empty() {
                    let mut k: Vec<Value> = asked.iter().take(4).cloned().collect();
                    if r.chance(1, 2) {
                        let (i, j) = (r.below(k.len()), r.below(k.len()));
                        if r.chance(1, 2) {
                            k.swap(i, j)
                        } else {
                            k[i] = k[j].clone()
                        }
                    }
                    c.sorted_keys(&k);
                }
                let style = r.below(3);
                let calls = asked.into_iter().map(|k| (style == 1 || style == 2 && r.chance(1, 2), k)).collect();
                let m = keys.into_iter().map(|k| (k, gen::value(r, 1))).collect();
                c.destructure(m, calls);
            }
        }
        // All head-width boundaries of lengths; a few large ones.
        "sizes" => {
            let ns: &[usize] = &[0, 1, 22, 23, 24, 25, 254, 255, 256, 257, 1000];
            let n = ns[i % ns.len()];
            let v = sized(r, n);
            c.write(&v, None);
            let b = gen::canonical(&v, r);
            c.read(&b, None, true);
            c.read(&b, None, false);
            let mut wide = vec![];
            let w = Value::Array(vec![v]);
            gen::emit(&w, r, Dmg { rate: 500, soft: true, hard: false }, &mut wide);
            c.read(&wide, None, false);
            c.read(&wide, None, true);
        }
        "huge" => {
            let ns: &[usize] = &[65535, 65536, 65537];
            let n = ns[i % 3];
            let v = match i / 3 {
                0 => Value::ByteString((0..n).map(|i| (i * 7) as u8).collect()),
                1 => Value::TextString("x".repeat(n)),
                2 => Value::Array((0..n).map(|i| Value::Unsigned(i as u64 % 24)).collect()),
                _ => Value::Map((0..n).map(|i| (Value::Unsigned(i as u64), Value::Unsigned(0))).collect()),
            };
            c.write(&v, None);
            let b = gen::canonical(&v, r);
            c.read(&b, None, i % 2 == 0);
        }
        p => panic!("HARNESS: profile {}", p),
    }
    c
}

trait PickLast {
    fn pick_last<'a>(&self, v: &'a [Value]) -> &'a Value;
}
impl PickLast for u64 {
    fn pick_last<'a>(&self, v: &'a [Value]) -> &'a Value {
        &v[(*self >> 7) as usize % v.len()]
    }
}
trait CloneChance {
    fn clone_chance(&mut self) -> bool;
}
impl CloneChance for Rng {
    fn clone_chance(&mut self) -> bool {
        self.chance(1, 2)
    }
}

pub fn record(profile: &str, seed: u64, n: usize, out: &str) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut evs = 0;
    let salt = profile.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    for i in 0..n {
        let mut r = Rng::new(seed, salt ^ ((i as u64) << 20));
        let c = session(profile, &mut r, i);
        evs += c.evs.len();
        let buf0 = if profile == "append" { c.buf } else { vec![] };
        let s = obj! {"sid" => J::Num(i as i64), "profile" => J::s(profile), "buf" => bytes(&buf0), "evs" => J::Arr(c.evs)};
        writeln!(f, "{}", s.show()).unwrap();
    }
    f.flush().unwrap();
    println!("DONE {} {}", n, evs);
}
