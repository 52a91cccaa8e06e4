use super::*;

pub fn err_name<E: std::fmt::Debug>(e: &E) -> J {
    J::Str(format!("{:?}", e).split(|c| c == '(' || c == ' ').next().unwrap().to_string())
}
pub fn read(b: &[u8], l: Option<i8>, strict: bool) -> (J, Option<Value>, usize) {
    let (r, peak) = call(|| if strict { reader::read_nested(b, l) } else { reader::read_nested_non_strict(b, l) });
    let (j, v) = outcome(r);
    (j, v, peak)
}
pub fn outcome(r: Result<Result<Value, reader::DecoderError>, ()>) -> (J, Option<Value>) {
    match r {
        Ok(Ok(v)) => (obj! {"k" => J::s("ok"), "v" => val(&v)}, Some(v)),
        Ok(Err(e)) => (obj! {"k" => J::s("err"), "e" => err_name(&e)}, None),
        Err(()) => (obj! {"k" => J::s("panic")}, None),
    }
}
pub fn write(v: Value, buf: &mut Vec<u8>, l: Option<i8>) -> J {
    match call(|| writer::write_nested(v, buf, l)).0 {
        Ok(Ok(())) => obj! {"k" => J::s("ok")},
        Ok(Err(e)) => obj! {"k" => J::s("err"), "e" => err_name(&e)},
        Err(()) => obj! {"k" => J::s("panic")},
    }
}

/// What kind of test this was, and the real outcome if it is not what the test expects (as far as
/// the property speaks about it).
pub fn replay(prop: &str, t: &J) -> (String, Option<J>) {
    doing(t);
    match t.f("op").str() {
        "ffi" => {
            let ret = ffi::verdict(&to_bytes(t.f("b")));
            let kind = format!("ffi {}", if t.f("ret").num() == 0 { "accepted" } else { "refused" });
            (kind, if ret == t.f("ret").num() { None } else { Some(J::Num(ret)) })
        }
        "deep" => {
            let b = deep::expand(t);
            let kind = format!("deep {} {}", t.f("strict").str(), if t.f("n").num() > 1000 { "long" } else { "short" });
            let mut bad = vec![];
            for c in t.f("reads").arr() {
                let (l, s, e) = (to_lim(c.f("l")), c.f("s").bool(), c.f("e").str());
                let (r, v, peak) = read(&b, l, s);
                let got = r.f("k").str() == "ok";
                let name = if got { "" } else if r.f("k").str() == "err" { r.f("e").str() } else { "panic" };
                let mut fine = match prop {
                    "P06" => name != "panic",
                    "P25" => peak <= 4096 + 1024 * b.len().min(4096),
                    "P07" => got || name == e,
                    "P05" => (name == "TooMuchNesting") == (e == "TooMuchNesting") && got == (e == ""),
                    _ => name == e,
                };
                if let (Some(v), "P05") = (v, prop) {
                    // The writer judges what has been read like the reader.
                    for l in t.f("reads").arr().iter().map(|c| to_lim(c.f("l"))) {
                        let w = write(v.clone(), &mut vec![], l);
                        let deep = l.map_or(false, |l| t.f("n").num() > l as i64);
                        fine &= if deep { w.f("k").str() == "err" && w.f("e").str() == "TooMuchNesting" } else { w.f("k").str() == "ok" };
                    }
                }
                if !fine {
                    bad.push(obj! {"l" => c.f("l").clone(), "s" => J::Bool(s), "got" => J::s(name)});
                }
            }
            // The entry points with fixed limits.
            let strict = t.f("strict").str() == "";
            let lenient = t.f("lenient").str() == "";
            let verdicts = [
                ("reader::read", t.f("default").str() == "", call(|| reader::read(&b).is_ok()).0),
                ("from_slice", strict, call(|| oasis_cbor::from_slice::<Value>(&b).is_ok()).0),
                ("from_slice_non_strict", lenient, call(|| oasis_cbor::from_slice_non_strict::<Value>(&b).is_ok()).0),
                ("C entry point", lenient, Ok(ffi::verdict(&b) == 0)),
            ];
            for (name, want, got) in verdicts {
                let fine = match prop {
                    "P06" => got.is_ok(),
                    "P25" | "P07" => true,
                    "P26" => name != "C entry point" || got == Ok(want),
                    _ => got == Ok(want),
                };
                if !fine {
                    bad.push(obj! {"entry" => J::s(name), "want" => J::Bool(want), "got" => J::Str(format!("{:?}", got))});
                }
            }
            (kind, if bad.is_empty() { None } else { Some(J::Arr(bad)) })
        }
        "wide" if prop == "P08" => {
            if !t.f("plain").bool() {
                return ("wide, not plain".into(), None);
            }
            let list = wide::ordered(t);
            let mut bad = vec![];
            for (i, a) in list.iter().enumerate() {
                for (j, b) in list.iter().enumerate() {
                    let r = call(|| (a.cmp(b), a.partial_cmp(b), a == b, a.clone() == *b)).0;
                    let c = i.cmp(&j);
                    if r != Ok((c, Some(c), i == j, i == j)) {
                        bad.push(J::Str(format!("{} against {}: {:?}", i, j, r)));
                    }
                }
            }
            ("wide".into(), if bad.is_empty() { None } else { Some(J::Arr(bad)) })
        }
        "wide" => {
            let b = wide::expand(t);
            let want = wide::value(t);
            let mut bad = vec![];
            let mut check = |what: &str, fine: bool, got: J| {
                if !fine {
                    bad.push(obj! {"wrong" => J::s(what), "got" => got});
                }
            };
            let short = |v: &Value| J::Str(format!("{:?}", v).chars().take(200).collect());
            for (s, e) in [(true, t.f("strict").str()), (false, t.f("lenient").str())] {
                for l in [Some(64), None] {
                    let (r, peak) = call(|| if s { reader::read_nested(&b, l) } else { reader::read_nested_non_strict(&b, l) });
                    let name = match &r {
                        Ok(Ok(_)) => "".to_string(),
                        Ok(Err(e)) => err_name(e).str().to_string(),
                        Err(()) => "panic".to_string(),
                    };
                    let got = match &r {
                        Ok(Ok(v)) => short(v),
                        _ => J::Str(name.clone()),
                    };
                    let value = match &r {
                        Ok(Ok(v)) => wide::same(v, &want),
                        _ => false,
                    };
                    let fine = match prop {
                        "P06" => name != "panic",
                        "P25" => name != "panic" && peak <= 4096 + 1024 * b.len(),
                        "P07" => name == "" || name == e,
                        "P01" => !s || (name == "" && e == "" && value) || (name != "" && e != ""),
                        "P04" if s => name != "" || wide::same(r.as_ref().unwrap().as_ref().unwrap(), &want),
                        "P02" | "P09" | "P26" => true,
                        "P03" => {
                            !s || match &r {
                                Ok(Ok(v)) => {
                                    let mut out = vec![];
                                    write(v.clone(), &mut out, l).f("k").str() == "ok" && out == b
                                }
                                _ => true,
                            }
                        }
                        _ => name == e && (name != "" || value),
                    };
                    check(if s { "strict" } else { "lenient" }, fine, got);
                }
            }
            if matches!(prop, "P02" | "P03" | "P09" | "P29") && t.f("writable").bool() {
                for l in [Some(64), None] {
                    let mut buf = vec![1, 2, 3];
                    let r = write(want.clone(), &mut buf, l);
                    let keep = buf.len() >= 3 && buf[..3] == [1, 2, 3];
                    let add = &buf[3.min(buf.len())..];
                    let fine = match (r.f("k").str(), prop) {
                        ("panic", _) => false,
                        (_, "P09") => keep,
                        ("ok", "P03") => call(|| reader::read_nested(add, l)).0.map_or(false, |r| r.is_ok()),
                        (_, "P03") => true,
                        ("ok", _) => keep && t.f("refusal").str() == "" && add == &wide::canonical(t)[..],
                        _ => keep && r.f("e").str() == t.f("refusal").str(),
                    };
                    let mut r = r;
                    r.set("buf", bytes(&buf[..buf.len().min(40)]));
                    check("write", fine, r);
                }
            }
            if prop == "P29" {
                let r = replay("P08", t).1;
                check("order", r.is_none(), r.unwrap_or(J::Num(0)));
            }
            if matches!(prop, "P26" | "P29") {
                let ret = ffi::verdict(&b);
                check("C entry point", (ret == 0) == (t.f("lenient").str() == ""), J::Num(ret));
            }
            let kind = format!("wide {} {}", t.f("strict").str(), if t.f("n").num() > 65535 { "very" } else { "" });
            (kind, if bad.is_empty() { None } else { Some(J::Arr(bad)) })
        }
        "build" => {
            let r = construct::build(t.f("prog"));
            let last = t.f("prog").arr().last().unwrap();
            let fine = r.f("k").str() == "ok" && r.f("v") == t.f("v") && r.f("o") == t.f("v") && r.f("label") == t.f("label");
            (format!("build {}", last.f("c").str()), if fine { None } else { Some(r) })
        }
        "simple" => {
            let r = construct::simple(t.f("n"));
            (format!("simple {}", t.f("r").arr().len()), if &r == t.f("r") { None } else { Some(r) })
        }
        "destructure" => {
            let calls: Vec<(bool, Value)> =
                t.f("calls").arr().iter().map(|c| (c.f("mode").str() == "strict", to_val(c.f("key")))).collect();
            let want: Vec<(J, J)> = t.f("calls").arr().iter().map(|c| (c.f("ans").clone(), c.f("v").clone())).collect();
            let (got, rest) = construct::destructure(t.f("m"), &calls);
            let mut fine = got == want && &rest == t.f("rest");
            let mut kind = "destructure".to_string();
            if calls.iter().all(|c| !c.0) && calls.windows(2).all(|w| val(&w[0].1) != val(&w[1].1)) {
                kind += " macro";
                let keys: Vec<Value> = calls.iter().map(|c| c.1.clone()).collect();
                fine &= construct::destructure_macro(t.f("m"), &keys).map_or(true, |g| g == want);
            }
            let show = || obj! {"answers" => J::Arr(got.iter().map(|(a, v)| J::Arr(vec![a.clone(), v.clone()])).collect()), "rest" => rest.clone()};
            (kind, if fine { None } else { Some(show()) })
        }
        "read" => {
            let b = to_bytes(t.f("b"));
            let l = to_lim(t.f("l"));
            let strict = t.f("s").bool();
            let (r, rv, peak) = read(&b, l, strict);
            let e = t.f("e").str();
            let kind = format!("read {} {}", if strict { "strict" } else { "lenient" }, if e == "" { "ok" } else { e });
            let ok = r.f("k").str() == "ok";
            let err = r.f("k").str() == "err";
            let same = ok && e == "" && r.f("v") == t.f("v");
            let deep = |x: &str| x == "TooMuchNesting";
            let fine = match prop {
                "P01" => !strict || same || (err && e != ""),
                "P03" => {
                    // Accepted bytes re-encode to themselves.
                    !strict || rv.map_or(true, |v| {
                        let mut out = vec![];
                        write(v, &mut out, l).f("k").str() == "ok" && out == b
                    })
                }
                "P05" => (err && deep(r.f("e").str())) == deep(e) && (e != "" || ok),
                "P06" => r.f("k").str() != "panic",
                "P07" => !err || r.f("e").str() == e,
                "P25" => r.f("k").str() != "panic" && peak <= 4096 + 1024 * b.len(),
                "P04" if strict => {
                    // Whatever strict decoding accepts, non-strict decoding accepts alike.
                    !ok || read(&b, l, false).0 == r
                }
                _ => same || (err && r.f("e").str() == e),
            };
            (kind, if fine { None } else { Some(r) })
        }
        "writes" => {
            let mut buf = to_bytes(t.f("pre"));
            let mut kind = "writes".to_string();
            for c in t.f("calls").arr() {
                let v = to_val(c.f("v"));
                let l = to_lim(c.f("l"));
                let old = buf.clone();
                let r = write(v.clone(), &mut buf, l);
                let errs: Vec<&str> = c.f("errs").arr().iter().map(|x| x.str()).collect();
                kind += &format!(" {}", if errs.is_empty() { "ok".into() } else { errs.join("+") });
                let keep = buf.len() >= old.len() && buf[..old.len()] == old[..];
                let add = &buf[old.len().min(buf.len())..];
                let k = r.f("k").str();
                let deep = |x: &str| x == "TooMuchNesting";
                let fine = k != "panic"
                    && match prop {
                        "P05" if k == "ok" => !errs.contains(&"TooMuchNesting"),
                        "P05" => errs.len() > 1 || errs.contains(&"TooMuchNesting") == deep(r.f("e").str()),
                        "P03" if k == "ok" => {
                            let d = read(add, l, true).0;
                            d.f("k").str() == "ok" && d.f("v") == c.f("canon")
                        }
                        "P03" => true,
                        "P09" if k == "ok" => {
                            let mut alone = vec![];
                            write(v.clone(), &mut alone, l);
                            keep && add == &alone[..]
                        }
                        "P09" => keep,
                        _ if k == "ok" => keep && errs.is_empty() && add == &to_bytes(c.f("out"))[..],
                        _ => keep && errs.contains(&r.f("e").str()),
                    };
                if !fine {
                    let mut r = r;
                    r.set("buf", bytes(&buf));
                    return (kind, Some(r));
                }
                if k != "ok" {
                    break;
                }
            }
            (kind, None)
        }
        "cmp" => {
            let (a, b) = (to_val(t.f("a")), to_val(t.f("b")));
            let c = t.f("c").num();
            let r = call(|| (a.cmp(&b) as i64, b.cmp(&a) as i64, a.partial_cmp(&b).map(|x| x as i64), a == b)).0;
            let kind = format!("cmp {}", if t.f("a").arr()[0] == t.f("b").arr()[0] { "same type" } else { "other type" });
            let fine = r == Ok((c, -c, Some(c), c == 0));
            (kind, if fine { None } else { Some(J::Str(format!("{:?}", r))) })
        }
        op => panic!("HARNESS: op {}", op),
    }
}
