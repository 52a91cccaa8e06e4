//! The main program shared by the harnesses.
use super::guard;
use super::json::{self, J};
use std::io::{BufRead, Write};

pub fn main(f: fn(Vec<String>)) {
    guard::install();
    std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || f(std::env::args().collect()))
        .unwrap()
        .join()
        .unwrap_or_else(|_| std::process::exit(3));
}

/// Replay tests emitted by TLC and compare.  `-` reads TLC's own output, whose other lines are
/// passed on with a prefix.  The replay returns the kind of test and what is wrong, if anything.
pub fn exec(prop: &str, path: &str, replay: impl Fn(&str, &J) -> (String, Option<J>)) {
    let f: Box<dyn BufRead> = if path == "-" {
        Box::new(std::io::BufReader::with_capacity(1 << 20, std::io::stdin()))
    } else {
        Box::new(std::io::BufReader::new(std::fs::File::open(path).unwrap()))
    };
    let (mut n, mut bad, mut deep_bad) = (0usize, 0usize, 0usize);
    let out = std::io::stdout();
    let mut out = out.lock();
    let mut findings = std::collections::BTreeMap::new();
    let mut kinds = std::collections::BTreeMap::new();
    for line in f.lines() {
        let mut line = line.unwrap();
        if path == "-" {
            match line.strip_prefix("\"@@") {
                Some(l) => line = l[..l.len() - 1].replace("\\\"", "\""),
                None => {
                    writeln!(out, "TLC {}", line).unwrap();
                    continue;
                }
            }
        }
        let t = json::parse(&line);
        n += 1;
        // Wrongly accepted chains cost more and more, and say nothing new.
        let deep = t.f("op").str() == "deep";
        if deep && deep_bad >= 20 {
            *kinds.entry("deep given up".into()).or_insert(0usize) += 1;
            continue;
        }
        guard::doing(&t);
        let (kind, got) = replay(prop, &t);
        let c = kinds.entry(kind).or_insert(0usize);
        *c += 1;
        if *c <= 2 {
            writeln!(out, "SAMPLE {}", t.show()).unwrap();
        }
        if let Some(got) = got {
            deep_bad += deep as usize;
            // Mismatches that may be listed findings are told apart by their names.
            let again = match &got {
                J::Obj(o) if o.iter().any(|(k, _)| k == "finding") => {
                    let c = findings.entry(got.f("finding").show()).or_insert(0);
                    *c += 1;
                    *c - 1
                }
                _ => {
                    bad += 1;
                    bad
                }
            };
            if again <= 20 {
                let mut t = t.clone();
                t.set("got", got);
                writeln!(out, "BAD {}", t.show()).unwrap();
            }
        }
    }
    for (k, c) in kinds {
        writeln!(out, "KIND {} {}", c, k).unwrap();
    }
    writeln!(out, "DONE {} {}", n, bad).unwrap();
}
