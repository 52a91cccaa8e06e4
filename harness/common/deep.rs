//! Chains of nested containers, described by the specification DeepMachine.
use super::json::J;
use super::model::to_bytes;

pub fn expand(j: &J) -> Vec<u8> {
    let p: Vec<(Vec<u8>, Vec<u8>)> = j.f("p").arr().iter().map(|k| (to_bytes(k.f("pre")), to_bytes(k.f("post")))).collect();
    let n = j.f("n").num() as usize;
    let mut b = vec![];
    for i in 0..n {
        b.extend(&p[i % p.len()].0);
    }
    b.extend(to_bytes(j.f("end")));
    for i in (0..n).rev() {
        b.extend(&p[i % p.len()].1);
    }
    b.extend(to_bytes(j.f("more")));
    b
}
