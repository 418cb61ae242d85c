//! Many threads use each grammar for the first time at once.
use crate::suites::{describe, stat};
use crate::{entries, seed, Entry};
use std::sync::{Arc, Barrier};
use teleparse::{GrammarError, Parser};
use vp_core::{hash64, Src};
use vp_dyn::compare::*;
use vp_dyn::input::text;
use vp_dyn::lx::*;
use vp_dyn::model::{Nd, Tables};

fn once(e: &Entry, src: &str) -> String {
    let f = || -> Result<Result<Out, GrammarError>, String> {
        let mut p = Parser::<Lx>::new(src).map_err(|e| e.to_string())?;
        let tree = match (e.parse)(&mut p) {
            Ok(t) => t,
            Err(e) => return Ok(Err(e)),
        };
        snapshot(&mut p, tree, src).map(Ok)
    };
    format!("{:?} {:?}", f(), (e.root_parse)(src))
}
/// prints `evals`, `races`, and a failure if any
pub fn run(round: u64, out: &str) -> i32 {
    let mut s = Src::fresh(hash64(&("race", seed(), round)));
    let (_, n) = seed();
    let mut all: Vec<(usize, usize)> = vec![];
    for i in 0..n {
        let st = stat(i);
        all.extend((0..st.defs.len()).filter(|j| st.defs[*j].root).map(|j| (i, j)));
    }
    for i in (1..all.len()).rev() {
        all.swap(i, s.below(i + 1));
    }
    let (mut evals, mut races) = (0u64, 0u64);
    let mut fail = String::new();
    let mut sample = String::new();
    for (i, j) in all {
        let st = stat(i);
        let e: &'static Entry = entries(i)[j].as_ref().unwrap();
        let t = Tables::new(&st.gram, &Nd::Ref(j));
        let inputs: Vec<String> = (0..3).map(|_| if t.verdict.is_ok() { text(&mut s, &st.gram, &t, j) } else { "a + 1".into() }).collect();
        let k = s.range(2, 9);
        let bar = Arc::new(Barrier::new(k));
        let hs: Vec<_> = (0..k)
            .map(|w| {
                let bar = bar.clone();
                let inputs = inputs.clone();
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || {
                        bar.wait();
                        let at = if w % 3 == 0 { (e.at)() } else { 0 };
                        let r: Vec<String> = (0..inputs.len()).map(|x| once(e, &inputs[(x + w) % inputs.len()])).collect();
                        let at = if w % 3 == 0 { at } else { (e.at)() };
                        (at, r)
                    })
                    .unwrap()
            })
            .collect();
        let got: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
        let single: Vec<String> = inputs.iter().map(|x| once(e, x)).collect();
        let ok = (e.verdict)().is_ok();
        races += 1;
        if sample.is_empty() && i % 5 == 0 {
            sample = format!("{} with {k} threads", describe(&st, j, &inputs[0]));
        }
        if ok != t.verdict.is_ok() {
            fail = format!("{}: the grammar is accepted: {ok}, by definition {:?}", describe(&st, j, ""), t.verdict);
        }
        for (w, g) in got.into_iter().enumerate() {
            match g {
                Err(_) => fail = format!("{}: thread {w} of {k} panicked", describe(&st, j, &inputs[0])),
                Ok((at, r)) => {
                    if at != (e.at)() {
                        fail = format!("{}: thread {w} of {k} got other tables", describe(&st, j, ""));
                    }
                    for (x, y) in r.iter().enumerate() {
                        evals += 1;
                        let z = (x + w) % inputs.len();
                        if *y != single[z] {
                            fail = format!("{}: thread {w} of {k} got {y} instead of {}", describe(&st, j, &inputs[z]), single[z]);
                        }
                    }
                }
            }
        }
        if !fail.is_empty() {
            break;
        }
    }
    std::fs::write(out, format!("{evals}\n{races}\n{}\n\u{1}\n{sample}", fail)).unwrap();
    i32::from(!fail.is_empty())
}
