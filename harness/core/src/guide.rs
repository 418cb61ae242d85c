//! Coverage-guided search over choice sequences. The binary is built with LLVM's inline 8-bit
//! edge counters (see tools/guided.py); a case that reaches a new edge, or a known one a new number
//! of times, joins the corpus, and later cases are mutations of the corpus. One process, one
//! thread, a fixed number of cases: the same seed does the same work.
use crate::{hash64, json::J, rng::Src, runner::*};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

/// the counters of every instrumented part of the binary
static TABLES: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());

#[cfg(vp_cov)]
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let mut t = TABLES.lock().unwrap();
    let e = (start as usize, stop as usize);
    if e.0 < e.1 && !t.contains(&e) {
        t.push(e);
    }
}
#[cfg(vp_cov)]
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_start: *const usize, _stop: *const usize) {}

fn counters() -> Vec<&'static mut [u8]> {
    TABLES
        .lock()
        .unwrap()
        .iter()
        .map(|(a, b)| unsafe { std::slice::from_raw_parts_mut(*a as *mut u8, b - a) })
        .collect()
}

fn bucket(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

struct Entry {
    choices: Vec<u32>,
    news: usize,
    picked: usize,
}

/// a variation of the corpus: the beginning to replay, and whether what follows is random
fn mutate(r: &mut Src, corpus: &mut [Entry]) -> (Vec<u32>, bool) {
    // half of the time among the latest entries, otherwise the least used of a few
    let n = corpus.len();
    let i = if r.chance(1, 2) {
        n - 1 - r.below(n.min(64))
    } else {
        let c: Vec<usize> = (0..4).map(|_| r.below(n)).collect();
        *c.iter().min_by_key(|i| corpus[**i].picked / corpus[**i].news.clamp(1, 16)).unwrap()
    };
    corpus[i].picked += 1;
    let mut v = corpus[i].choices.clone();
    let mut tail = r.chance(1, 3);
    for _ in 0..1 + r.below(4) {
        let len = v.len();
        if len == 0 {
            return (v, true);
        }
        let at = r.below(len);
        match r.below(9) {
            0 | 1 => v[at] = r.below(64) as u32,
            2 => v[at] = v[at].wrapping_add(1),
            3 => v[at] = v[at].saturating_sub(1),
            4 => {
                let k = 1 + r.below(8.min(len - at));
                v.drain(at..at + k);
            }
            5 => {
                let k = 1 + r.below(8);
                let ins: Vec<u32> = (0..k).map(|_| r.below(32) as u32).collect();
                v.splice(at..at, ins);
            }
            6 => {
                // repeat a piece
                let k = 1 + r.below(24.min(len - at));
                let piece = v[at..at + k].to_vec();
                v.splice(at..at, piece);
            }
            7 => {
                // go on as another entry does
                let o = r.below(n);
                let o = &corpus[o].choices;
                if !o.is_empty() {
                    let from = if r.chance(1, 2) { at.min(o.len() - 1) } else { r.below(o.len()) };
                    v.truncate(at);
                    v.extend_from_slice(&o[from..]);
                }
            }
            _ => {
                v.truncate(at);
                tail = true;
            }
        }
        v.truncate(1 << 16);
    }
    (v, tail)
}

/// `guide --suite N --seed S --cases N --slot K --out F --last F`
/// F of `--last` holds the choices of the running case, for the case of a crash
pub fn main(suites: &[Suite]) -> ! {
    let name = arg("--suite").expect("--suite");
    let s = suites.iter().find(|s| s.name == name).expect("suite");
    let num = |n: &str, d: u64| arg(n).and_then(|x| x.parse().ok()).unwrap_or(d);
    let (seed, total, slot) = (num("--seed", 1), num("--cases", 10_000), num("--slot", 0));
    let max_s = num("--max-seconds", 0);
    let hang = num("--hang-seconds", 60) * 1000;
    let out = arg("--out").expect("--out");
    let last = std::fs::File::create(arg("--last").expect("--last")).expect("last");
    let tables = counters();
    if tables.is_empty() {
        eprintln!("this binary was not built with coverage counters");
        std::process::exit(2);
    }
    let start = Instant::now();
    LIMIT.store(LIVE.load(Relaxed) + (3i64 << 30), Relaxed);
    let beat = AtomicU64::new(1);
    let done = AtomicU64::new(0);
    std::thread::scope(|sc| {
        let h = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(sc, || {
                let r = search(s, seed, slot, total, max_s, tables, &last, &start, &beat, &out);
                done.store(1, SeqCst);
                r
            })
            .unwrap();
        while done.load(SeqCst) == 0 && !h.is_finished() {
            std::thread::sleep(std::time::Duration::from_millis(50));
            let now = start.elapsed().as_millis() as u64 + 1;
            if now.saturating_sub(beat.load(Relaxed)) > hang {
                eprintln!("hang: a case did not finish within {hang} ms");
                std::process::exit(98);
            }
        }
        let bad = h.join().expect("search");
        std::process::exit(if bad { 1 } else { 0 });
    })
}

#[allow(clippy::too_many_arguments)]
fn search(
    s: &Suite,
    seed: u64,
    slot: u64,
    total: u64,
    max_s: u64,
    mut tables: Vec<&'static mut [u8]>,
    last: &std::fs::File,
    start: &Instant,
    beat: &AtomicU64,
    out: &str,
) -> bool {
    let mut seen: Vec<Vec<u8>> = tables.iter().map(|t| vec![0; t.len()]).collect();
    let mut r = Src::fresh(hash64(&(seed, slot, s.name, "guide")));
    let mut corpus: Vec<Entry> = vec![];
    let mut cx = Cx { want_samples: 1, ..Default::default() };
    let (mut ran, mut edges, mut features, mut edges_start) = (0u64, 0u64, 0u64, 0u64);
    let begin = (total / 20).clamp(50, 2000);
    let mut fail = None;
    while ran < total && !(max_s > 0 && start.elapsed().as_secs() >= max_s) {
        beat.store(start.elapsed().as_millis() as u64 + 1, Relaxed);
        r.rec.clear();
        let tail_seed = hash64(&(seed, slot, s.name, ran, "tail"));
        let mut src = if ran < begin || corpus.is_empty() {
            Src::fresh(tail_seed)
        } else {
            let (v, tail) = mutate(&mut r, &mut corpus);
            if tail { Src::prefix(v, tail_seed) } else { Src::replay(v) }
        };
        // what a crash would be replayed from
        let (pre, fresh) = src.start();
        let mut b = vec![];
        b.extend_from_slice(&(pre.len() as u64).to_le_bytes());
        b.extend_from_slice(&(fresh as u64).to_le_bytes());
        b.extend_from_slice(&tail_seed.to_le_bytes());
        for c in pre {
            b.extend_from_slice(&c.to_le_bytes());
        }
        let _ = last.write_at(&b, 0);
        for t in tables.iter_mut() {
            t.fill(0);
        }
        let res = exec(s, &mut src, &mut cx);
        ran += 1;
        if let Err(m) = res {
            fail = Some((src.rec, m));
            break;
        }
        let mut news = 0;
        for (t, sn) in tables.iter().zip(&mut seen) {
            for (ch, sc) in t.chunks(8).zip(sn.chunks_mut(8)) {
                if ch.len() == 8 && u64::from_ne_bytes(ch.try_into().unwrap()) == 0 {
                    continue;
                }
                for (n, old) in ch.iter().zip(sc) {
                    let b = bucket(*n);
                    if b & !*old != 0 {
                        if *old == 0 {
                            edges += 1;
                        }
                        features += 1;
                        news += 1;
                        *old |= b;
                    }
                }
            }
        }
        if news > 0 {
            corpus.push(Entry { choices: src.rec, news, picked: 0 });
        }
        if ran == begin {
            edges_start = edges;
        }
    }
    let mut viol = J::Null;
    if let Some((choices, msg)) = fail {
        let hb = || beat.store(start.elapsed().as_millis() as u64 + 1, Relaxed);
        let (choices, small, desc) = shrink(s, choices, msg.clone(), false, &hb);
        viol = J::Obj(vec![
            ("suite".into(), J::s(s.name)),
            ("seed".into(), J::s(seed.to_string())),
            ("message".into(), J::s(small)),
            ("original_message".into(), J::s(msg)),
            ("description".into(), J::s(desc)),
            ("choices".into(), J::Arr(choices.iter().map(|c| J::n(*c as u64)).collect())),
        ]);
    }
    let bad = viol != J::Null;
    let mut labels: Vec<(String, J)> = cx.labels.iter().map(|(k, v)| (k.to_string(), J::n(*v))).collect();
    labels.push(("guided: corpus entries".into(), J::n(corpus.len() as u64)));
    labels.push(("guided: edges reached".into(), J::n(edges)));
    labels.push(("guided: edges reached by the first, unguided cases".into(), J::n(edges_start)));
    labels.push(("guided: edge and count pairs".into(), J::n(features)));
    let j = J::Obj(vec![
        ("suite".into(), J::s(s.name)),
        ("rule".into(), J::s(s.rule)),
        ("cases".into(), J::n(ran)),
        ("evaluations".into(), J::n(cx.evals)),
        ("distinct_nontrivial".into(), J::n(cx.keys.len() as u64)),
        ("labels".into(), J::Obj(labels)),
        ("samples".into(), J::Arr(cx.samples.into_iter().map(J::Str).collect())),
        ("violation".into(), viol),
        ("wall_s".into(), J::Num((start.elapsed().as_millis() as f64) / 1000.0)),
    ]);
    std::fs::write(out, j.to_text()).expect("write out");
    bad
}
