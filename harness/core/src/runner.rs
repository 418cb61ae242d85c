use crate::{hash64, json::J, rng::Src};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Counts live bytes, so that a case that allocates without bound is reported instead of taking
/// the machine down.
pub struct TrackAlloc;
pub(crate) static LIVE: AtomicI64 = AtomicI64::new(0);
pub(crate) static LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);
static TRIPPED: AtomicBool = AtomicBool::new(false);
unsafe impl GlobalAlloc for TrackAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
        if n > LIMIT.load(Relaxed) && !TRIPPED.swap(true, SeqCst) {
            // exit code 97: the driver turns it into a violation of the running case
            std::process::exit(97);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let d = new as i64 - l.size() as i64;
        let n = LIVE.fetch_add(d, Relaxed) + d;
        if n > LIMIT.load(Relaxed) && !TRIPPED.swap(true, SeqCst) {
            std::process::exit(97);
        }
        System.realloc(p, l, new)
    }
}

#[derive(Default)]
pub struct Cx {
    pub evals: u64,
    pub keys: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub want_samples: usize,
    pub thorough: bool,
    /// human-readable description of the failing case (set right before failing)
    pub desc: String,
}
impl Cx {
    /// one oracle evaluation; `nontrivial` by the suite's rule, `key` identifies the case
    pub fn eval<K: std::hash::Hash, F: FnOnce() -> String>(&mut self, nontrivial: bool, key: &K, sample: F) {
        self.evals += 1;
        if nontrivial && self.keys.insert(hash64(key)) && self.samples.len() < self.want_samples {
            self.samples.push(sample());
        }
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_default() += 1;
    }
    pub fn label_n(&mut self, l: &'static str, n: u64) {
        *self.labels.entry(l).or_default() += n;
    }
}

pub struct Suite {
    pub name: &'static str,
    pub rule: &'static str,
    pub run: fn(&mut Src, &mut Cx) -> Result<(), String>,
    pub quick: u64,
    pub thorough: u64,
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

/// run one case; a panic of the code under test counts as a failure
pub fn exec(s: &Suite, src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| (s.run)(src, cx))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC_MSG.with(|m| m.borrow().clone()))),
    }
}

pub(crate) fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

struct Fail {
    case: u64,
    choices: Vec<u32>,
    msg: String,
}

pub(crate) fn shrink(s: &Suite, start: Vec<u32>, msg: String, thorough: bool, beat: &dyn Fn()) -> (Vec<u32>, String, String) {
    let mut best = start;
    let mut best_msg = msg;
    let mut best_desc = String::new();
    let deadline = Instant::now() + Duration::from_secs(20);
    let mut budget = 4000u32;
    let mut attempt = |cand: Vec<u32>, best: &mut Vec<u32>, bm: &mut String, bd: &mut String, force: bool| -> bool {
        if !force && (budget == 0 || Instant::now() > deadline) {
            return false;
        }
        budget = budget.saturating_sub(1);
        beat();
        let mut src = Src::replay(cand);
        let mut cx = Cx { thorough, ..Default::default() };
        if let Err(m) = exec(s, &mut src, &mut cx) {
            let mut used = src.rec;
            while used.last() == Some(&0) {
                used.pop();
            }
            if force || used.len() < best.len() || (used.len() == best.len() && used < *best) {
                *best = used;
                *bm = m;
                *bd = cx.desc;
                return true;
            }
        }
        false
    };
    let b = best.clone();
    attempt(b, &mut best, &mut best_msg, &mut best_desc, true);
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !attempt(c, &mut best, &mut best_msg, &mut best_desc, false) {
                    let mut c = best.clone();
                    let mut ch = false;
                    for x in &mut c[i..i + size] {
                        if *x != 0 {
                            *x = 0;
                            ch = true;
                        }
                    }
                    if !ch || !attempt(c, &mut best, &mut best_msg, &mut best_desc, false) {
                        i += size.max(1);
                    }
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for nv in [v / 2, v.saturating_sub(1)] {
                if nv < v {
                    let mut c = best.clone();
                    if i < c.len() {
                        c[i] = nv;
                        if attempt(c, &mut best, &mut best_msg, &mut best_desc, false) {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || Instant::now() > deadline {
            break;
        }
    }
    (best, best_msg, best_desc)
}

pub(crate) fn case_seed(seed: u64, suite: &str, i: u64) -> u64 {
    hash64(&(seed, suite, i))
}

/// `run --suite N --seed S --tier quick|thorough --out F --cursor F [--scale PERCENT]`
/// `replay --file F`  (file: {"suite":..,"choices":[..]} or {"suite","seed","case"})
pub fn main(suites: &[Suite]) -> ! {
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{m}{loc}"));
    }));
    let mode = std::env::args().nth(1).unwrap_or_default();
    if mode == "list" {
        for s in suites {
            println!("{}", s.name);
        }
        std::process::exit(0);
    }
    if mode == "replay" {
        let f = arg("--file").expect("--file");
        let j = J::parse(&std::fs::read_to_string(f).expect("replay file")).expect("json");
        let name = j.get("suite").map(|x| x.str().to_string()).unwrap_or_default();
        let s = suites.iter().find(|s| s.name == name).expect("suite");
        let mut src = match j.get("choices") {
            Some(J::Arr(v)) => {
                let v = v.iter().map(|x| if let J::Num(n) = x { *n as u32 } else { 0 }).collect();
                match j.get("tail_seed") {
                    Some(t) => Src::prefix(v, t.str().parse().expect("tail_seed")),
                    None => Src::replay(v),
                }
            }
            _ => {
                let num = |k: &str| match j.get(k) {
                    Some(J::Num(n)) => *n as u64,
                    Some(J::Str(s)) => s.parse().unwrap(),
                    _ => 0,
                };
                Src::fresh(case_seed(num("seed"), &name, num("case")))
            }
        };
        let mut cx = Cx::default();
        let r = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn({
                let s = Suite { name: s.name, rule: s.rule, run: s.run, quick: 0, thorough: 0 };
                move || {
                    let r = exec(&s, &mut src, &mut cx);
                    (r, cx.desc)
                }
            })
            .unwrap()
            .join()
            .unwrap();
        match r {
            (Ok(()), _) => {
                println!("replay: property holds on this case");
                std::process::exit(0)
            }
            (Err(m), d) => {
                println!("replay: FAILS: {m}\n{d}");
                std::process::exit(1)
            }
        }
    }
    if mode == "guide" {
        crate::guide::main(suites);
    }
    if mode != "run" {
        eprintln!("usage: run|guide|replay|list");
        std::process::exit(2);
    }
    let name = arg("--suite").expect("--suite");
    let s = match suites.iter().find(|s| s.name == name) {
        Some(s) => s,
        None => {
            eprintln!("no suite {name}");
            std::process::exit(2)
        }
    };
    let seed: u64 = arg("--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let thorough = arg("--tier").as_deref() == Some("thorough");
    let out = arg("--out").expect("--out");
    let cursor = arg("--cursor").expect("--cursor");
    let scale: u64 = arg("--scale").and_then(|x| x.parse().ok()).unwrap_or(100);
    let total = ((if thorough { s.thorough } else { s.quick }) * scale / 100).max(1);
    let threads: usize = arg("--threads").and_then(|x| x.parse().ok()).unwrap_or(8);
    // wall-clock bound for the whole suite (0 = none); only ever reduces the number of cases
    let max_s: u64 = arg("--max-seconds").and_then(|x| x.parse().ok()).unwrap_or(0);
    let start = Instant::now();
    LIMIT.store(LIVE.load(Relaxed) + (12i64 << 30), Relaxed);

    let cur = std::fs::File::create(&cursor).expect("cursor");
    let beats: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let cases: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let done = AtomicUsize::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let fails: Mutex<Vec<Fail>> = Mutex::new(vec![]);
    let merged: Mutex<Cx> = Mutex::new(Cx::default());
    let ran = AtomicU64::new(0);
    let now_ms = || start.elapsed().as_millis() as u64 + 1;
    let hang_ms: u64 = arg("--hang-seconds").and_then(|x| x.parse().ok()).unwrap_or(30u64) * 1000;
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (cur, beats, cases, done, stop_at, fails, merged, ran) =
                (&cur, &beats, &cases, &done, &stop_at, &fails, &merged, &ran);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    let mut cx = Cx { want_samples: if t == 0 { 4 } else { 1 }, thorough, ..Default::default() };
                    let mut i = t as u64;
                    while i < total {
                        if stop_at.load(Relaxed) < i || (max_s > 0 && start.elapsed().as_secs() >= max_s) {
                            break;
                        }
                        cases[t].store(i, Relaxed);
                        beats[t].store(now_ms(), Relaxed);
                        let mut b = [0u8; 8];
                        b.copy_from_slice(&(i + 1).to_le_bytes());
                        let _ = cur.write_at(&b, t as u64 * 8);
                        let mut src = Src::fresh(case_seed(seed, s.name, i));
                        let r = exec(s, &mut src, &mut cx);
                        ran.fetch_add(1, Relaxed);
                        if let Err(m) = r {
                            stop_at.fetch_min(i, SeqCst);
                            fails.lock().unwrap().push(Fail { case: i, choices: src.rec, msg: m });
                            break;
                        }
                        i += threads as u64;
                    }
                    let _ = cur.write_at(&[0u8; 8], t as u64 * 8);
                    cases[t].store(u64::MAX, Relaxed);
                    let mut m = merged.lock().unwrap();
                    m.evals += cx.evals;
                    m.keys.extend(cx.keys);
                    m.samples.extend(cx.samples);
                    for (k, v) in cx.labels {
                        *m.labels.entry(k).or_default() += v;
                    }
                    drop(m);
                    done.fetch_add(1, SeqCst);
                })
                .unwrap();
        }
        // watchdog
        while done.load(SeqCst) < threads {
            std::thread::sleep(Duration::from_millis(20));
            let now = now_ms();
            for t in 0..threads {
                let c = cases[t].load(Relaxed);
                if c != u64::MAX && now.saturating_sub(beats[t].load(Relaxed)) > hang_ms {
                    // the driver re-runs this single case to confirm before reporting it
                    eprintln!("hang: case {c} did not finish within {hang_ms} ms");
                    let _ = cur.write_at(&[0u8; 8 * 64][..threads * 8], 0);
                    let _ = cur.write_at(&(c + 1).to_le_bytes(), 0);
                    std::process::exit(98);
                }
            }
        }
    });
    let m = merged.into_inner().unwrap();
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by_key(|f| f.case);
    let mut viol = J::Null;
    if let Some(f) = fails.into_iter().next() {
        let _ = cur.write_at(&(f.case + 1).to_le_bytes(), 0);
        let (choices, msg, desc) = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || shrink(s, f.choices.clone(), f.msg.clone(), thorough, &|| {}))
                .unwrap()
                .join()
                .unwrap()
        });
        viol = J::Obj(vec![
            ("suite".into(), J::s(s.name)),
            ("seed".into(), J::s(seed.to_string())),
            ("case".into(), J::n(f.case)),
            ("message".into(), J::s(msg)),
            ("original_message".into(), J::s(f.msg)),
            ("description".into(), J::s(desc)),
            ("choices".into(), J::Arr(choices.iter().map(|c| J::n(*c as u64)).collect())),
        ]);
    }
    let bad = viol != J::Null;
    let j = J::Obj(vec![
        ("suite".into(), J::s(s.name)),
        ("rule".into(), J::s(s.rule)),
        ("cases".into(), J::n(ran.load(Relaxed))),
        ("planned".into(), J::n(total)),
        ("evaluations".into(), J::n(m.evals)),
        ("distinct_nontrivial".into(), J::n(m.keys.len() as u64)),
        ("labels".into(), J::Obj(m.labels.iter().map(|(k, v)| (k.to_string(), J::n(*v))).collect())),
        ("samples".into(), J::Arr(m.samples.into_iter().take(5).map(J::Str).collect())),
        ("violation".into(), viol),
        ("wall_s".into(), J::Num((start.elapsed().as_millis() as f64) / 1000.0)),
    ]);
    std::fs::write(&out, j.to_text()).expect("write out");
    std::process::exit(if bad { 1 } else { 0 });
}
