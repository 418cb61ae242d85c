//! LitSet / TerminalSet / FirstSet / FollowSet against sets of tokens with per-type wildcards (C13).
use std::collections::BTreeSet;
use teleparse::lex::TokenSrc;
use teleparse::syntax::{FirstSet, FollowSet, LitSet, TerminalSet};
use teleparse::Lexicon;
use vp_core::cfg::TS;
use vp_core::{Cx, Src};

use crate::lx::{bulk, L6};
use crate::setmacros::TERMS;

const LITS: &[&str] = &["+", "++", "a", "é", ""];
const PROBES: &[&str] = &["+", "++", "a", "é", "", "other"];

fn ty(t: usize) -> L6 {
    L6::from_id_unchecked(t)
}
fn name(t: usize) -> String {
    format!("{:?}", ty(t))
}

/// model of one literal set
#[derive(Clone, PartialEq, Debug)]
enum M {
    Set(BTreeSet<&'static str>),
    Any,
}
impl M {
    fn meet(&self, o: &M) -> M {
        match (self, o) {
            (M::Any, x) | (x, M::Any) => x.clone(),
            (M::Set(a), M::Set(b)) => M::Set(a & b),
        }
    }
    fn join(&self, o: &M) -> M {
        match (self, o) {
            (M::Any, _) | (_, M::Any) => M::Any,
            (M::Set(a), M::Set(b)) => M::Set(a | b),
        }
    }
    fn empty(&self) -> bool {
        *self == M::Set(BTreeSet::new())
    }
    fn has(&self, s: &str) -> bool {
        match self {
            M::Any => true,
            M::Set(x) => x.contains(s),
        }
    }
}

pub fn lits(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let mut r: Vec<LitSet> = vec![LitSet::new(), LitSet::default(), LitSet::new()];
    let mut m: Vec<M> = vec![M::Set(BTreeSet::new()); 3];
    let mut log = String::new();
    let n = src.range(2, 30);
    for _ in 0..n {
        let (a, b) = (src.below(3), src.below(3));
        let l = *src.pick(LITS);
        let (got, want): (Option<bool>, M) = match src.weighted(&[8, 4, 2, 1, 2, 2, 1]) {
            0 => {
                log += &format!("s{a}+={l:?} ");
                (Some(r[a].insert(l)), m[a].join(&M::Set([l].into())))
            }
            1 => {
                log += &format!("s{a}|=s{b} ");
                let o = r[b].clone();
                (Some(r[a].union(&o)), m[a].join(&m[b]))
            }
            2 => {
                log += &format!("clear(s{a}) ");
                r[a].clear();
                (None, M::Set(BTreeSet::new()))
            }
            3 => {
                log += &format!("s{a}|=all ");
                (Some(r[a].union_universe()), M::Any)
            }
            4 => {
                log += &format!("s{a}=s{a}&s{b} ");
                r[a] = r[a].intersection(&r[b]);
                (None, m[a].meet(&m[b]))
            }
            5 => {
                log += &format!("s{a}=from ");
                let k = src.below(4);
                let v: Vec<&'static str> = (0..k).map(|_| *src.pick(LITS)).collect();
                r[a] = LitSet::from(v.clone());
                (None, M::Set(v.into_iter().collect()))
            }
            _ => {
                log += &format!("s{a}=all ");
                r[a] = LitSet::universe();
                (None, M::Any)
            }
        };
        if let Some(g) = got {
            if g != (want != m[a]) {
                return Err(format!("{log}: reported change {g}, membership changed {}", want != m[a]));
            }
        }
        m[a] = want;
        for i in 0..3 {
            let w = &m[i];
            if r[i].is_universe() != (*w == M::Any) || r[i].is_empty() != w.empty() {
                return Err(format!("{log}: s{i} = {:?}: is_universe {} is_empty {}", r[i], r[i].is_universe(), r[i].is_empty()));
            }
            for p in PROBES {
                if r[i].contains(p) != w.has(p) {
                    return Err(format!("{log}: s{i} contains {p:?}"));
                }
            }
            let it = r[i].iter().map(|x| x.copied().collect::<Vec<_>>());
            let wi = match w {
                M::Any => None,
                M::Set(s) => Some(s.iter().copied().collect::<Vec<_>>()),
            };
            if it != wi {
                return Err(format!("{log}: s{i} iterates {it:?}, expected {wi:?}"));
            }
            for j in 0..3 {
                if (r[i] == r[j]) != (m[i] == m[j]) {
                    return Err(format!("{log}: equality of s{i} and s{j}"));
                }
                let x = m[i].meet(&m[j]);
                if r[i].intersects(&r[j]) == x.empty() {
                    return Err(format!("{log}: s{i} intersects s{j}"));
                }
                let y = r[i].intersection(&r[j]);
                let same = match &x {
                    M::Any => y.is_universe(),
                    M::Set(s) => y == LitSet::from(s.iter().copied()),
                };
                if !same {
                    return Err(format!("{log}: s{i} & s{j} = {y:?}, expected {x:?}"));
                }
            }
        }
    }
    cx.eval(n >= 4, &log, || log.clone());
    Ok(())
}

type T6 = TerminalSet<L6>;
type Fi = FirstSet<L6>;
type Fo = FollowSet<L6>;

fn has(got: impl Fn(Option<TokenSrc<'_, L6>>) -> bool, want: &TS) -> Result<(), String> {
    for t in 0..6 {
        for p in PROBES.iter().chain(&bulk()[48..51]) {
            if got(Some(TokenSrc::new(ty(t), p))) != want.has(t, p) {
                return Err(format!("membership of {}:{p:?} is not {}", name(t), want.has(t, p)));
            }
        }
    }
    if got(None) != want.e {
        return Err(format!("membership of the empty marker is not {}", want.e));
    }
    Ok(())
}
fn debug_form(m: &TS) -> String {
    let mut v = vec![];
    if m.e {
        v.push("<empty>".to_string());
    }
    for t in 0..6 {
        if m.any.contains(&t) {
            v.push(format!("{}:*", name(t)));
        }
        v.extend(m.lits.iter().filter(|x| x.0 == t).map(|x| format!("{}:{:?}", name(t), x.1)));
    }
    format!("{{{}}}", v.join(", "))
}
fn show(m: &TS) -> String {
    format!("{{{}}}", m.repr(&name).into_iter().collect::<Vec<_>>().join(", "))
}
fn cut(mut m: TS, e: bool) -> TS {
    m.e &= e;
    m
}
/// literals covered by a wildcard are not members of their own
fn join(a: &TS, b: &TS, e: bool) -> TS {
    let mut r = a.clone();
    r.add_terms(b);
    r.e |= e && b.e;
    r
}
fn meet(a: &TS, b: &TS, e: bool) -> TS {
    let mut m = a.meet(b);
    m.e = e && a.e && b.e;
    m
}
fn empty(m: &TS) -> bool {
    m.no_terms() && !m.e
}

pub fn terms(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let mut t: Vec<T6> = vec![T6::new(), T6::default()];
    let mut tm: Vec<TS> = vec![TS::new(); 2];
    let mut f: Vec<Fi> = vec![Fi::new(), Fi::default()];
    let mut fm: Vec<TS> = vec![TS::new(); 2];
    let mut w: Vec<Fo> = vec![Fo::new(), Fo::default()];
    let mut wm: Vec<TS> = vec![TS::new(); 2];
    let mut log = String::new();
    let n = src.range(3, 40);
    let nt = *src.pick(&[2usize, 6, 1]);
    let anyw = *src.pick(&[1usize, 3, 0]);
    let many = if src.chance(1, 16) { 2 } else { 0 };
    for _ in 0..n {
        let (a, b) = (src.below(2), src.below(2));
        let ti = src.below(nt);
        let lit = if src.chance(anyw, 6) { None } else { Some(*src.pick(LITS)) };
        let one = TS::of((ti, lit));
        let e_only = TS { e: true, ..TS::new() };
        let op = src.weighted(&[6, 2, 2, 1, 1, 1, /*first*/ 6, 1, 2, 2, 1, 1, 1, /*follow*/ 4, 1, 2, 2, 1, /*bulk*/ many, /*macros*/ 2]);
        let inc = src.chance(1, 2);
        log += &format!("op{op}({a},{b},{}:{lit:?},{inc}) ", name(ti));
        // (reported change, new model, old model)
        let chk = |got: Option<bool>, m: &mut TS, new: TS| -> Result<(), String> {
            let changed = new != *m;
            *m = new;
            match got {
                Some(g) if g != changed => Err(format!("{log}: reported change {g}, membership changed {changed}")),
                _ => Ok(()),
            }
        };
        match op {
            0 => {
                let new = join(&tm[a].clone(), &one, false);
                chk(Some(t[a].insert(ty(ti), lit)), &mut tm[a], new)?
            }
            1 => {
                let new = join(&tm[a].clone(), &e_only, true);
                chk(Some(t[a].insert_e()), &mut tm[a], new)?
            }
            2 => {
                let o = t[b].clone();
                let new = join(&tm[a], &tm[b], inc);
                chk(Some(t[a].union(&o, inc)), &mut tm[a], new)?
            }
            3 => {
                let new = cut(tm[a].clone(), false);
                chk(Some(t[a].remove_e()), &mut tm[a], new)?
            }
            4 => {
                t[a].clear();
                chk(None, &mut tm[a], TS::new())?
            }
            5 => {
                // one type only, through the public map
                let s = t[a].map.get_mut(ty(ti));
                s.clear();
                let mut new = tm[a].clone();
                new.any.remove(&ti);
                new.lits.retain(|x| x.0 != ti);
                chk(None, &mut tm[a], new)?
            }
            6 => {
                let new = join(&fm[a].clone(), &one, false);
                chk(Some(f[a].insert(ty(ti), lit)), &mut fm[a], new)?
            }
            7 => {
                let new = join(&fm[a].clone(), &e_only, true);
                chk(Some(f[a].insert_epsilon()), &mut fm[a], new)?
            }
            8 => {
                let o = f[b].clone();
                let new = join(&fm[a], &fm[b], true);
                chk(Some(f[a].union(&o)), &mut fm[a], new)?
            }
            9 => {
                let o = f[b].clone();
                let new = join(&fm[a], &fm[b], false);
                chk(Some(f[a].union_minus_epsilon(&o)), &mut fm[a], new)?
            }
            10 => {
                f[a].clear();
                chk(None, &mut fm[a], TS::new())?
            }
            11 => {
                f[a] = Fi::from(t[b].clone());
                fm[a] = tm[b].clone();
            }
            12 => {
                f[a] = Fi::one(ty(ti), lit);
                fm[a] = one.clone();
            }
            13 => {
                let new = join(&wm[a].clone(), &one, false);
                chk(Some(w[a].insert(ty(ti), lit)), &mut wm[a], new)?
            }
            14 => {
                w[a].insert_eof();
                let new = join(&wm[a], &e_only, true);
                chk(None, &mut wm[a], new)?
            }
            15 => {
                let o = w[b].clone();
                let new = join(&wm[a], &wm[b], true);
                chk(Some(w[a].union_follow(&o)), &mut wm[a], new)?
            }
            16 => {
                let new = join(&wm[a], &fm[b], false);
                chk(Some(w[a].union_first(&f[b])), &mut wm[a], new)?
            }
            17 => {
                w[a] = Fo::from(t[b].clone());
                wm[a] = tm[b].clone();
            }
            19 => {
                // made by a macro
                let (text, mt, mf, mw, items, e) = src.pick(TERMS);
                log += &format!("= {text} ");
                let mut new = TS { e: *e, ..TS::new() };
                for (t, l) in items.iter() {
                    new = join(&new, &TS::of((*t, *l)), false);
                }
                match src.below(4) {
                    0 => (t[a], tm[a]) = (mt(), new),
                    1 => (f[a], fm[a]) = (mf(), new),
                    2 => (w[a], wm[a]) = (mw(), new),
                    _ if src.chance(1, 2) => {
                        t[a] = teleparse::terminal_set!();
                        f[a] = teleparse::first_set!();
                        w[a] = teleparse::follow_set!();
                        (tm[a], fm[a], wm[a]) = (TS::new(), TS::new(), TS::new());
                    }
                    _ => {
                        t[a] = teleparse::terminal_set!(L6);
                        f[a] = teleparse::first_set!(L6);
                        w[a] = teleparse::follow_set!(L6);
                        (tm[a], fm[a], wm[a]) = (TS::new(), TS::new(), TS::new());
                    }
                }
            }
            _ => {
                // many literals of a type
                let from = src.below(100);
                for l in &bulk()[from..from + src.range(1, 50)] {
                    let x = TS::of((ti, Some(*l)));
                    let new = join(&tm[a].clone(), &x, false);
                    chk(Some(t[a].insert(ty(ti), Some(*l))), &mut tm[a], new)?;
                    let new = join(&fm[a].clone(), &x, false);
                    chk(Some(f[a].insert(ty(ti), Some(*l))), &mut fm[a], new)?;
                    let new = join(&wm[a].clone(), &x, false);
                    chk(Some(w[a].insert(ty(ti), Some(*l))), &mut wm[a], new)?;
                }
            }
        }
        for i in 0..2 {
            has(|x| t[i].contains(x), &tm[i]).map_err(|e| format!("{log}: terminal set {i}: {e}"))?;
            has(|x| f[i].contains(x), &fm[i]).map_err(|e| format!("{log}: first set {i}: {e}"))?;
            has(|x| w[i].contains(x), &wm[i]).map_err(|e| format!("{log}: follow set {i}: {e}"))?;
            if t[i].contains_e() != tm[i].e || f[i].contains_epsilon() != fm[i].e || w[i].contains_eof() != wm[i].e {
                return Err(format!("{log}: empty marker of set {i}"));
            }
            for (got, want) in [(t[i].to_string(), &tm[i]), (f[i].to_string(), &fm[i]), (w[i].to_string(), &wm[i])] {
                if got != show(want) {
                    return Err(format!("{log}: rendered {got}, expected {}", show(want)));
                }
            }
            if t[i].to_repr() != tm[i].repr(&name) {
                return Err(format!("{log}: to_repr {:?}", t[i].to_repr()));
            }
            if format!("{:?}", t[i]).replace("<empty>()", "<empty>") != debug_form(&tm[i]) {
                return Err(format!("{log}: debug form {:?}, expected {}", t[i], debug_form(&tm[i])));
            }
            for j in 0..2 {
                if (t[i] == t[j]) != (tm[i] == tm[j]) || (f[i] == f[j]) != (fm[i] == fm[j]) || (w[i] == w[j]) != (wm[i] == wm[j]) {
                    return Err(format!("{log}: equality of sets {i} and {j}"));
                }
                for e in [true, false] {
                    let x = meet(&tm[i], &tm[j], e);
                    if t[i].intersects(&t[j], e) == empty(&x) {
                        return Err(format!("{log}: terminal sets {i} and {j} intersect ({e})"));
                    }
                    if t[i].intersection_repr(&t[j], e) != x.repr(&name) {
                        return Err(format!("{log}: intersection of terminal sets {:?}, expected {:?}", t[i].intersection_repr(&t[j], e), x.repr(&name)));
                    }
                    let y = meet(&fm[i], &fm[j], e);
                    let (gi, gr) = if e {
                        (f[i].intersects(&f[j]), f[i].intersection_repr(&f[j]))
                    } else {
                        (f[i].intersects_minus_epsilon(&f[j]), f[i].intersection_repr_minus_epsilon(&f[j]))
                    };
                    if gi == empty(&y) || gr != y.repr(&name) {
                        return Err(format!("{log}: intersection of first sets {gr:?}, expected {:?} ({e})", y.repr(&name)));
                    }
                }
                let z = meet(&wm[i], &fm[j], false);
                if w[i].intersects_first(&f[j]) == empty(&z) || w[i].intersection_repr_first(&f[j]) != z.repr(&name) {
                    return Err(format!("{log}: intersection of follow and first set {:?}, expected {:?}", w[i].intersection_repr_first(&f[j]), z.repr(&name)));
                }
            }
        }
    }
    cx.eval(n >= 5, &log, || log.clone());
    Ok(())
}
