//! Serialized forms (C23)
use serde_json::{json, Value};
use teleparse::lex::{Map, Set, Span};
use teleparse::syntax::{Error, ErrorKind, FirstSet, FollowSet, LitSet, TerminalSet};
use teleparse::Lexicon;
use vp_core::cfg::TS;
use vp_core::{Cx, Src};

use crate::for_sizes;
use crate::sizes;

fn set_case<L: Lexicon>(src: &mut Src, n: usize) -> Result<String, String>
where
    L::Bit: serde::Serialize + for<'a> serde::Deserialize<'a>,
{
    let mut s = Set::<L>::new();
    let mut bits: u128 = 0;
    let k = src.below(n.min(12) + 1);
    for _ in 0..k {
        let t = if src.chance(1, 3) { n - 1 - src.below(n.min(3)) } else { src.below(n) };
        s.insert(L::from_id_unchecked(t));
        bits |= 1 << t;
    }
    let text = serde_json::to_string(&s).map_err(|e| format!("{s:?}: {e}"))?;
    let back: Set<L> = serde_json::from_str(&text).map_err(|e| format!("{s:?} as {text}: {e}"))?;
    if back != s {
        return Err(format!("{s:?} reads back as {back:?} from {text}"));
    }
    if text != bits.to_string() {
        return Err(format!("{s:?} serializes to {text}, its bits are {bits}"));
    }
    let mut m = Map::<L, Option<u32>>::new();
    let mut w = vec![None; n];
    for _ in 0..src.below(8) {
        let t = src.below(n);
        let v = Some(src.below(1000) as u32);
        *m.get_mut(L::from_id_unchecked(t)) = v;
        w[t] = v;
    }
    let v = serde_json::to_value(&m).map_err(|e| format!("map: {e}"))?;
    if v != json!(w) {
        return Err(format!("a map serializes to {v}, expected {}", json!(w)));
    }
    Ok(format!("{n} types: {text}; {v}"))
}

const LITS: &[&str] = &["+", "++", "a\"b", "é\n", ""];
fn gen_ts(src: &mut Src, n: usize) -> TS {
    let mut s = TS::new();
    for _ in 0..src.below(9) {
        let l = if src.chance(1, 4) { None } else { Some(*src.pick(LITS)) };
        s.add((src.below(n), l));
    }
    if src.chance(1, 12) {
        for _ in 0..src.range(10, 120) {
            s.add((src.below(n), Some(*src.pick(crate::lx::bulk()))));
        }
    }
    s.e = src.chance(1, 3);
    s
}
const PIECES: &[&str] = &["a", "+", "é", "☃", "🦀", " ", "\n", "\"", "0", "\u{a0}", "\r", "word", "\0", "  "];
/// the message of any error (C21)
pub fn message(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    message_::<crate::lx::Ser20>(src, cx, 20)?;
    message_::<crate::lx::Ser6>(src, cx, 6)
}
fn message_<L: Lexicon>(src: &mut Src, cx: &mut Cx, n: usize) -> Result<(), String> {
    let mut input = String::new();
    let mut at = vec![0];
    let k = if src.chance(1, 20) { src.below(2000) } else { src.below(20) };
    for _ in 0..k {
        input.push_str(*src.pick(PIECES));
        at.push(input.len());
    }
    let (mut lo, mut hi) = (*src.pick(&at), *src.pick(&at));
    if lo > hi {
        (lo, hi) = (hi, lo);
    }
    let text = input[lo..hi].to_string();
    let s = gen_ts(src, n);
    let names = |t: usize| format!("{:?}", L::from_id_unchecked(t));
    let (kind, want): (ErrorKind<L>, String) = match src.below(5) {
        0 | 1 => {
            let w = format!("Expecting one of {}", s.repr(&names).into_iter().collect::<Vec<_>>().join(", "));
            (ErrorKind::Expecting(FirstSet::from(term::<L>(&s))), w)
        }
        2 => (ErrorKind::UnexpectedCharacters, format!("Unexpected: {text}")),
        3 => (ErrorKind::UnexpectedTokens, format!("Unexpected token(s): {text}")),
        _ => match src.below(2) {
            0 => (ErrorKind::UnexpectedEof, "Unexpected end of file".into()),
            _ => (ErrorKind::Custom(text.clone()), text.clone()),
        },
    };
    let e = Error::<L>::new(lo..hi, kind);
    cx.eval(want.len() > 18, &(&want, lo, hi), || format!("{lo}..{hi} of {input:?}: {want:?}"));
    let got = e.message(&input);
    if got != want {
        return Err(format!("error at {lo}..{hi} of {input:?}: message {got:?}, expected {want:?}"));
    }
    if e.span != Span::new(lo, hi) || Error::<L>::new(Span::new(lo, hi), e.data.clone()) != e {
        return Err(format!("an error made for {lo}..{hi} has the span {:?}", e.span));
    }
    Ok(())
}
fn ts_json(s: &TS, n: usize) -> Value {
    let map: Vec<Value> = (0..n)
        .map(|t| {
            if s.any.contains(&t) {
                json!({"type": "Any"})
            } else {
                json!({"type": "Match", "set": s.lits.iter().filter(|x| x.0 == t).map(|x| x.1).collect::<Vec<_>>()})
            }
        })
        .collect();
    json!({"map": map, "e": s.e})
}
fn term<L: Lexicon>(s: &TS) -> TerminalSet<L> {
    let mut t = TerminalSet::<L>::new();
    for x in &s.any {
        t.insert(L::from_id_unchecked(*x), None);
    }
    for x in &s.lits {
        t.insert(L::from_id_unchecked(x.0), Some(x.1));
    }
    if s.e {
        t.insert_e();
    }
    t
}
fn same<T: serde::Serialize>(what: &str, x: &T, want: Value) -> Result<(), String> {
    let got = serde_json::to_value(x).map_err(|e| format!("{what}: {e}"))?;
    if got != want {
        return Err(format!("{what} serializes to {got}, expected {want}"));
    }
    let text = serde_json::to_string(x).map_err(|e| format!("{what}: {e}"))?;
    if serde_json::from_str::<Value>(&text).map_err(|e| format!("{what} as {text}: {e}"))? != want {
        return Err(format!("{what} serializes to {text}"));
    }
    Ok(())
}

fn err_case<L: Lexicon + serde::Serialize>(src: &mut Src, n: usize) -> Result<String, String> {
    let s = gen_ts(src, n);
    same("a terminal set", &term::<L>(&s), ts_json(&s, n))?;
    same("a first set", &FirstSet::from(term::<L>(&s)), ts_json(&s, n))?;
    same("a follow set", &FollowSet::from(term::<L>(&s)), ts_json(&s, n))?;
    let (lo, hi) = (src.below(100), src.below(100));
    let (kind, kj) = match src.below(6) {
        0 => (ErrorKind::Expecting(FirstSet::from(term::<L>(&s))), json!({"Expecting": ts_json(&s, n)})),
        1 => (ErrorKind::UnexpectedCharacters, json!("UnexpectedCharacters")),
        2 => (ErrorKind::UnexpectedTokens, json!("UnexpectedTokens")),
        3 => (ErrorKind::UnexpectedEof, json!("UnexpectedEof")),
        4 => (ErrorKind::UnexpectedNoAdvanceInLoop, json!("UnexpectedNoAdvanceInLoop")),
        _ => {
            let m = format!("m{}\"é\n", src.below(1000));
            (ErrorKind::Custom(m.clone()), json!({"Custom": m}))
        }
    };
    let e = Error::<L>::new(lo..hi, kind);
    let want = json!({"span": {"lo": lo, "hi": hi}, "data": kj});
    same("an error", &e, want.clone())?;
    Ok(want.to_string())
}

type SetCase = fn(&mut Src, usize) -> Result<String, String>;
macro_rules! case {
    ($m:ident) => {
        (set_case::<sizes::$m::L> as SetCase, sizes::$m::ALL.len())
    };
}
pub fn c23(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let all = for_sizes!(case);
    let (f, n) = all[src.below(all.len())];
    let s = f(src, n)?;
    cx.eval(s.len() > 16, &s, || s.clone());
    let e = if src.chance(1, 2) { err_case::<crate::lx::Ser6>(src, 6) } else { err_case::<crate::lx::Ser20>(src, 20) }?;
    cx.eval(true, &e, || e.clone());
    let p = |src: &mut Src| match src.below(4) {
        0 => src.below(4),
        1 => src.below(1 << 20),
        2 => (src.below(1 << 30) << 30) | src.below(1 << 30),
        _ => usize::MAX - src.below(3),
    };
    let sp = Span::new(p(src), p(src));
    let want = json!({"lo": sp.lo, "hi": sp.hi});
    same("a span", &sp, want.clone())?;
    let back: Span = serde_json::from_value(want.clone()).map_err(|e| format!("span {want}: {e}"))?;
    let back2: Span = serde_json::from_str(&serde_json::to_string(&sp).unwrap()).map_err(|e| format!("span {want}: {e}"))?;
    if back != sp || back2 != sp {
        return Err(format!("span {want} reads back as {back:?}"));
    }
    cx.eval(true, &(sp.lo, sp.hi), || want.to_string());
    // literal sets alone
    let mut l = LitSet::new();
    let mut w = std::collections::BTreeSet::new();
    for _ in 0..src.below(5) {
        let x = *src.pick(LITS);
        l.insert(x);
        w.insert(x);
    }
    same("a literal set", &l, json!({"type": "Match", "set": w}))?;
    same("the universal literal set", &LitSet::universe(), json!({"type": "Any"}))?;
    Ok(())
}
