//! the nodes of the library: what is put in comes out, spans and equality and rendering are those of the parts
use crate::{same, word, Res};
use std::collections::VecDeque;
use std::fmt::Debug;
use teleparse::tp::{self, Node};
use teleparse::{Span, ToSpan};
use vp_core::{Cx, Src};
use vp_dyn::lx::*;

fn sp(s: &mut Src) -> (usize, usize) {
    let lo = s.below(40);
    let n = s.below(5);
    (lo, if s.chance(1, 12) { s.below(40) } else { lo + n })
}
fn span_text((lo, hi): (usize, usize)) -> String {
    if hi <= lo { format!("{lo}") } else { format!("{lo}..{hi}") }
}
fn ident(s: &mut Src) -> Ident {
    let (lo, hi) = sp(s);
    Ident::from_span(lo..hi)
}
/// everything a node that derefs to a value offers
fn wrapper<N, V>(what: &str, s: &mut Src, a: V, b: V, into: fn(N) -> V, debug: fn(&V, (usize, usize)) -> String, pretty: bool) -> Res
where
    N: From<Node<V>> + ToSpan + std::ops::DerefMut<Target = V> + Clone + PartialEq + Debug,
    V: Clone + PartialEq + Debug,
{
    let p = sp(s);
    let q = if s.chance(1, 2) { p } else { sp(s) };
    let x = N::from(Node::new(p.0..p.1, a.clone()));
    same(&format!("{what}: span"), (x.lo(), x.hi(), x.span()), (p.0, p.1, Span { lo: p.0, hi: p.1 }))?;
    same(&format!("{what}: deref"), (*x).clone(), a.clone())?;
    same(&format!("{what}: into_inner"), into(x.clone()), a.clone())?;
    same(&format!("{what}: rendering"), format!("{x:?}"), debug(&a, p))?;
    if pretty {
        // the same text apart from layout
        let t: String = format!("{x:#?}").split_whitespace().collect::<String>().replace(",)", ")").replace(",]", "]");
        let u: String = debug(&a, p).split_whitespace().collect();
        let strip = |x: String| -> String { x.split_whitespace().collect::<String>().replace(",)", ")").replace(",]", "]").replace(",}", "}") };
        same(&format!("{what}: pretty rendering"), strip(t), strip(u))?;
    }
    let mut y = N::from(Node::new(q.0..q.1, b.clone()));
    same(&format!("{what}: equality of {x:?} and {y:?}"), x == y, p == q && a == b)?;
    same(&format!("{what}: equality of {y:?} and {x:?}"), y == x, p == q && a == b)?;
    same(&format!("{what}: equality of {x:?} with its clone"), x.clone() == x, true)?;
    let z = y.clone();
    *y = a.clone();
    same(&format!("{what}: span after writing"), y.span(), Span { lo: q.0, hi: q.1 })?;
    same(&format!("{what}: value after writing"), (*y).clone(), a.clone())?;
    same(&format!("{what}: clone is independent"), into(z), b)?;
    same(&format!("{what}: equality after writing"), x == y, p == q)
}
fn plain<V: Debug>(v: &V, p: (usize, usize)) -> String {
    format!("{} => {v:?}", span_text(p))
}
/// iteration by value, by reference and by mutable reference over a list with public fields
macro_rules! list {
    ($s:ident, $what:expr, $mk:expr, $elems:expr, $puncts:expr, $p:expr) => {{
        let (elems, puncts, p): (Vec<Ident>, Vec<Comma>, (usize, usize)) = ($elems, $puncts, $p);
        let x = $mk(elems.clone(), puncts.clone(), p);
        same(concat!($what, ": span"), (x.lo(), x.hi(), x.span()), (p.0, p.1, Span { lo: p.0, hi: p.1 }))?;
        same(concat!($what, ": deref"), (*x).clone(), elems.clone())?;
        same(concat!($what, ": length"), x.len(), elems.len())?;
        same(concat!($what, ": iteration by reference"), (&x).into_iter().cloned().collect::<Vec<_>>(), elems.clone())?;
        same(concat!($what, ": iteration by reference from both ends"), (&x).into_iter().rev().cloned().collect::<Vec<_>>(), elems.iter().rev().cloned().collect())?;
        same(concat!($what, ": for loop"), { let mut v = vec![]; for e in &x { v.push(e.clone()) } v }, elems.clone())?;
        same(concat!($what, ": iteration by value"), x.clone().into_iter().collect::<Vec<_>>(), elems.clone())?;
        same(concat!($what, ": equals its clone"), x.clone() == x, true)?;
        let mut y = x.clone();
        let new: Vec<Ident> = elems.iter().map(|_| ident($s)).collect();
        for (e, n) in (&mut y).into_iter().zip(&new) { *e = n.clone() }
        same(concat!($what, ": writing by iteration"), y.to_vec(), new.clone())?;
        same(concat!($what, ": other fields after writing"), (y.puncts.clone(), y.span()), (puncts.clone(), Span { lo: p.0, hi: p.1 }))?;
        same(concat!($what, ": equality"), x == y, elems == new)?;
        y.push(ident($s));
        same(concat!($what, ": length after a push through deref_mut"), y.len(), elems.len() + 1)?;
        same(concat!($what, ": separators"), x.puncts.clone(), puncts)?;
        let other = $mk(elems.clone(), vec![], p);
        same(concat!($what, ": equality of lists with other separators"), other == x, x.puncts.is_empty())?;
        let q = sp($s);
        let other = $mk(elems.clone(), x.puncts.clone(), q);
        same(concat!($what, ": equality of lists with other spans"), other == x, p == q)?;
    }};
}
pub fn c24_nodes(s: &mut Src, cx: &mut Cx) -> Res {
    let from = s.used();
    let kind = s.below(10);
    let r = one(s, kind);
    let key = s.rec[from..].to_vec();
    cx.eval(true, &key, || format!("kind {kind}, choices {key:?}"));
    r
}
fn one(s: &mut Src, kind: usize) -> Res {
    let n = *s.pick(&[0usize, 1, 2, 3, 8]);
    let a: Vec<Ident> = (0..n).map(|_| ident(s)).collect();
    let b = if s.chance(1, 2) { a.clone() } else { (0..s.below(4)).map(|_| ident(s)).collect() };
    match kind {
        0 => wrapper::<tp::Vec<Ident>, _>("tp::Vec", s, a, b, |x| x.into_inner(), plain, true),
        1 => wrapper::<tp::Nev<Ident>, _>("tp::Nev", s, a, b, |x| x.into_inner(), plain, true),
        2 => wrapper::<tp::VecDeque<Ident>, _>("tp::VecDeque", s, VecDeque::from(a), VecDeque::from(b), |x| x.into_inner(), plain, true),
        3 => wrapper::<tp::NevDeque<Ident>, _>("tp::NevDeque", s, VecDeque::from(a), VecDeque::from(b), |x| x.into_inner(), plain, true),
        4 => wrapper::<tp::Loop<Ident>, _>("tp::Loop", s, a, b, |x| x.into_inner(), plain, true),
        5 => {
            let (a, b) = (a.first().cloned(), b.first().cloned());
            // the items of an option have spans of their own
            wrapper::<tp::Option<Ident>, _>("tp::Option", s, a, b, |x| x.into_inner(), |v, p| match v {
                Some(x) => format!("Some({x:?})"),
                None => format!("None({})", span_text(p)),
            }, true)
        }
        6 => {
            let (a, b) = (s.chance(1, 2), s.chance(1, 2));
            wrapper::<tp::Exists<Ident>, _>("tp::Exists", s, a, b, |x| x.into_inner(), plain, true)
        }
        7 => {
            let a = word(s);
            let b = if s.chance(1, 2) { a.clone() } else { word(s) };
            wrapper::<tp::String<Ident>, _>("tp::String", s, a.clone(), b.clone(), |x| x.into_inner(), plain, true)?;
            wrapper::<tp::Quote<std::rc::Rc<str>, Ident>, _>("tp::Quote", s, a.as_str().into(), b.as_str().into(), |x| x.into_inner(), plain, true)?;
            wrapper::<tp::Parse<u8, Ident>, _>("tp::Parse", s, a.parse::<u8>(), b.parse::<u8>(), |x| x.into_inner(), plain, true)
        }
        8 => {
            let p = sp(s);
            let puncts: Vec<Comma> = (0..s.below(4)).map(|_| { let q = sp(s); Comma::from_span(q.0..q.1) }).collect();
            list!(s, "tp::Split", |elems, puncts, p: (usize, usize)| tp::Split::<Ident, Comma> { elems: Node::new(p, elems), puncts }, a.clone(), puncts.clone(), p);
            list!(s, "tp::Punct", |elems, puncts, p: (usize, usize)| tp::Punct::<Ident, Comma> { span: p.into(), elems, puncts }, a.clone(), puncts.clone(), p);
            Ok(())
        }
        _ => {
            let (p, q, t, u) = (sp(s), sp(s), sp(s), sp(s));
            let (head, tail) = (a.first().cloned(), Semi::from_span(q.0..q.1));
            let x = tp::Recover::<Ident, Semi> { head: Node::new(p.0..p.1, head.clone()), tail: tail.clone() };
            same("tp::Recover: span", (x.lo(), x.hi(), x.span()), (p.0, q.1, Span { lo: p.0, hi: q.1 }))?;
            let y = tp::Recover::<Ident, Semi> { head: Node::new(t.0..t.1, head.clone()), tail: Semi::from_span(u.0..u.1) };
            same("tp::Recover: equality", x == y, p == t && q == u)?;
            same("tp::Recover: equals its clone", x.clone() == x, true)?;
            // the node itself
            let v = word(s);
            let w = if s.chance(1, 2) { v.clone() } else { word(s) };
            let mut x = Node::new(p.0..p.1, v.clone());
            same("Node: span", (x.lo(), x.hi(), x.span(), x.span), (p.0, p.1, Span { lo: p.0, hi: p.1 }, Span { lo: p.0, hi: p.1 }))?;
            same("Node: span from a pair", Node::new(p, v.clone()), x.clone())?;
            same("Node: span from a span", Node::new(x.span, v.clone()), x.clone())?;
            same("Node: value", ((*x).clone(), x.value.clone(), x.clone().into_inner()), (v.clone(), v.clone(), v.clone()))?;
            same("Node: rendering", format!("{x:?}"), plain(&v, p))?;
            let y = Node::new(t.0..t.1, w.clone());
            same("Node: equality", x == y, p == t && v == w)?;
            *x = w.clone();
            same("Node: after writing", (x.value.clone(), x.span()), (w, Span { lo: p.0, hi: p.1 }))?;
            // terminals
            let mut i = Ident::from_span(p.0..p.1);
            same("terminal: span", (i.lo(), i.hi(), i.span()), (p.0, p.1, Span { lo: p.0, hi: p.1 }))?;
            same("terminal: rendering", format!("{i:?}"), format!("token Word({})", span_text(p)))?;
            let j = Ident::from_span(t);
            same("terminal: equality", i == j, p == t)?;
            i = j.clone();
            same("terminal: equals its clone", i == j, true)
        }
    }
}
