use teleparse::lex::{Lexer, Set};
use teleparse::{Lexicon, Parser, Root, ToSpan};
pub struct Ty {
    pub name: &'static str,
    pub regex: &'static [&'static str],
    pub lits: &'static [&'static str],
    pub terms: &'static [(&'static str, Option<&'static str>)],
    pub samples: &'static [&'static str],
}
pub struct Spec {
    pub types: Vec<Ty>,
    pub ignore: &'static [&'static str],
}
/// per call of next: invalid region, token
pub type Step = (Option<(usize, usize)>, Option<(usize, usize, usize)>);
pub type Lexed = Vec<Step>;
pub struct Entry {
    pub spec: Spec,
    pub lex: fn(&str) -> Lexed,
    pub term: fn(usize, &str) -> Result<TermOut, String>,
    pub laws: fn() -> Result<(), String>,
    pub stream: fn(&str, &[(u8, usize)]) -> Vec<Seen>,
}
#[derive(Debug)]
pub struct TermOut {
    pub tree: Option<(usize, usize)>,
    /// debug form of the struct
    pub shown: String,
    pub tokens: Vec<(usize, usize, usize)>,
    pub extracted: Vec<(usize, usize, usize)>,
    pub errors: Vec<(usize, usize, String)>,
}
pub fn lex_with<L: Lexicon>(s: &str) -> Lexed {
    let mut l = L::lexer(s).expect("lexer");
    let mut out = vec![];
    for _ in 0..s.len() + 2 {
        let (bad, tok) = l.next();
        let end = tok.is_none();
        out.push((bad.map(|b| (b.lo, b.hi)), tok.map(|t| (t.ty.id(), t.span.lo, t.span.hi))));
        if end {
            // stays at the end
            for _ in 0..2 {
                let again = l.next();
                out.push((again.0.map(|b| (b.lo, b.hi)), again.1.map(|t| (t.ty.id(), t.span.lo, t.span.hi))));
            }
            break;
        }
    }
    out
}
/// what one operation on a parser shows, and what is on record after it
#[derive(Debug, Clone, PartialEq)]
pub struct Seen {
    pub got: String,
    pub tokens: Vec<(usize, usize, usize)>,
    pub extracted: Vec<(usize, usize, usize)>,
    pub invalid: Vec<(usize, usize)>,
    pub errors: usize,
}
pub fn stream<L: Lexicon>(s: &str, ops: &[(u8, usize)]) -> Vec<Seen> {
    let f = |t: &teleparse::Token<L>| (t.ty.id(), t.span.lo, t.span.hi);
    let mut p = Parser::<L>::new(s).expect("parser");
    ops.iter()
        .map(|(op, k)| {
            let got = match op {
                0 => format!("{:?}", p.peek_token().map(|t| f(&t))),
                1 => format!("{:?}", p.consume_token().map(|t| f(&t))),
                2 => format!("{:?}", p.peek_token_src().map(|t| (t.ty.id(), t.src.to_string()))),
                3 => format!("{:?}", p.current_span()),
                4 => format!("{:?}", p.empty_span()),
                5 => format!("{:?}", p.remaining()),
                _ => match p.parse_token(L::from_id_unchecked(*k)) {
                    teleparse::syntax::Result::Success(t) => format!("{:?}", f(&t)),
                    teleparse::syntax::Result::Recovered(t, _) => format!("recovered {:?}", f(&t)),
                    teleparse::syntax::Result::Panic(e) => format!("{:?}", e.iter().map(|e| (e.span, e.message(s))).collect::<Vec<_>>()),
                },
            };
            let i = p.info();
            Seen {
                got,
                tokens: i.tokens.into_iter().map(|c| f(c)).collect(),
                extracted: i.extracted_tokens.iter().map(f).collect(),
                invalid: i.invalid_source.iter().map(|x| (x.lo, x.hi)).collect(),
                errors: i.errors.len(),
            }
        })
        .collect()
}
pub fn one<L: Lexicon, T: Root + ToSpan + std::fmt::Debug>(s: &str) -> Result<TermOut, String>
where
    T::Prod: teleparse::Production<L = L>,
{
    let mut p = Parser::<L>::new(s).map_err(|e| e.to_string())?;
    let t = p.parse::<T>().map_err(|e| e.to_string())?;
    let i = p.info();
    let f = |t: &teleparse::Token<L>| (t.ty.id(), t.span.lo, t.span.hi);
    Ok(TermOut {
        tree: t.as_ref().map(|t| (t.lo(), t.hi())),
        shown: format!("{t:?}"),
        tokens: i.tokens.into_iter().map(|c| f(c)).collect(),
        extracted: i.extracted_tokens.iter().map(f).collect(),
        errors: i.errors.iter().map(|e| (e.span.lo, e.span.hi, e.message(s))).collect(),
    })
}
pub fn laws<L: Lexicon>(all: &[L], spec: &Spec) -> Result<(), String>
where
    L::Bit: std::fmt::Debug,
{
    let mut seen = vec![];
    let mut cur = Some(L::first());
    while let Some(t) = cur {
        seen.push(t);
        if seen.len() > all.len() {
            break;
        }
        cur = t.next();
    }
    if seen != all {
        return Err(format!("enumeration gives {seen:?} instead of {all:?}"));
    }
    let mut bits = Set::<L>::new();
    for (i, t) in all.iter().enumerate() {
        if t.id() != i || L::from_id_unchecked(i) != *t || format!("{t:?}") != spec.types[i].name {
            return Err(format!("type {i} {}: id {} {t:?}", spec.types[i].name, t.id()));
        }
        if t.should_extract() != spec.types[i].terms.is_empty() {
            return Err(format!("type {}: should_extract {}", spec.types[i].name, t.should_extract()));
        }
        if bits.contains(*t) {
            return Err(format!("type {} shares a bit", spec.types[i].name));
        }
        bits.insert(*t);
    }
    let back: Vec<L> = bits.into_iter().collect();
    if back != all {
        return Err(format!("set of all types iterates as {back:?}"));
    }
    Ok(())
}
