//! Running the real parser and comparing with the reference.
use crate::dynp::*;
use crate::lx::*;
use crate::model::*;
use crate::tree::Tr;
use std::rc::Rc;
use teleparse::lex::Set;
use teleparse::syntax::{Error, ErrorKind, FirstSet};
use teleparse::{GrammarError, Lexicon, Parser};
use vp_core::cfg::TS;

pub fn lx(t: usize) -> Lx {
    Lx::from_id_unchecked(t)
}
pub fn first_set(t: &TS) -> FirstSet<Lx> {
    let mut f = FirstSet::new();
    for (ty, l) in &t.lits {
        f.insert(lx(*ty), Some(l));
    }
    for ty in &t.any {
        f.insert(lx(*ty), None);
    }
    if t.e {
        f.insert_epsilon();
    }
    f
}
pub fn mask_of(s: Set<Lx>) -> Mask {
    s.into_iter().fold(0, |m, t| m | 1 << t.id())
}
#[derive(Clone, Debug, PartialEq)]
pub struct Out {
    pub tree: Option<Tr>,
    pub syn: Vec<Error<Lx>>,
    pub lexerr: Vec<(usize, usize)>,
    /// consumed tokens with semantic marks
    pub toks: Vec<(Tok, Mask)>,
    pub extracted: Vec<Tok>,
    pub invalid: Vec<(usize, usize)>,
    /// offset of the remaining text
    pub rest: usize,
}
pub fn tok(t: &teleparse::Token<Lx>) -> Tok {
    Tok { ty: t.ty.id(), lo: t.span.lo, hi: t.span.hi }
}
pub fn snapshot(p: &mut Parser<'_, Lx>, tree: Option<Tr>, src: &str) -> Result<Out, String> {
    p.peek_token();
    let rem = p.remaining();
    let rest = src.len() - rem.len();
    if &src[rest..] != rem {
        return Err(format!("remaining() gives {rem:?}, not a suffix of the source"));
    }
    let i = p.info();
    let mut o = Out { tree, syn: vec![], lexerr: vec![], toks: vec![], extracted: vec![], invalid: vec![], rest };
    for e in &i.errors {
        match e.data {
            ErrorKind::UnexpectedCharacters => o.lexerr.push((e.span.lo, e.span.hi)),
            _ => o.syn.push(e.clone()),
        }
    }
    for c in i.tokens.into_iter() {
        let t: &teleparse::Token<Lx> = c;
        let m = mask_of(c.semantics());
        let want = m | 1 << t.ty.id();
        let all = mask_of(c.types());
        if all != want {
            return Err(format!("types() of {:?} is {all:b}, its type and semantics are {want:b}", tok(t)));
        }
        o.toks.push((tok(t), m));
    }
    o.extracted = i.extracted_tokens.iter().map(tok).collect();
    o.invalid = i.invalid_source.iter().map(|s| (s.lo, s.hi)).collect();
    Ok(o)
}
pub fn run_real(root: usize, src: &str) -> Result<Result<Out, GrammarError>, String> {
    let mut p = match Parser::<Lx>::new(src) {
        Ok(p) => p,
        Err(e) => return Ok(Err(e)),
    };
    let t = match parse_root(&mut p, root) {
        Ok(t) => t,
        Err(e) => return Ok(Err(e)),
    };
    snapshot(&mut p, t, src).map(Ok)
}
pub struct Want {
    pub tree: Option<Tr>,
    pub syn: Vec<MErr>,
    pub pos: usize,
    pub marks: Vec<Mask>,
    pub recoveries: u64,
    pub inserted: u64,
    pub refused: u64,
}
pub fn run_model(g: &Gram, t: Tables, root: usize, src: &str) -> (Want, Tables) {
    let mut i = Interp::new(g, t, src, tokens(src));
    let (tree, syn) = i.parse(&Nd::Ref(root));
    (Want { tree, syn, pos: i.pos, marks: i.marks, recoveries: i.recoveries, inserted: i.inserted, refused: i.refused }, i.t)
}
/// what the stream records when everything up to the lookahead has been read
pub fn stream(src: &str, pos: usize) -> (Vec<Tok>, Vec<Tok>, Vec<(usize, usize)>, usize) {
    let all = tokens(src);
    let rest = all.get(pos).map(|t| t.lo).unwrap_or(src.len());
    let mut ex = vec![];
    let mut bad = vec![];
    for i in lex(src) {
        match i {
            Item::Tok(t) if t.ty == COMMENT && t.lo <= rest => ex.push(t),
            Item::Bad(lo, hi) if lo <= rest => bad.push((lo, hi)),
            _ => {}
        }
    }
    (all[..pos].to_vec(), ex, bad, rest)
}
pub fn same_err(e: &Error<Lx>, m: &MErr) -> bool {
    let k = match (&e.data, &m.k) {
        (ErrorKind::Expecting(f), EK::Expecting(t)) => *f == first_set(t),
        (ErrorKind::UnexpectedEof, EK::Eof) => true,
        (ErrorKind::UnexpectedTokens, EK::Tokens) => true,
        (ErrorKind::UnexpectedNoAdvanceInLoop, EK::NoAdvance) => true,
        _ => false,
    };
    k && e.span.lo == m.lo && e.span.hi == m.hi
}
pub fn show_err(e: &Error<Lx>, src: &str) -> String {
    format!("{}..{} {}", e.span.lo, e.span.hi, e.message(src))
}
pub fn show_errs(e: &[Error<Lx>], src: &str) -> String {
    format!("[{}]", e.iter().map(|e| show_err(e, src)).collect::<Vec<_>>().join(" | "))
}
pub fn show_want(e: &[MErr], src: &str) -> String {
    format!("[{}]", e.iter().map(|e| format!("{}..{} {}", e.lo, e.hi, message(e, src))).collect::<Vec<_>>().join(" | "))
}
pub fn cmp_errors(o: &[Error<Lx>], w: &[MErr], src: &str) -> Result<(), String> {
    if o.len() != w.len() || !o.iter().zip(w).all(|(a, b)| same_err(a, b)) {
        return Err(format!("errors {} instead of {}", show_errs(o, src), show_want(w, src)));
    }
    Ok(())
}
pub fn cmp_tree(o: &Option<Tr>, w: &Option<Tr>) -> Result<(), String> {
    if o != w {
        return Err(format!("tree {o:?} instead of {w:?}"));
    }
    Ok(())
}
/// everything the stream recorded
pub fn cmp_stream(o: &Out, src: &str, pos: usize) -> Result<(), String> {
    let (toks, ex, bad, rest) = stream(src, pos);
    let got: Vec<Tok> = o.toks.iter().map(|x| x.0).collect();
    if got != toks {
        return Err(format!("consumed tokens {got:?} instead of {toks:?}"));
    }
    if o.extracted != ex {
        return Err(format!("extracted tokens {:?} instead of {ex:?}", o.extracted));
    }
    if o.invalid != bad || o.lexerr != bad {
        return Err(format!("invalid regions {:?} / errors {:?} instead of {bad:?}", o.invalid, o.lexerr));
    }
    if o.rest != rest {
        return Err(format!("remaining text starts at {} instead of {rest}", o.rest));
    }
    Ok(())
}
pub fn cmp_marks(o: &Out, w: &[Mask]) -> Result<(), String> {
    for (i, (t, m)) in o.toks.iter().enumerate() {
        if *m != w[i] {
            return Err(format!("token {t:?} has marks {m:b} instead of {:b}", w[i]));
        }
    }
    Ok(())
}
pub fn case_desc(g: &Rc<DGram>, root: usize, src: &str) -> String {
    format!("grammar {}root N{root}; input {src:?}", g.show())
}
