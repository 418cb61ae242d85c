use crate::rt::*;
use regex::Regex;
use regex_automata::hybrid::dfa::{Cache, DFA};
use regex_automata::{Anchored, Input, MatchKind};
use std::sync::{Mutex, OnceLock};
use vp_core::{Cx, Src};

pub struct Lexicon {
    e: Entry,
    /// type (None: ignored), pattern that must match a whole text
    pats: Vec<(Option<usize>, Regex)>,
    /// the same patterns, for the longest match at the start of a text
    dfas: Vec<(DFA, Mutex<Cache>)>,
    text: String,
}
fn all() -> &'static Vec<Lexicon> {
    static ALL: OnceLock<Vec<Lexicon>> = OnceLock::new();
    ALL.get_or_init(|| {
        crate::generated::all()
            .into_iter()
            .map(|e| {
                let re = |p: &str| Regex::new(&format!(r"\A(?:{p})\z")).expect("pattern");
                let mut pats: Vec<(Option<usize>, Regex)> = e.spec.ignore.iter().map(|p| (None, re(p))).collect();
                for (i, t) in e.spec.types.iter().enumerate() {
                    pats.extend(t.regex.iter().map(|p| (Some(i), re(p))));
                }
                let text = show(&e.spec);
                let all = e.spec.ignore.iter().chain(e.spec.types.iter().flat_map(|t| t.regex));
                let dfas = all
                    .map(|p| {
                        let d = DFA::builder().configure(DFA::config().match_kind(MatchKind::All)).build(p).expect("pattern");
                        let c = Mutex::new(d.create_cache());
                        (d, c)
                    })
                    .collect();
                Lexicon { e, pats, dfas, text }
            })
            .collect()
    })
}
fn show(s: &Spec) -> String {
    let mut o = format!("ignore {:?}; ", s.ignore);
    for t in &s.types {
        o.push_str(&format!("{} regex {:?} terminals {:?}; ", t.name, t.regex, t.terms));
    }
    o
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum M {
    Ignored,
    Ty(usize),
}
/// longest match at the start of `s`; a literal wins over a pattern of the same length
fn longest(l: &Lexicon, s: &str) -> Option<(usize, M)> {
    let mut best: Option<(usize, M)> = None;
    for (i, t) in l.e.spec.types.iter().enumerate() {
        for x in t.lits {
            if s.starts_with(x) && best.map(|b| x.len() > b.0).unwrap_or(true) {
                best = Some((x.len(), M::Ty(i)));
            }
        }
    }
    for ((ty, _), (d, c)) in l.pats.iter().zip(&l.dfas) {
        let m = d.try_search_fwd(&mut c.lock().unwrap(), &Input::new(s).anchored(Anchored::Yes)).expect("search");
        if let Some(e) = m.map(|m| m.offset()) {
            if e > best.map(|b| b.0).unwrap_or(0) {
                best = Some((e, ty.map(M::Ty).unwrap_or(M::Ignored)));
            }
        }
    }
    best
}
/// reference: steps as the lexer reports them, and how many bytes each kind got
fn reference(l: &Lexicon, s: &str) -> Lexed {
    let mut out = vec![];
    let mut bad: Option<(usize, usize)> = None;
    let mut p = 0;
    while p < s.len() {
        match longest(l, &s[p..]) {
            None => {
                let n = s[p..].chars().next().unwrap().len_utf8();
                bad = Some((bad.map(|b| b.0).unwrap_or(p), p + n));
                p += n;
            }
            Some((n, M::Ignored)) => p += n,
            Some((n, M::Ty(t))) => {
                out.push((bad.take(), Some((t, p, p + n))));
                p += n;
            }
        }
    }
    out.push((bad, None));
    out.push((None, None));
    out.push((None, None));
    out
}
fn text(s: &mut Src, l: &Lexicon, max: usize) -> String {
    let sp = &l.e.spec;
    let mut words: Vec<&str> = vec![];
    for t in &sp.types {
        words.extend(t.lits);
        words.extend(t.samples);
        words.extend(t.terms.iter().filter_map(|x| x.1));
    }
    let n = if max > 5 && s.chance(1, 50) { s.range(100, 400) } else { s.range(0, max) };
    let mut o = String::new();
    const OTHER: [&str; 38] = [
        "Α", "䷿", "Ж", "\u{85}",
        "é", "→", "😀", "\u{0}", "~", "`", "\\", "/", "*", "#", "\"", "'", "x", "Q", "0", ".", "-", "=", "<", "+", "!", "$", "@", "α", "中", "\r", "\u{a0}",
        "\u{2028}", "// x\n", "/* y */", "# z\n", "\n", "\t", "if",
    ];
    for _ in 0..n {
        match s.weighted(&[20, 6, 10, 8, 3, 2, 1]) {
            0 if !words.is_empty() => o.push_str(*s.pick(&words)),
            1 if !words.is_empty() => {
                // an incomplete word
                let w = *s.pick(&words);
                let cut: Vec<usize> = w.char_indices().map(|c| c.0).collect();
                o.push_str(&w[..*s.pick(&cut)]);
            }
            2 => o.push_str(*s.pick(&[" ", "", "  ", "\n", "\t"])),
            4 if !words.is_empty() => {
                // other letter case
                let w = *s.pick(&words);
                let k = s.below(3);
                for (i, c) in w.chars().enumerate() {
                    let flip = k == 0 || k == 1 && i == 0 || k == 2 && s.chance(1, 3);
                    match (flip, c.is_lowercase()) {
                        (true, true) => o.extend(c.to_uppercase()),
                        (true, false) => o.extend(c.to_lowercase()),
                        _ => o.push(c),
                    }
                }
            }
            5 if !words.is_empty() => {
                // one character changed, twice, or left out
                let w: Vec<char> = s.pick(&words).chars().collect();
                let k = s.below(w.len().max(1));
                let what = s.below(3);
                for (i, c) in w.iter().enumerate() {
                    if i == k && what == 2 {
                        o.push_str(*s.pick(&OTHER));
                    }
                    if !(i == k && what >= 1) {
                        o.push(*c);
                    }
                    if i == k && what == 0 {
                        o.push(*c);
                    }
                }
            }
            6 if !words.is_empty() => {
                // a character of it many times
                let w: Vec<char> = s.pick(&words).chars().collect();
                let k = s.below(w.len().max(1));
                let times = *s.pick(&[2, 15, 63, 254, 300, 700]);
                for (i, c) in w.iter().enumerate() {
                    for _ in 0..if i == k { times } else { 1 } {
                        o.push(*c);
                    }
                }
            }
            _ => o.push_str(*s.pick(&OTHER)),
        }
        if s.chance(1, 3) {
            o.push(' ');
        }
    }
    o
}
fn choose(s: &mut Src) -> (usize, &'static Lexicon) {
    let i = s.below(all().len());
    (i, &all()[i])
}
pub fn c10_lex(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let (i, l) = choose(s);
    let src = text(s, l, 12);
    cx.desc = format!("lexicon {i}: {} text {src:?}", l.text);
    let want = reference(l, &src);
    let got = (l.e.lex)(&src);
    let toks = want.iter().filter(|x| x.1.is_some()).count();
    let bads = want.iter().filter(|x| x.0.is_some()).count();
    cx.eval(toks >= 2 || bads >= 1, &(&l.text, &src), || cx_desc(l, &src));
    cx.label(if bads > 0 { "with invalid text" } else { "valid" });
    if toks + bads > 60 {
        cx.label("more than 60 tokens");
    }
    if want.iter().any(|x| matches!(x.1, Some((_, a, b)) if b - a > 200)) {
        cx.label("a token longer than 200 bytes");
    }
    if want.iter().any(|x| matches!(x.1, Some((t, a, b)) if !l.e.spec.types[t].lits.is_empty() && l.pats.iter().any(|p| p.1.is_match(&src[a..b])))) {
        cx.label("literal beats a pattern");
    }
    if got != want {
        let name = |v: &Lexed| -> String {
            v.iter()
                .map(|x| {
                    let b = x.0.map(|(a, b)| format!("invalid {a}..{b} ")).unwrap_or_default();
                    let t = x.1.map(|(t, a, b)| format!("{}:{a}..{b}", l.e.spec.types.get(t).map(|t| t.name).unwrap_or("?"))).unwrap_or("end".into());
                    format!("[{b}{t}]")
                })
                .collect()
        };
        return Err(format!("tokens {} instead of {}", name(&got), name(&want)));
    }
    Ok(())
}
fn cx_desc(l: &Lexicon, src: &str) -> String {
    format!("{} text {src:?}", l.text)
}
/// every declared terminal parses exactly its token
pub fn c15_terms(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let (i, l) = choose(s);
    let sp = &l.e.spec;
    let terms: Vec<(usize, &str, Option<&str>)> = sp.types.iter().enumerate().flat_map(|(t, x)| x.terms.iter().map(move |y| (t, y.0, y.1))).collect();
    if terms.is_empty() {
        cx.label("no terminals");
        return Ok(());
    }
    let k = s.below(terms.len());
    let (ty, name, lit) = terms[k];
    let mut src = String::new();
    if s.chance(1, 2) {
        // something that starts with its token
        if s.chance(1, 3) {
            src.push_str("  ");
        }
        match lit {
            Some(x) => src.push_str(x),
            None => {
                if !sp.types[ty].samples.is_empty() {
                    src.push_str(*s.pick(sp.types[ty].samples))
                }
            }
        }
        if s.chance(1, 2) {
            src.push(' ');
        }
    }
    src.push_str(&text(s, l, 3));
    cx.desc = format!("lexicon {i}: {} terminal {name} text {src:?}", l.text);
    let steps = reference(l, &src);
    // only tokens of types that have terminals reach the parser
    let toks: Vec<(usize, usize, usize)> = steps.iter().filter_map(|x| x.1).filter(|t| !sp.types[t.0].terms.is_empty()).collect();
    let first = toks.first().copied();
    let got = (l.e.term)(k, &src)?;
    cx.eval(true, &(&l.text, name, &src), || format!("{} terminal {name} text {src:?}", l.text));
    let hit = first.map(|t| t.0 == ty && lit.map(|x| x == &src[t.1..t.2]).unwrap_or(true)).unwrap_or(false);
    let ex: Vec<_> = steps.iter().filter_map(|x| x.1).filter(|t| sp.types[t.0].terms.is_empty()).collect();
    if !ex.starts_with(&got.extracted) {
        return Err(format!("extracted {:?}, in the text {ex:?}", got.extracted));
    }
    let chars: Vec<_> = got.errors.iter().filter(|e| e.2.starts_with("Unexpected:")).collect();
    let syn: Vec<_> = got.errors.iter().filter(|e| !e.2.starts_with("Unexpected:")).collect();
    for e in chars {
        if !steps.iter().any(|x| x.0 == Some((e.0, e.1))) {
            return Err(format!("invalid region {e:?} is not in the text"));
        }
    }
    let bad = |w: &str| Err(format!("{w}: {got:?}, next token {first:?}"));
    if hit {
        cx.label("its token");
        let t = first.unwrap();
        if got.tree != Some((t.1, t.2)) || got.tokens != [t] || !syn.is_empty() {
            return bad("the terminal did not take its token");
        }
        if got.shown != format!("Some(token {} {}..{})", sp.types[ty].name, t.1, t.2) && !got.shown.contains(sp.types[ty].name) {
            return bad("the token has another type");
        }
    } else if lit.is_some() && first.is_none() {
        cx.label("inserted at the end");
        if got.tree != Some((0, 0)) || !got.tokens.is_empty() || syn.len() != 1 {
            return bad("the literal was not inserted at the end of input");
        }
    } else {
        cx.label("another token");
        if got.tree.is_some() || !got.tokens.is_empty() || syn.len() != 1 {
            return bad("the terminal took another token");
        }
    }
    if let [e] = syn[..] {
        let at = first.map(|t| (t.1, t.2)).unwrap_or((src.len(), src.len()));
        let what = match lit {
            Some(x) => format!("\"{x}\""),
            None => sp.types[ty].name.to_string(),
        };
        if (e.0, e.1) != at || !(e.2.contains(&what) || e.2 == "Unexpected end of file") {
            return bad("the error does not ask for it at the next token");
        }
    }
    Ok(())
}
pub fn c11_laws(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let (i, l) = choose(s);
    cx.desc = format!("lexicon {i}: {}", l.text);
    cx.eval(true, &l.text, || l.text.clone());
    cx.label(match l.e.spec.types.len() {
        0..=8 => "1-8 types",
        9..=16 => "9-16 types",
        17..=32 => "17-32 types",
        33..=64 => "33-64 types",
        _ => "65-128 types",
    });
    (l.e.laws)()
}
/// histories of peeking, consuming and asking on a parser of a generated lexicon
pub fn c09_stream(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let (i, l) = choose(s);
    let src = text(s, l, 9);
    let sp = &l.e.spec;
    let n = s.range(1, 24);
    let ops: Vec<(u8, usize)> = (0..n).map(|_| (s.weighted(&[3, 6, 1, 1, 1, 1, 3]) as u8, s.below(sp.types.len()))).collect();
    cx.desc = format!("lexicon {i}: {} text {src:?} operations {ops:?}", l.text);
    let steps = reference(l, &src);
    let parsed = |t: &(usize, usize, usize)| !sp.types[t.0].terms.is_empty();
    // steps read so far
    let mut read = 0;
    let mut peeked: Option<(usize, usize, usize)> = None;
    let mut tokens = vec![];
    let got = (l.e.stream)(&src, &ops);
    cx.eval(steps.iter().any(|x| x.1.is_some()), &(&l.text, &src, &ops), || format!("{} text {src:?} operations {ops:?}", l.text));
    for (k, ((op, ty), g)) in ops.iter().zip(&got).enumerate() {
        let reads = *op != 4;
        if reads && peeked.is_none() {
            while read < steps.len() {
                let x = steps[read];
                read += 1;
                match x.1 {
                    Some(t) if parsed(&t) => {
                        peeked = Some(t);
                        break;
                    }
                    Some(_) => {}
                    None => break,
                }
            }
        }
        let at = peeked.map(|t| (t.1, t.2)).unwrap_or((src.len(), src.len()));
        let span = |a: usize, b: usize| format!("{:?}", teleparse::Span::new(a, b));
        let want = match op {
            0 => format!("{peeked:?}"),
            1 => {
                let t = peeked.take();
                tokens.extend(t);
                format!("{t:?}")
            }
            2 => format!("{:?}", peeked.map(|t| (t.0, src[t.1..t.2].to_string()))),
            3 => span(at.0, at.1),
            4 => {
                let e = tokens.last().map(|t: &(usize, usize, usize)| t.2).unwrap_or(0);
                span(e, e)
            }
            5 => format!("{:?}", &src[at.0..]),
            _ => match peeked {
                Some(t) if t.0 == *ty => {
                    peeked = None;
                    tokens.push(t);
                    format!("{t:?}")
                }
                _ => format!("{:?}", vec![(teleparse::Span::new(at.0, at.1), format!("Expecting one of {}", sp.types[*ty].name))]),
            },
        };
        let seen = &steps[..read];
        let bad: Vec<(usize, usize)> = seen.iter().filter_map(|x| x.0).collect();
        let want = Seen { got: want, errors: bad.len(), invalid: bad, tokens: tokens.clone(), extracted: seen.iter().filter_map(|x| x.1).filter(|t| !parsed(t)).collect() };
        if *g != want {
            return Err(format!("operation {k} {:?}: {g:?} instead of {want:?}", ops[k]));
        }
    }
    cx.label(if got.iter().any(|g| !g.extracted.is_empty()) { "with extracted tokens" } else { "no extracted tokens" });
    Ok(())
}
