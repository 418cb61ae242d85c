//! The lexicon used by the parser suites, and a reference lexer written by hand from its definition.
use teleparse::prelude::*;

#[derive_lexicon]
#[teleparse(ignore(r"\s+", r"//[^\n]*"), terminal_parse)]
pub enum Lx {
    #[teleparse(regex(r"[a-z_][a-z0-9_]*"), terminal(Ident, KwIf = "if", KwFn = "fn", KwDo = "do", KwNext = "continue"))]
    Word,
    SemA,
    #[teleparse(regex(r"[0-9]+"), terminal(Int))]
    Num,
    #[teleparse(terminal(OpAdd = "+", OpInc = "++", OpMul = "*", OpAssign = "=", OpEq = "=="))]
    Op,
    #[teleparse(regex("#[^\n]*"))]
    Comment,
    #[teleparse(terminal(ParenL = "(", ParenR = ")"))]
    Paren,
    SemB,
    #[teleparse(terminal(Comma = ",", Semi = ";", Arrow = "→", Eacute = "é", Back = "\\"))]
    Sep,
    #[teleparse(regex("\"[^\"\n]*\"|%[^\n]*"), terminal(Str, Empty = "\"\""))]
    Text,
    SemC,
}

pub const NTY: usize = 10;
pub const WORD: usize = 0;
pub const SEMA: usize = 1;
pub const NUM: usize = 2;
pub const OP: usize = 3;
pub const COMMENT: usize = 4;
pub const PAREN: usize = 5;
pub const SEMB: usize = 6;
pub const SEP: usize = 7;
pub const TEXT: usize = 8;
pub const SEMC: usize = 9;
pub const NAMES: [&str; NTY] = ["Word", "SemA", "Num", "Op", "Comment", "Paren", "SemB", "Sep", "Text", "SemC"];

/// terminal structs: (struct name, type, literal)
pub const TERMS: [(&str, usize, Option<&str>); 20] = [
    ("Ident", WORD, None),
    ("KwIf", WORD, Some("if")),
    ("KwFn", WORD, Some("fn")),
    ("KwDo", WORD, Some("do")),
    ("Int", NUM, None),
    ("OpAdd", OP, Some("+")),
    ("OpInc", OP, Some("++")),
    ("OpMul", OP, Some("*")),
    ("OpAssign", OP, Some("=")),
    ("OpEq", OP, Some("==")),
    ("ParenL", PAREN, Some("(")),
    ("ParenR", PAREN, Some(")")),
    ("Comma", SEP, Some(",")),
    ("Semi", SEP, Some(";")),
    ("Arrow", SEP, Some("→")),
    ("Eacute", SEP, Some("é")),
    ("Str", TEXT, None),
    ("Empty", TEXT, Some("\"\"")),
    ("Back", SEP, Some("\\")),
    ("KwNext", WORD, Some("continue")),
];
pub const NT: usize = TERMS.len();

/// every literal of each type
pub fn lits(ty: usize) -> &'static [&'static str] {
    match ty {
        OP => &["++", "==", "+", "*", "="],
        PAREN => &["(", ")"],
        SEP => &[",", ";", "→", "é", "\\"],
        _ => &[],
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Tok {
    pub ty: usize,
    pub lo: usize,
    pub hi: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Tok(Tok),
    /// merged invalid region
    Bad(usize, usize),
}

/// longest rule matching at the start of `s`: (length, Some(type) / None = ignored)
fn longest(s: &str) -> Option<(usize, Option<usize>)> {
    let mut best: Option<(usize, Option<usize>)> = None;
    let mut add = |len: usize, what: Option<usize>| {
        if len > 0 && best.map(|b| len > b.0).unwrap_or(true) {
            best = Some((len, what));
        }
    };
    let run = |f: &dyn Fn(char) -> bool, from: usize| -> usize {
        s[from..].chars().take_while(|c| f(*c)).map(|c| c.len_utf8()).sum::<usize>()
    };
    let c = s.chars().next()?;
    add(run(&|c| c.is_whitespace(), 0), None);
    if s.starts_with("//") {
        add(2 + run(&|c| c != '\n', 2), None);
    }
    if c.is_ascii_lowercase() || c == '_' {
        add(run(&|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_', 0), Some(WORD));
    }
    add(run(&|c| c.is_ascii_digit(), 0), Some(NUM));
    if c == '#' {
        add(1 + run(&|c| c != '\n', 1), Some(COMMENT));
    }
    if c == '"' {
        let n = run(&|c| c != '"' && c != '\n', 1);
        if s[1 + n..].starts_with('"') {
            add(n + 2, Some(TEXT));
        }
    }
    if c == '%' {
        add(1 + run(&|c| c != '\n', 1), Some(TEXT));
    }
    for ty in [OP, PAREN, SEP] {
        for l in lits(ty) {
            if s.starts_with(l) {
                add(l.len(), Some(ty));
            }
        }
    }
    best
}

/// reference lexer: tokens (all types) and merged invalid regions in order
pub fn lex(s: &str) -> Vec<Item> {
    let mut out = vec![];
    let mut pos = 0;
    let mut bad: Option<(usize, usize)> = None;
    while pos < s.len() {
        match longest(&s[pos..]) {
            None => {
                let n = s[pos..].chars().next().unwrap().len_utf8();
                bad = Some(match bad {
                    None => (pos, pos + n),
                    Some((lo, _)) => (lo, pos + n),
                });
                pos += n;
            }
            Some((n, None)) => pos += n,
            Some((n, Some(ty))) => {
                if let Some((lo, hi)) = bad.take() {
                    out.push(Item::Bad(lo, hi));
                }
                out.push(Item::Tok(Tok { ty, lo: pos, hi: pos + n }));
                pos += n;
            }
        }
    }
    if let Some((lo, hi)) = bad {
        out.push(Item::Bad(lo, hi));
    }
    out
}

/// tokens handed to the grammar
pub fn tokens(s: &str) -> Vec<Tok> {
    lex(s)
        .into_iter()
        .filter_map(|i| match i {
            Item::Tok(t) if t.ty != COMMENT => Some(t),
            _ => None,
        })
        .collect()
}

pub fn term_matches(t: usize, tok: &Tok, src: &str) -> bool {
    let (_, ty, lit) = TERMS[t];
    tok.ty == ty && lit.map(|l| l == &src[tok.lo..tok.hi]).unwrap_or(true)
}
