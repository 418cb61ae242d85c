//! Generators: grammars, sentences with their derivation trees, layouts, broken inputs.
use crate::dynp::{cell, DDef, DGram, Shape, UK};
use crate::gen::{NS, NSYM};
use crate::lx::*;
use crate::model::{Def, Gram, Mask, Nd, Tables, P};
use crate::tree::{Tr, K};
use std::rc::Rc;
use vp_core::cfg::{Bad, Prod};
use vp_core::Src;

#[derive(Clone, Copy)]
pub struct GOpt {
    pub semantics: bool,
    pub loops: bool,
    /// weight of recovering shapes (Split / Punct / Recover)
    pub recover: usize,
    pub max_ns: usize,
    pub roots: usize,
    /// every symbol derives some finite text
    pub productive: bool,
}
impl Default for GOpt {
    fn default() -> Self {
        GOpt { semantics: false, loops: true, recover: 30, max_ns: NS, roots: 1, productive: true }
    }
}
const UKS: [(UK, usize); 11] = [
    (UK::Plain, 6),
    (UK::Opt, 6),
    (UK::Exists, 2),
    (UK::Nev, 4),
    (UK::NevDeque, 1),
    (UK::Vec, 5),
    (UK::VecDeque, 2),
    (UK::Loop, 2),
    (UK::Quote, 2),
    (UK::Parse, 2),
    (UK::Boxed, 2),
];
fn term(s: &mut Src, pool: &[usize]) -> DDef {
    DDef::Term(*s.pick(pool))
}
/// raw grammar: shapes and cells at random, later symbols preferably used by earlier ones
pub fn raw(s: &mut Src, o: GOpt) -> DGram {
    let ns = 1 + s.weighted(&[2, 4, 6, 6, 5, 4, 3, 3][..o.max_ns.min(NS)]);
    let ns = ns.max(o.roots);
    let mut pool: Vec<usize> = (0..NT).collect();
    // sometimes few terminals, so that symbols share them
    if s.chance(1, 4) {
        let k = s.range(3, 8);
        let mut p = vec![];
        for _ in 0..k {
            p.push(*s.pick(&pool));
        }
        p.sort();
        p.dedup();
        pool = p;
    }
    let names = [0, 1, 3][s.weighted(&[4, 1, 1])];
    let mut g = DGram { defs: vec![DDef::Term(0); NSYM], ns, names };
    let mut next = 1;
    let uks: Vec<usize> = UKS.iter().map(|x| if x.0 == UK::Loop && !o.loops { 0 } else { x.1 }).collect();
    for i in 0..ns {
        let sh = match s.weighted(&[12, 14, 14, 25, o.recover / 3, o.recover / 3, o.recover / 3]) {
            0 => Shape::Tuple,
            1 => Shape::Unnamed,
            2 => Shape::Named,
            3 => Shape::Enum,
            4 => Shape::Split,
            5 => Shape::Punct,
            _ => Shape::Recover,
        };
        let n = match sh {
            Shape::Split | Shape::Punct | Shape::Recover => 2,
            Shape::Tuple => s.range(2, 5),
            Shape::Enum => 1 + s.weighted(&[1, 4, 5, 4, 3]),
            _ => 1 + s.weighted(&[3, 5, 5, 4, 3]),
        };
        let sem = o.semantics && s.chance(2, 3);
        g.defs[i] = DDef::St(sh, n, sem);
        for k in 0..n {
            let t = if s.chance(2, 5) || (next < ns && s.chance(1, 4)) {
                let j = if next < ns && s.chance(3, 4) {
                    next += 1;
                    next - 1
                } else {
                    s.below(ns)
                };
                DDef::Un(UKS[s.weighted(&uks)].0, j)
            } else {
                term(s, &pool)
            };
            g.defs[cell(i, k)] = t;
        }
    }
    g
}
fn blame(g: &DGram, t: &Tables, b: &Bad) -> Vec<usize> {
    let x = match b {
        Bad::FirstFirst(x) | Bad::FirstFollow(x) | Bad::LeftRec(x) => *x,
    };
    let mut refs = vec![];
    fn walk(p: &P, r: &mut Vec<usize>) {
        match p {
            P::Ref(i) => r.push(*i),
            P::Opt(x) | P::Plus(x) | P::Boxed(x) => walk(x, r),
            P::Tuple(v) => v.iter().for_each(|x| walk(x, r)),
            P::Punct(a, b) => {
                walk(a, r);
                walk(b, r);
            }
            _ => {}
        }
    }
    if let Some(p) = t.name_of(x) {
        walk(p, &mut refs);
    }
    let mut cells = vec![];
    for r in refs {
        let r = if r >= 100 { r - 100 } else { r };
        if r < NS {
            for k in 0..g.arity(r) {
                cells.push(cell(r, k));
            }
            for s in 0..g.ns {
                for k in 0..g.arity(s) {
                    if matches!(g.defs[cell(s, k)], DDef::Un(_, j) if j == r) {
                        cells.push(cell(s, k));
                    }
                }
            }
        } else {
            cells.push(r);
        }
    }
    cells
}
/// change cells near the reported defect until the reference accepts the grammar for every root
pub fn repair(s: &mut Src, g: &mut DGram, o: GOpt, tries: usize) -> bool {
    for round in 0..tries {
        let m = g.to_model();
        let mut bad = None;
        for r in 0..o.roots {
            let t = Tables::new(&m, &Nd::Ref(r));
            if let Err(b) = &t.verdict {
                bad = Some(blame(g, &t, b));
                break;
            }
            if o.productive {
                let min = t.cfg.min_len();
                if let Some(x) = t.cfg.reachable().into_iter().find(|x| min[*x].is_none()) {
                    bad = Some(blame(g, &t, &Bad::LeftRec(x)));
                    break;
                }
            }
        }
        let Some(mut cells) = bad else { return true };
        if cells.is_empty() || round > tries / 2 {
            cells = g.symbols().into_iter().filter(|c| *c >= NS).collect();
        }
        let c = *s.pick(&cells);
        g.defs[c] = match g.defs[c] {
            DDef::Un(k, j) if k != UK::Plain && s.chance(1, 2) => {
                let k = match k {
                    UK::Opt | UK::Exists | UK::Quote | UK::Parse | UK::Boxed => UK::Plain,
                    UK::Vec => UK::Nev,
                    UK::VecDeque => UK::NevDeque,
                    _ => UK::Plain,
                };
                DDef::Un(k, j)
            }
            _ => DDef::Term(s.below(NT)),
        };
    }
    false
}
pub struct Case {
    pub g: Rc<DGram>,
    pub m: Gram,
    /// per root
    pub ok: bool,
}
pub fn grammar(s: &mut Src, o: GOpt) -> Case {
    let mut g = raw(s, o);
    let ok = repair(s, &mut g, o, 60);
    let m = g.to_model();
    Case { g: Rc::new(g), m, ok }
}

// ---------------------------------------------------------------- sentences

/// derivation tree; positions are filled in by `place`
#[derive(Clone, Debug)]
pub struct D {
    pub k: DK,
    pub kids: Vec<D>,
    pub mask: Vec<Mask>,
}
#[derive(Clone, Debug)]
pub enum DK {
    Tok(usize),
    Seq,
    Alt(usize),
    None,
    Some,
    Exists,
    List,
    /// kids e p e p e
    Split,
    /// kids e p e p e (p)
    Punct,
    Recover,
    Quote,
    Parse,
}
pub struct Gen<'a> {
    pub g: &'a Gram,
    pub t: &'a Tables,
    pub min: Vec<Option<u32>>,
    /// soft limit on tokens
    pub budget: i64,
    /// most items of a list, and how likely another one is (x in 16)
    pub cap: usize,
    pub keep: usize,
    /// nested nodes so far; past DEEP nothing optional is added
    depth: usize,
    pub toks: Vec<(usize, String)>,
}
const DEEP: usize = 250;
pub const WORDS: [&str; 8] = ["a", "bc", "_x1", "iff", "i", "fnn", "zz9", "do_"];
pub const KEYS: [&str; 4] = ["if", "fn", "do", "continue"];
pub const NUMS: [&str; 6] = ["0", "7", "42", "007", "4294967295", "4294967296"];
/// quoted text, or anything from a percent sign to the end of the line
pub const STRS: [&str; 10] = ["\"\"", "\"a b\"", "\"//x\"", "\"é☃\"", "\"#\"", "%", "%a\r", "% 7 \t", "%\"\u{a0}", "%//é  "];
pub fn text_of(s: &mut Src, t: usize) -> String {
    match TERMS[t] {
        (_, _, Some(l)) => l.to_string(),
        (_, WORD, None) if s.chance(1, 300) => "w".repeat(s.range(60, 600)),
        (_, TEXT, None) if s.chance(1, 100) => format!("\"{}\"", "é ".repeat(s.range(60, 300))),
        (_, WORD, None) => if s.chance(1, 5) { s.pick(&KEYS) } else { s.pick(&WORDS) }.to_string(),
        (_, NUM, None) => s.pick(&NUMS).to_string(),
        _ => s.pick(&STRS).to_string(),
    }
}
impl<'a> Gen<'a> {
    pub fn new(g: &'a Gram, t: &'a Tables, budget: i64) -> Gen<'a> {
        Gen { g, t, min: t.cfg.min_len(), budget, cap: 5, keep: 8, depth: 0, toks: vec![] }
    }
    fn sym(&self, n: &Nd) -> usize {
        self.t.try_sym(n).expect("symbol of the grammar")
    }
    pub fn len(&self, n: &Nd) -> Option<u32> {
        self.min[self.sym(n)]
    }
    fn open(&self) -> bool {
        (self.toks.len() as i64) < self.budget && self.depth < DEEP
    }
    fn more(&self, s: &mut Src) -> bool {
        self.open() && s.chance(self.keep, 16)
    }
    fn d(&self, k: DK, kids: Vec<D>) -> D {
        D { k, kids, mask: vec![] }
    }
    fn rep(&mut self, s: &mut Src, x: &Nd, min: usize) -> Vec<D> {
        let mut v = vec![];
        while v.len() < min || (self.len(x).is_some() && self.more(s) && v.len() < self.cap) {
            v.push(self.node(s, x));
        }
        v
    }
    pub fn node(&mut self, s: &mut Src, n: &Nd) -> D {
        self.depth += 1;
        let d = self.node_(s, n);
        self.depth -= 1;
        d
    }
    fn node_(&mut self, s: &mut Src, n: &Nd) -> D {
        match n {
            Nd::Term(t) => {
                let x = text_of(s, *t);
                self.toks.push((TERMS[*t].1, x));
                self.d(DK::Tok(TERMS[*t].1), vec![])
            }
            Nd::Ref(i) => match &self.g.defs[i] {
                Def::Unit(x) => self.node(s, x),
                Def::Struct(v) => {
                    let kids = v.iter().map(|x| self.node(s, &x.0)).collect();
                    D { k: DK::Seq, kids, mask: v.iter().map(|x| x.1).collect() }
                }
                Def::Enum(v) => {
                    let c: Vec<(usize, u32)> = v.iter().enumerate().filter_map(|(i, x)| self.len(&x.0).map(|l| (i, l))).collect();
                    let i = if self.open() {
                        s.pick(&c).0
                    } else {
                        c.iter().min_by_key(|x| x.1).unwrap().0
                    };
                    let k = self.node(s, &v[i].0);
                    D { k: DK::Alt(i), kids: vec![k], mask: vec![v[i].1] }
                }
            },
            Nd::Opt(x) | Nd::Exists(x) => {
                let k = if self.len(x).is_some() && self.more(s) { vec![self.node(s, x)] } else { vec![] };
                match n {
                    Nd::Opt(_) => self.d(if k.is_empty() { DK::None } else { DK::Some }, k),
                    _ => self.d(DK::Exists, k),
                }
            }
            Nd::Nev(x, _) | Nd::Loop(x) => {
                let v = self.rep(s, x, 1);
                self.d(DK::List, v)
            }
            Nd::Vec(x, _) => {
                let v = self.rep(s, x, 0);
                self.d(DK::List, v)
            }
            Nd::Quote(x) => {
                let v = vec![self.node(s, x)];
                self.d(DK::Quote, v)
            }
            Nd::Parse(x) => {
                let v = vec![self.node(s, x)];
                self.d(DK::Parse, v)
            }
            Nd::Boxed(x) => self.node(s, x),
            Nd::Split(t, p) => {
                let mut v = vec![self.node(s, t)];
                while self.len(p).is_some() && self.more(s) && v.len() < 2 * self.cap {
                    v.push(self.node(s, p));
                    v.push(self.node(s, t));
                }
                self.d(DK::Split, v)
            }
            Nd::Punct(t, p) => {
                let mut v = vec![self.node(s, t)];
                while self.len(p).is_some() && self.more(s) && v.len() < 2 * self.cap {
                    v.push(self.node(s, p));
                    if !self.more(s) {
                        break;
                    }
                    v.push(self.node(s, t));
                }
                self.d(DK::Punct, v)
            }
            Nd::Recover(t, r) => {
                let v = vec![self.node(s, t), self.node(s, r)];
                self.d(DK::Recover, v)
            }
            Nd::Tuple(x) => {
                let v = x.iter().map(|x| self.node(s, x)).collect();
                self.d(DK::Seq, v)
            }
        }
    }
}
/// the tree a derivation stands for over the placed tokens (every token consumed in order), and the marks
pub fn place(d: &D, toks: &[Tok], src: &str) -> (Tr, Vec<Mask>) {
    let mut pos = 0;
    let mut marks = vec![0; toks.len()];
    let t = place_(d, toks, src, &mut pos, &mut marks);
    assert_eq!(pos, toks.len());
    (t, marks)
}
fn place_(d: &D, toks: &[Tok], src: &str, pos: &mut usize, marks: &mut [Mask]) -> Tr {
    let end = if *pos == 0 { 0 } else { toks[*pos - 1].hi };
    let mut from = vec![];
    let mut kids: Vec<Tr> = d
        .kids
        .iter()
        .enumerate()
        .map(|(i, k)| {
            from.push(*pos);
            let t = place_(k, toks, src, pos, marks);
            if let Some(m) = d.mask.get(i) {
                for x in &mut marks[from[i]..*pos] {
                    *x |= m;
                }
            }
            t
        })
        .collect();
    let (lo, hi) = match (kids.first(), kids.last()) {
        (Some(a), Some(b)) => (a.lo, b.hi),
        _ => (end, end),
    };
    let text = || if lo < hi { src[lo..hi].to_string() } else { String::new() };
    match &d.k {
        DK::Tok(ty) => {
            let t = toks[*pos];
            *pos += 1;
            Tr::new(K::Tok(*ty), t.lo, t.hi, vec![])
        }
        DK::Seq => Tr::new(K::Seq, lo, hi, kids),
        DK::Alt(i) => Tr::new(K::Alt(*i), lo, hi, kids),
        DK::None => Tr::new(K::None, end, end, vec![]),
        DK::Some => Tr::new(K::Some, lo, hi, kids),
        DK::Exists => Tr::new(K::Exists(!kids.is_empty()), lo, hi, vec![]),
        DK::List => Tr::new(K::List, lo, hi, kids),
        DK::Split | DK::Punct => {
            let mut e = vec![];
            let mut p = vec![];
            for (i, k) in kids.drain(..).enumerate() {
                if i % 2 == 0 { &mut e } else { &mut p }.push(k);
            }
            let n = e.len();
            e.extend(p);
            Tr::new(if matches!(d.k, DK::Split) { K::Split(n) } else { K::Punct(n) }, lo, hi, e)
        }
        DK::Recover => {
            let tail = kids.pop().unwrap();
            let h = kids.pop().unwrap();
            let head = Tr::new(K::Head, h.lo, h.hi, vec![h]);
            Tr::new(K::Recover, lo, hi, vec![head, tail])
        }
        DK::Quote => Tr::new(K::Quote(text()), lo, hi, vec![]),
        DK::Parse => Tr::new(K::Parse(text().parse().ok()), lo, hi, vec![]),
    }
}

// ---------------------------------------------------------------- layout

/// long stretches of ignored text
const WIDE: [&str; 3] = [
    "                                                                                                                                                                                                                                                                                  ",
    "// éééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé\n",
    "# a\n# b\n\n\n# c\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n",
];
const GAPS: [&str; 9] = ["", " ", "\n", "  \t", "//c\n", "#x\n", " #é\n ", "//\n\n", "\r\n"];
/// write tokens with random ignored text and comments so that lexing gives exactly them
pub fn layout(s: &mut Src, toks: &[(usize, String)]) -> String {
    let fancy = s.chance(2, 3);
    let mut out = String::new();
    let mut prev = String::new();
    for (i, (_, t)) in toks.iter().enumerate() {
        let mut gap = if s.chance(1, 400) {
            *s.pick(&WIDE)
        } else if fancy {
            *s.pick(&GAPS)
        } else {
            ["", " "][s.below(2)]
        };
        if i > 0 {
            let probe = format!("{prev}{gap}{t}");
            let l = tokens(&probe);
            let good = l.len() == 2 && lex(&probe).iter().all(|x| matches!(x, Item::Tok(_))) && probe[l[0].lo..l[0].hi] == *prev && probe[l[1].lo..l[1].hi] == **t;
            if !good {
                gap = if prev.starts_with('%') { "\n" } else { " " };
            }
        }
        out.push_str(gap);
        out.push_str(t);
        prev = t.clone();
    }
    if fancy && s.chance(1, 2) {
        if prev.starts_with('%') {
            out.push('\n');
        }
        out.push_str(*s.pick(&GAPS));
        if s.chance(1, 4) {
            out.push_str(*s.pick(&["//end", "#end", " "]));
        }
    }
    out
}
/// true when the text lexes to exactly these tokens and nothing invalid
pub fn lexes_to(src: &str, toks: &[(usize, String)]) -> bool {
    let l = lex(src);
    if l.iter().any(|x| matches!(x, Item::Bad(..))) {
        return false;
    }
    let t = tokens(src);
    t.len() == toks.len() && t.iter().zip(toks).all(|(a, b)| a.ty == b.0 && src[a.lo..a.hi] == *b.1)
}
pub fn any_text(s: &mut Src, ty: usize) -> String {
    match ty {
        WORD => if s.chance(1, 2) { s.pick(&KEYS) } else { s.pick(&WORDS) }.to_string(),
        NUM => s.pick(&NUMS).to_string(),
        TEXT => s.pick(&STRS).to_string(),
        _ => s.pick(lits(ty)).to_string(),
    }
}
const REAL: [usize; 6] = [WORD, NUM, OP, PAREN, SEP, TEXT];
pub fn any_tok(s: &mut Src, near: &[(usize, String)]) -> (usize, String) {
    if !near.is_empty() && s.chance(1, 2) {
        return s.pick(near).clone();
    }
    let ty = *s.pick(&REAL);
    (ty, any_text(s, ty))
}
const JUNK: [&str; 13] = ["%\n", "$", "@", "\"", "/", "☃", "\0", "$ $", "A", "\"abc", "$\n@", "é", "→"];
/// token level edits, then layout with junk
pub fn broken(s: &mut Src, base: &[(usize, String)]) -> String {
    let mut t = base.to_vec();
    let n = 1 + s.weighted(&[6, 4, 2, 1]);
    for _ in 0..n {
        match s.below(8) {
            0 | 1 if !t.is_empty() => {
                let i = s.below(t.len());
                t.remove(i);
            }
            2 => {
                let i = s.below(t.len() + 1);
                let x = any_tok(s, base);
                t.insert(i, x);
            }
            3 if !t.is_empty() => {
                let i = s.below(t.len());
                t[i] = any_tok(s, base);
            }
            4 if !t.is_empty() => {
                let i = s.below(t.len());
                let x = t[i].clone();
                t.insert(i, x);
            }
            5 if t.len() > 1 => {
                let i = s.below(t.len() - 1);
                t.swap(i, i + 1);
            }
            6 if !t.is_empty() => {
                let i = s.below(t.len() + 1);
                t.truncate(i);
            }
            7 if t.len() > 1 => {
                // drop or repeat a range
                let a = s.below(t.len());
                let b = (a + s.range(1, 4)).min(t.len());
                if s.chance(1, 2) {
                    t.drain(a..b);
                } else {
                    let r: Vec<_> = t[a..b].to_vec();
                    for (k, x) in r.into_iter().enumerate() {
                        t.insert(b + k, x);
                    }
                }
            }
            _ => {
                let i = s.below(t.len() + 1);
                let x = any_tok(s, base);
                t.insert(i, x);
            }
        }
    }
    loose(s, &t)
}
/// any layout, possibly with junk between tokens and glued tokens
pub fn loose(s: &mut Src, t: &[(usize, String)]) -> String {
    let junk = s.chance(1, 3);
    let fancy = s.chance(1, 2);
    let mut out = String::new();
    for (_, x) in t {
        if junk && s.chance(1, 5) {
            out.push_str(*s.pick(&JUNK));
        }
        if fancy {
            out.push_str(*s.pick(&GAPS));
        } else if s.chance(7, 8) {
            out.push(if out.ends_with(['\t', ' ', '\r']) { '\n' } else { ' ' });
        }
        out.push_str(x);
    }
    if fancy {
        out.push_str(*s.pick(&GAPS));
    }
    if junk && s.chance(1, 3) {
        out.push_str(*s.pick(&JUNK));
    }
    out
}
pub fn random_tokens(s: &mut Src, near: &[(usize, String)], max: usize) -> Vec<(usize, String)> {
    let n = s.below(max + 1);
    (0..n).map(|_| any_tok(s, near)).collect()
}
const CHARS: [&str; 41] = [
    "%", "a", "b", "i", "f", "_", "0", "9", "+", "=", "*", "(", ")", ",", ";", "→", "é", "\"", "#", "/", "//", " ", "\n", "\t", "$", "@", "☃", "\0", "\u{a0}", "e\u{301}", "🦀", "if", "fn", "do",
    "++", "==", "A", "-", "\\", "'", "\u{2028}",
];
pub fn chaos(s: &mut Src, max: usize) -> String {
    let n = s.below(max + 1);
    (0..n).map(|_| *s.pick(&CHARS)).collect()
}
/// some text near the language of the grammar
pub fn text(s: &mut Src, m: &Gram, t: &Tables, root: usize) -> String {
    let base = sentence(s, m, t, root, 24).map(|x| x.1).unwrap_or_default();
    match s.weighted(&[10, 3, 2, 1]) {
        0 => broken(s, &base),
        1 => layout(s, &base),
        2 => {
            let t = random_tokens(s, &base, 14);
            loose(s, &t)
        }
        _ => chaos(s, 24),
    }
}
pub fn sentence(s: &mut Src, m: &Gram, t: &Tables, root: usize, max: usize) -> Option<(D, Vec<(usize, String)>)> {
    let mut g = Gen::new(m, t, s.below(max + 1) as i64);
    match s.weighted(&[3600, 180, 30, 1]) {
        0 => {}
        3 => (g.budget, g.cap, g.keep) = (s.range(2000, 12000) as i64, 12000, 16),
        1 => (g.budget, g.cap, g.keep) = (max as i64 * 3, 20, 14),
        _ => (g.budget, g.cap, g.keep) = (s.range(80, 700) as i64, 400, 15),
    }
    let n = Nd::Ref(root);
    g.len(&n)?;
    if g.len(&n).unwrap() > 60 {
        return None;
    }
    let d = g.node(s, &n);
    Some((d, g.toks))
}
/// every Loop of the grammar is followed by the end of input only (elsewhere it swallows what follows)
pub fn loops_end(g: &DGram, t: &Tables) -> bool {
    g.symbols().iter().all(|c| match g.defs[*c] {
        DDef::Un(UK::Loop, _) => match t.try_sym(&g.nd(*c)) {
            Some(x) => t.sets.follow[x].no_terms(),
            None => true,
        },
        _ => true,
    })
}
pub fn has_loop(g: &DGram) -> bool {
    g.symbols().iter().any(|c| matches!(g.defs[*c], DDef::Un(UK::Loop, _)))
}
pub fn used_shapes(g: &DGram, t: &Tables) -> Vec<Shape> {
    (0..g.ns)
        .filter(|s| t.try_sym(&Nd::Ref(*s)).is_some())
        .filter_map(|s| match g.defs[s] {
            DDef::St(x, _, _) => Some(x),
            _ => None,
        })
        .collect()
}
pub fn is_alt(t: &Tables, x: usize) -> bool {
    matches!(t.cfg.prods[x], Prod::Alt(_))
}
