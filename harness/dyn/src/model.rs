//! Node grammars as data, the context-free grammar they stand for, and a reference interpreter of the
//! documented parsing and recovery rules. Written from the documentation of the node types; it shares
//! no code with the parser.
use crate::lx::{Tok, NAMES, TERMS};
use crate::tree::{Tr, K};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use vp_core::cfg::{Bad, Cfg, Prod, Sets, TS};

pub type Mask = u32;

/// a node type expression
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Nd {
    Term(usize),
    /// a named type
    Ref(usize),
    Opt(Rc<Nd>),
    Exists(Rc<Nd>),
    Nev(Rc<Nd>, bool),
    Vec(Rc<Nd>, bool),
    Loop(Rc<Nd>),
    Quote(Rc<Nd>),
    Parse(Rc<Nd>),
    Boxed(Rc<Nd>),
    Split(Rc<Nd>, Rc<Nd>),
    Punct(Rc<Nd>, Rc<Nd>),
    Recover(Rc<Nd>, Rc<Nd>),
    Tuple(Vec<Nd>),
}
/// a named type
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Def {
    /// derived struct: fields with semantic marks
    Struct(Vec<(Nd, Mask)>),
    Enum(Vec<(Nd, Mask)>),
    /// transparent wrapper with its own symbol
    Unit(Nd),
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Gram {
    pub defs: BTreeMap<usize, Def>,
}

/// production identity: types are the same symbol exactly when these are equal
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum P {
    Eps,
    Term(usize),
    Ref(usize),
    Opt(Rc<P>),
    Plus(Rc<P>),
    Boxed(Rc<P>),
    Tuple(Vec<P>),
    Punct(Rc<P>, Rc<P>),
}
pub fn prod(n: &Nd) -> P {
    let r = |n: &Rc<Nd>| Rc::new(prod(n));
    match n {
        Nd::Term(t) => P::Term(*t),
        Nd::Ref(i) => P::Ref(*i),
        Nd::Opt(x) | Nd::Exists(x) => P::Opt(r(x)),
        Nd::Nev(x, _) | Nd::Loop(x) => P::Plus(r(x)),
        Nd::Vec(x, _) => P::Opt(Rc::new(P::Plus(r(x)))),
        Nd::Quote(x) | Nd::Parse(x) => prod(x),
        Nd::Boxed(x) => P::Boxed(r(x)),
        Nd::Split(t, p) => P::Tuple(vec![prod(t), P::Opt(Rc::new(P::Plus(Rc::new(P::Tuple(vec![prod(p), prod(t)])))))]),
        Nd::Punct(t, p) => P::Punct(r(t), r(p)),
        Nd::Recover(t, q) => P::Tuple(vec![prod(t), prod(q)]),
        Nd::Tuple(v) => P::Tuple(v.iter().map(prod).collect()),
    }
}

/// the usual notation of a production; `named`: names of the definitions
pub fn notation(p: &P, named: &dyn Fn(usize) -> String) -> String {
    let n = |p: &P| notation(p, named);
    let mut inner = match p {
        P::Opt(x) => x,
        _ => p,
    };
    while let P::Boxed(x) = inner {
        inner = x;
    }
    match p {
        P::Eps => "()".into(),
        P::Term(t) => TERMS[*t].2.unwrap_or(TERMS[*t].0).into(),
        P::Ref(i) => named(*i),
        P::Boxed(x) => n(x),
        P::Tuple(v) => v.iter().map(n).collect::<Vec<_>>().join(" "),
        P::Plus(x) => format!("( {} )+", n(x)),
        P::Punct(t, q) => format!("( {} )[{}]+", n(t), n(q)),
        P::Opt(_) => match inner {
            P::Plus(x) => format!("( {} )*", n(x)),
            P::Punct(t, q) => format!("( {} )[{}]*", n(t), n(q)),
            x => format!("({})?", n(x)),
        },
    }
}

pub struct Tables {
    pub cfg: Cfg,
    pub sets: Sets,
    pub verdict: Result<(), Bad>,
    ids: HashMap<P, usize>,
    nd: HashMap<Nd, usize>,
}
struct B<'a> {
    g: &'a Gram,
    ids: HashMap<P, usize>,
    prods: Vec<Prod>,
}
impl B<'_> {
    fn sym(&mut self, p: &P) -> usize {
        if let P::Boxed(x) = p {
            return self.sym(x);
        }
        if let Some(i) = self.ids.get(p) {
            return *i;
        }
        let i = self.prods.len();
        self.prods.push(Prod::Eps);
        self.ids.insert(p.clone(), i);
        let pr = match p {
            P::Eps => Prod::Eps,
            P::Term(t) => Prod::Term((TERMS[*t].1, TERMS[*t].2)),
            P::Opt(x) => {
                let a = self.sym(x);
                let e = self.sym(&P::Eps);
                Prod::Alt(vec![a, e])
            }
            // T (T ...)?
            P::Plus(x) => {
                let a = self.sym(x);
                let m = self.sym(&P::Opt(Rc::new(p.clone())));
                Prod::Seq(vec![a, m])
            }
            P::Tuple(v) => Prod::Seq(v.iter().map(|x| self.sym(x)).collect()),
            // T (P (self)?)?
            P::Punct(t, q) => {
                let a = self.sym(t);
                let m = P::Opt(Rc::new(P::Tuple(vec![(**q).clone(), P::Opt(Rc::new(p.clone()))])));
                let m = self.sym(&m);
                Prod::Seq(vec![a, m])
            }
            P::Ref(k) => match &self.g.defs[k] {
                Def::Struct(v) => Prod::Seq(v.iter().map(|x| self.sym(&prod(&x.0))).collect()),
                Def::Enum(v) => Prod::Alt(v.iter().map(|x| self.sym(&prod(&x.0))).collect()),
                Def::Unit(x) => Prod::Seq(vec![self.sym(&prod(x))]),
            },
            P::Boxed(_) => unreachable!(),
        };
        self.prods[i] = pr;
        i
    }
}
impl Tables {
    pub fn new(g: &Gram, root: &Nd) -> Tables {
        let mut b = B { g, ids: HashMap::new(), prods: vec![] };
        let r = b.sym(&prod(root));
        let cfg = Cfg { prods: b.prods, root: r };
        let sets = cfg.sets();
        let verdict = cfg.verdict(&sets);
        Tables { cfg, sets, verdict, ids: b.ids, nd: HashMap::new() }
    }
    fn id(&self, p: &P) -> usize {
        match p {
            P::Boxed(x) => self.id(x),
            _ => self.ids[p],
        }
    }
    pub fn try_sym(&self, n: &Nd) -> Option<usize> {
        fn id(t: &Tables, p: &P) -> Option<usize> {
            match p {
                P::Boxed(x) => id(t, x),
                _ => t.ids.get(p).copied(),
            }
        }
        id(self, &prod(n))
    }
    /// every symbol with its production
    pub fn symbols(&self) -> impl Iterator<Item = (&P, usize)> {
        self.ids.iter().map(|(p, x)| (p, *x))
    }
    /// production of a symbol
    pub fn name_of(&self, x: usize) -> Option<&P> {
        self.ids.iter().find(|(_, i)| **i == x).map(|(p, _)| p)
    }
    pub fn sym(&mut self, n: &Nd) -> usize {
        if let Some(i) = self.nd.get(n) {
            return *i;
        }
        let i = self.id(&prod(n));
        self.nd.insert(n.clone(), i);
        i
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum EK {
    Expecting(TS),
    Eof,
    Tokens,
    NoAdvance,
    Characters,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MErr {
    pub lo: usize,
    pub hi: usize,
    pub k: EK,
}

pub enum R {
    Ok(Tr, Vec<MErr>),
    Panic(Vec<MErr>),
}

/// parser state of the reference
pub struct Interp<'a> {
    pub g: &'a Gram,
    pub t: Tables,
    pub src: &'a str,
    pub toks: Vec<Tok>,
    /// next token
    pub pos: usize,
    /// semantic marks of consumed tokens
    pub marks: Vec<Mask>,
    pub depth: usize,
    pub inserted: u64,
    pub refused: u64,
    pub recoveries: u64,
    pub fuel: u64,
}
fn stretch(panic: &mut Option<MErr>, e: Vec<MErr>) {
    if let Some(e) = e.into_iter().next_back() {
        match panic {
            Some(p) => p.hi = e.hi,
            None => *panic = Some(e),
        }
    }
}
impl<'a> Interp<'a> {
    pub fn new(g: &'a Gram, t: Tables, src: &'a str, toks: Vec<Tok>) -> Self {
        Interp { g, t, src, toks, pos: 0, marks: vec![], depth: 0, inserted: 0, refused: 0, recoveries: 0, fuel: 2_000_000 }
    }
    fn peek(&self) -> Option<Tok> {
        self.toks.get(self.pos).copied()
    }
    fn text(&self, t: Tok) -> &'a str {
        &self.src[t.lo..t.hi]
    }
    fn cur(&self) -> (usize, usize) {
        self.peek().map(|t| (t.lo, t.hi)).unwrap_or((self.src.len(), self.src.len()))
    }
    /// end of the last consumed token
    pub fn end(&self) -> usize {
        if self.pos == 0 {
            0
        } else {
            self.toks[self.pos - 1].hi
        }
    }
    fn eat(&mut self) {
        if self.pos < self.toks.len() {
            self.pos += 1;
            self.marks.push(0);
        }
    }
    fn first(&mut self, n: &Nd) -> TS {
        let s = self.t.sym(n);
        self.t.sets.first[s].clone()
    }
    fn follow(&mut self, n: &Nd) -> TS {
        let s = self.t.sym(n);
        self.t.sets.follow[s].clone()
    }
    /// the lookahead is a member (end of input: the empty marker is)
    fn on(&self, s: &TS) -> bool {
        match self.peek() {
            Some(t) => s.has(t.ty, self.text(t)),
            None => s.e,
        }
    }
    fn expecting(&self, s: TS) -> MErr {
        let (lo, hi) = self.cur();
        MErr { lo, hi, k: EK::Expecting(s) }
    }
    fn mark(&mut self, t: &Tr, m: Mask) {
        if m == 0 {
            return;
        }
        for i in 0..self.marks.len() {
            let k = self.toks[i];
            if t.lo <= k.lo && k.hi <= t.hi {
                self.marks[i] |= m;
            }
        }
    }

    pub fn parse(&mut self, n: &Nd) -> (Option<Tr>, Vec<MErr>) {
        match self.node(n) {
            R::Ok(t, e) => (Some(t), e),
            R::Panic(e) => (None, e),
        }
    }

    pub fn node(&mut self, n: &Nd) -> R {
        self.fuel = self.fuel.checked_sub(1).expect("reference interpreter ran out of fuel");
        self.depth += 1;
        if self.depth > 9000 {
            panic!("reference interpreter: depth");
        }
        let r = self.node_(n);
        self.depth -= 1;
        r
    }
    fn node_(&mut self, n: &Nd) -> R {
        match n {
            Nd::Term(t) => self.term(n, *t),
            Nd::Ref(i) => match &self.g.defs[i] {
                Def::Unit(x) => self.node(x),
                Def::Struct(v) => self.seq(v),
                Def::Enum(v) => self.choice(n, v),
            },
            Nd::Tuple(v) => {
                let v: Vec<(Nd, Mask)> = v.iter().map(|x| (x.clone(), 0)).collect();
                self.seq(&v)
            }
            Nd::Boxed(x) => self.node(x),
            Nd::Opt(x) => self.opt(x),
            Nd::Exists(x) => match self.opt(x) {
                R::Ok(t, e) => R::Ok(Tr::new(K::Exists(t.k == K::Some), t.lo, t.hi, vec![]), e),
                p => p,
            },
            Nd::Nev(x, _) => self.plus(n, x),
            // Star<T> = Option<Plus<T>>
            Nd::Vec(x, d) => match self.opt(&Nd::Nev(x.clone(), *d)) {
                R::Ok(mut t, e) => {
                    let kids = t.kids.pop().map(|k| k.kids).unwrap_or_default();
                    R::Ok(Tr::new(K::List, t.lo, t.hi, kids), e)
                }
                p => p,
            },
            Nd::Loop(x) => self.looped(n, x),
            Nd::Quote(x) => match self.node(x) {
                R::Ok(t, e) => {
                    let s = if t.lo < t.hi { self.src[t.lo..t.hi].to_string() } else { String::new() };
                    R::Ok(Tr::new(K::Quote(s), t.lo, t.hi, vec![]), e)
                }
                p => p,
            },
            Nd::Parse(x) => match self.node(x) {
                R::Ok(t, e) => {
                    let s = if t.lo < t.hi { &self.src[t.lo..t.hi] } else { "" };
                    R::Ok(Tr::new(K::Parse(s.parse().ok()), t.lo, t.hi, vec![]), e)
                }
                p => p,
            },
            Nd::Split(t, p) => self.split(n, t, p),
            Nd::Punct(t, p) => self.punct(n, t, p),
            Nd::Recover(t, r) => self.recover(t, r),
        }
    }
    fn term(&mut self, n: &Nd, t: usize) -> R {
        let (_, ty, lit) = TERMS[t];
        let me = TS::of((ty, lit));
        if let Some(k) = self.peek() {
            if me.has(k.ty, self.text(k)) {
                self.eat();
                return R::Ok(Tr::new(K::Tok(ty), k.lo, k.hi, vec![]), vec![]);
            }
        }
        if lit.is_none() {
            return R::Panic(vec![self.expecting(me)]);
        }
        let f = self.follow(n);
        if self.on(&f) {
            // what follows is there already: insert the literal
            self.inserted += 1;
            let e = self.expecting(me);
            let p = self.end();
            return R::Ok(Tr::new(K::Tok(ty), p, p, vec![]), vec![e]);
        }
        self.refused += 1;
        if self.peek().is_none() {
            let (lo, hi) = self.cur();
            return R::Panic(vec![MErr { lo, hi, k: EK::Eof }]);
        }
        R::Panic(vec![self.expecting(me)])
    }
    fn seq(&mut self, v: &[(Nd, Mask)]) -> R {
        let mut kids = vec![];
        let mut errs = vec![];
        for (x, _) in v {
            match self.node(x) {
                R::Ok(t, e) => {
                    kids.push(t);
                    errs.extend(e);
                }
                R::Panic(e) => {
                    errs.extend(e);
                    return R::Panic(errs);
                }
            }
        }
        for (i, (_, m)) in v.iter().enumerate() {
            let k = kids[i].clone();
            self.mark(&k, *m);
        }
        let (lo, hi) = (kids[0].lo, kids[kids.len() - 1].hi);
        R::Ok(Tr::new(K::Seq, lo, hi, kids), errs)
    }
    fn choice(&mut self, n: &Nd, v: &[(Nd, Mask)]) -> R {
        let s = self.t.sym(n);
        let tok = self.peek().map(|k| (k.ty, self.text(k)));
        match self.t.cfg.predict(&self.t.sets, s, tok) {
            None => {
                let f = self.first(n);
                R::Panic(vec![self.expecting(f)])
            }
            Some(i) => match self.node(&v[i].0) {
                R::Ok(t, e) => {
                    self.mark(&t, v[i].1);
                    R::Ok(Tr::new(K::Alt(i), t.lo, t.hi, vec![t]), e)
                }
                p => p,
            },
        }
    }
    fn opt(&mut self, x: &Nd) -> R {
        let f = self.first(x);
        if self.peek().is_none() || !self.on(&f) {
            let p = self.end();
            return R::Ok(Tr::new(K::None, p, p, vec![]), vec![]);
        }
        match self.node(x) {
            R::Ok(t, e) => R::Ok(Tr::new(K::Some, t.lo, t.hi, vec![t]), e),
            R::Panic(e) => {
                self.recoveries += 1;
                let p = self.end();
                R::Ok(Tr::new(K::None, p, p, vec![]), e)
            }
        }
    }
    fn plus(&mut self, n: &Nd, x: &Nd) -> R {
        let (t, mut errs) = match self.node(x) {
            R::Ok(t, e) => (t, e),
            p => return p,
        };
        let f = self.first(n);
        let mut kids = vec![t];
        while self.peek().is_some() && self.on(&f) {
            match self.node(x) {
                R::Ok(t, e) => {
                    kids.push(t);
                    errs.extend(e);
                }
                R::Panic(e) => {
                    self.recoveries += 1;
                    errs.extend(e);
                    break;
                }
            }
        }
        let (lo, hi) = (kids[0].lo, kids[kids.len() - 1].hi);
        R::Ok(Tr::new(K::List, lo, hi, kids), errs)
    }
    fn looped(&mut self, n: &Nd, x: &Nd) -> R {
        let f = self.first(n);
        let mut kids: Vec<Tr> = vec![];
        let mut errs = vec![];
        while self.peek().is_some() {
            if !self.on(&f) {
                let (lo, mut hi) = self.cur();
                while self.peek().is_some() && !self.on(&f) {
                    hi = self.cur().1;
                    self.eat();
                }
                self.recoveries += 1;
                errs.push(MErr { lo, hi, k: EK::Tokens });
                continue;
            }
            let before = self.pos;
            match self.node(x) {
                R::Ok(t, e) => {
                    kids.push(t);
                    errs.extend(e);
                }
                R::Panic(e) => {
                    self.recoveries += 1;
                    errs.extend(e);
                }
            }
            if self.pos == before {
                let (lo, hi) = self.cur();
                errs.push(MErr { lo, hi, k: EK::NoAdvance });
                break;
            }
        }
        let (lo, hi) = match (kids.first(), kids.last()) {
            (Some(a), Some(b)) => (a.lo, b.hi),
            _ => (self.end(), self.end()),
        };
        R::Ok(Tr::new(K::List, lo, hi, kids), errs)
    }
    fn split(&mut self, n: &Nd, t: &Nd, p: &Nd) -> R {
        let (x, mut errs) = match self.node(t) {
            R::Ok(t, e) => (t, e),
            p => return p,
        };
        let lo = x.lo;
        let (ft, fp, fo) = (self.first(t), self.first(p), self.follow(n));
        let mut elems = vec![x];
        let mut puncts = vec![];
        'list: while self.peek().is_some() && (self.on(&fp) || (fp.e && self.on(&ft))) {
            let sep = match self.node(p) {
                R::Ok(s, e) => {
                    errs.extend(e);
                    s
                }
                R::Panic(e) => {
                    self.recoveries += 1;
                    errs.extend(e);
                    break;
                }
            };
            let mut pending: Option<MErr> = None;
            loop {
                if ft.e || (self.peek().is_some() && self.on(&ft)) {
                    match self.node(t) {
                        R::Ok(x, e) => {
                            elems.push(x);
                            puncts.push(sep);
                            errs.extend(e);
                            errs.extend(pending);
                            continue 'list;
                        }
                        R::Panic(e) => stretch(&mut pending, e),
                    }
                } else if let Some(q) = &mut pending {
                    q.hi = self.cur().1;
                } else {
                    pending = Some(self.expecting(ft.clone()));
                }
                self.recoveries += 1;
                // skip this item: separator, follower or end of input stop the search
                if self.peek().is_some() && self.on(&fp) {
                    errs.extend(pending);
                    continue 'list;
                }
                if self.peek().is_none() || self.on(&fo) {
                    errs.extend(pending);
                    break 'list;
                }
                if !self.on(&ft) {
                    self.eat();
                }
            }
        }
        let hi = elems.last().unwrap().hi;
        let k = K::Split(elems.len());
        elems.extend(puncts);
        R::Ok(Tr::new(k, lo, hi, elems), errs)
    }
    fn punct(&mut self, n: &Nd, t: &Nd, p: &Nd) -> R {
        let (x, mut errs) = match self.node(t) {
            R::Ok(t, e) => (t, e),
            p => return p,
        };
        let lo = x.lo;
        let (ft, fp, fo) = (self.first(t), self.first(p), self.follow(n));
        let mut elems = vec![x];
        let mut puncts: Vec<Tr> = vec![];
        'list: while self.peek().is_some() && self.on(&fp) {
            match self.node(p) {
                R::Ok(s, e) => {
                    errs.extend(e);
                    puncts.push(s);
                }
                R::Panic(e) => {
                    self.recoveries += 1;
                    errs.extend(e);
                    break;
                }
            }
            let mut pending: Option<MErr> = None;
            loop {
                if self.peek().is_none() {
                    errs.extend(pending);
                    break 'list;
                }
                if self.on(&ft) {
                    match self.node(t) {
                        R::Ok(x, e) => {
                            elems.push(x);
                            errs.extend(pending);
                            errs.extend(e);
                            continue 'list;
                        }
                        R::Panic(e) => stretch(&mut pending, e),
                    }
                } else {
                    if self.on(&fo) {
                        errs.extend(pending);
                        break 'list;
                    }
                    if let Some(q) = &mut pending {
                        q.hi = self.cur().1;
                    } else {
                        let mut s = fo.minus_e();
                        s.add_terms(&ft);
                        pending = Some(self.expecting(s));
                    }
                }
                self.recoveries += 1;
                if self.peek().is_some() && self.on(&fp) {
                    errs.extend(pending);
                    continue 'list;
                }
                if self.peek().is_none() || self.on(&fo) {
                    errs.extend(pending);
                    break 'list;
                }
                if !self.on(&ft) {
                    self.eat();
                }
            }
        }
        let hi = elems.last().unwrap().hi.max(puncts.last().map(|p| p.hi).unwrap_or(lo));
        let k = K::Punct(elems.len());
        elems.extend(puncts);
        R::Ok(Tr::new(k, lo, hi, elems), errs)
    }
    fn recover(&mut self, t: &Nd, r: &Nd) -> R {
        let (ft, fr) = (self.first(t), self.first(r));
        let mut errs = vec![];
        let mut pending: Option<MErr> = None;
        let mut head = None;
        if ft.e || self.on(&ft) {
            match self.node(t) {
                R::Ok(x, e) => {
                    head = Some(x);
                    errs.extend(e);
                }
                R::Panic(e) => {
                    self.recoveries += 1;
                    stretch(&mut pending, e)
                }
            }
        } else {
            self.recoveries += 1;
            pending = Some(self.expecting(ft));
        }
        let (hlo, hhi) = head.as_ref().map(|h| (h.lo, h.hi)).unwrap_or((self.end(), self.end()));
        let tail = loop {
            let at_end = self.peek().is_none();
            if fr.e || (!at_end && self.on(&fr)) {
                match self.node(r) {
                    R::Ok(x, e) => {
                        errs.extend(e);
                        break Some(x);
                    }
                    R::Panic(e) => {
                        stretch(&mut pending, e);
                        if at_end {
                            break None;
                        }
                        // where the tail stopped, another one may start
                        if self.on(&fr) || fr.e {
                            continue;
                        }
                    }
                }
            } else if at_end {
                if pending.is_none() {
                    pending = Some(self.expecting(fr.clone()));
                }
                break None;
            }
            self.recoveries += 1;
            if let Some(p) = &mut pending {
                p.hi = self.cur().1;
            } else {
                pending = Some(self.expecting(fr.clone()));
            }
            self.eat();
        };
        errs.extend(pending);
        match tail {
            None => R::Panic(errs),
            Some(tail) => {
                let h = Tr::new(K::Head, hlo, hhi, head.into_iter().collect());
                let hi = tail.hi;
                R::Ok(Tr::new(K::Recover, hlo, hi, vec![h, tail]), errs)
            }
        }
    }
}

pub fn ty_name(t: usize) -> String {
    NAMES[t].to_string()
}
/// documented message of an error
pub fn message(e: &MErr, src: &str) -> String {
    let text = if e.lo < e.hi { &src[e.lo..e.hi] } else { "" };
    match &e.k {
        EK::Characters => format!("Unexpected: {text}"),
        EK::Tokens => format!("Unexpected token(s): {text}"),
        EK::Expecting(s) => format!("Expecting one of {}", s.repr(&ty_name).into_iter().collect::<Vec<_>>().join(", ")),
        EK::Eof => "Unexpected end of file".into(),
        EK::NoAdvance => "no advance".into(),
    }
}
