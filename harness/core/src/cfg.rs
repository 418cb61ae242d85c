//! Textbook reference: context-free grammars over (type, text) terminals, FIRST / FOLLOW as least
//! sets, LL(1) and left recursion. Written from the definitions, independent of the code under test.
use std::collections::{BTreeMap, BTreeSet};

pub type Ty = usize;
/// terminal pattern: a token type with any text, or one text
pub type Term = (Ty, Option<&'static str>);

/// A set of tokens (plus `e`: empty string / end of input)
#[derive(Clone, Debug, PartialEq, Eq, Default, Hash, PartialOrd, Ord)]
pub struct TS {
    pub any: BTreeSet<Ty>,
    pub lits: BTreeSet<(Ty, &'static str)>,
    pub e: bool,
}
impl TS {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn of(t: Term) -> Self {
        let mut s = Self::new();
        s.add(t);
        s
    }
    pub fn add(&mut self, (ty, lit): Term) -> bool {
        match lit {
            None => {
                if self.any.insert(ty) {
                    self.lits.retain(|(t, _)| *t != ty);
                    true
                } else {
                    false
                }
            }
            Some(l) => !self.any.contains(&ty) && self.lits.insert((ty, l)),
        }
    }
    /// union of the terminals only
    pub fn add_terms(&mut self, o: &TS) -> bool {
        let mut c = false;
        for t in &o.any {
            c |= self.add((*t, None));
        }
        for (t, l) in &o.lits {
            c |= self.add((*t, Some(l)));
        }
        c
    }
    pub fn add_all(&mut self, o: &TS) -> bool {
        let c = self.add_terms(o);
        if o.e && !self.e {
            self.e = true;
            return true;
        }
        c
    }
    pub fn has(&self, ty: Ty, text: &str) -> bool {
        self.any.contains(&ty) || self.lits.iter().any(|(t, l)| *t == ty && *l == text)
    }
    /// intersection of the terminals (no e)
    pub fn meet(&self, o: &TS) -> TS {
        let mut r = TS::new();
        for t in &self.any {
            if o.any.contains(t) {
                r.any.insert(*t);
            }
        }
        for (t, l) in &self.lits {
            if o.any.contains(t) || o.lits.contains(&(*t, *l)) {
                r.lits.insert((*t, *l));
            }
        }
        for (t, l) in &o.lits {
            if self.any.contains(t) {
                r.lits.insert((*t, *l));
            }
        }
        r
    }
    pub fn no_terms(&self) -> bool {
        self.any.is_empty() && self.lits.is_empty()
    }
    /// sorted list of rendered members, as documented: literals quoted, wildcard = type name
    pub fn repr(&self, name: &dyn Fn(Ty) -> String) -> BTreeSet<String> {
        let mut r: BTreeSet<String> = self.any.iter().map(|t| name(*t)).collect();
        r.extend(self.lits.iter().map(|(_, l)| format!("\"{l}\"")));
        if self.e {
            r.insert("<empty>".into());
        }
        r
    }
    pub fn minus_e(&self) -> TS {
        let mut s = self.clone();
        s.e = false;
        s
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Prod {
    Eps,
    Term(Term),
    Seq(Vec<usize>),
    Alt(Vec<usize>),
}

#[derive(Clone, Debug, Default)]
pub struct Cfg {
    /// symbol -> production
    pub prods: Vec<Prod>,
    pub root: usize,
}

#[derive(Clone, Debug)]
pub struct Sets {
    pub first: Vec<TS>,
    pub follow: Vec<TS>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Bad {
    /// alternatives i,j of the symbol can start with the same token, or both be empty
    FirstFirst(usize),
    /// alternative i can be empty and alternative j starts with a follower of the symbol
    FirstFollow(usize),
    /// symbol reaches itself without consuming
    LeftRec(usize),
}

impl Cfg {
    pub fn reachable(&self) -> BTreeSet<usize> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![self.root];
        while let Some(x) = todo.pop() {
            if seen.insert(x) {
                if let Prod::Seq(v) | Prod::Alt(v) = &self.prods[x] {
                    todo.extend(v.iter().copied());
                }
            }
        }
        seen
    }
    pub fn sets(&self) -> Sets {
        let n = self.prods.len();
        let mut nullable = vec![false; n];
        loop {
            let mut ch = false;
            for x in 0..n {
                if nullable[x] {
                    continue;
                }
                let v = match &self.prods[x] {
                    Prod::Eps => true,
                    Prod::Term(_) => false,
                    Prod::Seq(v) => v.iter().all(|y| nullable[*y]),
                    Prod::Alt(v) => v.iter().any(|y| nullable[*y]),
                };
                if v {
                    nullable[x] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut first: Vec<TS> = vec![TS::new(); n];
        loop {
            let mut ch = false;
            for x in 0..n {
                let mut add = TS::new();
                match &self.prods[x] {
                    Prod::Eps => {}
                    Prod::Term(t) => {
                        add.add(*t);
                    }
                    Prod::Seq(v) => {
                        for y in v {
                            add.add_terms(&first[*y]);
                            if !nullable[*y] {
                                break;
                            }
                        }
                    }
                    Prod::Alt(v) => {
                        for y in v {
                            add.add_terms(&first[*y]);
                        }
                    }
                }
                ch |= first[x].add_terms(&add);
            }
            if !ch {
                break;
            }
        }
        for x in 0..n {
            first[x].e = nullable[x];
        }
        let reach = self.reachable();
        let mut follow: Vec<TS> = vec![TS::new(); n];
        follow[self.root].e = true;
        loop {
            let mut ch = false;
            for &x in &reach {
                match &self.prods[x] {
                    Prod::Seq(v) => {
                        for i in 0..v.len() {
                            // what follows v[i] inside x
                            let mut add = TS::new();
                            let mut rest_nullable = true;
                            for y in &v[i + 1..] {
                                add.add_terms(&first[*y]);
                                if !nullable[*y] {
                                    rest_nullable = false;
                                    break;
                                }
                            }
                            if rest_nullable {
                                let f = follow[x].clone();
                                add.add_all(&f);
                            }
                            ch |= follow[v[i]].add_all(&add);
                        }
                    }
                    Prod::Alt(v) => {
                        for y in v {
                            let f = follow[x].clone();
                            ch |= follow[*y].add_all(&f);
                        }
                    }
                    _ => {}
                }
            }
            if !ch {
                break;
            }
        }
        Sets { first, follow }
    }
    /// symbols reachable from x without consuming a token, in one step
    pub fn left_edges(&self, s: &Sets, x: usize) -> Vec<usize> {
        match &self.prods[x] {
            Prod::Alt(v) => v.clone(),
            Prod::Seq(v) => {
                let mut r = vec![];
                for y in v {
                    r.push(*y);
                    if !s.first[*y].e {
                        break;
                    }
                }
                r
            }
            _ => vec![],
        }
    }
    pub fn left_recursive(&self, s: &Sets) -> Option<usize> {
        for &x in &self.reachable() {
            let mut seen = BTreeSet::new();
            let mut todo = self.left_edges(s, x);
            while let Some(y) = todo.pop() {
                if y == x {
                    return Some(x);
                }
                if seen.insert(y) {
                    todo.extend(self.left_edges(s, y));
                }
            }
        }
        None
    }
    /// LL(1) by the definition on alternatives
    pub fn conflict(&self, s: &Sets) -> Option<Bad> {
        for &x in &self.reachable() {
            if let Prod::Alt(v) = &self.prods[x] {
                for i in 0..v.len() {
                    for j in 0..v.len() {
                        if i == j {
                            continue;
                        }
                        let (a, b) = (&s.first[v[i]], &s.first[v[j]]);
                        if (a.e && b.e) || !a.meet(b).no_terms() {
                            return Some(Bad::FirstFirst(x));
                        }
                        if a.e && !b.meet(&s.follow[x]).no_terms() {
                            return Some(Bad::FirstFollow(x));
                        }
                    }
                }
            }
        }
        None
    }
    pub fn verdict(&self, s: &Sets) -> Result<(), Bad> {
        if let Some(b) = self.conflict(s) {
            return Err(b);
        }
        if let Some(x) = self.left_recursive(s) {
            return Err(Bad::LeftRec(x));
        }
        Ok(())
    }
    /// predictive choice of an alternative symbol: index of the alternative for a lookahead
    pub fn predict(&self, s: &Sets, x: usize, tok: Option<(Ty, &str)>) -> Option<usize> {
        let Prod::Alt(v) = &self.prods[x] else { return None };
        if let Some((ty, text)) = tok {
            for (i, y) in v.iter().enumerate() {
                if s.first[*y].has(ty, text) {
                    return Some(i);
                }
            }
        }
        v.iter().position(|y| s.first[*y].e)
    }
    /// minimal number of tokens derivable (None: derives no terminal string)
    pub fn min_len(&self) -> Vec<Option<u32>> {
        let n = self.prods.len();
        let mut m: Vec<Option<u32>> = vec![None; n];
        loop {
            let mut ch = false;
            for x in 0..n {
                let v = match &self.prods[x] {
                    Prod::Eps => Some(0),
                    Prod::Term(_) => Some(1),
                    Prod::Seq(v) => v.iter().try_fold(0u32, |a, y| m[*y].map(|b| a.saturating_add(b))),
                    Prod::Alt(v) => v.iter().filter_map(|y| m[*y]).min(),
                };
                if v.is_some() && (m[x].is_none() || v < m[x]) {
                    m[x] = v;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        m
    }
    /// table-driven LL(1) recognition of a token sequence (the grammar must be accepted).
    /// Ok(k): the root was completed after consuming exactly k tokens.
    /// Err(k): stuck at token k (k == len: at the end of input).
    pub fn recognise(&self, s: &Sets, toks: &[(Ty, &str)]) -> Result<usize, usize> {
        let mut st = vec![self.root];
        let mut k = 0;
        let mut fuel = 200 * (toks.len() + 2) * (self.prods.len() + 1);
        while let Some(x) = st.pop() {
            fuel -= 1;
            if fuel == 0 {
                panic!("reference recogniser ran out of fuel");
            }
            match &self.prods[x] {
                Prod::Eps => {}
                Prod::Term((ty, lit)) => match toks.get(k) {
                    Some((t, s)) if t == ty && lit.map(|l| l == *s).unwrap_or(true) => k += 1,
                    _ => return Err(k),
                },
                Prod::Seq(v) => st.extend(v.iter().rev().copied()),
                Prod::Alt(v) => match self.predict(s, x, toks.get(k).copied()) {
                    Some(i) => st.push(v[i]),
                    None => return Err(k),
                },
            }
        }
        Ok(k)
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        let mut reach: Vec<_> = self.reachable().into_iter().collect();
        reach.sort();
        for x in reach {
            let rhs = match &self.prods[x] {
                Prod::Eps => "()".to_string(),
                Prod::Term((t, None)) => format!("t{t}"),
                Prod::Term((t, Some(l))) => format!("t{t}:{l:?}"),
                Prod::Seq(v) => v.iter().map(|y| format!("S{y}")).collect::<Vec<_>>().join(" "),
                Prod::Alt(v) => v.iter().map(|y| format!("S{y}")).collect::<Vec<_>>().join(" | "),
            };
            s.push_str(&format!("S{x} -> {rhs}{}; ", if x == self.root { " (root)" } else { "" }));
        }
        s
    }
}

pub fn group<K: Ord + Clone, V>(v: impl IntoIterator<Item = (K, V)>) -> BTreeMap<K, Vec<V>> {
    let mut m: BTreeMap<K, Vec<V>> = BTreeMap::new();
    for (k, x) in v {
        m.entry(k).or_default().push(x);
    }
    m
}
