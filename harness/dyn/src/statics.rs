//! Random syntax definitions as source text, together with the grammar they stand for.
use crate::lx::*;
use crate::model::{Def, Gram, Mask, Nd, Tables};
use std::fmt::Write;
use std::rc::Rc;
use vp_core::cfg::Prod;
use vp_core::{hash64, Src};

pub struct SDef {
    pub name: String,
    /// field / variant names; empty for unnamed structs
    pub fields: Vec<String>,
    /// attribute text of each field
    pub attrs: Vec<String>,
    pub root: bool,
    pub no_test: bool,
    pub head: String,
    /// defined in a module of its own, so that names can repeat
    pub inside: bool,
}
pub struct Stat {
    pub gram: Gram,
    pub defs: Vec<SDef>,
}

const NAMES_: [&str; 40] = [
    "Program", "Stmt", "Expr", "Result", "Option", "Vec", "String", "Parser", "Metadata", "Error", "Prod", "L", "T", "E", "Span", "Token", "Item", "List", "Tail", "Block", "Node", "Root", "Meta", "Ok_", "Output",
    "Input", "Pos", "r#Type", "Def", "Unit", "a_lower", "Call", "Args", "__X", "Élan", "Tuple", "Iter", "Set", "Map", "Lexicon_",
];
const FIELDS: [&str; 34] = [
    "a", "b", "c", "parser", "meta", "errors", "result", "inner", "t", "first", "err", "r#type", "r#fn", "lo", "hi", "span", "r#match", "value", "produce", "data", "x", "token", "name", "_u", "__s", "f0", "f1", "jump",
    "r#struct", "ok", "é", "info", "i", "token_src",
];
const VARIANTS: [&str; 22] = ["A", "B", "C", "Some", "None", "Ok", "Err", "Success", "Recovered", "Panic", "Prod_", "L", "First", "Self_", "V0", "V1", "X", "r#Type", "Élan", "lower", "Leaf", "Other"];
const SEMS: [(&str, usize); 10] = [
    ("SemA", SEMA), ("SemB", SEMB), ("SemC", SEMC), ("Op", OP), ("Word", WORD), ("Num", NUM), ("Comment", COMMENT), ("Paren", PAREN), ("Sep", SEP), ("Text", TEXT),
];
fn distinct(s: &mut Src, pool: &[&str], n: usize) -> Vec<String> {
    let mut v: Vec<&str> = pool.to_vec();
    (0..n).map(|_| v.remove(s.below(v.len())).to_string()).collect()
}

struct G<'a> {
    s: &'a mut Src,
    n: usize,
    pool: Vec<usize>,
}
impl G<'_> {
    fn term(&mut self) -> Nd {
        Nd::Term(*self.s.pick(&self.pool))
    }
    /// a reference from definition i that compiles in this position
    fn refer(&mut self, i: usize, left: bool, listed: bool) -> Option<Nd> {
        let fwd = self.n - i - 1;
        let all = if left { fwd } else { self.n };
        if all == 0 {
            return None;
        }
        let j = if left { i + 1 + self.s.below(fwd) } else { self.s.below(self.n) };
        let r = Nd::Ref(j);
        Some(if j <= i && !(listed && self.s.chance(1, 2)) || self.s.chance(1, 8) { Nd::Boxed(Rc::new(r)) } else { r })
    }
    fn node(&mut self, i: usize, left: bool, listed: bool, depth: usize) -> Nd {
        let w = if depth == 0 { 0 } else { 10 };
        match self.s.weighted(&[14, 16, w]) {
            0 => self.term(),
            1 => self.refer(i, left, listed).unwrap_or_else(|| self.term()),
            _ => self.comb(i, left, listed, depth, None),
        }
    }
    /// a combinator, around x if given
    fn comb(&mut self, i: usize, left: bool, listed: bool, depth: usize, x: Option<Nd>) -> Nd {
        let k = self.s.weighted(&[5, 2, 3, 1, 4, 2, 1, 2, 2, 1, 4, 4, 3, 4]);
        let list = matches!(k, 2..=6 | 10 | 11);
        let d = depth.saturating_sub(1);
        let a = x.unwrap_or_else(|| self.node(i, left, listed || list, d));
        let r = Rc::new(a.clone());
        match k {
            0 => Nd::Opt(r),
            1 => Nd::Exists(r),
            2 => Nd::Nev(r, false),
            3 => Nd::Nev(r, true),
            4 => Nd::Vec(r, false),
            5 => Nd::Vec(r, true),
            6 => Nd::Loop(r),
            7 => Nd::Quote(r),
            8 => Nd::Parse(r),
            9 => Nd::Boxed(r),
            10 => Nd::Split(r, Rc::new(self.node(i, left, true, d.min(1)))),
            11 => Nd::Punct(r, Rc::new(self.node(i, left, true, d.min(1)))),
            12 => Nd::Recover(r, Rc::new(self.node(i, left, listed, d.min(1)))),
            _ => {
                let n = self.s.range(1, 4);
                let mut v = vec![a];
                for _ in 0..n {
                    v.push(self.node(i, left, listed, d));
                }
                Nd::Tuple(v)
            }
        }
    }
}
/// places in a node: (path, in the first part, below a list)
/// The lexicon of a definition is that of its first part, so a first part that leads back to the definition does
/// not compile.
fn places(n: &Nd, path: &mut Vec<usize>, left: bool, listed: bool, out: &mut Vec<(Vec<usize>, bool, bool)>) {
    out.push((path.clone(), left, listed));
    let mut go = |k: usize, x: &Nd, left: bool, listed: bool| {
        path.push(k);
        places(x, path, left, listed, out);
        path.pop();
    };
    match n {
        Nd::Term(_) | Nd::Ref(_) => {}
        Nd::Boxed(x) => {
            if !matches!(**x, Nd::Ref(_)) {
                go(0, x, left, listed)
            }
        }
        Nd::Opt(x) | Nd::Exists(x) | Nd::Quote(x) | Nd::Parse(x) => go(0, x, left, listed),
        Nd::Nev(x, _) | Nd::Vec(x, _) | Nd::Loop(x) => go(0, x, left, true),
        Nd::Split(a, b) | Nd::Punct(a, b) => {
            go(0, a, left, true);
            go(1, b, left, true);
        }
        Nd::Recover(a, b) => {
            go(0, a, left, listed);
            go(1, b, left, listed);
        }
        Nd::Tuple(v) => {
            for (k, x) in v.iter().enumerate() {
                go(k, x, left, listed);
            }
        }
    }
}
fn edit(n: &Nd, path: &[usize], f: &mut dyn FnMut(&Nd) -> Nd) -> Nd {
    let Some((k, rest)) = path.split_first() else { return f(n) };
    let mut e = |j: usize, x: &Rc<Nd>| if *k == j { Rc::new(edit(x, rest, f)) } else { x.clone() };
    match n {
        Nd::Term(_) | Nd::Ref(_) => n.clone(),
        Nd::Boxed(x) => Nd::Boxed(e(0, x)),
        Nd::Opt(x) => Nd::Opt(e(0, x)),
        Nd::Exists(x) => Nd::Exists(e(0, x)),
        Nd::Quote(x) => Nd::Quote(e(0, x)),
        Nd::Parse(x) => Nd::Parse(e(0, x)),
        Nd::Nev(x, d) => Nd::Nev(e(0, x), *d),
        Nd::Vec(x, d) => Nd::Vec(e(0, x), *d),
        Nd::Loop(x) => Nd::Loop(e(0, x)),
        Nd::Split(a, b) => Nd::Split(e(0, a), e(1, b)),
        Nd::Punct(a, b) => Nd::Punct(e(0, a), e(1, b)),
        Nd::Recover(a, b) => Nd::Recover(e(0, a), e(1, b)),
        Nd::Tuple(v) => Nd::Tuple(v.iter().enumerate().map(|(j, x)| if j == *k { edit(x, rest, f) } else { x.clone() }).collect()),
    }
}
pub fn fields(d: &Def) -> &Vec<(Nd, Mask)> {
    match d {
        Def::Struct(v) | Def::Enum(v) => v,
        Def::Unit(_) => unreachable!(),
    }
}
fn fields_mut(d: &mut Def) -> &mut Vec<(Nd, Mask)> {
    match d {
        Def::Struct(v) | Def::Enum(v) => v,
        Def::Unit(_) => unreachable!(),
    }
}
fn size(n: &Nd) -> usize {
    let mut v = vec![];
    places(n, &mut vec![], false, false, &mut v);
    v.len()
}
fn good(g: &Gram) -> bool {
    g.defs.keys().all(|r| {
        let t = Tables::new(g, &Nd::Ref(*r));
        t.verdict.is_ok() && t.cfg.min_len().iter().all(|m| m.is_some())
    })
}
fn mutate(b: &mut G, g: &Gram, i: usize) -> Gram {
    let mut g = g.clone();
    let d = g.defs.get_mut(&i).unwrap();
    let f = fields_mut(d);
    // add or remove a part, or change one
    match b.s.weighted(&[8, 2, 1]) {
        1 if f.len() < 5 => {
            let at = b.s.below(f.len() + 1);
            let n = b.node(i, at == 0, false, 2);
            f.insert(at, (n, 0));
        }
        2 if f.len() > 1 => {
            // the new first part must be allowed to be leftmost: only drop later ones
            let at = 1 + b.s.below(f.len() - 1);
            f.remove(at);
        }
        _ => {
            let k = b.s.below(f.len());
            let mut v = vec![];
            places(&f[k].0, &mut vec![], k == 0, false, &mut v);
            let (path, left, listed) = v[b.s.below(v.len())].clone();
            let wrap = b.s.chance(1, 2);
            let n = edit(&f[k].0, &path, &mut |x| if wrap { b.comb(i, left, listed, 1, Some(x.clone())) } else { b.node(i, left, listed, 2) });
            f[k].0 = n;
        }
    }
    g
}
pub fn grammar(seed: u64, i: usize) -> Stat {
    let mut src = Src::fresh(hash64(&("static syntax", seed, i)));
    let s = &mut src;
    let n = 1 + s.weighted(&[2, 3, 4, 4, 3, 2]);
    let mut all: Vec<usize> = (0..NT).collect();
    let mut pool = vec![];
    let few = s.chance(1, 4);
    let k = if few { s.range(5, 9) } else { NT };
    for _ in 0..k {
        pool.push(all.remove(s.below(all.len())));
    }
    let mut g = Gram::default();
    let mut b = G { s, n, pool };
    // start: a chain of definitions made of different terminals
    for j in 0..n {
        let e = b.s.chance(2, 5);
        let parts = 1 + b.s.weighted(&[2, 4, 4, 2, 1]);
        let mut v: Vec<(Nd, Mask)> = vec![];
        let mut p = b.pool.clone();
        for _ in 0..parts.min(p.len()) {
            v.push((Nd::Term(p.remove(b.s.below(p.len()))), 0));
        }
        g.defs.insert(j, if e { Def::Enum(v) } else { Def::Struct(v) });
    }
    if !good(&g) {
        // an enum with an any-text and a literal terminal of one type: keep one variant
        for j in 0..n {
            fields_mut(g.defs.get_mut(&j).unwrap()).truncate(1);
        }
    }
    // mostly one connected grammar
    for j in 0..n - 1 {
        let mut h = g.clone();
        let r = Nd::Ref(j + 1);
        fields_mut(h.defs.get_mut(&j).unwrap()).push((if b.s.chance(1, 3) { Nd::Vec(Rc::new(r), false) } else { r }, 0));
        if good(&h) {
            g = h;
        }
    }
    let steps = b.s.range(30, 140);
    for _ in 0..steps {
        let j = b.s.below(n);
        let h = mutate(&mut b, &g, j);
        let big: usize = h.defs.values().flat_map(|d| fields(d).iter().map(|f| size(&f.0))).sum();
        if big <= 60 && good(&h) {
            g = h;
        }
    }
    if b.s.chance(1, 7) {
        // one step that breaks it
        for _ in 0..200 {
            let j = b.s.below(n);
            let h = mutate(&mut b, &g, j);
            let t = Tables::new(&h, &Nd::Ref(0));
            if t.verdict.is_err() {
                g = h;
                break;
            }
        }
    }
    let s = b.s;
    // the words of the definitions
    let inside = s.chance(1, 4);
    let names = if inside {
        let k = s.range(1, n.min(2));
        let pool = distinct(s, &NAMES_, k);
        (0..n).map(|_| s.pick(&pool).clone()).collect()
    } else {
        distinct(s, &NAMES_, n)
    };
    let debug = s.chance(1, 2);
    let vis = *s.pick(if inside { &["pub ", "pub(crate) "][..] } else { &["pub ", "pub(crate) ", "pub(super) "] });
    let mut defs = vec![];
    for (j, name) in names.into_iter().enumerate() {
        let d = g.defs.get_mut(&j).unwrap();
        let parts = fields(d).len();
        let unnamed = matches!(d, Def::Struct(_)) && s.chance(1, 2);
        let fnames = match d {
            Def::Enum(_) => distinct(s, &VARIANTS, parts),
            _ if unnamed => vec![],
            _ => distinct(s, &FIELDS, parts),
        };
        let mut attrs = vec![];
        for f in fields_mut(d).iter_mut() {
            let mut metas = vec![];
            if s.chance(1, 3) {
                let k = if s.chance(1, 12) { s.range(5, 14) } else { 1 + s.weighted(&[6, 3, 1]) };
                let mut m = vec![];
                for _ in 0..k {
                    let (x, t) = *s.pick(&SEMS);
                    f.1 |= 1 << t;
                    m.push(x);
                }
                metas.push(format!("semantic({}{})", m.join(", "), if k > 0 && s.chance(1, 5) { "," } else { "" }));
            }
            if s.chance(1, 12) {
                metas.insert(s.below(metas.len() + 1), "hook(some_fn)".to_string());
            }
            let mut a = String::new();
            if s.chance(1, 10) {
                a.push_str("/** a part */ ");
            }
            if !metas.is_empty() {
                write!(a, "#[teleparse({}{})] ", metas.join(", "), if s.chance(1, 8) { "," } else { "" }).unwrap();
            } else if s.chance(1, 20) {
                a.push_str("#[teleparse()] ");
            }
            if s.chance(1, 12) {
                a.push_str("#[allow(dead_code)] ");
            }
            attrs.push(a);
        }
        let root = j == 0 || s.chance(1, 3);
        let no_test = root && s.chance(1, 3);
        let mut head = vec!["#[derive_syntax]".to_string()];
        let mut rest = vec![];
        if root {
            rest.push(if !no_test { "#[teleparse(root)]" } else if s.chance(1, 2) { "#[teleparse(root, no_test)]" } else { "#[teleparse(no_test, root)]" }.to_string());
        } else if s.chance(1, 20) {
            rest.push("#[teleparse()]".to_string());
        }
        if debug {
            rest.insert(s.below(rest.len() + 1), "#[derive(Debug)]".to_string());
        }
        if s.chance(1, 6) {
            rest.insert(s.below(rest.len() + 1), "/// documented".to_string());
        }
        head.append(&mut rest);
        head.push(vis.to_string());
        defs.push(SDef { name, fields: fnames, attrs, root, no_test, head: head.join("\n"), inside });
    }
    Stat { gram: g, defs }
}

impl Stat {
    fn path(&self, j: usize) -> String {
        let d = &self.defs[j];
        if d.inside {
            format!("m{j}::{}", d.name)
        } else {
            d.name.clone()
        }
    }
    pub fn ty(&self, n: &Nd) -> String {
        let t = |x: &Nd| self.ty(x);
        match n {
            Nd::Term(k) => TERMS[*k].0.to_string(),
            Nd::Ref(j) => self.path(*j),
            Nd::Opt(x) => format!("tp::Option<{}>", t(x)),
            Nd::Exists(x) => format!("tp::Exists<{}>", t(x)),
            Nd::Nev(x, d) => format!("tp::{}<{}>", if *d { "NevDeque" } else { "Nev" }, t(x)),
            Nd::Vec(x, d) => format!("tp::{}<{}>", if *d { "VecDeque" } else { "Vec" }, t(x)),
            Nd::Loop(x) => format!("tp::Loop<{}>", t(x)),
            Nd::Quote(x) => format!("tp::String<{}>", t(x)),
            Nd::Parse(x) => format!("tp::Parse<u32, {}>", t(x)),
            Nd::Boxed(x) => format!("Box<{}>", t(x)),
            Nd::Split(a, b) => format!("tp::Split<{}, {}>", t(a), t(b)),
            Nd::Punct(a, b) => format!("tp::Punct<{}, {}>", t(a), t(b)),
            Nd::Recover(a, b) => format!("tp::Recover<{}, {}>", t(a), t(b)),
            Nd::Tuple(v) => format!("({})", v.iter().map(t).collect::<Vec<_>>().join(", ")),
        }
    }
    pub fn show(&self) -> String {
        let mut o = String::new();
        for (j, d) in self.defs.iter().enumerate() {
            let v = fields(&self.gram.defs[&j]);
            let e = matches!(self.gram.defs[&j], Def::Enum(_));
            let parts: Vec<String> = v
                .iter()
                .enumerate()
                .map(|(k, f)| match (e, d.fields.get(k)) {
                    (true, Some(x)) => format!("{}{x}({})", d.attrs[k], self.ty(&f.0)),
                    (_, Some(x)) => format!("{}pub {x}: {}", d.attrs[k], self.ty(&f.0)),
                    _ => format!("{}pub {}", d.attrs[k], self.ty(&f.0)),
                })
                .collect();
            let parts = parts.join(", ");
            if d.inside {
                writeln!(o, "pub mod m{j} {{ use super::*;").unwrap();
            }
            match (e, d.fields.is_empty()) {
                (true, _) => writeln!(o, "{}enum {} {{ {parts} }}", d.head, d.name),
                (_, true) => writeln!(o, "{}struct {}({parts});", d.head, d.name),
                _ => writeln!(o, "{}struct {} {{ {parts} }}", d.head, d.name),
            }
            .unwrap();
            if d.inside {
                o.push_str("}\n");
            }
        }
        o
    }
    pub fn emit(&self, i: usize) -> String {
        let mut o = format!("#[allow(warnings)]\npub mod g{i} {{\nuse super::*;\n{}", self.show());
        for (j, d) in self.defs.iter().enumerate() {
            let v = fields(&self.gram.defs[&j]);
            write!(o, "impl ToTr for {} {{ fn tr(self) -> Tr {{ ", self.path(j)).unwrap();
            if matches!(self.gram.defs[&j], Def::Enum(_)) {
                write!(o, "let (lo, hi) = (teleparse::ToSpan::lo(&self), teleparse::ToSpan::hi(&self)); match self {{ ").unwrap();
                for (k, x) in d.fields.iter().enumerate() {
                    write!(o, "Self::{x}(x) => Tr::new(K::Alt({k}), lo, hi, vec![ToTr::tr(x)]), ").unwrap();
                }
                o.push_str("} } }\n");
            } else {
                let parts: Vec<String> = (0..v.len()).map(|k| format!("self.{}", d.fields.get(k).cloned().unwrap_or(k.to_string()))).collect();
                writeln!(o, "vp_dyn::tr_node!(self, K::Seq, [{}]) }} }}", parts.join(", ")).unwrap();
            }
        }
        o.push_str("}\n");
        o
    }
    pub fn entries(&self, i: usize) -> String {
        let v: Vec<String> = self.defs.iter().enumerate().map(|(j, d)| if d.root { format!("entry!(g{i}::{})", self.path(j)) } else { "None".to_string() }).collect();
        format!("    &[{}],\n", v.join(", "))
    }
}
/// the source file of the definitions
pub fn source(seed: u64, count: usize) -> String {
    let all: Vec<Stat> = (0..count).map(|i| grammar(seed, i)).collect();
    let mut o = String::from("use super::*;\n");
    for (i, g) in all.iter().enumerate() {
        o.push_str(&g.emit(i));
    }
    write!(o, "pub const SEED: u64 = {seed};\npub const COUNT: usize = {count};\npub const ALL: [&[Option<Entry>]; {count}] = [\n").unwrap();
    for (i, g) in all.iter().enumerate() {
        o.push_str(&g.entries(i));
    }
    o.push_str("];\n");
    o
}
/// tests that the definitions bring along, and whether they pass
pub fn tests(seed: u64, count: usize) -> String {
    let mut o = String::new();
    for i in 0..count {
        let g = grammar(seed, i);
        for (j, d) in g.defs.iter().enumerate().filter(|(_, d)| d.root && !d.no_test) {
            let ok = Tables::new(&g.gram, &Nd::Ref(j)).verdict.is_ok();
            let m = if d.inside { format!("m{j}::") } else { String::new() };
            writeln!(o, "g{i}::{m}{}_root_test::is_ll1\t{}", d.name.trim_start_matches("r#"), if ok { "ok" } else { "FAILED" }).unwrap();
        }
    }
    o
}
/// every Loop is followed by the end of input only
pub fn loops_end(g: &Gram, t: &Tables) -> bool {
    fn walk(n: &Nd, t: &Tables) -> bool {
        match n {
            Nd::Term(_) | Nd::Ref(_) => true,
            Nd::Loop(x) => walk(x, t) && t.try_sym(n).map(|s| t.sets.follow[s].no_terms()).unwrap_or(true),
            Nd::Opt(x) | Nd::Exists(x) | Nd::Nev(x, _) | Nd::Vec(x, _) | Nd::Quote(x) | Nd::Parse(x) | Nd::Boxed(x) => walk(x, t),
            Nd::Split(a, b) | Nd::Punct(a, b) | Nd::Recover(a, b) => walk(a, t) && walk(b, t),
            Nd::Tuple(v) => v.iter().all(|x| walk(x, t)),
        }
    }
    g.defs.values().all(|d| fields(d).iter().all(|f| walk(&f.0, t)))
}
pub fn choices(t: &Tables) -> usize {
    t.cfg.prods.iter().filter(|p| matches!(p, Prod::Alt(_))).count()
}
