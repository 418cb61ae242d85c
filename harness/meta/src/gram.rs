//! Random grammars handed to the public table builder, against the textbook reference.
use std::any::TypeId;
use teleparse::lex::TokenSrc;
use teleparse::syntax::{
    First, FirstBuilder, FirstRel, FirstSet, Follow, FollowBuilder, FollowSet, Metadata, MetadataBuilder,
};
use teleparse::{GrammarError, Lexicon};
use vp_core::cfg::{Bad, Cfg, Prod, Sets, TS};
use vp_core::{Cx, Src};

use crate::lx::{L40, L6};

pub const LITS: &[&str] = &["+", "-", "if", "é"];
pub const PROBES: &[&str] = &["+", "-", "if", "é", "zz", ""];

struct M<const N: usize>;
macro_rules! markers {
    ($($n:literal)*) => { pub fn marker(i: usize) -> TypeId {
        static V: std::sync::OnceLock<Vec<TypeId>> = std::sync::OnceLock::new();
        V.get_or_init(|| vec![$(TypeId::of::<M<$n>>()),*])[i]
    } pub const NMARK: usize = [$($n),*].len(); };
}
markers!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159);

pub struct Gram {
    pub cfg: Cfg,
    /// order in which productions are registered
    pub order: Vec<usize>,
    /// symbol -> marker index
    pub mark: Vec<usize>,
    /// 0: every symbol has its own name; otherwise so many names
    pub names: usize,
}
impl Gram {
    pub fn id(&self, x: usize) -> TypeId {
        marker(self.mark[x])
    }
    pub fn name(&self, x: usize) -> String {
        match self.names {
            0 => format!("S{x}"),
            n => format!("S{}", x % n),
        }
    }
    pub fn show(&self) -> String {
        format!("{} order={:?}", self.cfg.show(), self.order)
    }
}

/// `nt`: number of token types used for terminals
pub fn gen(src: &mut Src, nt: usize) -> Gram {
    let nn = src.range(1, 11); // symbols with structure
    // sometimes many parts and alternatives
    let wide = nt == 40 && src.chance(1, 4);
    let nn = if wide { nn.min(6) } else { nn };
    // sometimes long chains of symbols: what one set holds goes through many others
    let deep = !wide && src.chance(1, 24);
    let nn = if deep { src.range(18, 110) } else { nn };
    let nl = if wide { src.range(12, 30) } else { src.range(1, 9) }; // leaves
    let n = nn + nl;
    // how likely is a reference back to an earlier symbol (recursion)
    let back = if deep { src.weighted(&[6, 1]) } else { *src.pick(&[0usize, 1, 2, 6]) };
    // how likely is a leaf empty
    let epsw = *src.pick(&[1usize, 0, 3]);
    // terminals mostly distinct or mostly clashing
    let distinct = src.chance(3, 4);
    let mut prods = Vec::with_capacity(n);
    for i in 0..nn {
        let k = if wide && src.chance(1, 2) { src.range(6, 26) } else if deep { src.weighted(&[6, 3, 1]) + 1 } else { src.weighted(&[2, 6, 4, 2, 1]) + 1 };
        let alt = src.chance(1, 2);
        let mut v = vec![];
        for _ in 0..k {
            let y = if src.chance(back, 20) {
                src.below(i + 1)
            } else {
                // forward: another structured symbol or a leaf
                let later = n - i - 1;
                if wide && distinct && v.len() < nl && src.chance(9, 10) {
                    nn + v.len()
                } else if deep && i + 1 < nn && (v.is_empty() || src.chance(1, 6)) {
                    i + 1
                } else if !deep && i + 1 < nn && src.chance(1, 2) {
                    i + 1 + src.below((nn - i - 1).min(3))
                } else {
                    (i + 1).max(nn) + src.below((later).min(n - (i + 1).max(nn)))
                }
            };
            v.push(y);
        }
        if deep && v.len() > 1 {
            let j = src.below(v.len());
            v.rotate_left(j);
        }
        prods.push(if alt { Prod::Alt(v) } else { Prod::Seq(v) });
    }
    let mut used: Vec<(usize, Option<&'static str>)> = vec![];
    for _ in 0..nl {
        if src.chance(epsw, 6) {
            prods.push(Prod::Eps);
            continue;
        }
        let mut t = (src.below(nt), if src.chance(2, 3) { Some(*src.pick(LITS)) } else { None });
        if distinct {
            for _ in 0..8 {
                let clash = used.iter().any(|u| u.0 == t.0 && (u.1.is_none() || t.1.is_none() || u.1 == t.1));
                if !clash {
                    break;
                }
                t = (src.below(nt), if src.chance(2, 3) { Some(*src.pick(LITS)) } else { None });
            }
        }
        used.push(t);
        prods.push(Prod::Term(t));
    }
    // optional-like wrappers: turn some symbols into `x | empty`
    let mut cfg = Cfg { prods, root: 0 };
    let wraps = src.below(4);
    for _ in 0..wraps {
        if cfg.prods.len() + 2 >= NMARK {
            break;
        }
        let host = src.below(nn);
        let len = match &cfg.prods[host] {
            Prod::Seq(v) => v.len(),
            _ => continue,
        };
        let pos = src.below(len);
        let e = cfg.prods.len();
        cfg.prods.push(Prod::Eps);
        let o = cfg.prods.len();
        if let Prod::Seq(v) = &mut cfg.prods[host] {
            let y = v[pos];
            v[pos] = o;
            cfg.prods.push(Prod::Alt(vec![y, e]));
        }
    }
    // list-like wrappers: `L -> y M`, `M -> L | ()`
    let lists = src.below(3);
    for _ in 0..lists {
        if cfg.prods.len() + 3 >= NMARK {
            break;
        }
        let host = src.below(nn);
        let len = match &cfg.prods[host] {
            Prod::Seq(v) => v.len(),
            _ => continue,
        };
        let pos = src.below(len);
        let e = cfg.prods.len();
        cfg.prods.push(Prod::Eps);
        if let Prod::Seq(v) = &mut cfg.prods[host] {
            let y = v[pos];
            v[pos] = e + 1;
            cfg.prods.push(Prod::Seq(vec![y, e + 2]));
            cfg.prods.push(Prod::Alt(vec![e + 1, e]));
        }
    }
    // productions are registered for reachable symbols only, as the node types do
    let mut order: Vec<usize> = cfg.reachable().into_iter().collect();
    match src.below(if deep { 4 } else { 2 }) {
        0 => {}
        1 => {
            for i in (1..order.len()).rev() {
                let j = src.below(i + 1);
                order.swap(i, j);
            }
        }
        _ => order.reverse(),
    }
    let mut mark: Vec<usize> = (0..NMARK).collect();
    for i in (1..NMARK).rev() {
        let j = src.below(i + 1);
        mark.swap(i, j);
    }
    Gram { cfg, order, mark, names: [0, 1, 2, 5][src.weighted(&[6, 1, 1, 1])] }
}

fn ty<L: Lexicon>(t: usize) -> L {
    L::from_id_unchecked(t)
}

pub fn build<L: Lexicon>(g: &Gram) -> Result<Metadata<L>, GrammarError> {
    let mut b = MetadataBuilder::<L>::new();
    for &x in &g.order {
        let id = g.id(x);
        if !b.visit(id, || g.name(x)) {
            panic!("symbol visited twice");
        }
        match &g.cfg.prods[x] {
            Prod::Eps => b.add_epsilon(id),
            Prod::Term((t, l)) => b.add_terminal(id, ty::<L>(*t), *l),
            Prod::Seq(v) => b.add_sequence(id, &v.iter().map(|y| g.id(*y)).collect::<Vec<_>>()),
            Prod::Alt(v) => b.add_union(id, &v.iter().map(|y| g.id(*y)).collect::<Vec<_>>()),
        }
    }
    b.build(g.id(g.cfg.root))
}

pub fn build_sets<L: Lexicon>(g: &Gram) -> (First<L>, Vec<(usize, FollowSet<L>)>) {
    let mut fb = FirstBuilder::<L>::new();
    for &x in &g.order {
        let id = g.id(x);
        match &g.cfg.prods[x] {
            Prod::Eps => fb.add(FirstRel::insert_epsilon(id)),
            Prod::Term((t, l)) => fb.add(FirstRel::insert_token(id, ty::<L>(*t), *l)),
            Prod::Seq(v) => fb.build_sequence(id, &v.iter().map(|y| g.id(*y)).collect::<Vec<_>>()),
            Prod::Alt(v) => fb.build_union(id, &v.iter().map(|y| g.id(*y)).collect::<Vec<_>>()),
        }
    }
    let first = fb.build();
    let mut wb = FollowBuilder::new(&first);
    for &x in &g.order {
        let id = g.id(x);
        match &g.cfg.prods[x] {
            Prod::Seq(v) => wb.build_sequence(id, &v.iter().map(|y| g.id(*y)).collect::<Vec<_>>()),
            Prod::Alt(v) => wb.build_union(id, &v.iter().map(|y| g.id(*y)).collect::<Vec<_>>()),
            _ => {}
        }
    }
    let follow: Follow<L> = wb.build(g.id(g.cfg.root));
    let fs = g.order.iter().map(|x| (*x, follow.get(&g.id(*x)).clone())).collect();
    (first, fs)
}

pub fn to_first<L: Lexicon>(s: &TS) -> FirstSet<L> {
    let mut f = FirstSet::<L>::new();
    for t in &s.any {
        f.insert(ty::<L>(*t), None);
    }
    for (t, l) in &s.lits {
        f.insert(ty::<L>(*t), Some(l));
    }
    if s.e {
        f.insert_epsilon();
    }
    f
}

fn cmp_first<L: Lexicon>(got: &FirstSet<L>, want: &TS, nt: usize) -> Result<(), String> {
    for t in 0..nt {
        for p in PROBES {
            let g = got.contains(Some(TokenSrc::new(ty::<L>(t), p)));
            let w = want.has(t, p);
            if g != w {
                return Err(format!("membership of token type {t} text {p:?}: parser says {g}, reference says {w}"));
            }
        }
    }
    if got.contains_epsilon() != want.e || got.contains(None) != want.e {
        return Err(format!("empty: parser says {}, reference says {}", got.contains_epsilon(), want.e));
    }
    if *got != to_first::<L>(want) {
        return Err(format!("set {got} differs from the reference {:?}", want));
    }
    Ok(())
}
fn cmp_follow<L: Lexicon>(got: &FollowSet<L>, want: &TS, nt: usize) -> Result<(), String> {
    for t in 0..nt {
        for p in PROBES {
            let g = got.contains(Some(TokenSrc::new(ty::<L>(t), p)));
            let w = want.has(t, p);
            if g != w {
                return Err(format!("membership of token type {t} text {p:?}: parser says {g}, reference says {w}"));
            }
        }
    }
    if got.contains_eof() != want.e || got.contains(None) != want.e {
        return Err(format!("end of input: parser says {}, reference says {}", got.contains_eof(), want.e));
    }
    Ok(())
}

fn classify(cx: &mut Cx, s: &Sets, v: &Result<(), Bad>, g: &Gram) {
    cx.label(match v {
        Ok(()) => "accepted",
        Err(Bad::FirstFirst(_)) => "first/first conflict",
        Err(Bad::FirstFollow(_)) => "first/follow conflict",
        Err(Bad::LeftRec(_)) => "left recursion only",
    });
    let r = g.cfg.reachable();
    if r.iter().filter(|x| s.first[**x].e).count() >= 3 {
        cx.label("3+ nullable symbols");
    }
    if r.iter().any(|x| matches!(&g.cfg.prods[*x], Prod::Seq(v) | Prod::Alt(v) if v.iter().any(|y| y <= x))) {
        cx.label("recursive");
    }
}
/// at least two structured symbols and one symbol that can be empty or recursive
fn interesting(g: &Gram, s: &Sets) -> bool {
    let r = g.cfg.reachable();
    let structured = r.iter().filter(|x| matches!(g.cfg.prods[**x], Prod::Seq(_) | Prod::Alt(_))).count();
    structured >= 2
        && r.iter().any(|x| {
            s.first[*x].e || matches!(&g.cfg.prods[*x], Prod::Seq(v) | Prod::Alt(v) if v.iter().any(|y| y <= x))
        })
}

fn with_lexicon(
    src: &mut Src,
    cx: &mut Cx,
    named: bool,
    small: fn(&Gram, &Sets, usize, &mut Cx) -> Result<(), String>,
    large: fn(&Gram, &Sets, usize, &mut Cx) -> Result<(), String>,
) -> Result<(), String> {
    let big = src.chance(1, 4);
    let nt = if big { 40 } else { *src.pick(&[6usize, 4, 2]) };
    let mut g = gen(src, nt);
    if named {
        g.names = 0;
    }
    let s = g.cfg.sets();
    let r = if big { large(&g, &s, nt, cx) } else { small(&g, &s, nt, cx) };
    if r.is_err() {
        cx.desc = g.show();
    } else {
        let v = g.cfg.verdict(&s);
        classify(cx, &s, &v, &g);
        cx.eval(interesting(&g, &s), &g.cfg.show(), || format!("{} => {:?}", g.cfg.show(), v));
    }
    r
}

fn accept<L: Lexicon>(g: &Gram, s: &Sets, _nt: usize, _cx: &mut Cx) -> Result<(), String> {
    let want = g.cfg.verdict(s);
    let got = build::<L>(g);
    match (&want, &got) {
        (Ok(()), Ok(_)) | (Err(_), Err(_)) => Ok(()),
        (Ok(()), Err(e)) => Err(format!("the grammar is LL(1) but is rejected: {e}")),
        (Err(b), Ok(_)) => Err(format!("the grammar is not LL(1) ({b:?}) but is accepted")),
    }
}
pub fn c01(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    with_lexicon(src, cx, false, accept::<L6>, accept::<L40>)
}

fn sets_match<L: Lexicon>(g: &Gram, s: &Sets, nt: usize, cx: &mut Cx) -> Result<(), String> {
    let (first, follow) = build_sets::<L>(g);
    for &x in &g.order {
        cmp_first::<L>(first.get(&g.id(x)), &s.first[x], nt).map_err(|e| format!("FIRST(S{x}): {e}"))?;
    }
    for (x, f) in &follow {
        cmp_follow::<L>(f, &s.follow[*x], nt).map_err(|e| format!("FOLLOW(S{x}): {e}"))?;
    }
    if let Ok(m) = build::<L>(g) {
        cx.label("metadata compared");
        for &x in &g.order {
            cmp_first::<L>(m.first.get(&g.id(x)), &s.first[x], nt).map_err(|e| format!("metadata FIRST(S{x}): {e}"))?;
            cmp_follow::<L>(m.follow.get(&g.id(x)), &s.follow[x], nt)
                .map_err(|e| format!("metadata FOLLOW(S{x}): {e}"))?;
        }
    }
    Ok(())
}
pub fn c02(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    with_lexicon(src, cx, false, sets_match::<L6>, sets_match::<L40>)
}

fn sym(g: &Gram, name: &str) -> Result<usize, String> {
    g.order.iter().copied().find(|x| g.name(*x) == name).ok_or_else(|| format!("`{name}` is not a symbol of the grammar"))
}
/// is the reported error a genuine defect of the grammar?
pub fn genuine<L: Lexicon>(g: &Gram, s: &Sets, err: &GrammarError, name: &dyn Fn(usize) -> String) -> Result<(), String> {
    let shown = err.to_string();
    let terms = |t: &TS| t.repr(name).into_iter().collect::<Vec<_>>().join(", ");
    match err {
        GrammarError::FirstFirstConflict(x, a, b, t) => {
            let (xi, ai, bi) = (sym(g, x)?, sym(g, a)?, sym(g, b)?);
            let Prod::Alt(v) = &g.cfg.prods[xi] else {
                return Err(format!("`{x}` has no alternatives"));
            };
            let pair = (0..v.len()).any(|i| (0..v.len()).any(|j| i != j && v[i] == ai && v[j] == bi));
            if !pair {
                return Err(format!("`{a}` and `{b}` are not two alternatives of `{x}`"));
            }
            let mut m = s.first[ai].meet(&s.first[bi]);
            m.e = s.first[ai].e && s.first[bi].e;
            if m.no_terms() && !m.e {
                return Err(format!("`{a}` and `{b}` share no terminal"));
            }
            if terms(&m) != *t {
                return Err(format!("conflicting terminals are {} but {t} is reported", terms(&m)));
            }
            for p in [x, a, b, t] {
                if !shown.contains(p.as_str()) {
                    return Err(format!("message {shown:?} does not mention {p}"));
                }
            }
        }
        GrammarError::FirstFollowSeqConflict(x, a, b, t) => {
            let (xi, ai, bi) = (sym(g, x)?, sym(g, a)?, sym(g, b)?);
            let Prod::Seq(v) = &g.cfg.prods[xi] else {
                return Err(format!("`{x}` is not a sequence"));
            };
            if !s.first[ai].e {
                return Err(format!("`{a}` cannot be empty"));
            }
            let pair = (0..v.len()).any(|i| {
                (i + 1..v.len()).any(|j| v[i] == ai && v[j] == bi && v[i + 1..j].iter().all(|y| s.first[*y].e))
            });
            if !pair {
                return Err(format!("`{a}` cannot be followed directly by `{b}` in `{x}`"));
            }
            let m = s.first[ai].meet(&s.first[bi]);
            if m.no_terms() {
                return Err(format!("`{a}` and `{b}` share no terminal"));
            }
            if terms(&m) != *t {
                return Err(format!("conflicting terminals are {} but {t} is reported", terms(&m)));
            }
            for p in [x, a, b, t] {
                if !shown.contains(p.as_str()) {
                    return Err(format!("message {shown:?} does not mention {p}"));
                }
            }
        }
        GrammarError::FirstFollowConflict(x, t) => {
            let xi = sym(g, x)?;
            if !s.first[xi].e {
                return Err(format!("`{x}` cannot be empty"));
            }
            let m = s.first[xi].meet(&s.follow[xi]);
            if m.no_terms() {
                return Err(format!("FIRST and FOLLOW of `{x}` share no terminal"));
            }
            if terms(&m) != *t {
                return Err(format!("conflicting terminals are {} but {t} is reported", terms(&m)));
            }
            if !shown.contains(x.as_str()) || !shown.contains(t.as_str()) {
                return Err(format!("message {shown:?} does not mention the symbol and terminals"));
            }
        }
        GrammarError::LeftRecursion(path) => {
            let syms = path.split(" -> ").map(|n| sym(g, n)).collect::<Result<Vec<_>, _>>()?;
            let last = *syms.last().unwrap();
            if syms.len() < 2 || !syms[..syms.len() - 1].contains(&last) {
                return Err(format!("the path {path} is not a cycle"));
            }
            for w in syms.windows(2) {
                if !g.cfg.left_edges(s, w[0]).contains(&w[1]) {
                    return Err(format!("S{} cannot be reached from S{} without consuming input", w[1], w[0]));
                }
            }
            if !shown.contains(path.as_str()) {
                return Err(format!("message {shown:?} does not mention the path"));
            }
        }
    }
    Ok(())
}
fn diagnose<L: Lexicon>(g: &Gram, s: &Sets, _nt: usize, cx: &mut Cx) -> Result<(), String> {
    let Err(err) = build::<L>(g) else {
        return Ok(());
    };
    cx.label(match &err {
        GrammarError::FirstFirstConflict(..) => "error: first/first",
        GrammarError::FirstFollowSeqConflict(..) => "error: first/follow in sequence",
        GrammarError::FirstFollowConflict(..) => "error: first/follow",
        GrammarError::LeftRecursion(..) => "error: left recursion",
    });
    genuine::<L>(g, s, &err, &|t| format!("{:?}", ty::<L>(t))).map_err(|e| format!("rejected with {err:?}: {e}"))
}
pub fn c03(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    with_lexicon(src, cx, true, diagnose::<L6>, diagnose::<L40>)
}

fn jump<L: Lexicon>(g: &Gram, s: &Sets, nt: usize, cx: &mut Cx) -> Result<(), String> {
    let Ok(m) = build::<L>(g) else {
        return Ok(());
    };
    for &x in &g.order {
        let Prod::Alt(_) = &g.cfg.prods[x] else { continue };
        let id = g.id(x);
        let got = m.jump.look_up(&id, None);
        let want = g.cfg.predict(s, x, None);
        if got != want {
            return Err(format!("S{x} at end of input: predicted {got:?}, expected {want:?}"));
        }
        for t in 0..nt {
            for p in PROBES {
                let got = m.jump.look_up(&id, Some(TokenSrc::new(ty::<L>(t), p)));
                let want = g.cfg.predict(s, x, Some((t, p)));
                cx.label_n("lookups", 1);
                if got != want {
                    return Err(format!("S{x} before token type {t} text {p:?}: predicted {got:?}, expected {want:?}"));
                }
            }
        }
    }
    Ok(())
}
pub fn c04(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    with_lexicon(src, cx, false, jump::<L6>, jump::<L40>)
}

/// what the printed form of a set says: its entries
fn items(s: &str) -> Result<Vec<&str>, String> {
    let s = s.strip_prefix('{').and_then(|s| s.strip_suffix('}')).ok_or_else(|| format!("{s:?} is not a set"))?;
    split(s)
}
/// splits at ", " outside of strings and brackets
fn split(s: &str) -> Result<Vec<&str>, String> {
    let (mut depth, mut text, mut esc, mut from, mut v) = (0i32, false, false, 0, vec![]);
    for (i, c) in s.char_indices() {
        match c {
            _ if esc => esc = false,
            '\\' if text => esc = true,
            '"' => text = !text,
            _ if text => {}
            '{' | '(' => depth += 1,
            '}' | ')' => depth -= 1,
            ',' if depth == 0 => {
                v.push(s[from..i].trim());
                from = i + 1;
            }
            _ => {}
        }
    }
    if depth != 0 || text {
        return Err(format!("{s:?} is not balanced"));
    }
    if !s[from..].trim().is_empty() {
        v.push(s[from..].trim());
    }
    Ok(v)
}
/// `Name { a: x, b: y }` as its fields
fn fields<'a>(s: &'a str, name: &str) -> Result<Vec<(&'a str, &'a str)>, String> {
    let Some(s) = s.strip_prefix(name) else {
        return Err(format!("{s:?} is not {name}"));
    };
    if s.is_empty() {
        return Ok(vec![]);
    }
    let Some(s) = s.strip_prefix(" { ").and_then(|s| s.strip_suffix(" }")) else {
        return Err(format!("{name}{s} has no fields"));
    };
    pairs(split(s)?)
}
fn pairs(v: Vec<&str>) -> Result<Vec<(&str, &str)>, String> {
    v.into_iter().map(|f| f.split_once(": ").ok_or_else(|| format!("{f:?} has no name"))).collect()
}
fn shown<L: Lexicon>(s: &TS) -> Vec<String> {
    let mut v: Vec<String> = s.any.iter().map(|t| format!("{:?}:*", ty::<L>(*t))).collect();
    v.extend(s.lits.iter().filter(|x| !s.any.contains(&x.0)).map(|(t, l)| format!("{:?}:{l:?}", ty::<L>(*t))));
    if s.e {
        v.push("<empty>".into());
    }
    v.sort();
    v
}
fn sorted(v: Vec<&str>) -> Vec<String> {
    let mut v: Vec<String> = v.into_iter().map(|x| x.to_string()).collect();
    v.sort();
    v
}
/// what is printed is what is expected; what is empty need not be printed
fn same<T: Ord + std::fmt::Debug + Clone>(what: &str, mut got: Vec<(String, T)>, mut want: Vec<(String, T)>, empty: T) -> Result<(), String> {
    got.retain(|x| x.1 != empty);
    want.retain(|x| x.1 != empty);
    got.sort();
    want.sort();
    if got == want {
        return Ok(());
    }
    let miss = want.iter().find(|x| !got.contains(x));
    let more = got.iter().find(|x| !want.contains(x));
    Err(format!("{what}: {} entries printed, expected {}; missing {miss:?}, printed instead {more:?}", got.len(), want.len()))
}
fn printed<L: Lexicon>(g: &Gram, s: &Sets, _nt: usize, cx: &mut Cx) -> Result<(), String> {
    let Ok(m) = build::<L>(g) else {
        return Ok(());
    };
    cx.label(if g.names == 0 { "printed" } else { "printed, with repeated names" });
    let text = format!("{m:?}");
    let top = fields(&text, "Metadata")?;
    let [("first", first), ("follow", follow), ("jump", jump)] = top[..] else {
        return Err(format!("printed {text}"));
    };
    for (what, part, head, sets) in [("FIRST", first, "First", &s.first), ("FOLLOW", follow, "Follow", &s.follow)] {
        let mut got = vec![];
        for (n, v) in fields(part, head)? {
            let inner = v.strip_suffix(')').and_then(|v| v.strip_prefix(head)).and_then(|v| v.strip_prefix("Set("));
            got.push((n.to_string(), sorted(items(inner.unwrap_or(v))?)));
        }
        let want = g.order.iter().map(|x| (g.name(*x), shown::<L>(&sets[*x]))).collect();
        same(what, got, want, vec![])?;
    }
    let mut got = vec![];
    for (n, v) in fields(jump, "Jump")? {
        let mut alts = vec![];
        for (k, v) in pairs(items(v)?)? {
            let v = sorted(items(v)?);
            if !v.is_empty() {
                alts.push((k.to_string(), v));
            }
        }
        alts.sort();
        got.push((n.to_string(), alts));
    }
    let mut want = vec![];
    for x in g.cfg.reachable() {
        if let Prod::Alt(v) = &g.cfg.prods[x] {
            cx.label("choices printed");
            let mut alts: Vec<_> = v.iter().enumerate().map(|(k, a)| (k.to_string(), shown::<L>(&s.first[*a]))).filter(|x| !x.1.is_empty()).collect();
            alts.sort();
            want.push((g.name(x), alts));
        }
    }
    same("choices", got, want, vec![])
}
pub fn c25(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    with_lexicon(src, cx, false, printed::<L6>, printed::<L40>)
}
