//! Token types, token sets, token maps (C11) and token storage queries (C12) against plain models.
use std::collections::BTreeSet;
use std::fmt::Debug;
use teleparse::lex::{Map, Set, Span, Token, TokenSlice, TokenVec};
use teleparse::{Lexer, Lexicon};
use vp_core::{Cx, Src};

use crate::for_sizes;
use crate::setmacros::Uses;
use crate::sizes::{self, K};

macro_rules! case {
    ($m:ident) => {
        (laws::<sizes::$m::L> as Laws, hist::<sizes::$m::L> as Laws2, conv::<sizes::$m::L>(&sizes::$m::ALL), &sizes::$m::KINDS[..], stringify!($m))
    };
}
type Laws = fn(&[usize], &[K], &mut Src) -> Result<(), String>;
type Laws2 = fn(usize, &mut Src, &mut Cx) -> Result<String, String>;
fn conv<L: Lexicon>(v: &[L]) -> Vec<usize> {
    v.iter().map(|x| x.id()).collect()
}

/// identity laws; `ids` are the ids of the variants in declaration order
fn laws<L: Lexicon>(ids: &[usize], kinds: &[K], src: &mut Src) -> Result<(), String> {
    let n = ids.len();
    let mut en = vec![];
    let mut cur = Some(L::first());
    while let Some(x) = cur {
        en.push(x);
        if en.len() > 200 {
            return Err("enumeration does not end".into());
        }
        cur = x.next();
    }
    if en.len() != n {
        return Err(format!("enumeration yields {} of {n} types", en.len()));
    }
    for (i, x) in en.iter().enumerate() {
        if ids[i] != i || x.id() != i {
            return Err(format!("id of the type {x:?} is {}, declared at {i}", x.id()));
        }
        if L::from_id_unchecked(i) != *x {
            return Err(format!("type {i} does not round-trip through its id"));
        }
        if format!("{x:?}") != format!("V{i}") {
            return Err(format!("type {i} is named {x:?}"));
        }
        let ext = matches!(kinds[i], K::Semantic | K::Regex);
        if x.should_extract() != ext {
            return Err(format!("type {x:?} ({:?}): should_extract is {}", kinds[i], x.should_extract()));
        }
        for y in &en[..i] {
            if x.to_bit() == y.to_bit() || x.to_bit() & y.to_bit() != num_zero::<L>() {
                return Err(format!("types {x:?} and {y:?} share a bit"));
            }
        }
        let mut s = Set::<L>::new();
        s.insert(*x);
        if s.into_iter().collect::<Vec<_>>() != vec![*x] || s.to_bits() != x.to_bit() {
            return Err(format!("the set of {x:?} alone is {s:?}"));
        }
    }
    // lexing one token of every rule, in random order
    let mut text = String::new();
    let mut want = vec![];
    for _ in 0..src.range(1, 20) {
        let i = src.below(n);
        let t = match kinds[i] {
            K::Semantic => continue,
            K::Regex => format!("q{i}_{}", src.below(1000)),
            K::RegexTerm => format!("r{i}_{}", src.below(1000)),
            K::Lit => format!("a{i};"),
            K::TwoLits => format!("{}{i};", src.pick(&["b", "é"])),
        };
        if src.chance(1, 2) || !text.is_empty() {
            text.push(' ');
        }
        want.push((i, text.len(), text.len() + t.len()));
        text.push_str(&t);
    }
    let mut lx = L::lexer(&text).map_err(|e| format!("no lexer: {e}"))?;
    for w in want {
        match lx.next() {
            (None, Some(t)) if (t.ty.id(), t.span.lo, t.span.hi) == w => {}
            x => return Err(format!("lexing {text:?}: got {x:?}, expected type {} at {}..{}", w.0, w.1, w.2)),
        }
    }
    match lx.next() {
        (None, None) => Ok(()),
        x => Err(format!("lexing {text:?}: got {x:?} after the last token")),
    }
}
fn num_zero<L: Lexicon>() -> L::Bit {
    Set::<L>::new().to_bits()
}

/// histories on three sets and a map
fn hist<L: Uses>(n: usize, src: &mut Src, cx: &mut Cx) -> Result<String, String> {
    let mut sets = [Set::<L>::new(), Set::<L>::default(), Set::<L>::new()];
    let mut model: [BTreeSet<usize>; 3] = Default::default();
    let mut map = Map::<L, i64>::new();
    let mut mm = vec![0i64; n];
    let mut log = String::new();
    let ops = src.range(2, 40);
    let pick = |src: &mut Src| -> usize {
        // boundaries more often
        if src.chance(1, 3) {
            let b = [0, n - 1, n / 2, 7 % n, 8 % n, 31 % n, 32 % n, 63 % n, 64 % n];
            b[src.below(b.len())]
        } else {
            src.below(n)
        }
    };
    for _ in 0..ops {
        let a = src.below(3);
        let b = src.below(3);
        let t = pick(src);
        let ty = L::from_id_unchecked(t);
        match src.weighted(&[6, 3, 2, 2, 2, 2, 1, 1, 2]) {
            0 => {
                log += &format!("s{a}+={t} ");
                sets[a].insert(ty);
                model[a].insert(t);
            }
            1 => {
                log += &format!("s{a}-={t} ");
                sets[a].remove(ty);
                model[a].remove(&t);
            }
            2 => {
                log += &format!("s{a}|=s{b} ");
                sets[a] = sets[a].union(sets[b]);
                let o = model[b].clone();
                model[a].extend(o);
            }
            3 => {
                let v = src.below(1000) as i64 + 1;
                log += &format!("m[{t}]={v} ");
                *map.get_mut(ty) = v;
                mm[t] = v;
            }
            4 => {
                log += &format!("s{a}=bits(s{b}) ");
                sets[a] = Set::from_bits(sets[b].to_bits());
                model[a] = model[b].clone();
            }
            5 => {
                log += "bump(m) ";
                for (i, v) in map.iter_zip_mut() {
                    *v += i.id() as i64;
                }
                for (i, v) in mm.iter_mut().enumerate() {
                    *v += i as i64;
                }
            }
            6 => {
                log += "double(m) ";
                for v in map.iter_mut() {
                    *v *= 2;
                }
                for v in mm.iter_mut() {
                    *v *= 2;
                }
            }
            8 => {
                let (text, mk, items) = src.pick(L::ALL);
                log += &format!("s{a}=token_set!({text}) ");
                sets[a] = mk();
                model[a] = items.iter().copied().collect();
            }
            _ => {
                log += &format!("clear(s{a}) ");
                sets[a] = Set::new();
                model[a].clear();
            }
        }
        for v in &mut mm {
            *v %= 1 << 40;
        }
        for v in map.iter_mut() {
            *v %= 1 << 40;
        }
        for i in 0..3 {
            let got: Vec<usize> = sets[i].into_iter().map(|x| x.id()).collect();
            let want: Vec<usize> = model[i].iter().copied().collect();
            if got != want {
                return Err(format!("{log}: s{i} iterates {got:?}, expected {want:?}"));
            }
            if sets[i].is_empty() != model[i].is_empty() {
                return Err(format!("{log}: is_empty of s{i}"));
            }
            for j in 0..3 {
                if sets[i].contains_all(sets[j]) != model[i].is_superset(&model[j]) {
                    return Err(format!("{log}: s{i} contains_all s{j}"));
                }
                if (sets[i] == sets[j]) != (model[i] == model[j]) {
                    return Err(format!("{log}: equality of s{i} and s{j}"));
                }
            }
        }
        for i in 0..n {
            let ty = L::from_id_unchecked(i);
            for k in 0..3 {
                if sets[k].contains(ty) != model[k].contains(&i) {
                    return Err(format!("{log}: s{k} contains {i}"));
                }
            }
            if *map.get(ty) != mm[i] {
                return Err(format!("{log}: map at {i} is {}, expected {}", map.get(ty), mm[i]));
            }
        }
        if format!("{:?}", sets[a]) != format!("{{{}}}", model[a].iter().map(|i| format!("V{i}")).collect::<Vec<_>>().join(", ")) {
            return Err(format!("{log}: debug form {:?}", sets[a]));
        }
        let z: Vec<(usize, i64)> = map.iter_zip().map(|(t, v)| (t.id(), *v)).collect();
        if z != mm.iter().copied().enumerate().collect::<Vec<_>>() || !map.iter().eq(mm.iter()) {
            return Err(format!("{log}: map iterates {z:?}"));
        }
        let mut other = map.clone();
        if other != map {
            return Err(format!("{log}: a map differs from its clone"));
        }
        *other.get_mut(ty) += 1;
        if other == map {
            return Err(format!("{log}: maps differing at {t} compare equal"));
        }
    }
    cx.label_n("operations", ops as u64);
    Ok(log)
}

pub fn c11(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let all = for_sizes!(case);
    let (l, h, ids, kinds, name) = &all[src.below(all.len())];
    cx.desc = format!("lexicon with {} types", ids.len());
    l(ids, kinds, src)?;
    let log = h(ids.len(), src, cx).map_err(|e| format!("{} types: {e}", ids.len()))?;
    cx.eval(log.len() > 20, &(name, &log), || format!("{} types: {log}", ids.len()));
    Ok(())
}

type L = sizes::n9::L;
fn bounds_of<T>(v: &[T], f: impl Fn(&T) -> bool) -> Vec<usize> {
    v.iter().enumerate().filter(|x| f(x.1)).map(|x| x.0).collect()
}

pub fn c12(src: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let mut tv = TokenVec::<L>::new();
    let mut m: Vec<(usize, usize, usize, BTreeSet<usize>)> = vec![];
    let mut pos = src.below(4);
    let far = src.chance(1, 30);
    let n = src.weighted(&[1, 2, 3, 3, 3, 3, 2, 2, 2, 1, 1, 1, 1]);
    let n = if src.chance(1, 12) { n * 6 } else { n };
    let adj = src.range(0, 3);
    for _ in 0..n {
        let lo = pos + if src.chance(adj, 3) { 0 } else { src.range(1, 4) };
        let len = src.weighted(&[5, 3, 2, 1]) + 1;
        let len = if far { len + 1_000_000 } else { len };
        let ty = src.below(9);
        tv.push_unchecked(Token::new(lo..lo + len, L::from_id_unchecked(ty)));
        m.push((lo, lo + len, ty, BTreeSet::new()));
        pos = lo + len;
    }
    let layout = format!("{:?}", m.iter().map(|t| (t.0, t.1, t.2)).collect::<Vec<_>>());
    cx.desc = layout.clone();
    let show = |s: &TokenSlice<L>| -> Vec<(usize, usize)> { s.iter().map(|c| (c.span.lo, c.span.hi)).collect() };
    let mut log = String::new();
    let pt = |src: &mut Src| -> usize {
        if !m.is_empty() && src.chance(3, 4) {
            let (lo, hi, ..) = m[src.below(m.len())];
            (if src.chance(1, 2) { lo } else { hi } + src.below(3)).saturating_sub(1)
        } else {
            src.below(pos + 4)
        }
    };
    // queries are drawn up front (the model is changed by the marks below)
    let qs: Vec<_> = (0..src.range(2, 16)).map(|_| (pt(src), pt(src), src.below(6), src.below(512), src.below(9), src.chance(1, 20))).collect();
    let mut nontrivial = false;
    for (a, b, op, mask, sem, rev) in qs {
        let (lo, hi) = if rev { (a, b) } else { (a.min(b), a.max(b)) };
        let span = Span::new(lo, hi);
        let pick = |i: &Vec<usize>| -> Vec<(usize, usize)> { i.iter().map(|i| (m[*i].0, m[*i].1)).collect() };
        // shares a non-empty part with the span
        let over = bounds_of(&m, |t| t.0.max(lo) < t.1.min(hi));
        let inside = bounds_of(&m, |t| lo <= t.0 && t.1 <= hi);
        let name = format!("{log}{lo}..{hi}");
        if show(tv.overlap(span)) != pick(&over) {
            return Err(format!("{name}: overlap is {:?}, expected {:?}", show(tv.overlap(span)), pick(&over)));
        }
        if show(tv.inside(span)) != pick(&inside) {
            return Err(format!("{name}: inside is {:?}, expected {:?}", show(tv.inside(span)), pick(&inside)));
        }
        let b = |v: &Vec<usize>| v.first().map(|f| (*f, v.last().unwrap() + 1));
        if tv.overlap_bounds(span) != b(&over) || tv.inside_bounds(span) != b(&inside) {
            return Err(format!("{name}: bounds {:?} {:?}", tv.overlap_bounds(span), tv.inside_bounds(span)));
        }
        let one = tv.at_span(span).map(|c| (c.span.lo, c.span.hi));
        let want = if inside.len() == 1 { Some(pick(&inside)[0]) } else { None };
        if one != want {
            return Err(format!("{name}: at_span is {one:?}, expected {want:?}"));
        }
        nontrivial |= over != inside || over.len() > 1;
        // runs by predicate on the token type
        let pred = |ty: usize| mask >> ty & 1 == 1;
        for p in [lo, hi] {
            let run_end = m.iter().position(|t| t.1 == p).map(|i| {
                let mut v = vec![];
                let mut k = i as i64;
                while k >= 0 && pred(m[k as usize].2) {
                    v.insert(0, k as usize);
                    k -= 1;
                }
                v
            });
            let run_beg = m.iter().position(|t| t.0 == p).map(|i| {
                let mut v = vec![];
                let mut k = i;
                while k < m.len() && pred(m[k].2) {
                    v.push(k);
                    k += 1;
                }
                v
            });
            let e = run_end.filter(|v| !v.is_empty());
            let g = run_beg.filter(|v| !v.is_empty());
            let ge = tv.ends_at_matches(p, |c| pred(c.ty.id())).map(show);
            let gg = tv.begins_at_matches(p, |c| pred(c.ty.id())).map(show);
            if ge != e.as_ref().map(pick) {
                return Err(format!("{name}: run ending at {p} (types {mask:b}) is {ge:?}, expected {e:?}"));
            }
            if gg != g.as_ref().map(pick) {
                return Err(format!("{name}: run beginning at {p} (types {mask:b}) is {gg:?}, expected {g:?}"));
            }
            if tv.ends_at_matches_bounds(p, |c| pred(c.ty.id())) != e.as_ref().and_then(b)
                || tv.begins_at_matches_bounds(p, |c| pred(c.ty.id())) != g.as_ref().and_then(b)
            {
                return Err(format!("{name}: bounds of the runs at {p}"));
            }
            match tv.search_lo(p) {
                Ok(i) if m[i].0 == p => {}
                Err(i) if i == m.iter().filter(|t| t.0 < p).count() && !m.iter().any(|t| t.0 == p) => {}
                r => return Err(format!("{name}: search_lo({p}) = {r:?}")),
            }
            match tv.search_hi(p) {
                Ok(i) if m[i].1 == p => {}
                Err(i) if i == m.iter().filter(|t| t.1 < p).count() && !m.iter().any(|t| t.1 == p) => {}
                r => return Err(format!("{name}: search_hi({p}) = {r:?}")),
            }
        }
        // mark a selection
        let run = |begin: bool| -> Vec<usize> {
            let mut v = vec![];
            if begin {
                if let Some(i) = m.iter().position(|t| t.0 == lo) {
                    v.extend((i..m.len()).take_while(|k| pred(m[*k].2)));
                }
            } else if let Some(i) = m.iter().position(|t| t.1 == hi) {
                v.extend((0..=i).rev().take_while(|k| pred(m[*k].2)));
            }
            v
        };
        let mut s = Set::<L>::new();
        let ids: Vec<usize> = [sem, mask % 9].into_iter().collect();
        for i in &ids {
            s.insert(L::from_id_unchecked(*i));
        }
        let sel: Vec<usize> = match op {
            0 => {
                tv.inside_mut(span).apply_semantic(s);
                inside
            }
            1 => {
                tv.overlap_mut(span).apply_semantic(s);
                over
            }
            2 => {
                let w = run(false);
                match tv.ends_at_matches_mut(hi, |c| pred(c.ty.id())) {
                    Some(x) => x.apply_semantic(s),
                    None if w.is_empty() => {}
                    None => return Err(format!("{name}: no mutable run ending at {hi}")),
                }
                w
            }
            3 => {
                let w = run(true);
                match tv.begins_at_matches_mut(lo, |c| pred(c.ty.id())) {
                    Some(x) => x.apply_semantic(s),
                    None if w.is_empty() => {}
                    None => return Err(format!("{name}: no mutable run beginning at {lo}")),
                }
                w
            }
            4 => {
                let i = mask % (m.len() + 1);
                if i < m.len() {
                    for t in s {
                        tv[i].semantics_mut().insert(t);
                    }
                    vec![i]
                } else {
                    if tv.at(i).is_some() || tv.len() != m.len() {
                        return Err(format!("{name}: token storage reports a token past its end"));
                    }
                    vec![]
                }
            }
            _ => {
                if mask % 7 == 0 {
                    tv.apply_semantic(s);
                    (0..m.len()).collect()
                } else {
                    vec![]
                }
            }
        };
        if op < 5 || !sel.is_empty() {
            log += &format!("[op{op} {lo}..{hi} types {mask:b} mark {ids:?}] ");
        }
        for i in sel {
            m[i].3.extend(ids.iter().copied());
        }
        for (i, t) in m.iter().enumerate() {
            let c = tv.at(i).ok_or("token missing")?;
            let sem: BTreeSet<usize> = c.semantics().into_iter().map(|x| x.id()).collect();
            if sem != t.3 {
                return Err(format!("{log}: semantics of token {i} are {sem:?}, expected {:?}", t.3));
            }
            let mut types = t.3.clone();
            types.insert(t.2);
            if c.types().into_iter().map(|x| x.id()).collect::<BTreeSet<_>>() != types {
                return Err(format!("{log}: types of token {i} are {:?}", c.types()));
            }
            if (c.span.lo, c.span.hi, c.ty.id()) != (t.0, t.1, t.2) {
                return Err(format!("{log}: token {i} changed"));
            }
        }
        if tv.is_empty() != m.is_empty() || tv.iter().count() != m.len() {
            return Err(format!("{log}: size"));
        }
    }
    cx.eval(nontrivial && m.len() > 1, &(&layout, &log), || format!("{layout}: {log}"));
    Ok(())
}
#[allow(unused)]
fn _d<T: Debug>(_: T) {}
