//! Validity predicates over trees, independent of the interpreter.
use crate::lx::*;
use crate::model::*;
use crate::tree::{Tr, K};
use vp_core::cfg::Prod;

/// The tree is a derivation of `n` over exactly the tokens from `*pos` on; hidden parts (Exists, Quote,
/// Parse) are checked by recognising the tokens inside their span. Returns Err with the reason.
pub fn derives(g: &Gram, t: &Tables, n: &Nd, tr: &Tr, toks: &[Tok], src: &str, pos: &mut usize) -> Result<(), String> {
    let at = *pos;
    let bad = |w: &str| Err(format!("{w}: {tr:?} for {n:?} at token {at}"));
    let end = if *pos == 0 { 0 } else { toks[*pos - 1].hi };
    let span = |k: &[Tr]| -> (usize, usize) {
        match (k.first(), k.last()) {
            (Some(a), Some(b)) => (a.lo, b.hi),
            _ => (end, end),
        }
    };
    match n {
        Nd::Term(x) => {
            let Some(k) = toks.get(*pos) else { return bad("no token left") };
            if tr.k != K::Tok(TERMS[*x].1) || (tr.lo, tr.hi) != (k.lo, k.hi) || !term_matches(*x, k, src) {
                return bad("terminal does not hold its token");
            }
            *pos += 1;
            Ok(())
        }
        Nd::Ref(i) => match &g.defs[i] {
            Def::Unit(x) => derives(g, t, x, tr, toks, src, pos),
            Def::Struct(v) => {
                if tr.k != K::Seq || tr.kids.len() != v.len() {
                    return bad("not a sequence of that length");
                }
                for (x, k) in v.iter().zip(&tr.kids) {
                    derives(g, t, &x.0, k, toks, src, pos)?;
                }
                if (tr.lo, tr.hi) != span(&tr.kids) {
                    return bad("span of a sequence");
                }
                Ok(())
            }
            Def::Enum(v) => {
                let K::Alt(a) = tr.k else { return bad("not an alternative") };
                derives(g, t, &v[a].0, &tr.kids[0], toks, src, pos)?;
                if (tr.lo, tr.hi) != (tr.kids[0].lo, tr.kids[0].hi) {
                    return bad("span of an alternative");
                }
                Ok(())
            }
        },
        Nd::Opt(x) => match tr.k {
            K::None => {
                if (tr.lo, tr.hi) != (end, end) {
                    return bad("span of an absent part");
                }
                Ok(())
            }
            K::Some => {
                derives(g, t, x, &tr.kids[0], toks, src, pos)?;
                if (tr.lo, tr.hi) != (tr.kids[0].lo, tr.kids[0].hi) {
                    return bad("span of an optional part");
                }
                Ok(())
            }
            _ => bad("not optional"),
        },
        Nd::Nev(x, _) | Nd::Vec(x, _) | Nd::Loop(x) => {
            if tr.k != K::List || (tr.kids.is_empty() && matches!(n, Nd::Nev(..))) {
                return bad("not a list");
            }
            let (lo, hi) = (tr.lo, tr.hi);
            if (lo, hi) != span(&tr.kids) {
                return bad("span of a list");
            }
            for k in &tr.kids {
                derives(g, t, x, k, toks, src, pos)?;
            }
            Ok(())
        }
        Nd::Boxed(x) => derives(g, t, x, tr, toks, src, pos),
        Nd::Exists(x) | Nd::Quote(x) | Nd::Parse(x) => {
            if let K::Exists(false) = tr.k {
                if (tr.lo, tr.hi) != (end, end) {
                    return bad("span of an absent part");
                }
                return Ok(());
            }
            let from = *pos;
            while *pos < toks.len() && toks[*pos].hi <= tr.hi {
                *pos += 1;
            }
            let seg: Vec<(usize, &str)> = toks[from..*pos].iter().map(|k| (k.ty, &src[k.lo..k.hi])).collect();
            let mut c = t.cfg.clone();
            c.root = t.try_sym(x).ok_or("symbol")?;
            // recognise with the grammar rooted at x: prediction only needs FIRST
            if c.recognise(&t.sets, &seg) != Ok(seg.len()) {
                // a Loop at the end of the input may hold nothing
                let mut c = t.cfg.clone();
                let mut loops = vec![];
                loops_in(g, x, &mut vec![], &mut loops);
                for l in &loops {
                    let l = t.try_sym(l).ok_or("symbol")?;
                    let (y, e) = (c.prods.len(), c.prods.len() + 1);
                    c.prods.push(c.prods[l].clone());
                    c.prods.push(Prod::Eps);
                    c.prods[l] = Prod::Alt(vec![y, e]);
                }
                c.root = t.try_sym(x).ok_or("symbol")?;
                if loops.is_empty() || *pos < toks.len() || c.recognise(&c.sets(), &seg) != Ok(seg.len()) {
                    return bad("hidden part does not derive its tokens");
                }
            }
            let text = if tr.lo < tr.hi { &src[tr.lo..tr.hi] } else { "" };
            match (&tr.k, n) {
                (K::Exists(true), Nd::Exists(_)) => Ok(()),
                (K::Quote(s), Nd::Quote(_)) if s == text => Ok(()),
                (K::Parse(v), Nd::Parse(_)) if *v == text.parse().ok() => Ok(()),
                _ => bad("hidden part"),
            }
        }
        Nd::Split(x, p) | Nd::Punct(x, p) => {
            let ne = match (&tr.k, n) {
                (K::Split(c), Nd::Split(..)) => *c,
                (K::Punct(c), Nd::Punct(..)) => *c,
                _ => return bad("not that list"),
            };
            let np = tr.kids.len() - ne;
            if ne == 0 || !(np + 1 == ne || (np == ne && matches!(n, Nd::Punct(..)))) {
                return bad("number of items and separators");
            }
            for i in 0..ne {
                derives(g, t, x, &tr.kids[i], toks, src, pos)?;
                if i < np {
                    derives(g, t, p, &tr.kids[ne + i], toks, src, pos)?;
                }
            }
            let last = if np == ne { tr.kids[ne + np - 1].hi } else { tr.kids[ne - 1].hi };
            if (tr.lo, tr.hi) != (tr.kids[0].lo, last) {
                return bad("span of a separated list");
            }
            Ok(())
        }
        Nd::Recover(x, r) => {
            if tr.k != K::Recover || tr.kids[0].kids.len() != 1 {
                return bad("skip-until node without its head");
            }
            derives(g, t, x, &tr.kids[0].kids[0], toks, src, pos)?;
            derives(g, t, r, &tr.kids[1], toks, src, pos)?;
            if (tr.lo, tr.hi) != (tr.kids[0].lo, tr.kids[1].hi) {
                return bad("span of a skip-until node");
            }
            Ok(())
        }
        Nd::Tuple(v) => {
            if tr.k != K::Seq || tr.kids.len() != v.len() {
                return bad("not a tuple of that length");
            }
            for (x, k) in v.iter().zip(&tr.kids) {
                derives(g, t, x, k, toks, src, pos)?;
            }
            if (tr.lo, tr.hi) != span(&tr.kids) {
                return bad("span of a tuple");
            }
            Ok(())
        }
    }
}

/// the Loop nodes below a node
fn loops_in(g: &Gram, n: &Nd, seen: &mut Vec<usize>, out: &mut Vec<Nd>) {
    match n {
        Nd::Term(_) => {}
        Nd::Ref(i) => {
            if seen.contains(i) {
                return;
            }
            seen.push(*i);
            match &g.defs[i] {
                Def::Unit(x) => loops_in(g, x, seen, out),
                Def::Struct(v) | Def::Enum(v) => v.iter().for_each(|x| loops_in(g, &x.0, seen, out)),
            }
        }
        Nd::Loop(x) => {
            if !out.contains(n) {
                out.push(n.clone());
            }
            loops_in(g, x, seen, out)
        }
        Nd::Nev(x, _) | Nd::Vec(x, _) | Nd::Boxed(x) | Nd::Opt(x) | Nd::Exists(x) | Nd::Quote(x) | Nd::Parse(x) => loops_in(g, x, seen, out),
        Nd::Split(a, b) | Nd::Punct(a, b) | Nd::Recover(a, b) => {
            loops_in(g, a, seen, out);
            loops_in(g, b, seen, out)
        }
        Nd::Tuple(v) => v.iter().for_each(|x| loops_in(g, x, seen, out)),
    }
}

/// spans of any tree (also recovered ones): in bounds, on character boundaries, ordered, nested;
/// every leaf is a consumed token, or has no length and sits at the end of a consumed token or at 0
pub fn spans(tr: &Tr, toks: &[Tok], src: &str) -> Result<(), String> {
    let bad = |w: &str, t: &Tr| Err(format!("{w}: {t:?}"));
    if tr.lo > tr.hi || tr.hi > src.len() || !src.is_char_boundary(tr.lo) || !src.is_char_boundary(tr.hi) {
        return bad("span out of bounds, reversed or inside a character", tr);
    }
    if tr.kids.is_empty() {
        let real = toks.iter().any(|t| t.lo == tr.lo && matches!(tr.k, K::Tok(_)) && t.hi == tr.hi && tr.k == K::Tok(t.ty));
        let at_end = tr.lo == tr.hi && (tr.lo == 0 || toks.iter().any(|t| t.hi == tr.lo));
        let hidden = matches!(tr.k, K::Quote(_) | K::Parse(_) | K::Exists(true));
        if !real && !at_end {
            if !hidden {
                return bad("leaf that is neither a consumed token nor an empty position after one", tr);
            }
            if !(toks.iter().any(|t| t.hi == tr.hi) && (tr.lo == 0 || toks.iter().any(|t| t.lo == tr.lo || t.hi == tr.lo))) {
                return bad("hidden part that does not start and end at tokens", tr);
            }
        }
        return Ok(());
    }
    let mut order: Vec<&Tr> = vec![];
    match tr.k {
        K::Split(n) | K::Punct(n) => {
            let (e, p) = tr.kids.split_at(n);
            for w in [e, p] {
                for x in w.windows(2) {
                    if x[1].lo < x[0].hi {
                        return bad("items out of order", tr);
                    }
                }
            }
            order.extend(e.iter().chain(p));
            order.sort_by_key(|t| (t.lo, t.hi));
        }
        _ => order.extend(&tr.kids),
    }
    for x in order.windows(2) {
        if x[1].lo < x[0].hi {
            return bad("children overlap or are out of order", tr);
        }
    }
    for k in &tr.kids {
        if k.lo < tr.lo || k.hi > tr.hi {
            return bad("child outside its parent", tr);
        }
        spans(k, toks, src)?;
    }
    Ok(())
}
/// every token in the span of a hidden or visible leaf is a consumed token; returns the visible leaves
pub fn leaves(tr: &Tr) -> Vec<Tr> {
    let mut v = vec![];
    tr.leaves(&mut v);
    v.into_iter().cloned().collect()
}
