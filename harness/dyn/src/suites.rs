use std::rc::Rc;
use teleparse::parser::Parser;
use teleparse::syntax::{ErrorKind, FollowSet, Result as SynResult};
use teleparse::Lexicon;
use vp_core::cfg::TS;
use vp_core::{Cx, Src};
use vp_dyn::check;
use vp_dyn::compare::*;
use vp_dyn::dynp::*;
use vp_dyn::input::*;
use vp_dyn::lx::*;
use vp_dyn::model::*;
use vp_dyn::tree::{Tr, K};

type Res = Result<(), String>;
/// inputs per grammar
const PER: usize = 8;

fn opts(s: &mut Src, semantics: bool) -> GOpt {
    GOpt { semantics, loops: s.chance(3, 4), recover: *s.pick(&[30, 9, 60]), ..Default::default() }
}
fn follow_set(t: &TS) -> FollowSet<Lx> {
    let mut f = FollowSet::new();
    for (ty, l) in &t.lits {
        f.insert(lx(*ty), Some(l));
    }
    for ty in &t.any {
        f.insert(lx(*ty), None);
    }
    if t.e {
        f.insert_eof();
    }
    f
}
fn nodes(t: &Tables) -> usize {
    t.cfg.reachable().len()
}

// ------------------------------------------------------------------ tables of node grammars

pub fn c01_nodes(s: &mut Src, cx: &mut Cx) -> Res {
    let o = GOpt { productive: s.chance(1, 2), ..opts(s, false) };
    let mut g = raw(s, o);
    let tries = s.weighted(&[3, 3, 2, 2, 2, 1]) * 2;
    repair(s, &mut g, o, tries);
    let m = g.to_model();
    let t = Tables::new(&m, &Nd::Ref(0));
    let g = Rc::new(g);
    let _u = Use::new(&g);
    cx.desc = format!("grammar {}", g.show());
    let real = metadata(0);
    cx.label(match &t.verdict {
        Ok(()) => "accepted",
        Err(vp_core::cfg::Bad::FirstFirst(_)) => "first/first",
        Err(vp_core::cfg::Bad::FirstFollow(_)) => "first/follow",
        Err(vp_core::cfg::Bad::LeftRec(_)) => "left recursive",
    });
    cx.eval(nodes(&t) >= 6, &g, || g.show());
    if t.verdict.is_ok() != real.is_ok() {
        return Err(format!("reference says {:?}, the tables say {:?}", t.verdict, real.as_ref().err()));
    }
    if let Err(e) = real {
        let src = chaos(s, 8);
        match run_real(0, &src)? {
            Err(e2) if e2 == *e => {}
            Err(e2) => return Err(format!("parsing gives another grammar error: {e2:?} instead of {e:?}")),
            Ok(o) => return Err(format!("a rejected grammar parsed {src:?}: {:?}", o.tree)),
        }
        match root_parse(&src, 0) {
            Err(e2) if e2 == *e => {}
            x => return Err(format!("Root::parse with a rejected grammar gives {x:?}")),
        }
    }
    Ok(())
}

/// the reported defect of a rejected node grammar is there
pub fn c03_nodes(s: &mut Src, cx: &mut Cx) -> Res {
    let o = GOpt { productive: s.chance(1, 2), ..opts(s, false) };
    let mut g = raw(s, o);
    g.names = 0;
    let tries = s.weighted(&[3, 3, 2, 2, 2, 1]) * 2;
    repair(s, &mut g, o, tries);
    let m = g.to_model();
    let t = Tables::new(&m, &Nd::Ref(0));
    let g = Rc::new(g);
    let _u = Use::new(&g);
    cx.desc = format!("grammar {}", g.show());
    let asserted = std::panic::catch_unwind(|| <Dyn<0> as teleparse::Root>::assert_ll1());
    let err = match metadata(0) {
        Ok(_) => {
            cx.eval(false, &g, || g.show());
            return asserted.map_err(|_| "the assertion that the grammar is LL(1) fails, but its tables can be built".into());
        }
        Err(e) => e,
    };
    cx.eval(nodes(&t) >= 6, &g, || format!("{} => {err}", g.show()));
    cx.label(match err {
        teleparse::GrammarError::FirstFirstConflict(..) => "error: first/first",
        teleparse::GrammarError::FirstFollowSeqConflict(..) => "error: first/follow in sequence",
        teleparse::GrammarError::FirstFollowConflict(..) => "error: first/follow",
        teleparse::GrammarError::LeftRecursion(..) => "error: left recursion",
    });
    match asserted {
        Ok(()) => return Err(format!("rejected with {err}, but the assertion that the grammar is LL(1) passes")),
        Err(p) => {
            let msg = p.downcast_ref::<String>().cloned().unwrap_or_default();
            if !msg.contains(&err.to_string()) || !msg.contains("S0") {
                return Err(format!("the assertion says {msg:?} and not what is wrong with S0: {err}"));
            }
        }
    }
    // what a name can stand for; parts inside of a node have names of their own, which may be any symbol
    let mut called: std::collections::BTreeMap<String, Vec<usize>> = Default::default();
    for i in g.symbols() {
        if let Some(x) = t.try_sym(&Nd::Ref(i)) {
            called.entry(format!("S{i}")).or_default().push(x);
        }
        if let Some(x) = t.try_sym(&g.nd(i)) {
            called.entry(dispatch(&g, i, NameV)).or_default().push(x);
        }
    }
    let all: Vec<usize> = t.cfg.reachable().into_iter().collect();
    let mut known = 0;
    let mut which = |n: &str| match called.get(n) {
        Some(v) => {
            known += 1;
            v.clone()
        }
        None => all.clone(),
    };
    let terms = |s: &TS| s.repr(&|k| format!("{:?}", lx(k))).into_iter().collect::<Vec<_>>().join(", ");
    let first = &t.sets.first;
    let ok = match err {
        teleparse::GrammarError::FirstFirstConflict(x, a, b, l) => {
            let (x, a, b) = (which(x), which(a), which(b));
            x.iter().any(|x| match &t.cfg.prods[*x] {
                vp_core::cfg::Prod::Alt(v) => (0..v.len()).any(|i| {
                    (0..v.len()).any(|j| {
                        let mut m = first[v[i]].meet(&first[v[j]]);
                        m.e = first[v[i]].e && first[v[j]].e;
                        i != j && a.contains(&v[i]) && b.contains(&v[j]) && (m.e || !m.no_terms()) && terms(&m) == *l
                    })
                }),
                _ => false,
            })
        }
        teleparse::GrammarError::FirstFollowSeqConflict(x, a, b, l) => {
            let (x, a, b) = (which(x), which(a), which(b));
            x.iter().any(|x| match &t.cfg.prods[*x] {
                vp_core::cfg::Prod::Seq(v) => (0..v.len()).any(|i| {
                    (i + 1..v.len()).any(|j| {
                        let m = first[v[i]].meet(&first[v[j]]);
                        a.contains(&v[i]) && b.contains(&v[j]) && v[i..j].iter().all(|y| first[*y].e) && !m.no_terms() && terms(&m) == *l
                    })
                }),
                _ => false,
            })
        }
        teleparse::GrammarError::FirstFollowConflict(x, l) => which(x).iter().any(|x| {
            let m = first[*x].meet(&t.sets.follow[*x]);
            first[*x].e && !m.no_terms() && terms(&m) == *l
        }),
        teleparse::GrammarError::LeftRecursion(path) => {
            let steps: Vec<Vec<usize>> = path.split(" -> ").map(&mut which).collect();
            // a way through the named symbols that comes back to where it was
            let mut ways: Vec<Vec<usize>> = steps[0].iter().map(|x| vec![*x]).collect();
            for st in &steps[1..] {
                let mut next = vec![];
                for w in &ways {
                    for y in t.cfg.left_edges(&t.sets, *w.last().unwrap()) {
                        if st.contains(&y) && next.len() < 5000 {
                            let mut w = w.clone();
                            w.push(y);
                            next.push(w);
                        }
                    }
                }
                ways = next;
            }
            ways.len() >= 5000 || ways.iter().any(|w| w.len() >= 2 && w[..w.len() - 1].contains(w.last().unwrap()))
        }
    };
    cx.label_n("names found", known);
    if !ok {
        return Err(format!("rejected with {err}: no such defect"));
    }
    Ok(())
}

pub fn c02_nodes(s: &mut Src, cx: &mut Cx) -> Res {
    let o = GOpt { productive: s.chance(1, 2), ..opts(s, false) };
    let c = grammar(s, o);
    let t = Tables::new(&c.m, &Nd::Ref(0));
    if t.verdict.is_err() {
        cx.label("no accepted grammar found");
        return Ok(());
    }
    let _u = Use::new(&c.g);
    cx.desc = format!("grammar {}", c.g.show());
    let meta = metadata(0).as_ref().map_err(|e| format!("rejected: {e}"))?;
    cx.eval(nodes(&t) >= 6 && t.sets.first.iter().any(|f| f.e), &c.g, || c.g.show());
    for i in c.g.symbols() {
        let Some(x) = t.try_sym(&Nd::Ref(i)) else { continue };
        let ids = [(x, ident(i)), (t.try_sym(&c.g.nd(i)).unwrap(), dispatch(&c.g, i, IdV))];
        for (x, id) in ids {
            let (f, w) = (meta.first.get(&id), first_set(&t.sets.first[x]));
            if *f != w {
                return Err(format!("FIRST of {:?} is {f} instead of {w}", t.name_of(x)));
            }
            let (f, w) = (meta.follow.get(&id), follow_set(&t.sets.follow[x]));
            if *f != w {
                return Err(format!("FOLLOW of {:?} is {f} instead of {w}", t.name_of(x)));
            }
        }
    }
    Ok(())
}
/// production id of symbol i itself
fn ident(i: usize) -> std::any::TypeId {
    macro_rules! all { ($($n:literal)*) => { match i { $($n => <DynProd<$n> as teleparse::Production>::id(),)* _ => unreachable!() } } }
    all!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47)
}

/// a derived choice on every lookahead
pub fn c04_nodes(s: &mut Src, cx: &mut Cx) -> Res {
    let o = opts(s, false);
    let c = grammar(s, o);
    let mut t = Tables::new(&c.m, &Nd::Ref(0));
    if !c.ok {
        return Ok(());
    }
    let _u = Use::new(&c.g);
    let meta = metadata(0).as_ref().map_err(|e| format!("rejected: {e}"))?;
    let alts: Vec<usize> = (0..c.g.ns).filter(|i| matches!(c.g.defs[*i], DDef::St(Shape::Enum, ..)) && t.try_sym(&Nd::Ref(*i)).is_some()).collect();
    for a in alts {
        let x = t.try_sym(&Nd::Ref(100 + a)).unwrap();
        let mut probes: Vec<String> = vec![String::new()];
        for k in 0..NT {
            probes.push(text_of(s, k));
        }
        probes.push(s.pick(&KEYS).to_string());
        for p in probes {
            let src = if p.is_empty() { p.clone() } else { format!("{p} {}", if s.chance(1, 2) { any_tok(s, &[]).1 } else { String::new() }) };
            cx.desc = format!("grammar {}choice N{a}, input {src:?}", c.g.show());
            let tk = tokens(&src);
            let look = tk.first().map(|k| (k.ty, &src[k.lo..k.hi]));
            let pred = t.cfg.predict(&t.sets, x, look);
            let mut parser = Parser::<Lx>::new(&src).map_err(|e| e.to_string())?;
            reset_work();
            let real = dispatch(&c.g, a, ProduceV { parser: &mut parser, meta });
            let mut i = Interp::new(&c.m, t, &src, tk.clone());
            let want = i.node(&Nd::Ref(a));
            let consumed = i.pos;
            t = i.t;
            cx.eval(true, &(&c.g, a, &p), || format!("{}: N{a} on {src:?} predicts {pred:?}", c.g.show()));
            cx.label(match (pred, look) {
                (None, _) => "nothing predicted",
                (Some(i), Some(l)) if !t.sets.first[alt(&t, x, i)].has(l.0, l.1) => "empty alternative on a token",
                (Some(_), None) => "empty alternative at the end",
                _ => "by token",
            });
            if parser.info().tokens.len() != consumed {
                return Err(format!("consumed {} tokens instead of {consumed}", parser.info().tokens.len()));
            }
            match (real, want, pred) {
                (SynResult::Panic(e), R::Panic(_), None) => {
                    let lo = tk.first().map(|k| (k.lo, k.hi)).unwrap_or((src.len(), src.len()));
                    let w = MErr { lo: lo.0, hi: lo.1, k: EK::Expecting(t.sets.first[x].clone()) };
                    cmp_errors(&e, &[w], &src)?;
                }
                (SynResult::Panic(e), R::Panic(w), Some(_)) => cmp_errors(&e, &w, &src)?,
                (SynResult::Success(tr), R::Ok(w, e), Some(i)) if e.is_empty() => {
                    if tr.k != K::Alt(i) {
                        return Err(format!("alternative {:?} taken instead of {i}", tr.k));
                    }
                    cmp_tree(&Some(tr), &Some(w))?;
                }
                (SynResult::Recovered(tr, e), R::Ok(w, we), Some(i)) => {
                    if tr.k != K::Alt(i) {
                        return Err(format!("alternative {:?} taken instead of {i}", tr.k));
                    }
                    cmp_tree(&Some(tr), &Some(w))?;
                    cmp_errors(&e, &we, &src)?;
                }
                (r, w, p) => {
                    let r = match r {
                        SynResult::Success(t) => format!("{t:?}"),
                        SynResult::Recovered(t, e) => format!("{t:?} with {}", show_errs(&e, &src)),
                        SynResult::Panic(e) => show_errs(&e, &src),
                    };
                    let w = match w {
                        R::Ok(t, e) => format!("{t:?} with {}", show_want(&e, &src)),
                        R::Panic(e) => show_want(&e, &src),
                    };
                    return Err(format!("prediction {p:?}: got {r} instead of {w}"));
                }
            }
        }
    }
    Ok(())
}
fn alt(t: &Tables, x: usize, i: usize) -> usize {
    match &t.cfg.prods[x] {
        vp_core::cfg::Prod::Alt(v) => v[i],
        _ => x,
    }
}

// ------------------------------------------------------------------ parsing

struct G {
    c: Case,
    t: Tables,
}
fn accepted(s: &mut Src, cx: &mut Cx, o: GOpt) -> Option<G> {
    let c = grammar(s, o);
    let t = Tables::new(&c.m, &Nd::Ref(0));
    if !c.ok {
        cx.label("no accepted grammar found");
        return None;
    }
    Some(G { c, t })
}
fn real(root: usize, src: &str) -> Result<Out, String> {
    run_real(root, src)?.map_err(|e| format!("grammar rejected: {e}"))
}

pub fn c05(s: &mut Src, cx: &mut Cx) -> Res {
    let o = opts(s, false);
    let Some(G { c, t }) = accepted(s, cx, o) else { return Ok(()) };
    if !loops_end(&c.g, &t) {
        cx.label("loop not at the end");
        return Ok(());
    }
    let _u = Use::new(&c.g);
    for _ in 0..PER {
        let max = *s.pick(&[6, 16, 40, 120]);
        let Some((d, toks)) = sentence(s, &c.m, &t, 0, max) else {
            cx.label("no short sentence");
            return Ok(());
        };
        let src = layout(s, &toks);
        if !lexes_to(&src, &toks) {
            cx.label("layout not exact");
            continue;
        }
        cx.desc = case_desc(&c.g, 0, &src);
        let tk = tokens(&src);
        let (w, _) = place(&d, &tk, &src);
        cx.eval(toks.len() >= 2, &(&c.g, &src), || case_desc(&c.g, 0, &src));
        cx.label(if toks.is_empty() { "empty sentence" } else if toks.len() < 10 { "short sentence" } else { "long sentence" });
        for sh in used_shapes(&c.g, &t) {
            cx.label(shape(sh));
        }
        let o = real(0, &src)?;
        if !o.syn.is_empty() || !o.lexerr.is_empty() {
            return Err(format!("errors on a sentence: {} {:?}", show_errs(&o.syn, &src), o.lexerr));
        }
        cmp_tree(&o.tree, &Some(w.clone()))?;
        cmp_stream(&o, &src, tk.len())?;
        if o.rest != src.len() {
            return Err(format!("text remains from {}", o.rest));
        }
        let r = root_parse(&src, 0).map_err(|e| e.to_string())?;
        cmp_tree(&r, &Some(w))?;
    }
    Ok(())
}
fn shape(s: Shape) -> &'static str {
    match s {
        Shape::Tuple => "has tuple",
        Shape::Unnamed => "has unnamed struct",
        Shape::Named => "has named struct",
        Shape::Enum => "has enum",
        Shape::Split => "has split",
        Shape::Punct => "has punct",
        Shape::Recover => "has recover",
    }
}

pub fn c06(s: &mut Src, cx: &mut Cx) -> Res {
    let mut o = opts(s, false);
    let with_loop = s.chance(1, 4);
    o.loops = with_loop;
    let Some(G { c, t }) = accepted(s, cx, o) else { return Ok(()) };
    let looped = has_loop(&c.g);
    let _u = Use::new(&c.g);
    for _ in 0..PER {
        let src = text(s, &c.m, &t, 0);
        cx.desc = case_desc(&c.g, 0, &src);
        let tk = tokens(&src);
        let seq: Vec<(usize, &str)> = tk.iter().map(|k| (k.ty, &src[k.lo..k.hi])).collect();
        let has_bad = lex(&src).iter().any(|x| matches!(x, Item::Bad(..)));
        let o = real(0, &src)?;
        let verdict = t.cfg.recognise(&t.sets, &seq);
        cx.eval(!tk.is_empty(), &(&c.g, &src), || case_desc(&c.g, 0, &src));
        cx.label(match verdict {
            Ok(k) if k == tk.len() => "sentence",
            Ok(_) => "sentence followed by more",
            Err(k) if k == tk.len() => "cut short",
            Err(_) => "not a prefix",
        });
        if has_bad {
            cx.label("invalid characters");
        }
        if o.tree.is_none() && o.syn.is_empty() {
            return Err("no tree and no error".into());
        }
        let n = o.toks.len();
        if let (Some(tr), true) = (&o.tree, o.syn.is_empty()) {
            // errors of invalid text beyond what was read do not count
            let got: Vec<Tok> = o.toks.iter().map(|x| x.0).collect();
            if got[..] != tk[..n] {
                return Err(format!("consumed {got:?}, not the first tokens of the input"));
            }
            if !looped {
                if t.cfg.recognise(&t.sets, &seq[..n]) != Ok(n) {
                    return Err(format!("accepted without error, but the {n} consumed tokens are no sentence: {tr:?}"));
                }
                let mut pos = 0;
                check::derives(&c.m, &t, &Nd::Ref(0), tr, &tk[..n], &src, &mut pos)?;
                if pos != n {
                    return Err(format!("accepted without error, but the tree holds {pos} of {n} consumed tokens"));
                }
                cx.label("accepted: derivation checked");
            } else {
                // every consumed token is in the tree: nothing was dropped silently
                cx.label("accepted: with loop");
                let mut pos = 0;
                check::derives(&c.m, &t, &Nd::Ref(0), tr, &tk[..n], &src, &mut pos)?;
                if pos != n {
                    return Err(format!("accepted without error, but the tree holds {pos} of {n} consumed tokens"));
                }
            }
        }
        if !looped {
            match verdict {
                Ok(k) => {
                    // a list that ends in a separator may complain about what follows the sentence
                    let at = tk.get(k).map(|x| x.lo).unwrap_or(usize::MAX);
                    if o.syn.iter().any(|e| e.span.lo < at) {
                        return Err(format!("the first {k} tokens are a sentence, but errors {}", show_errs(&o.syn, &src)));
                    }
                    if !o.syn.is_empty() {
                        cx.label("complains about what follows the sentence");
                    }
                }
                Err(k) => {
                    let at = tk.get(k).map(|x| x.lo).unwrap_or(src.len());
                    if o.syn.is_empty() {
                        return Err(format!("stuck at token {k}, but no error"));
                    }
                    if let Some(e) = o.syn.iter().find(|e| e.span.lo < at) {
                        return Err(format!("error {} before token {k} at {at}, up to which the input is fine", show_err(e, &src)));
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c07(s: &mut Src, cx: &mut Cx) -> Res {
    let mut o = opts(s, true);
    o.roots = 1 + s.below(3);
    let Some(G { c, t }) = accepted(s, cx, o) else { return Ok(()) };
    if !c.ok {
        return Ok(());
    }
    let _u = Use::new(&c.g);
    for _ in 0..PER {
        let mut src = match s.weighted(&[6, 4, 3]) {
            0 => text(s, &c.m, &t, 0),
            1 => chaos(s, 40),
            _ => {
                let base = sentence(s, &c.m, &t, 0, 60).map(|x| x.1).unwrap_or_default();
                let mut x = broken(s, &base);
                // cut anywhere
                let mut cut = s.below(x.len() + 1);
                while !x.is_char_boundary(cut) {
                    cut -= 1;
                }
                x.truncate(cut);
                x
            }
        };
        if s.chance(1, 12) {
            // long: many repetitions of the same pieces
            let k = s.range(5, 40).min(1 + 4000 / (1 + src.len()));
            src = src.repeat(k);
            cx.label("long input");
        }
        cx.desc = case_desc(&c.g, 0, &src);
        cx.eval(src.len() > 1, &(&c.g, &src), || case_desc(&c.g, 0, &src));
        let mut p = Parser::<Lx>::new(&src).map_err(|e| e.to_string())?;
        let mut last = None;
        for round in 0..12 {
            let before = (p.info().errors.len(), p.info().tokens.len());
            let root = if round == 0 { 0 } else { s.below(o.roots) };
            let tree = parse_root(&mut p, root).map_err(|e| e.to_string())?;
            for e in &p.info().errors {
                if e.data == ErrorKind::UnexpectedNoAdvanceInLoop {
                    return Err(format!("no-advance error at {:?}", e.span));
                }
                let _ = e.message(&src);
                let _ = format!("{e:?}");
            }
            if tree.is_none() {
                cx.label("no tree");
                if p.info().errors.len() == before.0 {
                    return Err(format!("root N{root} gives no tree and no new error"));
                }
            } else if p.info().errors.len() == before.0 {
                cx.label("clean");
            } else {
                cx.label("recovered");
            }
            // anything may be asked afterwards
            let rem = p.remaining();
            if !src.ends_with(rem) {
                return Err("remaining() is not the rest of the source".into());
            }
            let cs = p.current_span();
            let es = p.empty_span();
            let _ = (cs.get(&src), es.get(&src), p.unexpected_eof(), p.peek_token_src());
            for sp in &p.info().invalid_source {
                let _ = sp.get(&src);
            }
            for c in p.info().tokens.into_iter() {
                let _ = c.span.get(&src);
            }
            if let Some(t) = &tree {
                slice_all(t, &src)?;
            }
            if rem.is_empty() && round > 1 {
                break;
            }
            let now = p.info().tokens.len();
            if last == Some(now) && s.chance(1, 2) {
                // skip the offending token
                p.consume_token();
            }
            last = Some(now);
            if round > 3 && s.chance(1, 2) {
                break;
            }
        }
    }
    Ok(())
}
fn slice_all(t: &Tr, src: &str) -> Res {
    if t.lo <= t.hi && src.get(t.lo..t.hi).is_none() {
        return Err(format!("span {}..{} cannot be sliced", t.lo, t.hi));
    }
    for k in &t.kids {
        slice_all(k, src)?;
    }
    Ok(())
}

pub fn c08(s: &mut Src, cx: &mut Cx) -> Res {
    let o = opts(s, false);
    let Some(G { c, mut t }) = accepted(s, cx, o) else { return Ok(()) };
    let _u = Use::new(&c.g);
    let exact = loops_end(&c.g, &t);
    for _ in 0..PER {
        let mut want = None;
        let src = if exact && s.chance(1, 2) {
            match sentence(s, &c.m, &t, 0, 24) {
                Some((d, toks)) => {
                    let src = layout(s, &toks);
                    if lexes_to(&src, &toks) {
                        want = Some(place(&d, &tokens(&src), &src).0);
                    }
                    src
                }
                None => chaos(s, 20),
            }
        } else {
            text(s, &c.m, &t, 0)
        };
        cx.desc = case_desc(&c.g, 0, &src);
        let o = real(0, &src)?;
        cx.eval(o.toks.len() >= 2, &(&c.g, &src), || case_desc(&c.g, 0, &src));
        let tk = tokens(&src);
        let got: Vec<Tok> = o.toks.iter().map(|x| x.0).collect();
        // tokens hold exactly the text they were recognised from
        if got.len() > tk.len() || got[..] != tk[..got.len()] {
            return Err(format!("consumed tokens {got:?}, the text has {tk:?}"));
        }
        let regions = stream(&src, got.len());
        if o.extracted != regions.1 {
            return Err(format!("extracted tokens {:?} instead of {:?}", o.extracted, regions.1));
        }
        if o.invalid != regions.2 || o.lexerr != regions.2 {
            return Err(format!("invalid regions {:?} / errors {:?} instead of {:?}", o.invalid, o.lexerr, regions.2));
        }
        for e in &o.syn {
            let (lo, hi) = (e.span.lo, e.span.hi);
            if lo > hi || hi > src.len() || !src.is_char_boundary(lo) || !src.is_char_boundary(hi) {
                return Err(format!("error span {lo}..{hi} out of bounds, reversed or inside a character"));
            }
            // errors are about the lookahead, the end, or a skipped range of tokens
            let starts = lo == src.len() || tk.iter().any(|t| t.lo == lo);
            let ends = hi == src.len() || tk.iter().any(|t| t.hi == hi);
            if !starts || !ends {
                return Err(format!("error span {lo}..{hi} does not start and end at tokens or at the end of input"));
            }
        }
        // errors cover exactly the text the documented rules say
        let (w, t2) = run_model(&c.m, t, 0, &src);
        t = t2;
        let a: Vec<(usize, usize)> = o.syn.iter().map(|e| (e.span.lo, e.span.hi)).collect();
        let b: Vec<(usize, usize)> = w.syn.iter().map(|e| (e.lo, e.hi)).collect();
        if a != b {
            return Err(format!("error spans {a:?} instead of {b:?}"));
        }
        if let Some(tr) = &o.tree {
            check::spans(tr, &got, &src)?;
            if let Some(w) = &want {
                cx.label("exact tree");
                cmp_tree(&o.tree, &Some(w.clone()))?;
            } else if o.syn.is_empty() {
                cx.label("clean tree");
            } else {
                cx.label("recovered tree");
            }
            cmp_spans(tr, w.tree.as_ref())?;
        }
    }
    Ok(())
}
fn cmp_spans(a: &Tr, b: Option<&Tr>) -> Res {
    let Some(b) = b else { return Ok(()) };
    if (a.lo, a.hi) != (b.lo, b.hi) {
        return Err(format!("span {}..{} of {:?} should be {}..{}", a.lo, a.hi, a, b.lo, b.hi));
    }
    for (x, y) in a.kids.iter().zip(&b.kids) {
        cmp_spans(x, Some(y))?;
    }
    Ok(())
}

/// marks on sentences come from the derivation; on other texts from the reference interpreter
pub fn c14(s: &mut Src, cx: &mut Cx) -> Res {
    let o = opts(s, true);
    let Some(G { c, mut t }) = accepted(s, cx, o) else { return Ok(()) };
    let annotated = (0..c.g.ns).any(|i| matches!(c.g.defs[i], DDef::St(Shape::Enum | Shape::Unnamed | Shape::Named, _, true)) && t.try_sym(&Nd::Ref(i)).is_some());
    if !annotated {
        cx.label("no annotation");
        return Ok(());
    }
    let _u = Use::new(&c.g);
    let exact = loops_end(&c.g, &t);
    for _ in 0..PER {
        if exact && s.chance(1, 2) {
            let Some((d, toks)) = sentence(s, &c.m, &t, 0, 24) else { continue };
            let src = layout(s, &toks);
            if !lexes_to(&src, &toks) {
                continue;
            }
            cx.desc = case_desc(&c.g, 0, &src);
            let (_, marks) = place(&d, &tokens(&src), &src);
            let o = real(0, &src)?;
            cx.eval(marks.iter().any(|m| *m != 0), &(&c.g, &src), || format!("{} marks {marks:?}", case_desc(&c.g, 0, &src)));
            cx.label("sentence");
            if o.toks.len() != marks.len() {
                return Err(format!("{} tokens consumed of {}", o.toks.len(), marks.len()));
            }
            cmp_marks(&o, &marks)?;
        } else {
            let src = text(s, &c.m, &t, 0);
            cx.desc = case_desc(&c.g, 0, &src);
            let o = real(0, &src)?;
            let (w, t2) = run_model(&c.m, t, 0, &src);
            t = t2;
            cx.eval(w.marks.iter().any(|m| *m != 0), &(&c.g, &src), || format!("{} marks {:?}", case_desc(&c.g, 0, &src), w.marks));
            cx.label(if w.syn.is_empty() { "clean" } else if w.tree.is_some() { "recovered" } else { "failed" });
            if o.toks.len() != w.marks.len() {
                return Err(format!("{} tokens consumed instead of {}", o.toks.len(), w.marks.len()));
            }
            cmp_marks(&o, &w.marks)?;
        }
    }
    Ok(())
}

/// the documented recovery rules, exactly
pub fn c17(s: &mut Src, cx: &mut Cx) -> Res {
    let mut o = opts(s, false);
    o.recover = *s.pick(&[30, 60, 90]);
    let Some(G { c, mut t }) = accepted(s, cx, o) else { return Ok(()) };
    let _u = Use::new(&c.g);
    for _ in 0..PER {
        let src = text(s, &c.m, &t, 0);
        cx.desc = case_desc(&c.g, 0, &src);
        let o = real(0, &src)?;
        let (w, t2) = run_model(&c.m, t, 0, &src);
        t = t2;
        cx.eval(w.recoveries > 0, &(&c.g, &src), || case_desc(&c.g, 0, &src));
        cx.label(match (w.tree.is_some(), w.recoveries) {
            (true, 0) if w.syn.is_empty() => "clean",
            (true, 0) => "insertion only",
            (true, 1) => "one recovery step",
            (true, _) => "several recovery steps",
            (false, 0) => "failed without recovery",
            (false, _) => "failed after recovery",
        });
        cmp_tree(&o.tree, &w.tree)?;
        cmp_errors(&o.syn, &w.syn, &src)?;
        cmp_stream(&o, &src, w.pos)?;
    }
    Ok(())
}

/// what the errors say
pub fn c21(s: &mut Src, cx: &mut Cx) -> Res {
    let o = opts(s, false);
    let Some(G { c, mut t }) = accepted(s, cx, o) else { return Ok(()) };
    let _u = Use::new(&c.g);
    for _ in 0..PER {
        let src = text(s, &c.m, &t, 0);
        cx.desc = case_desc(&c.g, 0, &src);
        let mut p = Parser::<Lx>::new(&src).map_err(|e| e.to_string())?;
        parse_root(&mut p, 0).map_err(|e| e.to_string())?;
        p.peek_token();
        let (w, t2) = run_model(&c.m, t, 0, &src);
        t = t2;
        let mut i = 0;
        cx.eval(!p.info().errors.is_empty(), &(&c.g, &src), || case_desc(&c.g, 0, &src));
        let bad: Vec<(usize, usize)> = stream(&src, w.pos).2;
        let mut b = 0;
        for e in &p.info().errors {
            let msg = e.message(&src);
            let exp = match &e.data {
                ErrorKind::UnexpectedCharacters => {
                    cx.label("characters");
                    let Some((lo, hi)) = bad.get(b) else { return Err(format!("error {msg:?} without an invalid region")) };
                    b += 1;
                    format!("Unexpected: {}", &src[*lo..*hi])
                }
                _ => {
                    let Some(m) = w.syn.get(i) else { return Err(format!("error {msg:?} is one too many")) };
                    i += 1;
                    cx.label(match m.k {
                        EK::Expecting(_) => "expecting",
                        EK::Eof => "end of input",
                        EK::Tokens => "tokens",
                        _ => "other",
                    });
                    if let (EK::Expecting(x), ErrorKind::Expecting(f)) = (&m.k, &e.data) {
                        if *f != first_set(x) {
                            return Err(format!("expected set is {f} instead of {}", first_set(x)));
                        }
                    }
                    message(m, &src)
                }
            };
            if msg != exp {
                return Err(format!("message {msg:?} instead of {exp:?}"));
            }
        }
        if i != w.syn.len() || b != bad.len() {
            return Err(format!("{} errors reported, {} syntax and {} lexing errors are due", p.info().errors.len(), w.syn.len(), bad.len()));
        }
    }
    Ok(())
}

/// missing literals: grammars full of literals, sentences with literals removed or replaced
pub fn c22(s: &mut Src, cx: &mut Cx) -> Res {
    let o = opts(s, false);
    let Some(G { c, mut t }) = accepted(s, cx, o) else { return Ok(()) };
    let _u = Use::new(&c.g);
    for _ in 0..PER {
        let Some((_, mut toks)) = sentence(s, &c.m, &t, 0, 20) else { return Ok(()) };
        for _ in 0..s.range(1, 3) {
            let lit: Vec<usize> = (0..toks.len()).filter(|i| toks[*i].0 != NUM && toks[*i].0 != TEXT).collect();
            if lit.is_empty() {
                break;
            }
            let i = *s.pick(&lit);
            match s.below(4) {
                0 => toks[i] = any_tok(s, &toks.clone()),
                1 => toks.truncate(i),
                _ => {
                    toks.remove(i);
                }
            }
        }
        let src = if s.chance(1, 4) { loose(s, &toks) } else { layout(s, &toks) };
        cx.desc = case_desc(&c.g, 0, &src);
        let o = real(0, &src)?;
        let (w, t2) = run_model(&c.m, t, 0, &src);
        t = t2;
        cx.label_n("literals inserted", w.inserted);
        cx.label_n("insertions refused", w.refused);
        cx.eval(w.inserted + w.refused > 0, &(&c.g, &src), || case_desc(&c.g, 0, &src));
        cmp_tree(&o.tree, &w.tree)?;
        cmp_errors(&o.syn, &w.syn, &src)?;
        cmp_stream(&o, &src, w.pos)?;
    }
    Ok(())
}

/// parse_token_lit / parse_token with any follow set, in any stream position
pub fn c22_direct(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.range(0, 6);
    let toks: Vec<(usize, String)> = (0..n).map(|_| any_tok(s, &[])).collect();
    let src = if s.chance(1, 3) { loose(s, &toks) } else { layout(s, &toks) };
    let mut p = Parser::<Lx>::new(&src).map_err(|e| e.to_string())?;
    let mut pos = 0;
    let tk = tokens(&src);
    let mut hist = vec![];
    for _ in 0..s.range(1, 10) {
        let mut f = TS::new();
        for _ in 0..s.below(5) {
            let k = s.below(NT);
            f.add((TERMS[k].1, TERMS[k].2));
        }
        if let (Some(k), true) = (tk.get(pos), s.chance(1, 3)) {
            let l = TERMS.iter().find(|x| x.1 == k.ty && (x.2.is_none() || x.2 == Some(&src[k.lo..k.hi])));
            if let Some(l) = l {
                f.add((l.1, l.2));
            }
        }
        f.e = s.chance(1, 3);
        let k = s.below(NT);
        let (name, ty, lit) = TERMS[k];
        let next = tk.get(pos).copied();
        let (lo, hi) = next.map(|x| (x.lo, x.hi)).unwrap_or((src.len(), src.len()));
        let end = if pos == 0 { 0 } else { tk[pos - 1].hi };
        match s.below(8) {
            0 => {
                p.peek_token();
                continue;
            }
            1 => {
                p.consume_token();
                pos = (pos + 1).min(tk.len());
                hist.push("consume".to_string());
                continue;
            }
            _ => {}
        }
        hist.push(format!("{name} follow {}", follow_set(&f)));
        cx.desc = format!("{src:?}: {hist:?}");
        let r = match lit {
            Some(l) => p.parse_token_lit(lx(ty), l, &follow_set(&f)),
            None => p.parse_token(lx(ty)),
        };
        let hit = next.map(|x| x.ty == ty && lit.map(|l| l == &src[x.lo..x.hi]).unwrap_or(true)).unwrap_or(false);
        let may = lit.is_some() && next.map(|x| f.has(x.ty, &src[x.lo..x.hi])).unwrap_or(f.e);
        let want = MErr { lo, hi, k: if next.is_none() && lit.is_some() && !may { EK::Eof } else { EK::Expecting(TS::of((ty, lit))) } };
        cx.label(if hit { "present" } else if may { "inserted" } else if next.is_none() { "refused at the end" } else { "refused" });
        match r {
            SynResult::Success(t) if hit => {
                if tok(&t) != next.unwrap() {
                    return Err(format!("token {t:?} instead of {next:?}"));
                }
                pos += 1;
            }
            SynResult::Recovered(t, e) if !hit && may => {
                if tok(&t) != (Tok { ty, lo: end, hi: end }) {
                    return Err(format!("inserted token {t:?}, should be at {end}"));
                }
                cmp_errors(&e, &[want], &src)?;
            }
            SynResult::Panic(e) if !hit && !may => cmp_errors(&e, &[want], &src)?,
            SynResult::Success(t) => return Err(format!("success {t:?}; present {hit}, insertable {may}")),
            SynResult::Recovered(t, e) => return Err(format!("recovered {t:?} {}; present {hit}, insertable {may}", show_errs(&e, &src))),
            SynResult::Panic(e) => return Err(format!("failure {}; present {hit}, insertable {may}", show_errs(&e, &src))),
        }
        if p.info().tokens.len() != pos {
            return Err(format!("{} tokens consumed instead of {pos}", p.info().tokens.len()));
        }
    }
    cx.eval(hist.len() >= 2, &(&src, &hist), || format!("{src:?}: {hist:?}"));
    Ok(())
}

/// each terminal as a grammar of its own
pub fn c22_terminals(s: &mut Src, cx: &mut Cx) -> Res {
    use vp_dyn::tree::ToTr;
    let n = s.range(0, 3);
    let toks: Vec<(usize, String)> = (0..n).map(|_| any_tok(s, &[])).collect();
    let src = loose(s, &toks);
    let k = s.below(NT);
    let mut p = Parser::<Lx>::new(&src).map_err(|e| e.to_string())?;
    macro_rules! all { ($($i:literal $t:ident)*) => { match k { $($i => p.parse::<$t>().map(|x| x.map(|x| x.tr())),)* _ => unreachable!() } } }
    let tree = all!(0 Ident 1 KwIf 2 KwFn 3 KwDo 4 Int 5 OpAdd 6 OpInc 7 OpMul 8 OpAssign 9 OpEq 10 ParenL 11 ParenR 12 Comma 13 Semi 14 Arrow 15 Eacute 16 Str 17 Empty 18 Back 19 KwNext);
    let tree = tree.map_err(|e| e.to_string())?;
    let o = snapshot(&mut p, tree, &src)?;
    let mut m = Gram::default();
    m.defs.insert(0, Def::Unit(Nd::Term(k)));
    // the terminal itself is the root: followed by the end of input only
    let t = Tables::new(&m, &Nd::Term(k));
    let mut i = Interp::new(&m, t, &src, tokens(&src));
    let (tr, e) = i.parse(&Nd::Term(k));
    cx.desc = format!("{} on {src:?}", TERMS[k].0);
    cx.label(if tr.is_none() { "fails" } else if e.is_empty() { "parses" } else { "inserted" });
    cx.eval(true, &(k, &src), || format!("{} on {src:?}", TERMS[k].0));
    cmp_tree(&o.tree, &tr)?;
    cmp_errors(&o.syn, &e, &src)?;
    cmp_stream(&o, &src, i.pos)
}

/// stream operations in any order
pub fn c09(s: &mut Src, cx: &mut Cx) -> Res {
    let src = match s.below(3) {
        0 => chaos(s, 24),
        _ => {
            let n = s.range(0, 9);
            let toks: Vec<(usize, String)> = (0..n).map(|_| any_tok(s, &[])).collect();
            loose(s, &toks)
        }
    };
    let tk = tokens(&src);
    let mut p = Parser::<Lx>::new(&src).map_err(|e| e.to_string())?;
    let mut pos = 0usize;
    let mut read = false;
    let mut hist: Vec<String> = vec![];
    for _ in 0..s.range(2, 24) {
        let next = tk.get(pos).copied();
        let at = next.map(|t| (t.lo, t.hi)).unwrap_or((src.len(), src.len()));
        let op = s.below(11);
        let before = hist.clone();
        let say = |x: &str| format!("{src:?} after {before:?}: {x}");
        match op {
            0 | 1 => {
                let t = p.peek_token();
                read = true;
                if t.map(|t| tok(&t)) != next {
                    return Err(say(&format!("peek gives {t:?} instead of {next:?}")));
                }
                hist.push("peek".into());
            }
            2 | 3 | 4 => {
                let t = p.consume_token();
                if t.map(|t| tok(&t)) != next {
                    return Err(say(&format!("consume gives {t:?} instead of {next:?}")));
                }
                read = next.is_none();
                if next.is_some() {
                    pos += 1;
                }
                hist.push("consume".into());
            }
            5 => {
                let ty = if let (Some(t), true) = (next, s.chance(1, 2)) { t.ty } else { s.below(NTY) };
                let r = p.parse_token(lx(ty));
                hist.push(format!("parse_token {}", NAMES[ty]));
                read = true;
                match (r, next) {
                    (SynResult::Success(t), Some(n)) if n.ty == ty && tok(&t) == n => {
                        pos += 1;
                        read = false;
                    }
                    (SynResult::Panic(e), n) if n.map(|n| n.ty != ty).unwrap_or(true) => {
                        cmp_errors(&e, &[MErr { lo: at.0, hi: at.1, k: EK::Expecting(TS::of((ty, None))) }], &src).map_err(|e| say(&e))?
                    }
                    _ => return Err(say(&format!("parse_token({}) is wrong on {next:?}", NAMES[ty]))),
                }
            }
            6 => {
                let k = match (next, s.chance(1, 2)) {
                    (Some(n), true) => TERMS.iter().position(|x| x.2 == Some(&src[n.lo..n.hi]) && x.1 == n.ty).unwrap_or(1),
                    _ => s.range(1, NT - 2),
                };
                let (name, ty, Some(lit)) = TERMS[k] else { continue };
                let r = p.parse_token_lit(lx(ty), lit, &FollowSet::new());
                hist.push(format!("parse_token_lit {name}"));
                read = true;
                let hit = next.map(|n| n.ty == ty && &src[n.lo..n.hi] == lit).unwrap_or(false);
                match r {
                    SynResult::Success(t) if hit && Some(tok(&t)) == next => {
                        pos += 1;
                        read = false;
                    }
                    SynResult::Panic(_) if !hit => {}
                    _ => return Err(say(&format!("parse_token_lit({lit}) is wrong on {next:?}"))),
                }
            }
            7 => {
                let sp = p.current_span();
                read = true;
                hist.push("current_span".into());
                if (sp.lo, sp.hi) != at {
                    return Err(say(&format!("current_span {sp:?} instead of {at:?}")));
                }
            }
            8 => {
                let r = p.remaining();
                read = true;
                hist.push("remaining".into());
                if r != &src[at.0..] {
                    return Err(say(&format!("remaining {r:?} instead of {:?}", &src[at.0..])));
                }
            }
            9 => {
                let sp = p.empty_span();
                hist.push("empty_span".into());
                let e = if pos == 0 { 0 } else { tk[pos - 1].hi };
                if (sp.lo, sp.hi) != (e, e) {
                    return Err(say(&format!("empty_span {sp:?} instead of {e}")));
                }
            }
            _ => {
                let t = p.peek_token_src();
                read = true;
                hist.push("peek_token_src".into());
                if t.map(|t| (t.ty.id(), t.src)) != next.map(|n| (n.ty, &src[n.lo..n.hi])) {
                    return Err(say(&format!("peek_token_src {t:?} instead of {next:?}")));
                }
            }
        }
        let say = |x: &str| format!("{src:?} after {hist:?}: {x}");
        // what is recorded
        let i = p.info();
        let got: Vec<Tok> = i.tokens.into_iter().map(|c| tok(c)).collect();
        if got != tk[..pos] {
            return Err(say(&format!("consumed tokens {got:?} instead of {:?}", &tk[..pos])));
        }
        let ex: Vec<Tok> = i.extracted_tokens.iter().map(tok).collect();
        let inv: Vec<(usize, usize)> = i.invalid_source.iter().map(|s| (s.lo, s.hi)).collect();
        let err: Vec<(usize, usize)> = i.errors.iter().map(|e| (e.span.lo, e.span.hi)).collect();
        if i.errors.iter().any(|e| e.data != ErrorKind::UnexpectedCharacters) {
            return Err(say("a stream operation recorded a syntax error"));
        }
        if inv != err {
            return Err(say(&format!("invalid regions {inv:?} but errors {err:?}")));
        }
        let (_, wex, wbad, _) = stream(&src, pos);
        if read {
            if ex != wex || inv != wbad {
                return Err(say(&format!("extracted {ex:?}, invalid {inv:?} instead of {wex:?}, {wbad:?}")));
            }
        } else {
            // the lookahead has not been asked for: at least everything before the last consumed token
            let (_, mex, mbad, _) = if pos == 0 { (vec![], vec![], vec![], 0) } else { stream(&src, pos - 1) };
            if !wex.starts_with(&ex) || !ex.starts_with(&mex) || !wbad.starts_with(&inv) || !inv.starts_with(&mbad) {
                return Err(say(&format!("extracted {ex:?}, invalid {inv:?}: not what was passed so far")));
            }
        }
    }
    cx.desc = format!("{src:?} {hist:?}");
    cx.label(if lex(&src).iter().any(|x| matches!(x, Item::Bad(..))) { "with invalid text" } else { "valid text" });
    cx.eval(hist.len() >= 4 && tk.len() >= 2, &(&src, &hist), || format!("{src:?}: {hist:?}"));
    Ok(())
}

// ------------------------------------------------------------------ metamorphic: interchangeable nodes

pub fn c16(s: &mut Src, cx: &mut Cx) -> Res {
    let o = opts(s, true);
    let Some(G { c, t }) = accepted(s, cx, o) else { return Ok(()) };
    // the same grammar with other flavours of the same nodes
    let mut h = (*c.g).clone();
    let mut changed = 0;
    for i in c.g.symbols() {
        if !s.chance(2, 3) {
            continue;
        }
        let new = match h.defs[i] {
            DDef::Un(UK::Opt, j) => DDef::Un(UK::Exists, j),
            DDef::Un(UK::Exists, j) => DDef::Un(UK::Opt, j),
            DDef::Un(UK::Nev, j) => DDef::Un(UK::NevDeque, j),
            DDef::Un(UK::NevDeque, j) => DDef::Un(UK::Nev, j),
            DDef::Un(UK::Vec, j) => DDef::Un(UK::VecDeque, j),
            DDef::Un(UK::VecDeque, j) => DDef::Un(UK::Vec, j),
            DDef::Un(k @ (UK::Plain | UK::Boxed | UK::Quote | UK::Parse), j) => {
                let v = [UK::Plain, UK::Boxed, UK::Quote, UK::Parse];
                let n = *s.pick(&v);
                if n == k {
                    continue;
                }
                DDef::Un(n, j)
            }
            DDef::St(k @ (Shape::Tuple | Shape::Unnamed | Shape::Named), n, sem) => {
                let v = [Shape::Unnamed, Shape::Named, Shape::Tuple];
                let x = *s.pick(&v);
                if x == k || (x == Shape::Tuple && (sem || n < 2)) {
                    continue;
                }
                DDef::St(x, n, sem && k != Shape::Tuple)
            }
            _ => continue,
        };
        if new != h.defs[i] {
            h.defs[i] = new;
            changed += 1;
        }
    }
    if changed == 0 {
        cx.label("no interchangeable node");
        return Ok(());
    }
    let h = Rc::new(h);
    for _ in 0..PER {
        let src = text(s, &c.m, &t, 0);
        cx.desc = format!("grammars {} and {} on {src:?}", c.g.show(), h.show());
        let a = {
            let _u = Use::new(&c.g);
            real(0, &src)?
        };
        let b = {
            let _u = Use::new(&h);
            real(0, &src)?
        };
        cx.eval(!a.toks.is_empty(), &(&c.g, &h, &src), || cx_desc(&c.g, &h, &src));
        cx.label(if a.tree.is_none() { "failed" } else if a.syn.is_empty() { "clean" } else { "recovered" });
        match (&a.tree, &b.tree) {
            (Some(x), Some(y)) => alike(x, y, &src)?,
            (None, None) => {}
            _ => return Err(format!("one gives a tree, the other does not: {:?} / {:?}", a.tree, b.tree)),
        }
        if a.syn != b.syn {
            return Err(format!("errors differ: {} / {}", show_errs(&a.syn, &src), show_errs(&b.syn, &src)));
        }
        if a.toks != b.toks {
            return Err(format!("consumed tokens or marks differ: {:?} / {:?}", a.toks, b.toks));
        }
        if (&a.extracted, &a.invalid, &a.lexerr, a.rest) != (&b.extracted, &b.invalid, &b.lexerr, b.rest) {
            return Err("what the stream recorded differs".into());
        }
    }
    Ok(())
}
fn cx_desc(a: &Rc<DGram>, b: &Rc<DGram>, src: &str) -> String {
    format!("{} ~ {} on {src:?}", a.show(), b.show())
}
fn alike(a: &Tr, b: &Tr, src: &str) -> Res {
    if (a.lo, a.hi) != (b.lo, b.hi) {
        return Err(format!("spans differ: {a:?} / {b:?}"));
    }
    let text = if a.lo < a.hi { &src[a.lo..a.hi] } else { "" };
    for x in [a, b] {
        match &x.k {
            K::Quote(s) if s != text => return Err(format!("quoted text {s:?} instead of {text:?}")),
            K::Parse(v) if *v != text.parse().ok() => return Err(format!("converted value {v:?} of {text:?}")),
            _ => {}
        }
    }
    match (&a.k, &b.k) {
        (K::Quote(_) | K::Parse(_), _) | (_, K::Quote(_) | K::Parse(_)) => Ok(()),
        (K::Exists(p), K::None) | (K::None, K::Exists(p)) if !p => Ok(()),
        (K::Exists(p), K::Some) | (K::Some, K::Exists(p)) if *p => Ok(()),
        (x, y) if x == y && a.kids.len() == b.kids.len() => {
            for (p, q) in a.kids.iter().zip(&b.kids) {
                alike(p, q, src)?;
            }
            Ok(())
        }
        _ => Err(format!("trees differ: {a:?} / {b:?}")),
    }
}

// ------------------------------------------------------------------ several parses

pub fn c19(s: &mut Src, cx: &mut Cx) -> Res {
    let mut o = opts(s, true);
    o.roots = 3;
    let c = grammar(s, o);
    if !c.ok {
        cx.label("no accepted grammar found");
        return Ok(());
    }
    let mut ts: Vec<Option<Tables>> = (0..3).map(|r| Some(Tables::new(&c.m, &Nd::Ref(r)))).collect();
    let _u = Use::new(&c.g);
    for _ in 0..PER / 2 {
        // texts of the roots one after another
        let order: Vec<usize> = (0..s.range(2, 6)).map(|_| s.below(3)).collect();
        let mut toks = vec![];
        for r in &order {
            if let Some((_, t)) = sentence(s, &c.m, ts[*r].as_ref().unwrap(), *r, 8) {
                toks.extend(t);
            }
        }
        let src = match s.below(3) {
            0 => layout(s, &toks),
            1 => loose(s, &toks),
            _ => broken(s, &toks),
        };
        cx.desc = format!("grammar {}roots {order:?}; input {src:?}", c.g.show());
        let mut p = Parser::<Lx>::new(&src).map_err(|e| e.to_string())?;
        let mut marks: Vec<Mask> = vec![];
        let mut pos = 0;
        let mut all_errs: Vec<MErr> = vec![];
        let tk = tokens(&src);
        for (k, r) in order.iter().enumerate() {
            let rem = p.remaining().to_string();
            let off = src.len() - rem.len();
            let n_err = p.info().errors.len();
            let skip = s.chance(1, 5);
            if skip {
                // the offending token can be skipped between two parses
                p.consume_token();
                if pos < tk.len() {
                    pos += 1;
                    marks.push(0);
                }
                cx.label("token skipped between parses");
            }
            let tree = parse_root(&mut p, *r).map_err(|e| e.to_string())?;
            let new: Vec<_> = p.info().errors[n_err..].to_vec();
            // the reference carries on from the same state
            let mut i = Interp::new(&c.m, ts[*r].take().unwrap(), &src, tk.clone());
            i.pos = pos;
            i.marks = marks.clone();
            let (wt, we) = i.parse(&Nd::Ref(*r));
            pos = i.pos;
            marks = i.marks;
            ts[*r] = Some(i.t);
            let tag = |m: String| format!("parse {k} (root N{r}): {m}");
            cmp_tree(&tree, &wt).map_err(tag)?;
            let syn: Vec<_> = new.iter().filter(|e| e.data != ErrorKind::UnexpectedCharacters).cloned().collect();
            cmp_errors(&syn, &we, &src).map_err(tag)?;
            all_errs.extend(we);
            // the same text on a fresh parser
            if !skip {
                let mut q = Parser::<Lx>::new(&rem).map_err(|e| e.to_string())?;
                let ft = parse_root(&mut q, *r).map_err(|e| e.to_string())?;
                let end = p.info().tokens.into_iter().take(pos_before(&p, &q)).last().map(|c| c.span.hi).unwrap_or(0);
                match (&tree, &ft) {
                    (Some(a), Some(b)) => shifted(a, b, off, end).map_err(tag)?,
                    (None, None) => {}
                    _ => return Err(tag(format!("a fresh parser gives {ft:?}, this one {tree:?}"))),
                }
                let fe: Vec<_> = q.info().errors.iter().filter(|e| e.data != ErrorKind::UnexpectedCharacters).cloned().collect();
                if fe.len() != syn.len() || fe.iter().zip(&syn).any(|(f, e)| f.data != e.data || f.span.lo + off != e.span.lo || f.span.hi + off != e.span.hi) {
                    return Err(tag(format!("a fresh parser reports {}, this one {}", show_errs(&fe, &rem), show_errs(&syn, &src))));
                }
            }
            cx.label(if tree.is_none() { "failed parse" } else if syn.is_empty() { "clean parse" } else { "recovered parse" });
        }
        let o = snapshot(&mut p, None, &src)?;
        cmp_stream(&o, &src, pos)?;
        cmp_marks(&o, &marks)?;
        cmp_errors(&o.syn, &all_errs, &src)?;
        // convenience parsing equals one parse on a fresh parser
        let r = order[0];
        let a = root_parse(&src, r).map_err(|e| e.to_string())?;
        let mut q = Parser::<Lx>::new(&src).map_err(|e| e.to_string())?;
        let b = parse_root(&mut q, r).map_err(|e| e.to_string())?;
        cmp_tree(&a, &b)?;
        cx.eval(order.len() >= 2 && pos >= 2, &(&c.g, &src, &order), || format!("{} roots {order:?} on {src:?}", c.g.show()));
    }
    Ok(())
}
/// tokens consumed before the last parse
fn pos_before(p: &Parser<'_, Lx>, q: &Parser<'_, Lx>) -> usize {
    p.info().tokens.len() - q.info().tokens.len().min(p.info().tokens.len())
}
/// a: tree of the continued parser; b: the same tree on the remaining text alone
fn shifted(a: &Tr, b: &Tr, off: usize, end: usize) -> Res {
    let ok = |x: usize, y: usize| x == y + off || (y == 0 && x == end);
    let same = match (&a.k, &b.k) {
        // quoted text may start with a different amount of skipped text when its first part is empty
        (K::Quote(x), K::Quote(y)) => x == y || x.ends_with(y.as_str()),
        (K::Parse(x), K::Parse(y)) => x == y || b.lo == 0,
        (x, y) => x == y,
    };
    if !same || !ok(a.lo, b.lo) || !ok(a.hi, b.hi) || a.kids.len() != b.kids.len() {
        return Err(format!("tree {a:?}, on a fresh parser at offset {off} {b:?}"));
    }
    for (x, y) in a.kids.iter().zip(&b.kids) {
        shifted(x, y, off, end)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ determinism

pub fn c18(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.range(1, 3);
    let mut gs = vec![];
    for _ in 0..n {
        let mut o = opts(s, true);
        o.roots = 2;
        gs.push(grammar(s, o));
    }
    // grammars are accepted or rejected whatever came before them on this thread
    if s.chance(1, 2) {
        let o = GOpt { productive: false, ..opts(s, false) };
        let wild: Vec<Rc<DGram>> = (0..s.range(1, 3)).map(|_| Rc::new(raw(s, o))).collect();
        let show = |g: &Rc<DGram>| {
            let _u = Use::new(g);
            match metadata(0) {
                Ok(m) => format!("{m:?}"),
                Err(e) => format!("{e:?}"),
            }
        };
        let mut all: Vec<Rc<DGram>> = gs.iter().map(|c| c.g.clone()).chain(wild).collect();
        // the same grammars with other names: the same verdict
        all.extend(all.clone().iter().map(|g| Rc::new(DGram { names: s.below(3), ..(**g).clone() })));
        let one: Vec<String> = all.iter().map(show).collect();
        cx.desc = format!("grammars {:?}", all.iter().map(|g| g.show()).collect::<Vec<_>>());
        cx.label("verdicts compared");
        for i in s_order(s, all.len()) {
            if show(&all[i]) != one[i] {
                return Err(format!("the tables of grammar {i} depend on what was built before: {:?} / {:?}", show(&all[i]), one[i]));
            }
            let accepted = !matches!(Tables::new(&all[i].to_model(), &Nd::Ref(0)).verdict, Err(_));
            let _u = Use::new(&all[i]);
            if accepted != metadata(0).is_ok() {
                return Err(format!("grammar {i} is {} after others", if accepted { "rejected" } else { "accepted" }));
            }
        }
    }
    gs.retain(|c| c.ok);
    if gs.is_empty() {
        return Ok(());
    }
    let mut jobs: Vec<(usize, usize, String)> = vec![];
    for _ in 0..s.range(2, 5) {
        let g = s.below(gs.len());
        let r = s.below(2);
        let t = Tables::new(&gs[g].m, &Nd::Ref(r));
        let src = text(s, &gs[g].m, &t, r);
        jobs.push((g, r, src));
    }
    cx.desc = format!("grammars {:?}; parses {jobs:?}", gs.iter().map(|g| g.g.show()).collect::<Vec<_>>());
    cx.eval(jobs.iter().any(|j| j.2.len() > 2), &jobs, || format!("{:?} {jobs:?}", gs.iter().map(|g| g.g.show()).collect::<Vec<_>>()));
    let one = |j: &(usize, usize, String)| -> Result<Out, String> {
        let _u = Use::new(&gs[j.0].g);
        real(j.1, &j.2)
    };
    let base: Vec<Out> = jobs.iter().map(one).collect::<Result<_, _>>()?;
    // again, in another order, with the tables kept
    for _ in 0..2 {
        let k = s.below(jobs.len());
        let _u = Use::new(&gs[jobs[k].0].g);
        let first = real(jobs[k].1, &jobs[k].2)?;
        for j in s_order(s, jobs.len()) {
            if jobs[j].0 == jobs[k].0 {
                let o = real(jobs[j].1, &jobs[j].2)?;
                if o != base[j] {
                    return Err(format!("parse {j} repeated differs: {o:?} / {:?}", base[j]));
                }
            } else {
                let o = one(&jobs[j])?;
                if o != base[j] {
                    return Err(format!("parse {j} among others differs: {o:?} / {:?}", base[j]));
                }
            }
        }
        if first != base[k] || real(jobs[k].1, &jobs[k].2)? != base[k] {
            return Err(format!("parse {k} repeated differs"));
        }
    }
    cx.label("repeated");
    // several parsers of one grammar advanced in turns
    {
        let _u = Use::new(&gs[0].g);
        let mine: Vec<usize> = (0..jobs.len()).filter(|j| jobs[*j].0 == 0).collect();
        if mine.len() >= 2 {
            cx.label("interleaved");
            let mut ps: Vec<Parser<'_, Lx>> = mine.iter().map(|j| Parser::new(&jobs[*j].2).unwrap()).collect();
            let mut alone: Vec<Parser<'_, Lx>> = mine.iter().map(|j| Parser::new(&jobs[*j].2).unwrap()).collect();
            let plan: Vec<(usize, usize)> = (0..6).map(|_| (s.below(mine.len()), s.below(2))).collect();
            let mut trees: Vec<Vec<Option<Tr>>> = vec![vec![]; mine.len()];
            for (i, r) in &plan {
                trees[*i].push(parse_root(&mut ps[*i], *r).map_err(|e| e.to_string())?);
                // unrelated stream operations on another one
                let o = (*i + 1) % mine.len();
                ps[o].peek_token();
            }
            for i in 0..mine.len() {
                let mut k = 0;
                for (_, r) in plan.iter().filter(|x| x.0 == i) {
                    let t = parse_root(&mut alone[i], *r).map_err(|e| e.to_string())?;
                    if t != trees[i][k] {
                        return Err(format!("interleaved parse {k} of text {i} gives {:?}, alone {t:?}", trees[i][k]));
                    }
                    k += 1;
                }
                let a = snapshot(&mut ps[i], None, &jobs[mine[i]].2)?;
                let b = snapshot(&mut alone[i], None, &jobs[mine[i]].2)?;
                if a != b {
                    return Err(format!("interleaved state differs: {a:?} / {b:?}"));
                }
            }
        }
    }
    // the same on other threads at the same time
    if s.chance(1, 4) {
        cx.label("threads");
        let gd: Vec<DGram> = gs.iter().map(|g| (*g.g).clone()).collect();
        let bar = std::sync::Barrier::new(3);
        let res: Result<(), String> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..3)
                .map(|k| {
                    let (gd, jobs, base, bar) = (&gd, &jobs, &base, &bar);
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn_scoped(sc, move || -> Result<(), String> {
                            bar.wait();
                            for q in 0..jobs.len() {
                                let j = (q + k) % jobs.len();
                                let g = Rc::new(gd[jobs[j].0].clone());
                                let _u = Use::new(&g);
                                let o = real(jobs[j].1, &jobs[j].2)?;
                                if o != base[j] {
                                    return Err(format!("parse {j} on another thread differs: {o:?} / {:?}", base[j]));
                                }
                            }
                            Ok(())
                        })
                        .unwrap()
                })
                .collect();
            for h in hs {
                h.join().map_err(|_| "a thread panicked".to_string())??;
            }
            Ok(())
        });
        res?;
    }
    // tables are the same on every construction
    let g = s.below(gs.len());
    let shows: Vec<String> = (0..3)
        .map(|_| {
            let _u = Use::new(&gs[g].g);
            metadata(0).as_ref().map(|m| format!("{m:?}")).unwrap_or_default()
        })
        .collect();
    if shows.iter().any(|x| *x != shows[0]) {
        return Err(format!("tables of grammar {g} differ between constructions"));
    }
    Ok(())
}
fn s_order(s: &mut Src, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = s.below(i + 1);
        v.swap(i, j);
    }
    v
}
