use crate::{entries, seed};
use std::cell::RefCell;
use std::rc::Rc;
use teleparse::lex::TokenSrc;
use teleparse::Parser;
use vp_core::cfg::{Prod, TS};
use vp_core::{Cx, Src};
use vp_dyn::compare::*;
use vp_dyn::input::{layout, lexes_to, place, sentence, text};
use vp_dyn::lx::*;
use vp_dyn::model::{notation, Nd, Tables};
use vp_dyn::statics::{grammar, loops_end, Stat};

type Res = Result<(), String>;
thread_local! {
    static CACHE: RefCell<Vec<Option<Rc<Stat>>>> = const { RefCell::new(vec![]) };
}
pub fn stat(i: usize) -> Rc<Stat> {
    CACHE.with(|c| {
        let (sd, n) = seed();
        let mut c = c.borrow_mut();
        c.resize_with(n, || None);
        c[i].get_or_insert_with(|| Rc::new(grammar(sd, i))).clone()
    })
}
pub fn describe(st: &Stat, root: usize, src: &str) -> String {
    format!("{}root {}; input {src:?}", st.show(), st.defs[root].name)
}
pub fn c20_static(s: &mut Src, cx: &mut Cx) -> Res {
    let (_, n) = seed();
    let i = s.below(n);
    let st = stat(i);
    let roots: Vec<usize> = (0..st.defs.len()).filter(|j| st.defs[*j].root).collect();
    let root = *s.pick(&roots);
    let e = entries(i)[root].as_ref().expect("a root type");
    let m = &st.gram;
    let mut t = Tables::new(m, &Nd::Ref(root));
    cx.desc = describe(&st, root, "");
    let got = (e.verdict)();
    if got.is_ok() != t.verdict.is_ok() {
        return Err(format!("the table request gives {got:?}, by definition it is {:?}", t.verdict));
    }
    let asserted = std::panic::catch_unwind(|| (e.assert_ll1)());
    if asserted.is_ok() != got.is_ok() {
        return Err(format!("assert_ll1 gives {:?} and the tables {got:?}", asserted.is_ok()));
    }
    if let Err(want) = got {
        cx.label("rejected definitions");
        for src in ["", "a", "+ 1 if"] {
            cx.eval(false, &(), String::new);
            let mut p = Parser::<Lx>::new(src).map_err(|e| e.to_string())?;
            match ((e.parse)(&mut p), (e.root_parse)(src)) {
                (Err(a), Err(b)) if a == want && b == want => {}
                x => return Err(format!("parsing with a rejected grammar gives {x:?} instead of {want:?}")),
            }
        }
        return Ok(());
    }
    let ends = loops_end(m, &t);
    for _ in 0..4 {
        let (mut d, mut src) = (None, String::new());
        if ends && s.chance(2, 5) {
            let max = *s.pick(&[6, 16, 40]);
            if let Some((dd, toks)) = sentence(s, m, &t, root, max) {
                let x = layout(s, &toks);
                if lexes_to(&x, &toks) {
                    (d, src) = (Some(dd), x);
                }
            }
        }
        if d.is_none() {
            src = text(s, m, &t, root);
        }
        cx.desc = describe(&st, root, &src);
        let tk = tokens(&src);
        cx.eval(!tk.is_empty(), &(i, root, &src), || describe(&st, root, &src));
        let mut p = Parser::<Lx>::new(&src).map_err(|e| e.to_string())?;
        let tree = (e.parse)(&mut p).map_err(|e| format!("rejected: {e}"))?;
        let o = snapshot(&mut p, tree, &src)?;
        let (w, t2) = run_model(m, t, root, &src);
        t = t2;
        if let Some(d) = &d {
            let (tr, marks) = place(d, &tk, &src);
            cx.label("sentence");
            cmp_tree(&o.tree, &Some(tr))?;
            cmp_marks(&o, &marks)?;
            if !o.syn.is_empty() {
                return Err(format!("errors on a sentence: {}", show_errs(&o.syn, &src)));
            }
        } else {
            cx.label(match (w.tree.is_some(), w.syn.is_empty()) {
                (true, true) => "parsed",
                (true, false) => "recovered",
                _ => "failed",
            });
        }
        cmp_tree(&o.tree, &w.tree)?;
        cmp_errors(&o.syn, &w.syn, &src)?;
        cmp_stream(&o, &src, w.pos)?;
        cmp_marks(&o, &w.marks)?;
        let r = (e.root_parse)(&src).map_err(|e| e.to_string())?;
        cmp_tree(&r, &w.tree)?;
    }
    Ok(())
}

/// what the tables say of every symbol: name, FIRST, FOLLOW, choices
pub fn c25_static(s: &mut Src, cx: &mut Cx) -> Res {
    let (_, n) = seed();
    let i = s.below(n);
    let st = stat(i);
    let roots: Vec<usize> = (0..st.defs.len()).filter(|j| st.defs[*j].root).collect();
    let root = *s.pick(&roots);
    let e = entries(i)[root].as_ref().expect("a root type");
    let t = Tables::new(&st.gram, &Nd::Ref(root));
    cx.desc = describe(&st, root, "");
    let Ok(m) = (e.tables)() else {
        cx.label("rejected definitions");
        cx.eval(false, &(), String::new);
        return Ok(());
    };
    let named = |j: usize| st.defs[j].name.clone();
    let mut probes: Vec<(usize, &str)> = vec![];
    for (name, ty, lit) in TERMS {
        probes.push((ty, lit.unwrap_or(name)));
    }
    let set = |t: &TS| {
        let mut v: Vec<String> = t.any.iter().map(|k| format!("{}:*", NAMES[*k])).collect();
        v.extend(t.lits.iter().filter(|l| !t.any.contains(&l.0)).map(|(k, l)| format!("{}:{l:?}", NAMES[*k])));
        v.extend(t.e.then(|| "<empty>".to_string()));
        v.sort();
        v
    };
    let real = |text: String| {
        let inner = text.find('{').map(|k| &text[k + 1..text.rfind('}').unwrap_or(text.len())]).unwrap_or("");
        // no literal of this lexicon has ", " in it
        let mut v: Vec<String> = inner.split(", ").filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
        v.sort();
        v
    };
    let mut want = vec![];
    for (p, x) in t.symbols() {
        let choices: Vec<Option<usize>> = std::iter::once(None)
            .chain(probes.iter().map(|p| Some(*p)))
            .map(|p| match t.cfg.prods[x] {
                Prod::Alt(_) => t.cfg.predict(&t.sets, x, p),
                _ => None,
            })
            .collect();
        want.push((notation(p, &named), set(&t.sets.first[x]), set(&t.sets.follow[x]), choices));
    }
    let mut got = vec![];
    for (id, name) in &m.names {
        let choices: Vec<Option<usize>> =
            std::iter::once(None).chain(probes.iter().map(|p| Some(TokenSrc::new(lx(p.0), p.1)))).map(|p| m.jump.look_up(id, p)).collect();
        got.push((name.clone(), real(format!("{:?}", m.first.get(id))), real(format!("{:?}", m.follow.get(id))), choices));
    }
    cx.label_n("symbols", want.len() as u64);
    cx.eval(want.len() >= 10, &(i, root), || format!("{} symbols of {}", want.len(), describe(&st, root, "")));
    want.sort();
    got.sort();
    if want == got {
        return Ok(());
    }
    let miss = want.iter().find(|x| !got.contains(x)).or(want.first());
    let more = got.iter().find(|x| !want.contains(x)).or(got.first());
    Err(format!("{} symbols, expected {}; not there: {miss:?}; there instead: {more:?}", got.len(), want.len()))
}
