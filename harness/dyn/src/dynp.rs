//! Real node types whose grammar is data: `Dyn<N>` interprets the definition of symbol N of the current
//! grammar by calling the real combinators, terminals and derived structs / enums over other `Dyn<M>`.
use crate::gen::{self, NC, NS, NSYM};
use crate::lx::*;
use crate::model::{Def, Gram, Nd};
use crate::tree::{ToTr, Tr};
use std::any::TypeId;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use teleparse::syntax::{Metadata, MetadataBuilder, Result as SynResult};
use teleparse::{GrammarError, Parser, Pos, Produce, Production, Root, ToSpan};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Shape {
    Tuple,
    Unnamed,
    Named,
    Enum,
    Split,
    Punct,
    Recover,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum UK {
    Plain,
    Opt,
    Exists,
    Nev,
    NevDeque,
    Vec,
    VecDeque,
    Loop,
    Quote,
    Parse,
    Boxed,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum DDef {
    Term(usize),
    Un(UK, usize),
    /// shape, arity, with semantic annotations; only for symbols below NS
    St(Shape, usize, bool),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct DGram {
    pub defs: Vec<DDef>,
    pub ns: usize,
    /// what the symbols are called in reports: 0 each its own name, 1 all the same, otherwise a few names
    pub names: usize,
}
pub fn cell(s: usize, k: usize) -> usize {
    NS + NC * s + k
}
impl DGram {
    pub fn to_model(&self) -> Gram {
        let mut g = Gram::default();
        for s in 0..self.ns {
            let DDef::St(sh, n, sem) = self.defs[s] else {
                g.defs.insert(s, Def::Unit(self.nd(s)));
                continue;
            };
            for k in 0..n {
                let c = cell(s, k);
                g.defs.insert(c, Def::Unit(self.nd(c)));
            }
            g.defs.insert(s, Def::Unit(self.nd(s)));
            let kids = (0..n).map(|i| (Nd::Ref(cell(s, i)), if sem { gen::sem_mask(s, i) } else { 0 })).collect();
            match sh {
                Shape::Unnamed | Shape::Named => {
                    g.defs.insert(100 + s, Def::Struct(kids));
                }
                Shape::Enum => {
                    g.defs.insert(100 + s, Def::Enum(kids));
                }
                _ => {}
            }
        }
        g
    }
    /// node expression a symbol stands for
    pub fn nd(&self, i: usize) -> Nd {
        match self.defs[i] {
            DDef::Term(t) => Nd::Term(t),
            DDef::Un(k, j) => {
                let x = Rc::new(Nd::Ref(j));
                match k {
                    UK::Plain => Nd::Ref(j),
                    UK::Opt => Nd::Opt(x),
                    UK::Exists => Nd::Exists(x),
                    UK::Nev => Nd::Nev(x, false),
                    UK::NevDeque => Nd::Nev(x, true),
                    UK::Vec => Nd::Vec(x, false),
                    UK::VecDeque => Nd::Vec(x, true),
                    UK::Loop => Nd::Loop(x),
                    UK::Quote => Nd::Quote(x),
                    UK::Parse => Nd::Parse(x),
                    UK::Boxed => Nd::Boxed(x),
                }
            }
            DDef::St(sh, n, _) => {
                let c = |k| Nd::Ref(cell(i, k));
                match sh {
                    Shape::Tuple => Nd::Tuple((0..n).map(c).collect()),
                    Shape::Unnamed | Shape::Named | Shape::Enum => Nd::Ref(100 + i),
                    Shape::Split => Nd::Split(Rc::new(c(0)), Rc::new(c(1))),
                    Shape::Punct => Nd::Punct(Rc::new(c(0)), Rc::new(c(1))),
                    Shape::Recover => Nd::Recover(Rc::new(c(0)), Rc::new(c(1))),
                }
            }
        }
    }
    pub fn arity(&self, s: usize) -> usize {
        match self.defs[s] {
            DDef::St(_, n, _) => n,
            _ => 0,
        }
    }
    /// symbols in use (structural symbols and their cells)
    pub fn symbols(&self) -> Vec<usize> {
        let mut v = vec![];
        for s in 0..self.ns {
            v.push(s);
            v.extend((0..self.arity(s)).map(|k| cell(s, k)));
        }
        v
    }
    pub fn show(&self) -> String {
        let mut o = String::new();
        let one = |i: usize| match self.defs[i] {
            DDef::Term(t) => TERMS[t].0.to_string(),
            DDef::Un(UK::Plain, j) => format!("N{j}"),
            DDef::Un(k, j) => format!("{k:?}<N{j}>"),
            DDef::St(..) => String::new(),
        };
        for s in 0..self.ns {
            match self.defs[s] {
                DDef::St(sh, n, sem) => {
                    let k: Vec<_> = (0..n).map(|k| one(cell(s, k))).collect();
                    o.push_str(&format!("N{s} = {sh:?}{}({}); ", if sem { "+semantic" } else { "" }, k.join(", ")));
                }
                _ => o.push_str(&format!("N{s} = {}; ", one(s))),
            }
        }
        o
    }
}

pub trait Visitor {
    type Out;
    fn visit<T>(self) -> Self::Out
    where
        T: Produce + ToTr + 'static,
        T::Prod: Production<L = Lx>;
}
pub fn dispatch<V: Visitor>(g: &DGram, i: usize, v: V) -> V::Out {
    match g.defs[i] {
        DDef::Term(t) => gen::terminal(t, v),
        DDef::Un(k, j) => gen::unary(k, j, v),
        DDef::St(sh, n, sem) => gen::structural(i, sh, n, sem, v),
    }
}
pub struct ProduceV<'a, 's> {
    pub parser: &'a mut Parser<'s, Lx>,
    pub meta: &'a Metadata<Lx>,
}
impl Visitor for ProduceV<'_, '_> {
    type Out = SynResult<Tr, Lx>;
    fn visit<T>(self) -> Self::Out
    where
        T: Produce + ToTr + 'static,
        T::Prod: Production<L = Lx>,
    {
        T::produce(self.parser, self.meta).map(|x| x.tr())
    }
}
pub struct RegisterV<'a>(pub &'a mut MetadataBuilder<Lx>);
impl Visitor for RegisterV<'_> {
    type Out = ();
    fn visit<T>(self) -> Self::Out
    where
        T: Produce + ToTr + 'static,
        T::Prod: Production<L = Lx>,
    {
        T::Prod::register(self.0)
    }
}
pub struct IdV;
impl Visitor for IdV {
    type Out = TypeId;
    fn visit<T>(self) -> Self::Out
    where
        T: Produce + ToTr + 'static,
        T::Prod: Production<L = Lx>,
    {
        T::prod_id()
    }
}
pub struct NameV;
impl Visitor for NameV {
    type Out = String;
    fn visit<T>(self) -> Self::Out
    where
        T: Produce + ToTr + 'static,
        T::Prod: Production<L = Lx>,
    {
        T::Prod::debug().into_owned()
    }
}

type Table = Result<Metadata<Lx>, GrammarError>;
thread_local! {
    static CUR: RefCell<Option<Rc<DGram>>> = const { RefCell::new(None) };
    static METAS: RefCell<Vec<(usize, *mut Table)>> = const { RefCell::new(vec![]) };
    static DEPTH: Cell<usize> = const { Cell::new(0) };
    static WORK: Cell<u64> = const { Cell::new(0) };
}
/// bound on nested / total node parses; far beyond what the reference needs
pub const MAX_DEPTH: usize = 12_000;
pub const MAX_WORK: u64 = 3_000_000;

/// makes `g` the current grammar of this thread until dropped; earlier ones come back
pub struct Use {
    prev: Option<Rc<DGram>>,
    metas: Vec<(usize, *mut Table)>,
}
impl Use {
    pub fn new(g: &Rc<DGram>) -> Use {
        let prev = CUR.with(|c| c.borrow_mut().replace(g.clone()));
        let metas = METAS.with(|m| std::mem::take(&mut *m.borrow_mut()));
        DEPTH.with(|d| d.set(0));
        WORK.with(|d| d.set(0));
        Use { prev, metas }
    }
}
impl Drop for Use {
    fn drop(&mut self) {
        CUR.with(|c| *c.borrow_mut() = self.prev.take());
        let mine = METAS.with(|m| std::mem::replace(&mut *m.borrow_mut(), std::mem::take(&mut self.metas)));
        for (_, p) in mine {
            // every tree and parser of the case is gone by now
            unsafe { drop(Box::from_raw(p)) };
        }
    }
}
pub fn cur() -> Rc<DGram> {
    CUR.with(|c| c.borrow().clone()).expect("no current grammar")
}
pub fn reset_work() {
    DEPTH.with(|d| d.set(0));
    WORK.with(|d| d.set(0));
}

#[derive(Debug, Clone)]
pub struct Dyn<const S: usize> {
    pub tr: Tr,
}
impl<const S: usize> ToSpan for Dyn<S> {
    fn lo(&self) -> Pos {
        self.tr.lo
    }
    fn hi(&self) -> Pos {
        self.tr.hi
    }
}
impl<const S: usize> ToTr for Dyn<S> {
    fn tr(self) -> Tr {
        self.tr
    }
}
pub struct DynProd<const S: usize>;
impl<const S: usize> Production for DynProd<S> {
    type L = Lx;
    fn debug() -> Cow<'static, str> {
        Cow::Owned(match cur().names {
            0 => format!("S{S}"),
            n => format!("S{}", S % n),
        })
    }
    fn register(meta: &mut MetadataBuilder<Lx>) {
        let t = Self::id();
        if meta.visit(t, || Self::debug().into_owned()) {
            let g = cur();
            let id = dispatch(&g, S, IdV);
            meta.add_sequence(t, &[id]);
            dispatch(&g, S, RegisterV(meta));
        }
    }
}
impl<const S: usize> Produce for Dyn<S> {
    type Prod = DynProd<S>;
    fn produce(parser: &mut Parser<'_, Lx>, meta: &Metadata<Lx>) -> SynResult<Self, Lx> {
        let g = cur();
        let d = DEPTH.with(|d| {
            d.set(d.get() + 1);
            d.get()
        });
        let w = WORK.with(|d| {
            d.set(d.get() + 1);
            d.get()
        });
        if d > MAX_DEPTH {
            panic!("parsing recursed {MAX_DEPTH} levels deep");
        }
        if w > MAX_WORK {
            panic!("parsing did not end within {MAX_WORK} node parses");
        }
        let r = dispatch(&g, S, ProduceV { parser, meta }).map(|tr| Dyn { tr });
        DEPTH.with(|d| d.set(d.get() - 1));
        r
    }
}
pub const ROOTS: usize = 3;
macro_rules! root {
    ($($s:literal)*) => { $(impl Root for Dyn<$s> {
        fn metadata() -> &'static Table {
            let hit = METAS.with(|m| m.borrow().iter().find(|x| x.0 == $s).map(|x| x.1));
            let p = hit.unwrap_or_else(|| {
                let p = Box::into_raw(Box::new(Metadata::build_for::<DynProd<$s>>()));
                METAS.with(|m| m.borrow_mut().push(($s, p)));
                p
            });
            unsafe { &*p }
        }
    })* };
}
root!(0 1 2);
pub fn metadata(root: usize) -> &'static Table {
    match root {
        0 => <Dyn<0> as Root>::metadata(),
        1 => <Dyn<1> as Root>::metadata(),
        _ => <Dyn<2> as Root>::metadata(),
    }
}
pub fn parse_root(parser: &mut Parser<'_, Lx>, root: usize) -> Result<Option<Tr>, GrammarError> {
    reset_work();
    Ok(match root {
        0 => parser.parse::<Dyn<0>>()?.map(|x| x.tr),
        1 => parser.parse::<Dyn<1>>()?.map(|x| x.tr),
        _ => parser.parse::<Dyn<2>>()?.map(|x| x.tr),
    })
}
pub fn root_parse(src: &str, root: usize) -> Result<Option<Tr>, GrammarError> {
    reset_work();
    Ok(match root {
        0 => <Dyn<0> as Root>::parse(src)?.map(|x| x.tr),
        1 => <Dyn<1> as Root>::parse(src)?.map(|x| x.tr),
        _ => <Dyn<2> as Root>::parse(src)?.map(|x| x.tr),
    })
}
pub const _NSYM: usize = NSYM;
