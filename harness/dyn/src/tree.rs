//! One comparable form for every real tree.
use teleparse::{tp, Produce, Production, ToSpan};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum K {
    /// token of a type
    Tok(usize),
    Seq,
    Alt(usize),
    None,
    Some,
    Exists(bool),
    List,
    /// kids: n elements, then separators
    Split(usize),
    Punct(usize),
    /// kids: head wrapper, tail
    Recover,
    Head,
    Quote(String),
    Parse(Option<u32>),
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Tr {
    pub k: K,
    pub lo: usize,
    pub hi: usize,
    pub kids: Vec<Tr>,
}
impl std::fmt::Debug for Tr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}@{}..{}", self.k, self.lo, self.hi)?;
        if !self.kids.is_empty() {
            f.debug_list().entries(&self.kids).finish()?;
        }
        Ok(())
    }
}
impl Tr {
    pub fn new(k: K, lo: usize, hi: usize, kids: Vec<Tr>) -> Tr {
        Tr { k, lo, hi, kids }
    }
    /// tokens in source order of the tree (separators of lists interleaved by position)
    pub fn leaves<'a>(&'a self, out: &mut Vec<&'a Tr>) {
        if let K::Tok(_) = self.k {
            out.push(self);
        }
        match self.k {
            K::Split(n) | K::Punct(n) => {
                let (e, p) = self.kids.split_at(n);
                let mut all: Vec<&Tr> = e.iter().chain(p.iter()).collect();
                all.sort_by_key(|t| (t.lo, t.hi));
                for x in all {
                    x.leaves(out);
                }
            }
            _ => {
                for x in &self.kids {
                    x.leaves(out);
                }
            }
        }
    }
    pub fn size(&self) -> usize {
        1 + self.kids.iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.kids.iter().map(|k| k.depth()).max().unwrap_or(0)
    }
}

pub trait ToTr: ToSpan {
    fn tr(self) -> Tr;
}
fn node<T: ToSpan>(x: &T, k: K, kids: Vec<Tr>) -> Tr {
    let s = x.span();
    // lo() / hi() must agree with span()
    if s.lo != x.lo() || s.hi != x.hi() {
        panic!("span() {:?} differs from lo() {} and hi() {}", s, x.lo(), x.hi());
    }
    Tr::new(k, s.lo, s.hi, kids)
}
#[macro_export]
macro_rules! tr_node {
    ($x:expr, $k:expr, [$($kid:expr),*]) => {{
        let (lo, hi) = { use teleparse::ToSpan; (($x).lo(), ($x).hi()) };
        $crate::tree::Tr::new($k, lo, hi, vec![$($crate::tree::ToTr::tr($kid)),*])
    }};
}

impl<T: ToTr> ToTr for Box<T> {
    fn tr(self) -> Tr {
        // spans of a box are those of its content
        let (lo, hi) = (self.lo(), self.hi());
        let t = (*self).tr();
        assert_eq!((lo, hi), (t.lo, t.hi), "span of a box");
        t
    }
}
impl<T: ToTr + Produce> ToTr for tp::Option<T> {
    fn tr(self) -> Tr {
        let mut t = node(&self, K::None, vec![]);
        if let Some(x) = self.0.value {
            t.k = K::Some;
            t.kids.push(x.tr());
        }
        t
    }
}
impl<T: Produce> ToTr for tp::Exists<T> {
    fn tr(self) -> Tr {
        let b: bool = *self;
        node(&self, K::Exists(b), vec![])
    }
}
macro_rules! list {
    ($($t:ident)*) => { $(
        impl<T: ToTr + Produce> ToTr for tp::$t<T> {
            fn tr(self) -> Tr {
                let mut t = node(&self, K::List, vec![]);
                t.kids = self.into_inner().into_iter().map(|x| x.tr()).collect();
                t
            }
        }
    )* };
}
list!(Nev NevDeque Vec VecDeque Loop);
impl<T: ToTr + Produce, P: ToTr + Produce> ToTr for tp::Split<T, P>
where
    P::Prod: Production<L = <T::Prod as Production>::L>,
{
    fn tr(self) -> Tr {
        let mut t = node(&self, K::Split(self.elems.len()), vec![]);
        let s = self.elems.span;
        assert_eq!((s.lo, s.hi), (t.lo, t.hi), "span of a split list");
        t.kids.extend(self.elems.into_inner().into_iter().map(|x| x.tr()));
        t.kids.extend(self.puncts.into_iter().map(|x| x.tr()));
        t
    }
}
impl<T: ToTr + Produce, P: ToTr + Produce> ToTr for tp::Punct<T, P>
where
    P::Prod: Production<L = <T::Prod as Production>::L>,
{
    fn tr(self) -> Tr {
        let mut t = node(&self, K::Punct(self.elems.len()), vec![]);
        t.kids.extend(self.elems.into_iter().map(|x| x.tr()));
        t.kids.extend(self.puncts.into_iter().map(|x| x.tr()));
        t
    }
}
impl<T: ToTr + Produce, R: ToTr + Produce> ToTr for tp::Recover<T, R>
where
    R::Prod: Production<L = <T::Prod as Production>::L>,
{
    fn tr(self) -> Tr {
        let mut t = node(&self, K::Recover, vec![]);
        let hs = self.head.span;
        t.kids.push(Tr::new(K::Head, hs.lo, hs.hi, self.head.value.into_iter().map(|x| x.tr()).collect()));
        t.kids.push(self.tail.tr());
        t
    }
}
impl<T: Produce> ToTr for tp::String<T> {
    fn tr(self) -> Tr {
        let t = node(&self, K::List, vec![]);
        Tr { k: K::Quote(self.into_inner()), ..t }
    }
}
impl<T: Produce> ToTr for tp::Parse<u32, T> {
    fn tr(self) -> Tr {
        let t = node(&self, K::List, vec![]);
        Tr { k: K::Parse(self.into_inner().ok()), ..t }
    }
}
macro_rules! tup {
    ($($n:tt $t:ident),*) => {
        impl<$($t: ToTr),*> ToTr for ($($t,)*) {
            fn tr(self) -> Tr {
                let mut t = node(&self, K::Seq, vec![]);
                t.kids = vec![$(self.$n.tr()),*];
                t
            }
        }
    };
}
tup!(0 A, 1 B);
tup!(0 A, 1 B, 2 C);
tup!(0 A, 1 B, 2 C, 3 D);
tup!(0 A, 1 B, 2 C, 3 D, 4 E);

macro_rules! term {
    ($($t:ident)*) => { $(
        impl ToTr for crate::lx::$t {
            fn tr(self) -> Tr {
                let ty = { use teleparse::Lexicon; self.0.ty.id() };
                assert_eq!((self.lo(), self.hi()), (self.0.span.lo, self.0.span.hi), "span of a terminal");
                node(&self, K::Tok(ty), vec![])
            }
        }
    )* };
}
term!(Ident KwIf KwFn KwDo Int OpAdd OpInc OpMul OpAssign OpEq ParenL ParenR Comma Semi Arrow Eacute Str Empty Back KwNext);
