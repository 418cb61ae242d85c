//! What wrapper nodes hand out: generated user types that derive ToSpan and Node (file named by VP_WRAPGEN at build
//! time), and the nodes of the library.
mod nodes;
use std::fmt::Debug;
use teleparse::{Span, ToSpan};
use vp_core::{Cx, Src, Suite, TrackAlloc};
pub use vp_dyn::lx::Lx;
#[global_allocator]
static A: TrackAlloc = TrackAlloc;

mod generated {
    include!(env!("VP_WRAPGEN"));
}
type Res = Result<(), String>;
pub fn word(r: &mut Src) -> String {
    r.pick(&["", "a", "12", "300", "x y", "→", "é\"", "-1"]).to_string()
}
pub fn bytes(r: &mut Src) -> Vec<u8> {
    let n = r.below(4);
    (0..n).map(|_| r.below(200) as u8).collect()
}
fn id(x: u8) -> u8 {
    x
}
pub const ID: fn(u8) -> u8 = id;
pub fn same<T: PartialEq + Debug>(what: &str, got: T, want: T) -> Res {
    if got == want { Ok(()) } else { Err(format!("{what}: {got:?}, expected {want:?}")) }
}
pub fn is_default<T: PartialEq + Debug + Default>(what: &str, got: &T) -> Res {
    let want = T::default();
    if *got == want { Ok(()) } else { Err(format!("{what} is {got:?}, expected its default {want:?}")) }
}
fn has<T: ToSpan>(what: &str, x: T, lo: usize, hi: usize) -> Res {
    same(what, (x.lo(), x.hi(), x.span()), (lo, hi, Span { lo, hi }))
}
/// a value made for lo..hi has that span, and so has everything that delegates to it
pub fn spanned<T: ToSpan>(name: &str, r: &mut Src, mk: fn(&mut Src, usize, usize) -> T) -> Res {
    let (lo, hi) = (r.below(1000), r.below(1000));
    let x = mk(r, lo, hi);
    has(name, &x, lo, hi)?;
    has(&format!("reference to a reference to {name}"), &&x, lo, hi)?;
    has(&format!("Box of {name}"), Box::new(&x), lo, hi)?;
    let (lo2, hi2) = (r.below(1000), r.below(1000));
    let y = mk(r, lo2, hi2);
    let j = || Span::new(1001, 1002);
    has(&format!("pair of {name}"), (&x, &y), lo, hi2)?;
    has(&format!("triple of {name}"), (&x, j(), &y), lo, hi2)?;
    has(&format!("4-tuple of {name}"), (&x, j(), j(), &y), lo, hi2)?;
    has(&format!("5-tuple of {name}"), (&x, j(), j(), j(), &y), lo, hi2)?;
    has(&format!("tuple of tuples of {name}"), ((&y, &x), (&x, &y), (j(), &x)), lo2, hi)?;
    let b: Box<dyn ToSpan + '_> = Box::new(&x);
    same(&format!("{name} as a trait object"), (b.lo(), b.hi(), b.span()), (lo, hi, Span { lo, hi }))
}
fn c24_derived(s: &mut Src, cx: &mut Cx) -> Res {
    let i = s.below(generated::ALL.len());
    let (check, text) = generated::ALL[i];
    cx.desc = text.to_string();
    let from = s.used();
    let r = check(s);
    let key = (i, s.rec[from..].to_vec());
    cx.eval(true, &key, || text.to_string());
    r
}
fn main() {
    vp_core::main(&[
        Suite { name: "c24_derived", rule: "every generated type with values; distinct by module and values", run: c24_derived, quick: 20_000, thorough: 400_000 },
        Suite { name: "c24_nodes", rule: "a list with at least one item, or a node with a value; distinct by contents and spans", run: nodes::c24_nodes, quick: 60_000, thorough: 3_000_000 },
    ]);
}
