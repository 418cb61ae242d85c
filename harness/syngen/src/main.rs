//! Generated syntax definitions (file named by VP_SYNGEN at build time) against the reference.
mod race;
mod suites;
use teleparse::prelude::*;
use teleparse::{GrammarError, Root};
use vp_core::{Suite, TrackAlloc};
use vp_dyn::lx::*;
use vp_dyn::tree::{ToTr, Tr, K};
#[global_allocator]
static A: TrackAlloc = TrackAlloc;

/// what a root type offers
pub struct Entry {
    pub parse: fn(&mut teleparse::Parser<'_, Lx>) -> Result<Option<Tr>, GrammarError>,
    pub root_parse: fn(&str) -> Result<Option<Tr>, GrammarError>,
    pub verdict: fn() -> Result<(), GrammarError>,
    pub assert_ll1: fn(),
    pub tables: fn() -> &'static Result<teleparse::syntax::Metadata<Lx>, GrammarError>,
    /// address of the tables
    pub at: fn() -> usize,
}
macro_rules! entry {
    ($t:ty) => {
        Some(Entry {
            parse: |p| Ok(p.parse::<$t>()?.map(|x| x.tr())),
            root_parse: |s| Ok(<$t>::parse(s)?.map(|x| x.tr())),
            verdict: || match <$t>::metadata() {
                Ok(_) => Ok(()),
                Err(e) => Err(e.clone()),
            },
            assert_ll1: <$t>::assert_ll1,
            tables: <$t>::metadata,
            at: || <$t>::metadata() as *const _ as usize,
        })
    };
}
#[allow(warnings)]
mod generated {
    include!(env!("VP_SYNGEN"));
}
pub fn seed() -> (u64, usize) {
    (generated::SEED, generated::COUNT)
}
pub fn entries(i: usize) -> &'static [Option<Entry>] {
    generated::ALL[i]
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "race") == Some(true) {
        std::process::exit(race::run(a[2].parse().unwrap(), &a[3]));
    }
    vp_core::main(&[
        Suite { name: "c20_static", rule: "at least one token; distinct by definitions and input", run: suites::c20_static, quick: 20_000, thorough: 60_000 },
        Suite { name: "c25_static", rule: "an accepted root with ten or more symbols; distinct by definitions and root", run: suites::c25_static, quick: 2_000, thorough: 2_000 },
    ]);
}
