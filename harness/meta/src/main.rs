#![allow(dead_code)]
use vp_core::{Suite, TrackAlloc};
#[macro_use]
mod sizes;
mod gram;
mod lx;
mod ser;
mod setmacros;
mod setops;
mod stores;
#[global_allocator]
static A: TrackAlloc = TrackAlloc;

const GR: &str = "the grammar has at least two structured symbols and a nullable or recursive one; distinct by its productions";
fn main() {
    vp_core::main(&[
        Suite { name: "c01", rule: GR, run: gram::c01, quick: 400_000, thorough: 12_000_000 },
        Suite { name: "c02", rule: GR, run: gram::c02, quick: 200_000, thorough: 6_000_000 },
        Suite { name: "c03", rule: GR, run: gram::c03, quick: 400_000, thorough: 12_000_000 },
        Suite { name: "c04", rule: GR, run: gram::c04, quick: 300_000, thorough: 9_000_000 },
        Suite { name: "c25_tables", rule: GR, run: gram::c25, quick: 100_000, thorough: 3_000_000 },
        Suite { name: "c11", rule: "a history of at least three operations; distinct by lexicon size and history", run: stores::c11, quick: 60_000, thorough: 2_000_000 },
        Suite { name: "c12", rule: "two or more stored tokens and a query whose overlapping tokens number two or more or differ from the inside ones; distinct by layout and history", run: stores::c12, quick: 400_000, thorough: 12_000_000 },
        Suite { name: "c13_lits", rule: "a history of four or more operations; distinct by history", run: setops::lits, quick: 200_000, thorough: 6_000_000 },
        Suite { name: "c13_terms", rule: "a history of five or more operations; distinct by history", run: setops::terms, quick: 60_000, thorough: 2_000_000 },
        Suite { name: "c21_message", rule: "a message with a set or with text; distinct by message and span", run: ser::message, quick: 100_000, thorough: 3_000_000 },
        Suite { name: "c23", rule: "a span, an error, or a non-empty set/map pair; distinct by the expected serialized form", run: ser::c23, quick: 200_000, thorough: 6_000_000 },
    ]);
}
