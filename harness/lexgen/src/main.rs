//! Generated lexicons (file named by VP_LEXGEN at build time) against a reference lexer.
mod known;
mod rt;
mod suites;
mod generated {
    use crate::rt;
    include!(env!("VP_LEXGEN"));
}
use vp_core::{Suite, TrackAlloc};
#[global_allocator]
static A: TrackAlloc = TrackAlloc;
fn main() {
    if std::env::args().nth(1).as_deref() == Some("known") {
        for (k, got, want) in known::run() {
            println!("{k}\t{got}\t{want}");
        }
        return;
    }
    vp_core::main(&[
        Suite { name: "c10_lex", rule: "at least two tokens or one invalid region; distinct by lexicon and text", run: suites::c10_lex, quick: 250_000, thorough: 250_000 },
        Suite { name: "c15_terms", rule: "every case; distinct by lexicon, terminal and text", run: suites::c15_terms, quick: 60_000, thorough: 60_000 },
        Suite { name: "c09_stream", rule: "a text with at least one token; distinct by lexicon, text and operations", run: suites::c09_stream, quick: 60_000, thorough: 60_000 },
        Suite { name: "c11_laws", rule: "every lexicon; distinct by lexicon", run: suites::c11_laws, quick: 600, thorough: 600 },
    ]);
}
