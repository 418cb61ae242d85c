use vp_core::{Suite, TrackAlloc};
mod suites;
use suites::*;
#[global_allocator]
static A: TrackAlloc = TrackAlloc;

const GN: &str = "the grammar has at least six reachable productions; distinct by grammar";
const GT: &str = "the input has at least one token (C05, C08: two); distinct by grammar and input";
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "emit-tests") == Some(true) {
        print!("{}", vp_dyn::statics::tests(a[2].parse().unwrap(), a[3].parse().unwrap()));
        return;
    }
    if a.get(1).map(|x| x == "emit") == Some(true) {
        // emit SEED COUNT: source of generated syntax definitions
        print!("{}", vp_dyn::statics::source(a[2].parse().unwrap(), a[3].parse().unwrap()));
        return;
    }
    vp_core::main(&[
        Suite { name: "c01_nodes", rule: GN, run: c01_nodes, quick: 60_000, thorough: 2_000_000 },
        Suite { name: "c02_nodes", rule: "as c01_nodes, and some symbol can be empty", run: c02_nodes, quick: 30_000, thorough: 1_000_000 },
        Suite { name: "c03_nodes", rule: "rejected, and the grammar has at least six reachable productions; distinct by grammar", run: c03_nodes, quick: 60_000, thorough: 2_000_000 },
        Suite { name: "c04_nodes", rule: "every lookahead of a choice; distinct by grammar, choice and token", run: c04_nodes, quick: 8_000, thorough: 250_000 },
        Suite { name: "c05", rule: GT, run: c05, quick: 30_000, thorough: 1_000_000 },
        Suite { name: "c06", rule: GT, run: c06, quick: 30_000, thorough: 1_000_000 },
        Suite { name: "c07", rule: "the input has at least two bytes; distinct by grammar and input", run: c07, quick: 30_000, thorough: 1_000_000 },
        Suite { name: "c08", rule: GT, run: c08, quick: 30_000, thorough: 1_000_000 },
        Suite { name: "c09", rule: "at least two tokens and four operations; distinct by text and history", run: c09, quick: 300_000, thorough: 10_000_000 },
        Suite { name: "c14", rule: "at least one token is marked; distinct by grammar and input", run: c14, quick: 30_000, thorough: 1_000_000 },
        Suite { name: "c16", rule: "at least one token is consumed; distinct by both grammars and input", run: c16, quick: 30_000, thorough: 1_000_000 },
        Suite { name: "c17", rule: "the reference takes at least one recovery step; distinct by grammar and input", run: c17, quick: 30_000, thorough: 1_000_000 },
        Suite { name: "c18", rule: "some parsed text has more than two bytes; distinct by the parses", run: c18, quick: 15_000, thorough: 500_000 },
        Suite { name: "c19", rule: "two or more parses on one parser consuming two or more tokens; distinct by grammar, input and roots", run: c19, quick: 20_000, thorough: 700_000 },
        Suite { name: "c21", rule: "at least one error; distinct by grammar and input", run: c21, quick: 30_000, thorough: 1_000_000 },
        Suite { name: "c22", rule: "a literal is inserted or refused; distinct by grammar and input", run: c22, quick: 30_000, thorough: 1_000_000 },
        Suite { name: "c22_direct", rule: "a history of two or more token requests; distinct by text and history", run: c22_direct, quick: 200_000, thorough: 6_000_000 },
        Suite { name: "c22_terminals", rule: "every case; distinct by terminal and text", run: c22_terminals, quick: 100_000, thorough: 3_000_000 },
    ]);
}
