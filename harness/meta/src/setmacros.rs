// generated by tools/gen_setmacros.py
use crate::lx::L6;
use crate::sizes;
use teleparse::lex::Set;
use teleparse::syntax::{FirstSet, FollowSet, TerminalSet};
use teleparse::{first_set, follow_set, terminal_set, token_set};
type Ts = TerminalSet<L6>;
type Fi = FirstSet<L6>;
type Fo = FollowSet<L6>;
/// the text, the sets it makes, the terminals in it, whether it has the empty marker
pub type Terms = (&'static str, fn() -> Ts, fn() -> Fi, fn() -> Fo, &'static [(usize, Option<&'static str>)], bool);
pub const TERMS: &[Terms] = &[
    (r#"L6 {  }"#, || { let s: Ts = terminal_set!(L6 {  }); s }, || { let s: Fi = first_set!(L6 {  }); s }, || { let s: Fo = follow_set!(L6 {  }); s }, &[], false),
    (r#"L6 { e }"#, || { let s: Ts = terminal_set!(L6 { e }); s }, || { let s: Fi = first_set!(L6 { e }); s }, || { let s: Fo = follow_set!(L6 { e }); s }, &[], true),
    (r#"L6 { Alpha: * }"#, || { let s: Ts = terminal_set!(L6 { Alpha: * }); s }, || { let s: Fi = first_set!(L6 { Alpha: * }); s }, || { let s: Fo = follow_set!(L6 { Alpha: * }); s }, &[(0, None)], false),
    (r#"L6 { e, Alpha: * }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: * }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: * }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: * }); s }, &[(0, None)], true),
    (r#"L6 { Alpha: "a" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "a" }); s }, || { let s: Fi = first_set!(L6 { Alpha: "a" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "a" }); s }, &[(0, Some("a"))], false),
    (r#"L6 { e, Alpha: "a" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "a" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "a" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "a" }); s }, &[(0, Some("a"))], true),
    (r#"L6 { Alpha: "" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "" }); s }, || { let s: Fi = first_set!(L6 { Alpha: "" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "" }); s }, &[(0, Some(""))], false),
    (r#"L6 { e, Alpha: "" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "" }); s }, &[(0, Some(""))], true),
    (r#"L6 { Beta: * }"#, || { let s: Ts = terminal_set!(L6 { Beta: * }); s }, || { let s: Fi = first_set!(L6 { Beta: * }); s }, || { let s: Fo = follow_set!(L6 { Beta: * }); s }, &[(1, None)], false),
    (r#"L6 { e, Beta: * }"#, || { let s: Ts = terminal_set!(L6 { e, Beta: * }); s }, || { let s: Fi = first_set!(L6 { e, Beta: * }); s }, || { let s: Fo = follow_set!(L6 { e, Beta: * }); s }, &[(1, None)], true),
    (r#"L6 { Beta: "a" }"#, || { let s: Ts = terminal_set!(L6 { Beta: "a" }); s }, || { let s: Fi = first_set!(L6 { Beta: "a" }); s }, || { let s: Fo = follow_set!(L6 { Beta: "a" }); s }, &[(1, Some("a"))], false),
    (r#"L6 { e, Beta: "a" }"#, || { let s: Ts = terminal_set!(L6 { e, Beta: "a" }); s }, || { let s: Fi = first_set!(L6 { e, Beta: "a" }); s }, || { let s: Fo = follow_set!(L6 { e, Beta: "a" }); s }, &[(1, Some("a"))], true),
    (r#"L6 { Beta: "" }"#, || { let s: Ts = terminal_set!(L6 { Beta: "" }); s }, || { let s: Fi = first_set!(L6 { Beta: "" }); s }, || { let s: Fo = follow_set!(L6 { Beta: "" }); s }, &[(1, Some(""))], false),
    (r#"L6 { e, Beta: "" }"#, || { let s: Ts = terminal_set!(L6 { e, Beta: "" }); s }, || { let s: Fi = first_set!(L6 { e, Beta: "" }); s }, || { let s: Fo = follow_set!(L6 { e, Beta: "" }); s }, &[(1, Some(""))], true),
    (r#"L6 { Gamma: * }"#, || { let s: Ts = terminal_set!(L6 { Gamma: * }); s }, || { let s: Fi = first_set!(L6 { Gamma: * }); s }, || { let s: Fo = follow_set!(L6 { Gamma: * }); s }, &[(2, None)], false),
    (r#"L6 { e, Gamma: * }"#, || { let s: Ts = terminal_set!(L6 { e, Gamma: * }); s }, || { let s: Fi = first_set!(L6 { e, Gamma: * }); s }, || { let s: Fo = follow_set!(L6 { e, Gamma: * }); s }, &[(2, None)], true),
    (r#"L6 { Gamma: "a" }"#, || { let s: Ts = terminal_set!(L6 { Gamma: "a" }); s }, || { let s: Fi = first_set!(L6 { Gamma: "a" }); s }, || { let s: Fo = follow_set!(L6 { Gamma: "a" }); s }, &[(2, Some("a"))], false),
    (r#"L6 { e, Gamma: "a" }"#, || { let s: Ts = terminal_set!(L6 { e, Gamma: "a" }); s }, || { let s: Fi = first_set!(L6 { e, Gamma: "a" }); s }, || { let s: Fo = follow_set!(L6 { e, Gamma: "a" }); s }, &[(2, Some("a"))], true),
    (r#"L6 { Gamma: "" }"#, || { let s: Ts = terminal_set!(L6 { Gamma: "" }); s }, || { let s: Fi = first_set!(L6 { Gamma: "" }); s }, || { let s: Fo = follow_set!(L6 { Gamma: "" }); s }, &[(2, Some(""))], false),
    (r#"L6 { e, Gamma: "" }"#, || { let s: Ts = terminal_set!(L6 { e, Gamma: "" }); s }, || { let s: Fi = first_set!(L6 { e, Gamma: "" }); s }, || { let s: Fo = follow_set!(L6 { e, Gamma: "" }); s }, &[(2, Some(""))], true),
    (r#"L6 { Delta: * }"#, || { let s: Ts = terminal_set!(L6 { Delta: * }); s }, || { let s: Fi = first_set!(L6 { Delta: * }); s }, || { let s: Fo = follow_set!(L6 { Delta: * }); s }, &[(3, None)], false),
    (r#"L6 { e, Delta: * }"#, || { let s: Ts = terminal_set!(L6 { e, Delta: * }); s }, || { let s: Fi = first_set!(L6 { e, Delta: * }); s }, || { let s: Fo = follow_set!(L6 { e, Delta: * }); s }, &[(3, None)], true),
    (r#"L6 { Delta: "a" }"#, || { let s: Ts = terminal_set!(L6 { Delta: "a" }); s }, || { let s: Fi = first_set!(L6 { Delta: "a" }); s }, || { let s: Fo = follow_set!(L6 { Delta: "a" }); s }, &[(3, Some("a"))], false),
    (r#"L6 { e, Delta: "a" }"#, || { let s: Ts = terminal_set!(L6 { e, Delta: "a" }); s }, || { let s: Fi = first_set!(L6 { e, Delta: "a" }); s }, || { let s: Fo = follow_set!(L6 { e, Delta: "a" }); s }, &[(3, Some("a"))], true),
    (r#"L6 { Delta: "" }"#, || { let s: Ts = terminal_set!(L6 { Delta: "" }); s }, || { let s: Fi = first_set!(L6 { Delta: "" }); s }, || { let s: Fo = follow_set!(L6 { Delta: "" }); s }, &[(3, Some(""))], false),
    (r#"L6 { e, Delta: "" }"#, || { let s: Ts = terminal_set!(L6 { e, Delta: "" }); s }, || { let s: Fi = first_set!(L6 { e, Delta: "" }); s }, || { let s: Fo = follow_set!(L6 { e, Delta: "" }); s }, &[(3, Some(""))], true),
    (r#"L6 { Eps: * }"#, || { let s: Ts = terminal_set!(L6 { Eps: * }); s }, || { let s: Fi = first_set!(L6 { Eps: * }); s }, || { let s: Fo = follow_set!(L6 { Eps: * }); s }, &[(4, None)], false),
    (r#"L6 { e, Eps: * }"#, || { let s: Ts = terminal_set!(L6 { e, Eps: * }); s }, || { let s: Fi = first_set!(L6 { e, Eps: * }); s }, || { let s: Fo = follow_set!(L6 { e, Eps: * }); s }, &[(4, None)], true),
    (r#"L6 { Eps: "a" }"#, || { let s: Ts = terminal_set!(L6 { Eps: "a" }); s }, || { let s: Fi = first_set!(L6 { Eps: "a" }); s }, || { let s: Fo = follow_set!(L6 { Eps: "a" }); s }, &[(4, Some("a"))], false),
    (r#"L6 { e, Eps: "a" }"#, || { let s: Ts = terminal_set!(L6 { e, Eps: "a" }); s }, || { let s: Fi = first_set!(L6 { e, Eps: "a" }); s }, || { let s: Fo = follow_set!(L6 { e, Eps: "a" }); s }, &[(4, Some("a"))], true),
    (r#"L6 { Eps: "" }"#, || { let s: Ts = terminal_set!(L6 { Eps: "" }); s }, || { let s: Fi = first_set!(L6 { Eps: "" }); s }, || { let s: Fo = follow_set!(L6 { Eps: "" }); s }, &[(4, Some(""))], false),
    (r#"L6 { e, Eps: "" }"#, || { let s: Ts = terminal_set!(L6 { e, Eps: "" }); s }, || { let s: Fi = first_set!(L6 { e, Eps: "" }); s }, || { let s: Fo = follow_set!(L6 { e, Eps: "" }); s }, &[(4, Some(""))], true),
    (r#"L6 { Zeta: * }"#, || { let s: Ts = terminal_set!(L6 { Zeta: * }); s }, || { let s: Fi = first_set!(L6 { Zeta: * }); s }, || { let s: Fo = follow_set!(L6 { Zeta: * }); s }, &[(5, None)], false),
    (r#"L6 { e, Zeta: * }"#, || { let s: Ts = terminal_set!(L6 { e, Zeta: * }); s }, || { let s: Fi = first_set!(L6 { e, Zeta: * }); s }, || { let s: Fo = follow_set!(L6 { e, Zeta: * }); s }, &[(5, None)], true),
    (r#"L6 { Zeta: "a" }"#, || { let s: Ts = terminal_set!(L6 { Zeta: "a" }); s }, || { let s: Fi = first_set!(L6 { Zeta: "a" }); s }, || { let s: Fo = follow_set!(L6 { Zeta: "a" }); s }, &[(5, Some("a"))], false),
    (r#"L6 { e, Zeta: "a" }"#, || { let s: Ts = terminal_set!(L6 { e, Zeta: "a" }); s }, || { let s: Fi = first_set!(L6 { e, Zeta: "a" }); s }, || { let s: Fo = follow_set!(L6 { e, Zeta: "a" }); s }, &[(5, Some("a"))], true),
    (r#"L6 { Zeta: "" }"#, || { let s: Ts = terminal_set!(L6 { Zeta: "" }); s }, || { let s: Fi = first_set!(L6 { Zeta: "" }); s }, || { let s: Fo = follow_set!(L6 { Zeta: "" }); s }, &[(5, Some(""))], false),
    (r#"L6 { e, Zeta: "" }"#, || { let s: Ts = terminal_set!(L6 { e, Zeta: "" }); s }, || { let s: Fi = first_set!(L6 { e, Zeta: "" }); s }, || { let s: Fo = follow_set!(L6 { e, Zeta: "" }); s }, &[(5, Some(""))], true),
    (r#"L6 { Alpha: "", Alpha: *, Beta: "+" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "", Alpha: *, Beta: "+" }); s }, || { let s: Fi = first_set!(L6 { Alpha: "", Alpha: *, Beta: "+" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "", Alpha: *, Beta: "+" }); s }, &[(0, Some("")), (0, None), (1, Some("+"))], false),
    (r#"L6 { Beta: "++", Beta: "a", Beta: "" }"#, || { let s: Ts = terminal_set!(L6 { Beta: "++", Beta: "a", Beta: "" }); s }, || { let s: Fi = first_set!(L6 { Beta: "++", Beta: "a", Beta: "" }); s }, || { let s: Fo = follow_set!(L6 { Beta: "++", Beta: "a", Beta: "" }); s }, &[(1, Some("++")), (1, Some("a")), (1, Some(""))], false),
    (r#"L6 { e, Alpha: "+", Alpha: "a", Beta: "++", Alpha: "a", Alpha: "++", Alpha: "", Beta: "a", Beta: "a", Beta: "é", Alpha: "", Beta: "+", Alpha: "é", Alpha: "+", Alpha: "a" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "+", Alpha: "a", Beta: "++", Alpha: "a", Alpha: "++", Alpha: "", Beta: "a", Beta: "a", Beta: "é", Alpha: "", Beta: "+", Alpha: "é", Alpha: "+", Alpha: "a" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "+", Alpha: "a", Beta: "++", Alpha: "a", Alpha: "++", Alpha: "", Beta: "a", Beta: "a", Beta: "é", Alpha: "", Beta: "+", Alpha: "é", Alpha: "+", Alpha: "a" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "+", Alpha: "a", Beta: "++", Alpha: "a", Alpha: "++", Alpha: "", Beta: "a", Beta: "a", Beta: "é", Alpha: "", Beta: "+", Alpha: "é", Alpha: "+", Alpha: "a" }); s }, &[(0, Some("+")), (0, Some("a")), (1, Some("++")), (0, Some("a")), (0, Some("++")), (0, Some("")), (1, Some("a")), (1, Some("a")), (1, Some("é")), (0, Some("")), (1, Some("+")), (0, Some("é")), (0, Some("+")), (0, Some("a"))], true),
    (r#"L6 { Delta: "", Zeta: * }"#, || { let s: Ts = terminal_set!(L6 { Delta: "", Zeta: * }); s }, || { let s: Fi = first_set!(L6 { Delta: "", Zeta: * }); s }, || { let s: Fo = follow_set!(L6 { Delta: "", Zeta: * }); s }, &[(3, Some("")), (5, None)], false),
    (r#"L6 { Alpha: *, Alpha: *, Alpha: "a" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: *, Alpha: *, Alpha: "a" }); s }, || { let s: Fi = first_set!(L6 { Alpha: *, Alpha: *, Alpha: "a" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: *, Alpha: *, Alpha: "a" }); s }, &[(0, None), (0, None), (0, Some("a"))], false),
    (r#"L6 { e, Alpha: "", Alpha: "++" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "", Alpha: "++" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "", Alpha: "++" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "", Alpha: "++" }); s }, &[(0, Some("")), (0, Some("++"))], true),
    (r#"L6 { e, Alpha: "++", Alpha: "", Beta: "+", Beta: "++", Alpha: "a", Beta: "+", Beta: "", Beta: "+", Alpha: "é" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "++", Alpha: "", Beta: "+", Beta: "++", Alpha: "a", Beta: "+", Beta: "", Beta: "+", Alpha: "é" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "++", Alpha: "", Beta: "+", Beta: "++", Alpha: "a", Beta: "+", Beta: "", Beta: "+", Alpha: "é" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "++", Alpha: "", Beta: "+", Beta: "++", Alpha: "a", Beta: "+", Beta: "", Beta: "+", Alpha: "é" }); s }, &[(0, Some("++")), (0, Some("")), (1, Some("+")), (1, Some("++")), (0, Some("a")), (1, Some("+")), (1, Some("")), (1, Some("+")), (0, Some("é"))], true),
    (r#"L6 { e, Delta: "+", Eps: "+", Zeta: "+", Eps: "a", Zeta: *, Gamma: "+" }"#, || { let s: Ts = terminal_set!(L6 { e, Delta: "+", Eps: "+", Zeta: "+", Eps: "a", Zeta: *, Gamma: "+" }); s }, || { let s: Fi = first_set!(L6 { e, Delta: "+", Eps: "+", Zeta: "+", Eps: "a", Zeta: *, Gamma: "+" }); s }, || { let s: Fo = follow_set!(L6 { e, Delta: "+", Eps: "+", Zeta: "+", Eps: "a", Zeta: *, Gamma: "+" }); s }, &[(3, Some("+")), (4, Some("+")), (5, Some("+")), (4, Some("a")), (5, None), (2, Some("+"))], true),
    (r#"L6 { Alpha: "+", Alpha: "é" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "+", Alpha: "é" }); s }, || { let s: Fi = first_set!(L6 { Alpha: "+", Alpha: "é" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "+", Alpha: "é" }); s }, &[(0, Some("+")), (0, Some("é"))], false),
    (r#"L6 { Delta: "", Delta: "+" }"#, || { let s: Ts = terminal_set!(L6 { Delta: "", Delta: "+" }); s }, || { let s: Fi = first_set!(L6 { Delta: "", Delta: "+" }); s }, || { let s: Fo = follow_set!(L6 { Delta: "", Delta: "+" }); s }, &[(3, Some("")), (3, Some("+"))], false),
    (r#"L6 { Alpha: *, Alpha: *, Alpha: *, Alpha: *, Alpha: "a", Alpha: "é", Alpha: "a", Alpha: *, Alpha: *, Alpha: *, Alpha: "++", Alpha: "", Alpha: "a", Alpha: "a" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: *, Alpha: *, Alpha: *, Alpha: *, Alpha: "a", Alpha: "é", Alpha: "a", Alpha: *, Alpha: *, Alpha: *, Alpha: "++", Alpha: "", Alpha: "a", Alpha: "a" }); s }, || { let s: Fi = first_set!(L6 { Alpha: *, Alpha: *, Alpha: *, Alpha: *, Alpha: "a", Alpha: "é", Alpha: "a", Alpha: *, Alpha: *, Alpha: *, Alpha: "++", Alpha: "", Alpha: "a", Alpha: "a" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: *, Alpha: *, Alpha: *, Alpha: *, Alpha: "a", Alpha: "é", Alpha: "a", Alpha: *, Alpha: *, Alpha: *, Alpha: "++", Alpha: "", Alpha: "a", Alpha: "a" }); s }, &[(0, None), (0, None), (0, None), (0, None), (0, Some("a")), (0, Some("é")), (0, Some("a")), (0, None), (0, None), (0, None), (0, Some("++")), (0, Some("")), (0, Some("a")), (0, Some("a"))], false),
    (r#"L6 { e, Zeta: "é", Beta: "a", Zeta: "++", Zeta: "", Alpha: "+", Eps: "é" }"#, || { let s: Ts = terminal_set!(L6 { e, Zeta: "é", Beta: "a", Zeta: "++", Zeta: "", Alpha: "+", Eps: "é" }); s }, || { let s: Fi = first_set!(L6 { e, Zeta: "é", Beta: "a", Zeta: "++", Zeta: "", Alpha: "+", Eps: "é" }); s }, || { let s: Fo = follow_set!(L6 { e, Zeta: "é", Beta: "a", Zeta: "++", Zeta: "", Alpha: "+", Eps: "é" }); s }, &[(5, Some("é")), (1, Some("a")), (5, Some("++")), (5, Some("")), (0, Some("+")), (4, Some("é"))], true),
    (r#"L6 { Delta: "++", Beta: *, Alpha: "+" }"#, || { let s: Ts = terminal_set!(L6 { Delta: "++", Beta: *, Alpha: "+" }); s }, || { let s: Fi = first_set!(L6 { Delta: "++", Beta: *, Alpha: "+" }); s }, || { let s: Fo = follow_set!(L6 { Delta: "++", Beta: *, Alpha: "+" }); s }, &[(3, Some("++")), (1, None), (0, Some("+"))], false),
    (r#"L6 { e, Beta: *, Beta: "++", Beta: "é" }"#, || { let s: Ts = terminal_set!(L6 { e, Beta: *, Beta: "++", Beta: "é" }); s }, || { let s: Fi = first_set!(L6 { e, Beta: *, Beta: "++", Beta: "é" }); s }, || { let s: Fo = follow_set!(L6 { e, Beta: *, Beta: "++", Beta: "é" }); s }, &[(1, None), (1, Some("++")), (1, Some("é"))], true),
    (r#"L6 { e, Delta: "", Zeta: "++" }"#, || { let s: Ts = terminal_set!(L6 { e, Delta: "", Zeta: "++" }); s }, || { let s: Fi = first_set!(L6 { e, Delta: "", Zeta: "++" }); s }, || { let s: Fo = follow_set!(L6 { e, Delta: "", Zeta: "++" }); s }, &[(3, Some("")), (5, Some("++"))], true),
    (r#"L6 { e, Beta: *, Zeta: "", Delta: "++", Beta: * }"#, || { let s: Ts = terminal_set!(L6 { e, Beta: *, Zeta: "", Delta: "++", Beta: * }); s }, || { let s: Fi = first_set!(L6 { e, Beta: *, Zeta: "", Delta: "++", Beta: * }); s }, || { let s: Fo = follow_set!(L6 { e, Beta: *, Zeta: "", Delta: "++", Beta: * }); s }, &[(1, None), (5, Some("")), (3, Some("++")), (1, None)], true),
    (r#"L6 { e, Alpha: "a", Alpha: "++" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "a", Alpha: "++" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "a", Alpha: "++" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "a", Alpha: "++" }); s }, &[(0, Some("a")), (0, Some("++"))], true),
    (r#"L6 { e, Alpha: "+", Alpha: "++", Alpha: "++", Alpha: * }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "+", Alpha: "++", Alpha: "++", Alpha: * }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "+", Alpha: "++", Alpha: "++", Alpha: * }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "+", Alpha: "++", Alpha: "++", Alpha: * }); s }, &[(0, Some("+")), (0, Some("++")), (0, Some("++")), (0, None)], true),
    (r#"L6 { Alpha: "++", Alpha: *, Alpha: "", Alpha: "", Alpha: "+", Alpha: "+", Alpha: "", Alpha: *, Alpha: "+" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "++", Alpha: *, Alpha: "", Alpha: "", Alpha: "+", Alpha: "+", Alpha: "", Alpha: *, Alpha: "+" }); s }, || { let s: Fi = first_set!(L6 { Alpha: "++", Alpha: *, Alpha: "", Alpha: "", Alpha: "+", Alpha: "+", Alpha: "", Alpha: *, Alpha: "+" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "++", Alpha: *, Alpha: "", Alpha: "", Alpha: "+", Alpha: "+", Alpha: "", Alpha: *, Alpha: "+" }); s }, &[(0, Some("++")), (0, None), (0, Some("")), (0, Some("")), (0, Some("+")), (0, Some("+")), (0, Some("")), (0, None), (0, Some("+"))], false),
    (r#"L6 { Delta: *, Beta: "++" }"#, || { let s: Ts = terminal_set!(L6 { Delta: *, Beta: "++" }); s }, || { let s: Fi = first_set!(L6 { Delta: *, Beta: "++" }); s }, || { let s: Fo = follow_set!(L6 { Delta: *, Beta: "++" }); s }, &[(3, None), (1, Some("++"))], false),
    (r#"L6 { Beta: "a", Beta: "a" }"#, || { let s: Ts = terminal_set!(L6 { Beta: "a", Beta: "a" }); s }, || { let s: Fi = first_set!(L6 { Beta: "a", Beta: "a" }); s }, || { let s: Fo = follow_set!(L6 { Beta: "a", Beta: "a" }); s }, &[(1, Some("a")), (1, Some("a"))], false),
    (r#"L6 { e, Gamma: *, Eps: "++", Beta: *, Alpha: "é", Alpha: *, Beta: *, Eps: "+", Gamma: "é", Zeta: "" }"#, || { let s: Ts = terminal_set!(L6 { e, Gamma: *, Eps: "++", Beta: *, Alpha: "é", Alpha: *, Beta: *, Eps: "+", Gamma: "é", Zeta: "" }); s }, || { let s: Fi = first_set!(L6 { e, Gamma: *, Eps: "++", Beta: *, Alpha: "é", Alpha: *, Beta: *, Eps: "+", Gamma: "é", Zeta: "" }); s }, || { let s: Fo = follow_set!(L6 { e, Gamma: *, Eps: "++", Beta: *, Alpha: "é", Alpha: *, Beta: *, Eps: "+", Gamma: "é", Zeta: "" }); s }, &[(2, None), (4, Some("++")), (1, None), (0, Some("é")), (0, None), (1, None), (4, Some("+")), (2, Some("é")), (5, Some(""))], true),
    (r#"L6 { e, Alpha: "+", Alpha: "++", Alpha: "a", Alpha: "++" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "+", Alpha: "++", Alpha: "a", Alpha: "++" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "+", Alpha: "++", Alpha: "a", Alpha: "++" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "+", Alpha: "++", Alpha: "a", Alpha: "++" }); s }, &[(0, Some("+")), (0, Some("++")), (0, Some("a")), (0, Some("++"))], true),
    (r#"L6 { Zeta: *, Gamma: "", Eps: "a", Alpha: *, Alpha: "", Delta: *, Beta: *, Gamma: *, Gamma: "++" }"#, || { let s: Ts = terminal_set!(L6 { Zeta: *, Gamma: "", Eps: "a", Alpha: *, Alpha: "", Delta: *, Beta: *, Gamma: *, Gamma: "++" }); s }, || { let s: Fi = first_set!(L6 { Zeta: *, Gamma: "", Eps: "a", Alpha: *, Alpha: "", Delta: *, Beta: *, Gamma: *, Gamma: "++" }); s }, || { let s: Fo = follow_set!(L6 { Zeta: *, Gamma: "", Eps: "a", Alpha: *, Alpha: "", Delta: *, Beta: *, Gamma: *, Gamma: "++" }); s }, &[(5, None), (2, Some("")), (4, Some("a")), (0, None), (0, Some("")), (3, None), (1, None), (2, None), (2, Some("++"))], false),
    (r#"L6 { Alpha: "", Alpha: "a", Beta: "+", Beta: "é" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "", Alpha: "a", Beta: "+", Beta: "é" }); s }, || { let s: Fi = first_set!(L6 { Alpha: "", Alpha: "a", Beta: "+", Beta: "é" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "", Alpha: "a", Beta: "+", Beta: "é" }); s }, &[(0, Some("")), (0, Some("a")), (1, Some("+")), (1, Some("é"))], false),
    (r#"L6 { Beta: "+", Alpha: "+" }"#, || { let s: Ts = terminal_set!(L6 { Beta: "+", Alpha: "+" }); s }, || { let s: Fi = first_set!(L6 { Beta: "+", Alpha: "+" }); s }, || { let s: Fo = follow_set!(L6 { Beta: "+", Alpha: "+" }); s }, &[(1, Some("+")), (0, Some("+"))], false),
    (r#"L6 { e, Delta: "a", Alpha: "é" }"#, || { let s: Ts = terminal_set!(L6 { e, Delta: "a", Alpha: "é" }); s }, || { let s: Fi = first_set!(L6 { e, Delta: "a", Alpha: "é" }); s }, || { let s: Fo = follow_set!(L6 { e, Delta: "a", Alpha: "é" }); s }, &[(3, Some("a")), (0, Some("é"))], true),
    (r#"L6 { Alpha: "", Alpha: "+" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "", Alpha: "+" }); s }, || { let s: Fi = first_set!(L6 { Alpha: "", Alpha: "+" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "", Alpha: "+" }); s }, &[(0, Some("")), (0, Some("+"))], false),
    (r#"L6 { e, Alpha: "+", Zeta: "+", Eps: "+", Eps: "++", Gamma: "+", Zeta: "+" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "+", Zeta: "+", Eps: "+", Eps: "++", Gamma: "+", Zeta: "+" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "+", Zeta: "+", Eps: "+", Eps: "++", Gamma: "+", Zeta: "+" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "+", Zeta: "+", Eps: "+", Eps: "++", Gamma: "+", Zeta: "+" }); s }, &[(0, Some("+")), (5, Some("+")), (4, Some("+")), (4, Some("++")), (2, Some("+")), (5, Some("+"))], true),
    (r#"L6 { Alpha: "+", Alpha: * }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "+", Alpha: * }); s }, || { let s: Fi = first_set!(L6 { Alpha: "+", Alpha: * }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "+", Alpha: * }); s }, &[(0, Some("+")), (0, None)], false),
    (r#"L6 { Eps: "", Eps: *, Beta: * }"#, || { let s: Ts = terminal_set!(L6 { Eps: "", Eps: *, Beta: * }); s }, || { let s: Fi = first_set!(L6 { Eps: "", Eps: *, Beta: * }); s }, || { let s: Fo = follow_set!(L6 { Eps: "", Eps: *, Beta: * }); s }, &[(4, Some("")), (4, None), (1, None)], false),
    (r#"L6 { Beta: "a", Beta: *, Beta: "a" }"#, || { let s: Ts = terminal_set!(L6 { Beta: "a", Beta: *, Beta: "a" }); s }, || { let s: Fi = first_set!(L6 { Beta: "a", Beta: *, Beta: "a" }); s }, || { let s: Fo = follow_set!(L6 { Beta: "a", Beta: *, Beta: "a" }); s }, &[(1, Some("a")), (1, None), (1, Some("a"))], false),
    (r#"L6 { Alpha: "++", Beta: "+", Alpha: "+" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "++", Beta: "+", Alpha: "+" }); s }, || { let s: Fi = first_set!(L6 { Alpha: "++", Beta: "+", Alpha: "+" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "++", Beta: "+", Alpha: "+" }); s }, &[(0, Some("++")), (1, Some("+")), (0, Some("+"))], false),
    (r#"L6 { e, Alpha: "+", Alpha: "a", Alpha: "a" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "+", Alpha: "a", Alpha: "a" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "+", Alpha: "a", Alpha: "a" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "+", Alpha: "a", Alpha: "a" }); s }, &[(0, Some("+")), (0, Some("a")), (0, Some("a"))], true),
    (r#"L6 { e, Alpha: *, Alpha: "é", Beta: "a", Alpha: *, Beta: "+", Alpha: *, Alpha: *, Beta: *, Beta: *, Alpha: "+", Alpha: "+", Alpha: *, Alpha: "++", Beta: "" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: *, Alpha: "é", Beta: "a", Alpha: *, Beta: "+", Alpha: *, Alpha: *, Beta: *, Beta: *, Alpha: "+", Alpha: "+", Alpha: *, Alpha: "++", Beta: "" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: *, Alpha: "é", Beta: "a", Alpha: *, Beta: "+", Alpha: *, Alpha: *, Beta: *, Beta: *, Alpha: "+", Alpha: "+", Alpha: *, Alpha: "++", Beta: "" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: *, Alpha: "é", Beta: "a", Alpha: *, Beta: "+", Alpha: *, Alpha: *, Beta: *, Beta: *, Alpha: "+", Alpha: "+", Alpha: *, Alpha: "++", Beta: "" }); s }, &[(0, None), (0, Some("é")), (1, Some("a")), (0, None), (1, Some("+")), (0, None), (0, None), (1, None), (1, None), (0, Some("+")), (0, Some("+")), (0, None), (0, Some("++")), (1, Some(""))], true),
    (r#"L6 { Beta: "", Alpha: "é", Beta: "a", Alpha: "" }"#, || { let s: Ts = terminal_set!(L6 { Beta: "", Alpha: "é", Beta: "a", Alpha: "" }); s }, || { let s: Fi = first_set!(L6 { Beta: "", Alpha: "é", Beta: "a", Alpha: "" }); s }, || { let s: Fo = follow_set!(L6 { Beta: "", Alpha: "é", Beta: "a", Alpha: "" }); s }, &[(1, Some("")), (0, Some("é")), (1, Some("a")), (0, Some(""))], false),
    (r#"L6 { e, Alpha: "++", Alpha: "++", Alpha: "+", Alpha: "++", Alpha: "++", Beta: "a", Alpha: "a", Beta: "é", Beta: "+" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "++", Alpha: "++", Alpha: "+", Alpha: "++", Alpha: "++", Beta: "a", Alpha: "a", Beta: "é", Beta: "+" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "++", Alpha: "++", Alpha: "+", Alpha: "++", Alpha: "++", Beta: "a", Alpha: "a", Beta: "é", Beta: "+" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "++", Alpha: "++", Alpha: "+", Alpha: "++", Alpha: "++", Beta: "a", Alpha: "a", Beta: "é", Beta: "+" }); s }, &[(0, Some("++")), (0, Some("++")), (0, Some("+")), (0, Some("++")), (0, Some("++")), (1, Some("a")), (0, Some("a")), (1, Some("é")), (1, Some("+"))], true),
    (r#"L6 { Eps: "++", Gamma: *, Eps: "++" }"#, || { let s: Ts = terminal_set!(L6 { Eps: "++", Gamma: *, Eps: "++" }); s }, || { let s: Fi = first_set!(L6 { Eps: "++", Gamma: *, Eps: "++" }); s }, || { let s: Fo = follow_set!(L6 { Eps: "++", Gamma: *, Eps: "++" }); s }, &[(4, Some("++")), (2, None), (4, Some("++"))], false),
    (r#"L6 { e, Beta: "é", Gamma: "++" }"#, || { let s: Ts = terminal_set!(L6 { e, Beta: "é", Gamma: "++" }); s }, || { let s: Fi = first_set!(L6 { e, Beta: "é", Gamma: "++" }); s }, || { let s: Fo = follow_set!(L6 { e, Beta: "é", Gamma: "++" }); s }, &[(1, Some("é")), (2, Some("++"))], true),
    (r#"L6 { Beta: *, Alpha: "", Beta: "++", Beta: * }"#, || { let s: Ts = terminal_set!(L6 { Beta: *, Alpha: "", Beta: "++", Beta: * }); s }, || { let s: Fi = first_set!(L6 { Beta: *, Alpha: "", Beta: "++", Beta: * }); s }, || { let s: Fo = follow_set!(L6 { Beta: *, Alpha: "", Beta: "++", Beta: * }); s }, &[(1, None), (0, Some("")), (1, Some("++")), (1, None)], false),
    (r#"L6 { e, Alpha: "é", Beta: "", Beta: * }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "é", Beta: "", Beta: * }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "é", Beta: "", Beta: * }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "é", Beta: "", Beta: * }); s }, &[(0, Some("é")), (1, Some("")), (1, None)], true),
    (r#"L6 { e, Zeta: "", Eps: "" }"#, || { let s: Ts = terminal_set!(L6 { e, Zeta: "", Eps: "" }); s }, || { let s: Fi = first_set!(L6 { e, Zeta: "", Eps: "" }); s }, || { let s: Fo = follow_set!(L6 { e, Zeta: "", Eps: "" }); s }, &[(5, Some("")), (4, Some(""))], true),
    (r#"L6 { e, Delta: "+", Eps: "++" }"#, || { let s: Ts = terminal_set!(L6 { e, Delta: "+", Eps: "++" }); s }, || { let s: Fi = first_set!(L6 { e, Delta: "+", Eps: "++" }); s }, || { let s: Fo = follow_set!(L6 { e, Delta: "+", Eps: "++" }); s }, &[(3, Some("+")), (4, Some("++"))], true),
    (r#"L6 { Alpha: "++", Alpha: "", Alpha: "é" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "++", Alpha: "", Alpha: "é" }); s }, || { let s: Fi = first_set!(L6 { Alpha: "++", Alpha: "", Alpha: "é" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "++", Alpha: "", Alpha: "é" }); s }, &[(0, Some("++")), (0, Some("")), (0, Some("é"))], false),
    (r#"L6 { e, Alpha: "é", Alpha: "+", Alpha: "é" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "é", Alpha: "+", Alpha: "é" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "é", Alpha: "+", Alpha: "é" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "é", Alpha: "+", Alpha: "é" }); s }, &[(0, Some("é")), (0, Some("+")), (0, Some("é"))], true),
    (r#"L6 { Alpha: *, Alpha: "++" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: *, Alpha: "++" }); s }, || { let s: Fi = first_set!(L6 { Alpha: *, Alpha: "++" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: *, Alpha: "++" }); s }, &[(0, None), (0, Some("++"))], false),
    (r#"L6 { Delta: "++", Gamma: *, Zeta: "++", Zeta: *, Gamma: "", Gamma: "" }"#, || { let s: Ts = terminal_set!(L6 { Delta: "++", Gamma: *, Zeta: "++", Zeta: *, Gamma: "", Gamma: "" }); s }, || { let s: Fi = first_set!(L6 { Delta: "++", Gamma: *, Zeta: "++", Zeta: *, Gamma: "", Gamma: "" }); s }, || { let s: Fo = follow_set!(L6 { Delta: "++", Gamma: *, Zeta: "++", Zeta: *, Gamma: "", Gamma: "" }); s }, &[(3, Some("++")), (2, None), (5, Some("++")), (5, None), (2, Some("")), (2, Some(""))], false),
    (r#"L6 { e, Alpha: *, Beta: "", Beta: "" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: *, Beta: "", Beta: "" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: *, Beta: "", Beta: "" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: *, Beta: "", Beta: "" }); s }, &[(0, None), (1, Some("")), (1, Some(""))], true),
    (r#"L6 { Beta: "++", Beta: "é", Alpha: "+" }"#, || { let s: Ts = terminal_set!(L6 { Beta: "++", Beta: "é", Alpha: "+" }); s }, || { let s: Fi = first_set!(L6 { Beta: "++", Beta: "é", Alpha: "+" }); s }, || { let s: Fo = follow_set!(L6 { Beta: "++", Beta: "é", Alpha: "+" }); s }, &[(1, Some("++")), (1, Some("é")), (0, Some("+"))], false),
    (r#"L6 { e, Beta: *, Beta: "a", Beta: "++" }"#, || { let s: Ts = terminal_set!(L6 { e, Beta: *, Beta: "a", Beta: "++" }); s }, || { let s: Fi = first_set!(L6 { e, Beta: *, Beta: "a", Beta: "++" }); s }, || { let s: Fo = follow_set!(L6 { e, Beta: *, Beta: "a", Beta: "++" }); s }, &[(1, None), (1, Some("a")), (1, Some("++"))], true),
    (r#"L6 { Beta: "++", Beta: *, Beta: "a", Beta: "", Beta: "a", Alpha: "a", Beta: "", Alpha: *, Alpha: "é" }"#, || { let s: Ts = terminal_set!(L6 { Beta: "++", Beta: *, Beta: "a", Beta: "", Beta: "a", Alpha: "a", Beta: "", Alpha: *, Alpha: "é" }); s }, || { let s: Fi = first_set!(L6 { Beta: "++", Beta: *, Beta: "a", Beta: "", Beta: "a", Alpha: "a", Beta: "", Alpha: *, Alpha: "é" }); s }, || { let s: Fo = follow_set!(L6 { Beta: "++", Beta: *, Beta: "a", Beta: "", Beta: "a", Alpha: "a", Beta: "", Alpha: *, Alpha: "é" }); s }, &[(1, Some("++")), (1, None), (1, Some("a")), (1, Some("")), (1, Some("a")), (0, Some("a")), (1, Some("")), (0, None), (0, Some("é"))], false),
    (r#"L6 { Gamma: *, Delta: * }"#, || { let s: Ts = terminal_set!(L6 { Gamma: *, Delta: * }); s }, || { let s: Fi = first_set!(L6 { Gamma: *, Delta: * }); s }, || { let s: Fo = follow_set!(L6 { Gamma: *, Delta: * }); s }, &[(2, None), (3, None)], false),
    (r#"L6 { e, Alpha: *, Alpha: * }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: *, Alpha: * }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: *, Alpha: * }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: *, Alpha: * }); s }, &[(0, None), (0, None)], true),
    (r#"L6 { Alpha: "é", Alpha: "+" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "é", Alpha: "+" }); s }, || { let s: Fi = first_set!(L6 { Alpha: "é", Alpha: "+" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "é", Alpha: "+" }); s }, &[(0, Some("é")), (0, Some("+"))], false),
    (r#"L6 { Beta: "++", Zeta: "+", Delta: "+" }"#, || { let s: Ts = terminal_set!(L6 { Beta: "++", Zeta: "+", Delta: "+" }); s }, || { let s: Fi = first_set!(L6 { Beta: "++", Zeta: "+", Delta: "+" }); s }, || { let s: Fo = follow_set!(L6 { Beta: "++", Zeta: "+", Delta: "+" }); s }, &[(1, Some("++")), (5, Some("+")), (3, Some("+"))], false),
    (r#"L6 { e, Alpha: "", Alpha: "", Alpha: "+" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "", Alpha: "", Alpha: "+" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "", Alpha: "", Alpha: "+" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "", Alpha: "", Alpha: "+" }); s }, &[(0, Some("")), (0, Some("")), (0, Some("+"))], true),
    (r#"L6 { e, Alpha: *, Alpha: * }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: *, Alpha: * }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: *, Alpha: * }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: *, Alpha: * }); s }, &[(0, None), (0, None)], true),
    (r#"L6 { Zeta: "a", Gamma: "é", Zeta: "a", Eps: "a", Eps: "+", Beta: "++", Gamma: "é", Zeta: "a", Beta: "+" }"#, || { let s: Ts = terminal_set!(L6 { Zeta: "a", Gamma: "é", Zeta: "a", Eps: "a", Eps: "+", Beta: "++", Gamma: "é", Zeta: "a", Beta: "+" }); s }, || { let s: Fi = first_set!(L6 { Zeta: "a", Gamma: "é", Zeta: "a", Eps: "a", Eps: "+", Beta: "++", Gamma: "é", Zeta: "a", Beta: "+" }); s }, || { let s: Fo = follow_set!(L6 { Zeta: "a", Gamma: "é", Zeta: "a", Eps: "a", Eps: "+", Beta: "++", Gamma: "é", Zeta: "a", Beta: "+" }); s }, &[(5, Some("a")), (2, Some("é")), (5, Some("a")), (4, Some("a")), (4, Some("+")), (1, Some("++")), (2, Some("é")), (5, Some("a")), (1, Some("+"))], false),
    (r#"L6 { Alpha: "é", Alpha: *, Alpha: "++", Alpha: * }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "é", Alpha: *, Alpha: "++", Alpha: * }); s }, || { let s: Fi = first_set!(L6 { Alpha: "é", Alpha: *, Alpha: "++", Alpha: * }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "é", Alpha: *, Alpha: "++", Alpha: * }); s }, &[(0, Some("é")), (0, None), (0, Some("++")), (0, None)], false),
    (r#"L6 { e, Zeta: "a", Delta: "é", Delta: "a", Zeta: "+", Gamma: "++", Zeta: "+", Delta: "é", Eps: "é", Delta: "a", Zeta: "", Alpha: *, Zeta: "+", Alpha: "a", Beta: "++" }"#, || { let s: Ts = terminal_set!(L6 { e, Zeta: "a", Delta: "é", Delta: "a", Zeta: "+", Gamma: "++", Zeta: "+", Delta: "é", Eps: "é", Delta: "a", Zeta: "", Alpha: *, Zeta: "+", Alpha: "a", Beta: "++" }); s }, || { let s: Fi = first_set!(L6 { e, Zeta: "a", Delta: "é", Delta: "a", Zeta: "+", Gamma: "++", Zeta: "+", Delta: "é", Eps: "é", Delta: "a", Zeta: "", Alpha: *, Zeta: "+", Alpha: "a", Beta: "++" }); s }, || { let s: Fo = follow_set!(L6 { e, Zeta: "a", Delta: "é", Delta: "a", Zeta: "+", Gamma: "++", Zeta: "+", Delta: "é", Eps: "é", Delta: "a", Zeta: "", Alpha: *, Zeta: "+", Alpha: "a", Beta: "++" }); s }, &[(5, Some("a")), (3, Some("é")), (3, Some("a")), (5, Some("+")), (2, Some("++")), (5, Some("+")), (3, Some("é")), (4, Some("é")), (3, Some("a")), (5, Some("")), (0, None), (5, Some("+")), (0, Some("a")), (1, Some("++"))], true),
    (r#"L6 { Alpha: *, Alpha: "a", Alpha: * }"#, || { let s: Ts = terminal_set!(L6 { Alpha: *, Alpha: "a", Alpha: * }); s }, || { let s: Fi = first_set!(L6 { Alpha: *, Alpha: "a", Alpha: * }); s }, || { let s: Fo = follow_set!(L6 { Alpha: *, Alpha: "a", Alpha: * }); s }, &[(0, None), (0, Some("a")), (0, None)], false),
    (r#"L6 { Gamma: "", Beta: "é", Delta: "++" }"#, || { let s: Ts = terminal_set!(L6 { Gamma: "", Beta: "é", Delta: "++" }); s }, || { let s: Fi = first_set!(L6 { Gamma: "", Beta: "é", Delta: "++" }); s }, || { let s: Fo = follow_set!(L6 { Gamma: "", Beta: "é", Delta: "++" }); s }, &[(2, Some("")), (1, Some("é")), (3, Some("++"))], false),
    (r#"L6 { Alpha: *, Alpha: "", Alpha: *, Alpha: *, Alpha: *, Alpha: "++", Alpha: "", Alpha: *, Alpha: * }"#, || { let s: Ts = terminal_set!(L6 { Alpha: *, Alpha: "", Alpha: *, Alpha: *, Alpha: *, Alpha: "++", Alpha: "", Alpha: *, Alpha: * }); s }, || { let s: Fi = first_set!(L6 { Alpha: *, Alpha: "", Alpha: *, Alpha: *, Alpha: *, Alpha: "++", Alpha: "", Alpha: *, Alpha: * }); s }, || { let s: Fo = follow_set!(L6 { Alpha: *, Alpha: "", Alpha: *, Alpha: *, Alpha: *, Alpha: "++", Alpha: "", Alpha: *, Alpha: * }); s }, &[(0, None), (0, Some("")), (0, None), (0, None), (0, None), (0, Some("++")), (0, Some("")), (0, None), (0, None)], false),
    (r#"L6 { Alpha: "é", Beta: "a", Beta: "+", Beta: "a", Alpha: "é", Alpha: "a", Beta: "é", Beta: "a", Alpha: "a", Alpha: "é", Beta: "", Beta: "a", Beta: "é", Alpha: "+" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "é", Beta: "a", Beta: "+", Beta: "a", Alpha: "é", Alpha: "a", Beta: "é", Beta: "a", Alpha: "a", Alpha: "é", Beta: "", Beta: "a", Beta: "é", Alpha: "+" }); s }, || { let s: Fi = first_set!(L6 { Alpha: "é", Beta: "a", Beta: "+", Beta: "a", Alpha: "é", Alpha: "a", Beta: "é", Beta: "a", Alpha: "a", Alpha: "é", Beta: "", Beta: "a", Beta: "é", Alpha: "+" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "é", Beta: "a", Beta: "+", Beta: "a", Alpha: "é", Alpha: "a", Beta: "é", Beta: "a", Alpha: "a", Alpha: "é", Beta: "", Beta: "a", Beta: "é", Alpha: "+" }); s }, &[(0, Some("é")), (1, Some("a")), (1, Some("+")), (1, Some("a")), (0, Some("é")), (0, Some("a")), (1, Some("é")), (1, Some("a")), (0, Some("a")), (0, Some("é")), (1, Some("")), (1, Some("a")), (1, Some("é")), (0, Some("+"))], false),
    (r#"L6 { e, Alpha: "", Alpha: "+", Alpha: *, Alpha: *, Alpha: *, Alpha: "+", Alpha: "a", Alpha: *, Alpha: "é" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "", Alpha: "+", Alpha: *, Alpha: *, Alpha: *, Alpha: "+", Alpha: "a", Alpha: *, Alpha: "é" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "", Alpha: "+", Alpha: *, Alpha: *, Alpha: *, Alpha: "+", Alpha: "a", Alpha: *, Alpha: "é" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "", Alpha: "+", Alpha: *, Alpha: *, Alpha: *, Alpha: "+", Alpha: "a", Alpha: *, Alpha: "é" }); s }, &[(0, Some("")), (0, Some("+")), (0, None), (0, None), (0, None), (0, Some("+")), (0, Some("a")), (0, None), (0, Some("é"))], true),
    (r#"L6 { e, Gamma: "a", Gamma: "a", Delta: "++", Delta: "é", Gamma: "+", Beta: "a" }"#, || { let s: Ts = terminal_set!(L6 { e, Gamma: "a", Gamma: "a", Delta: "++", Delta: "é", Gamma: "+", Beta: "a" }); s }, || { let s: Fi = first_set!(L6 { e, Gamma: "a", Gamma: "a", Delta: "++", Delta: "é", Gamma: "+", Beta: "a" }); s }, || { let s: Fo = follow_set!(L6 { e, Gamma: "a", Gamma: "a", Delta: "++", Delta: "é", Gamma: "+", Beta: "a" }); s }, &[(2, Some("a")), (2, Some("a")), (3, Some("++")), (3, Some("é")), (2, Some("+")), (1, Some("a"))], true),
    (r#"L6 { Zeta: *, Alpha: *, Zeta: "++", Delta: "a", Beta: *, Alpha: "a", Zeta: "++", Eps: "++", Eps: "é" }"#, || { let s: Ts = terminal_set!(L6 { Zeta: *, Alpha: *, Zeta: "++", Delta: "a", Beta: *, Alpha: "a", Zeta: "++", Eps: "++", Eps: "é" }); s }, || { let s: Fi = first_set!(L6 { Zeta: *, Alpha: *, Zeta: "++", Delta: "a", Beta: *, Alpha: "a", Zeta: "++", Eps: "++", Eps: "é" }); s }, || { let s: Fo = follow_set!(L6 { Zeta: *, Alpha: *, Zeta: "++", Delta: "a", Beta: *, Alpha: "a", Zeta: "++", Eps: "++", Eps: "é" }); s }, &[(5, None), (0, None), (5, Some("++")), (3, Some("a")), (1, None), (0, Some("a")), (5, Some("++")), (4, Some("++")), (4, Some("é"))], false),
    (r#"L6 { Delta: "+", Beta: *, Alpha: "++", Beta: "é", Zeta: "++", Eps: "", Beta: *, Alpha: "++", Gamma: *, Beta: *, Zeta: *, Gamma: "é", Beta: *, Zeta: * }"#, || { let s: Ts = terminal_set!(L6 { Delta: "+", Beta: *, Alpha: "++", Beta: "é", Zeta: "++", Eps: "", Beta: *, Alpha: "++", Gamma: *, Beta: *, Zeta: *, Gamma: "é", Beta: *, Zeta: * }); s }, || { let s: Fi = first_set!(L6 { Delta: "+", Beta: *, Alpha: "++", Beta: "é", Zeta: "++", Eps: "", Beta: *, Alpha: "++", Gamma: *, Beta: *, Zeta: *, Gamma: "é", Beta: *, Zeta: * }); s }, || { let s: Fo = follow_set!(L6 { Delta: "+", Beta: *, Alpha: "++", Beta: "é", Zeta: "++", Eps: "", Beta: *, Alpha: "++", Gamma: *, Beta: *, Zeta: *, Gamma: "é", Beta: *, Zeta: * }); s }, &[(3, Some("+")), (1, None), (0, Some("++")), (1, Some("é")), (5, Some("++")), (4, Some("")), (1, None), (0, Some("++")), (2, None), (1, None), (5, None), (2, Some("é")), (1, None), (5, None)], false),
    (r#"L6 { e, Alpha: "a", Alpha: "", Alpha: "", Alpha: "++", Alpha: "+", Alpha: "++", Beta: "é", Alpha: "a", Beta: "++", Alpha: "+", Beta: "+", Alpha: "a", Alpha: "", Beta: "a" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "a", Alpha: "", Alpha: "", Alpha: "++", Alpha: "+", Alpha: "++", Beta: "é", Alpha: "a", Beta: "++", Alpha: "+", Beta: "+", Alpha: "a", Alpha: "", Beta: "a" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "a", Alpha: "", Alpha: "", Alpha: "++", Alpha: "+", Alpha: "++", Beta: "é", Alpha: "a", Beta: "++", Alpha: "+", Beta: "+", Alpha: "a", Alpha: "", Beta: "a" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "a", Alpha: "", Alpha: "", Alpha: "++", Alpha: "+", Alpha: "++", Beta: "é", Alpha: "a", Beta: "++", Alpha: "+", Beta: "+", Alpha: "a", Alpha: "", Beta: "a" }); s }, &[(0, Some("a")), (0, Some("")), (0, Some("")), (0, Some("++")), (0, Some("+")), (0, Some("++")), (1, Some("é")), (0, Some("a")), (1, Some("++")), (0, Some("+")), (1, Some("+")), (0, Some("a")), (0, Some("")), (1, Some("a"))], true),
    (r#"L6 { e, Beta: "++", Delta: "a", Zeta: "é", Alpha: "é", Alpha: "", Zeta: "++", Beta: "é", Gamma: "+", Beta: "a" }"#, || { let s: Ts = terminal_set!(L6 { e, Beta: "++", Delta: "a", Zeta: "é", Alpha: "é", Alpha: "", Zeta: "++", Beta: "é", Gamma: "+", Beta: "a" }); s }, || { let s: Fi = first_set!(L6 { e, Beta: "++", Delta: "a", Zeta: "é", Alpha: "é", Alpha: "", Zeta: "++", Beta: "é", Gamma: "+", Beta: "a" }); s }, || { let s: Fo = follow_set!(L6 { e, Beta: "++", Delta: "a", Zeta: "é", Alpha: "é", Alpha: "", Zeta: "++", Beta: "é", Gamma: "+", Beta: "a" }); s }, &[(1, Some("++")), (3, Some("a")), (5, Some("é")), (0, Some("é")), (0, Some("")), (5, Some("++")), (1, Some("é")), (2, Some("+")), (1, Some("a"))], true),
    (r#"L6 { Beta: *, Beta: *, Alpha: * }"#, || { let s: Ts = terminal_set!(L6 { Beta: *, Beta: *, Alpha: * }); s }, || { let s: Fi = first_set!(L6 { Beta: *, Beta: *, Alpha: * }); s }, || { let s: Fo = follow_set!(L6 { Beta: *, Beta: *, Alpha: * }); s }, &[(1, None), (1, None), (0, None)], false),
    (r#"L6 { Alpha: "é", Beta: "é", Beta: *, Beta: "", Alpha: "++", Beta: *, Alpha: "++", Beta: *, Beta: *, Alpha: "é", Alpha: *, Alpha: "a", Beta: "", Beta: * }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "é", Beta: "é", Beta: *, Beta: "", Alpha: "++", Beta: *, Alpha: "++", Beta: *, Beta: *, Alpha: "é", Alpha: *, Alpha: "a", Beta: "", Beta: * }); s }, || { let s: Fi = first_set!(L6 { Alpha: "é", Beta: "é", Beta: *, Beta: "", Alpha: "++", Beta: *, Alpha: "++", Beta: *, Beta: *, Alpha: "é", Alpha: *, Alpha: "a", Beta: "", Beta: * }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "é", Beta: "é", Beta: *, Beta: "", Alpha: "++", Beta: *, Alpha: "++", Beta: *, Beta: *, Alpha: "é", Alpha: *, Alpha: "a", Beta: "", Beta: * }); s }, &[(0, Some("é")), (1, Some("é")), (1, None), (1, Some("")), (0, Some("++")), (1, None), (0, Some("++")), (1, None), (1, None), (0, Some("é")), (0, None), (0, Some("a")), (1, Some("")), (1, None)], false),
    (r#"L6 { Alpha: "a", Eps: "a", Beta: "é", Zeta: "++", Eps: "a", Alpha: "é" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "a", Eps: "a", Beta: "é", Zeta: "++", Eps: "a", Alpha: "é" }); s }, || { let s: Fi = first_set!(L6 { Alpha: "a", Eps: "a", Beta: "é", Zeta: "++", Eps: "a", Alpha: "é" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "a", Eps: "a", Beta: "é", Zeta: "++", Eps: "a", Alpha: "é" }); s }, &[(0, Some("a")), (4, Some("a")), (1, Some("é")), (5, Some("++")), (4, Some("a")), (0, Some("é"))], false),
    (r#"L6 { e, Alpha: "a", Alpha: "+" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "a", Alpha: "+" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "a", Alpha: "+" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "a", Alpha: "+" }); s }, &[(0, Some("a")), (0, Some("+"))], true),
    (r#"L6 { e, Delta: *, Delta: *, Zeta: *, Zeta: "++", Gamma: "é", Alpha: "", Beta: "a", Beta: "+", Beta: "a", Gamma: *, Delta: "a", Zeta: *, Delta: "++", Gamma: * }"#, || { let s: Ts = terminal_set!(L6 { e, Delta: *, Delta: *, Zeta: *, Zeta: "++", Gamma: "é", Alpha: "", Beta: "a", Beta: "+", Beta: "a", Gamma: *, Delta: "a", Zeta: *, Delta: "++", Gamma: * }); s }, || { let s: Fi = first_set!(L6 { e, Delta: *, Delta: *, Zeta: *, Zeta: "++", Gamma: "é", Alpha: "", Beta: "a", Beta: "+", Beta: "a", Gamma: *, Delta: "a", Zeta: *, Delta: "++", Gamma: * }); s }, || { let s: Fo = follow_set!(L6 { e, Delta: *, Delta: *, Zeta: *, Zeta: "++", Gamma: "é", Alpha: "", Beta: "a", Beta: "+", Beta: "a", Gamma: *, Delta: "a", Zeta: *, Delta: "++", Gamma: * }); s }, &[(3, None), (3, None), (5, None), (5, Some("++")), (2, Some("é")), (0, Some("")), (1, Some("a")), (1, Some("+")), (1, Some("a")), (2, None), (3, Some("a")), (5, None), (3, Some("++")), (2, None)], true),
    (r#"L6 { Gamma: *, Alpha: * }"#, || { let s: Ts = terminal_set!(L6 { Gamma: *, Alpha: * }); s }, || { let s: Fi = first_set!(L6 { Gamma: *, Alpha: * }); s }, || { let s: Fo = follow_set!(L6 { Gamma: *, Alpha: * }); s }, &[(2, None), (0, None)], false),
    (r#"L6 { e, Alpha: "++", Alpha: "+", Alpha: "+", Alpha: "++" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "++", Alpha: "+", Alpha: "+", Alpha: "++" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "++", Alpha: "+", Alpha: "+", Alpha: "++" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "++", Alpha: "+", Alpha: "+", Alpha: "++" }); s }, &[(0, Some("++")), (0, Some("+")), (0, Some("+")), (0, Some("++"))], true),
    (r#"L6 { Alpha: *, Alpha: *, Alpha: * }"#, || { let s: Ts = terminal_set!(L6 { Alpha: *, Alpha: *, Alpha: * }); s }, || { let s: Fi = first_set!(L6 { Alpha: *, Alpha: *, Alpha: * }); s }, || { let s: Fo = follow_set!(L6 { Alpha: *, Alpha: *, Alpha: * }); s }, &[(0, None), (0, None), (0, None)], false),
    (r#"L6 { Alpha: "", Alpha: "a", Alpha: "a", Alpha: "a", Alpha: *, Alpha: "", Alpha: *, Alpha: *, Alpha: "" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "", Alpha: "a", Alpha: "a", Alpha: "a", Alpha: *, Alpha: "", Alpha: *, Alpha: *, Alpha: "" }); s }, || { let s: Fi = first_set!(L6 { Alpha: "", Alpha: "a", Alpha: "a", Alpha: "a", Alpha: *, Alpha: "", Alpha: *, Alpha: *, Alpha: "" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "", Alpha: "a", Alpha: "a", Alpha: "a", Alpha: *, Alpha: "", Alpha: *, Alpha: *, Alpha: "" }); s }, &[(0, Some("")), (0, Some("a")), (0, Some("a")), (0, Some("a")), (0, None), (0, Some("")), (0, None), (0, None), (0, Some(""))], false),
    (r#"L6 { e, Zeta: "é", Gamma: "" }"#, || { let s: Ts = terminal_set!(L6 { e, Zeta: "é", Gamma: "" }); s }, || { let s: Fi = first_set!(L6 { e, Zeta: "é", Gamma: "" }); s }, || { let s: Fo = follow_set!(L6 { e, Zeta: "é", Gamma: "" }); s }, &[(5, Some("é")), (2, Some(""))], true),
    (r#"L6 { Beta: "", Beta: *, Alpha: "é", Beta: "é", Beta: *, Alpha: "+" }"#, || { let s: Ts = terminal_set!(L6 { Beta: "", Beta: *, Alpha: "é", Beta: "é", Beta: *, Alpha: "+" }); s }, || { let s: Fi = first_set!(L6 { Beta: "", Beta: *, Alpha: "é", Beta: "é", Beta: *, Alpha: "+" }); s }, || { let s: Fo = follow_set!(L6 { Beta: "", Beta: *, Alpha: "é", Beta: "é", Beta: *, Alpha: "+" }); s }, &[(1, Some("")), (1, None), (0, Some("é")), (1, Some("é")), (1, None), (0, Some("+"))], false),
    (r#"L6 { e, Alpha: *, Alpha: * }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: *, Alpha: * }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: *, Alpha: * }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: *, Alpha: * }); s }, &[(0, None), (0, None)], true),
    (r#"L6 { e, Zeta: "é", Delta: "a", Alpha: "++", Zeta: "+", Beta: "++", Delta: "a", Delta: "a", Alpha: "+", Beta: "++", Eps: "é", Delta: "é", Delta: "+", Zeta: "+", Delta: "" }"#, || { let s: Ts = terminal_set!(L6 { e, Zeta: "é", Delta: "a", Alpha: "++", Zeta: "+", Beta: "++", Delta: "a", Delta: "a", Alpha: "+", Beta: "++", Eps: "é", Delta: "é", Delta: "+", Zeta: "+", Delta: "" }); s }, || { let s: Fi = first_set!(L6 { e, Zeta: "é", Delta: "a", Alpha: "++", Zeta: "+", Beta: "++", Delta: "a", Delta: "a", Alpha: "+", Beta: "++", Eps: "é", Delta: "é", Delta: "+", Zeta: "+", Delta: "" }); s }, || { let s: Fo = follow_set!(L6 { e, Zeta: "é", Delta: "a", Alpha: "++", Zeta: "+", Beta: "++", Delta: "a", Delta: "a", Alpha: "+", Beta: "++", Eps: "é", Delta: "é", Delta: "+", Zeta: "+", Delta: "" }); s }, &[(5, Some("é")), (3, Some("a")), (0, Some("++")), (5, Some("+")), (1, Some("++")), (3, Some("a")), (3, Some("a")), (0, Some("+")), (1, Some("++")), (4, Some("é")), (3, Some("é")), (3, Some("+")), (5, Some("+")), (3, Some(""))], true),
    (r#"L6 { e, Alpha: "", Alpha: "++", Alpha: * }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "", Alpha: "++", Alpha: * }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "", Alpha: "++", Alpha: * }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "", Alpha: "++", Alpha: * }); s }, &[(0, Some("")), (0, Some("++")), (0, None)], true),
    (r#"L6 { e, Beta: "+", Gamma: "", Eps: "+", Alpha: "++", Alpha: "++", Eps: "a", Alpha: "++", Alpha: "++", Gamma: "", Alpha: "++", Beta: "+", Zeta: "++", Beta: "", Beta: "" }"#, || { let s: Ts = terminal_set!(L6 { e, Beta: "+", Gamma: "", Eps: "+", Alpha: "++", Alpha: "++", Eps: "a", Alpha: "++", Alpha: "++", Gamma: "", Alpha: "++", Beta: "+", Zeta: "++", Beta: "", Beta: "" }); s }, || { let s: Fi = first_set!(L6 { e, Beta: "+", Gamma: "", Eps: "+", Alpha: "++", Alpha: "++", Eps: "a", Alpha: "++", Alpha: "++", Gamma: "", Alpha: "++", Beta: "+", Zeta: "++", Beta: "", Beta: "" }); s }, || { let s: Fo = follow_set!(L6 { e, Beta: "+", Gamma: "", Eps: "+", Alpha: "++", Alpha: "++", Eps: "a", Alpha: "++", Alpha: "++", Gamma: "", Alpha: "++", Beta: "+", Zeta: "++", Beta: "", Beta: "" }); s }, &[(1, Some("+")), (2, Some("")), (4, Some("+")), (0, Some("++")), (0, Some("++")), (4, Some("a")), (0, Some("++")), (0, Some("++")), (2, Some("")), (0, Some("++")), (1, Some("+")), (5, Some("++")), (1, Some("")), (1, Some(""))], true),
    (r#"L6 { Alpha: "", Alpha: "+", Alpha: "++", Alpha: "a", Alpha: "++", Alpha: "", Alpha: "++", Alpha: "", Alpha: "+" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "", Alpha: "+", Alpha: "++", Alpha: "a", Alpha: "++", Alpha: "", Alpha: "++", Alpha: "", Alpha: "+" }); s }, || { let s: Fi = first_set!(L6 { Alpha: "", Alpha: "+", Alpha: "++", Alpha: "a", Alpha: "++", Alpha: "", Alpha: "++", Alpha: "", Alpha: "+" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "", Alpha: "+", Alpha: "++", Alpha: "a", Alpha: "++", Alpha: "", Alpha: "++", Alpha: "", Alpha: "+" }); s }, &[(0, Some("")), (0, Some("+")), (0, Some("++")), (0, Some("a")), (0, Some("++")), (0, Some("")), (0, Some("++")), (0, Some("")), (0, Some("+"))], false),
    (r#"L6 { Beta: "++", Alpha: *, Alpha: *, Beta: "++", Alpha: "", Beta: "++", Alpha: "é", Alpha: "++", Alpha: "" }"#, || { let s: Ts = terminal_set!(L6 { Beta: "++", Alpha: *, Alpha: *, Beta: "++", Alpha: "", Beta: "++", Alpha: "é", Alpha: "++", Alpha: "" }); s }, || { let s: Fi = first_set!(L6 { Beta: "++", Alpha: *, Alpha: *, Beta: "++", Alpha: "", Beta: "++", Alpha: "é", Alpha: "++", Alpha: "" }); s }, || { let s: Fo = follow_set!(L6 { Beta: "++", Alpha: *, Alpha: *, Beta: "++", Alpha: "", Beta: "++", Alpha: "é", Alpha: "++", Alpha: "" }); s }, &[(1, Some("++")), (0, None), (0, None), (1, Some("++")), (0, Some("")), (1, Some("++")), (0, Some("é")), (0, Some("++")), (0, Some(""))], false),
    (r#"L6 { Beta: *, Zeta: "+", Delta: * }"#, || { let s: Ts = terminal_set!(L6 { Beta: *, Zeta: "+", Delta: * }); s }, || { let s: Fi = first_set!(L6 { Beta: *, Zeta: "+", Delta: * }); s }, || { let s: Fo = follow_set!(L6 { Beta: *, Zeta: "+", Delta: * }); s }, &[(1, None), (5, Some("+")), (3, None)], false),
    (r#"L6 { Beta: "", Beta: "+", Beta: "é", Alpha: "é", Beta: "+", Beta: "+", Beta: "é", Beta: "", Beta: "é", Beta: "é", Beta: "+", Alpha: "é", Alpha: "++", Alpha: "a" }"#, || { let s: Ts = terminal_set!(L6 { Beta: "", Beta: "+", Beta: "é", Alpha: "é", Beta: "+", Beta: "+", Beta: "é", Beta: "", Beta: "é", Beta: "é", Beta: "+", Alpha: "é", Alpha: "++", Alpha: "a" }); s }, || { let s: Fi = first_set!(L6 { Beta: "", Beta: "+", Beta: "é", Alpha: "é", Beta: "+", Beta: "+", Beta: "é", Beta: "", Beta: "é", Beta: "é", Beta: "+", Alpha: "é", Alpha: "++", Alpha: "a" }); s }, || { let s: Fo = follow_set!(L6 { Beta: "", Beta: "+", Beta: "é", Alpha: "é", Beta: "+", Beta: "+", Beta: "é", Beta: "", Beta: "é", Beta: "é", Beta: "+", Alpha: "é", Alpha: "++", Alpha: "a" }); s }, &[(1, Some("")), (1, Some("+")), (1, Some("é")), (0, Some("é")), (1, Some("+")), (1, Some("+")), (1, Some("é")), (1, Some("")), (1, Some("é")), (1, Some("é")), (1, Some("+")), (0, Some("é")), (0, Some("++")), (0, Some("a"))], false),
    (r#"L6 { e, Delta: *, Beta: "é" }"#, || { let s: Ts = terminal_set!(L6 { e, Delta: *, Beta: "é" }); s }, || { let s: Fi = first_set!(L6 { e, Delta: *, Beta: "é" }); s }, || { let s: Fo = follow_set!(L6 { e, Delta: *, Beta: "é" }); s }, &[(3, None), (1, Some("é"))], true),
    (r#"L6 { Beta: "", Alpha: "", Beta: "é" }"#, || { let s: Ts = terminal_set!(L6 { Beta: "", Alpha: "", Beta: "é" }); s }, || { let s: Fi = first_set!(L6 { Beta: "", Alpha: "", Beta: "é" }); s }, || { let s: Fo = follow_set!(L6 { Beta: "", Alpha: "", Beta: "é" }); s }, &[(1, Some("")), (0, Some("")), (1, Some("é"))], false),
    (r#"L6 { e, Alpha: "+", Alpha: "++" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "+", Alpha: "++" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "+", Alpha: "++" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "+", Alpha: "++" }); s }, &[(0, Some("+")), (0, Some("++"))], true),
    (r#"L6 { Alpha: *, Alpha: "+", Alpha: "++", Alpha: *, Alpha: "é", Alpha: "a" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: *, Alpha: "+", Alpha: "++", Alpha: *, Alpha: "é", Alpha: "a" }); s }, || { let s: Fi = first_set!(L6 { Alpha: *, Alpha: "+", Alpha: "++", Alpha: *, Alpha: "é", Alpha: "a" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: *, Alpha: "+", Alpha: "++", Alpha: *, Alpha: "é", Alpha: "a" }); s }, &[(0, None), (0, Some("+")), (0, Some("++")), (0, None), (0, Some("é")), (0, Some("a"))], false),
    (r#"L6 { e, Alpha: "+", Alpha: "++", Alpha: "é", Alpha: "é" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "+", Alpha: "++", Alpha: "é", Alpha: "é" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "+", Alpha: "++", Alpha: "é", Alpha: "é" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "+", Alpha: "++", Alpha: "é", Alpha: "é" }); s }, &[(0, Some("+")), (0, Some("++")), (0, Some("é")), (0, Some("é"))], true),
    (r#"L6 { Gamma: "+", Beta: *, Alpha: "a", Beta: * }"#, || { let s: Ts = terminal_set!(L6 { Gamma: "+", Beta: *, Alpha: "a", Beta: * }); s }, || { let s: Fi = first_set!(L6 { Gamma: "+", Beta: *, Alpha: "a", Beta: * }); s }, || { let s: Fo = follow_set!(L6 { Gamma: "+", Beta: *, Alpha: "a", Beta: * }); s }, &[(2, Some("+")), (1, None), (0, Some("a")), (1, None)], false),
    (r#"L6 { e, Beta: "é", Alpha: "+" }"#, || { let s: Ts = terminal_set!(L6 { e, Beta: "é", Alpha: "+" }); s }, || { let s: Fi = first_set!(L6 { e, Beta: "é", Alpha: "+" }); s }, || { let s: Fo = follow_set!(L6 { e, Beta: "é", Alpha: "+" }); s }, &[(1, Some("é")), (0, Some("+"))], true),
    (r#"L6 { e, Alpha: "++", Alpha: "+", Delta: "+", Gamma: "++", Zeta: "+", Eps: "a" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "++", Alpha: "+", Delta: "+", Gamma: "++", Zeta: "+", Eps: "a" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "++", Alpha: "+", Delta: "+", Gamma: "++", Zeta: "+", Eps: "a" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "++", Alpha: "+", Delta: "+", Gamma: "++", Zeta: "+", Eps: "a" }); s }, &[(0, Some("++")), (0, Some("+")), (3, Some("+")), (2, Some("++")), (5, Some("+")), (4, Some("a"))], true),
    (r#"L6 { Beta: *, Alpha: * }"#, || { let s: Ts = terminal_set!(L6 { Beta: *, Alpha: * }); s }, || { let s: Fi = first_set!(L6 { Beta: *, Alpha: * }); s }, || { let s: Fo = follow_set!(L6 { Beta: *, Alpha: * }); s }, &[(1, None), (0, None)], false),
    (r#"L6 { Alpha: "", Alpha: "a", Alpha: *, Alpha: *, Alpha: "+", Alpha: "a", Alpha: *, Alpha: *, Alpha: "++", Alpha: *, Alpha: "a", Alpha: "a", Alpha: "++", Alpha: "" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "", Alpha: "a", Alpha: *, Alpha: *, Alpha: "+", Alpha: "a", Alpha: *, Alpha: *, Alpha: "++", Alpha: *, Alpha: "a", Alpha: "a", Alpha: "++", Alpha: "" }); s }, || { let s: Fi = first_set!(L6 { Alpha: "", Alpha: "a", Alpha: *, Alpha: *, Alpha: "+", Alpha: "a", Alpha: *, Alpha: *, Alpha: "++", Alpha: *, Alpha: "a", Alpha: "a", Alpha: "++", Alpha: "" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "", Alpha: "a", Alpha: *, Alpha: *, Alpha: "+", Alpha: "a", Alpha: *, Alpha: *, Alpha: "++", Alpha: *, Alpha: "a", Alpha: "a", Alpha: "++", Alpha: "" }); s }, &[(0, Some("")), (0, Some("a")), (0, None), (0, None), (0, Some("+")), (0, Some("a")), (0, None), (0, None), (0, Some("++")), (0, None), (0, Some("a")), (0, Some("a")), (0, Some("++")), (0, Some(""))], false),
    (r#"L6 { e, Alpha: *, Alpha: "a", Alpha: "a", Alpha: "+", Alpha: "+", Alpha: *, Alpha: *, Alpha: *, Alpha: "+", Alpha: "é", Alpha: *, Alpha: *, Alpha: *, Alpha: * }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: *, Alpha: "a", Alpha: "a", Alpha: "+", Alpha: "+", Alpha: *, Alpha: *, Alpha: *, Alpha: "+", Alpha: "é", Alpha: *, Alpha: *, Alpha: *, Alpha: * }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: *, Alpha: "a", Alpha: "a", Alpha: "+", Alpha: "+", Alpha: *, Alpha: *, Alpha: *, Alpha: "+", Alpha: "é", Alpha: *, Alpha: *, Alpha: *, Alpha: * }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: *, Alpha: "a", Alpha: "a", Alpha: "+", Alpha: "+", Alpha: *, Alpha: *, Alpha: *, Alpha: "+", Alpha: "é", Alpha: *, Alpha: *, Alpha: *, Alpha: * }); s }, &[(0, None), (0, Some("a")), (0, Some("a")), (0, Some("+")), (0, Some("+")), (0, None), (0, None), (0, None), (0, Some("+")), (0, Some("é")), (0, None), (0, None), (0, None), (0, None)], true),
    (r#"L6 { e, Alpha: "++", Alpha: *, Alpha: "é", Alpha: "a" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "++", Alpha: *, Alpha: "é", Alpha: "a" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "++", Alpha: *, Alpha: "é", Alpha: "a" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "++", Alpha: *, Alpha: "é", Alpha: "a" }); s }, &[(0, Some("++")), (0, None), (0, Some("é")), (0, Some("a"))], true),
    (r#"L6 { e, Alpha: *, Alpha: "a", Alpha: "+" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: *, Alpha: "a", Alpha: "+" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: *, Alpha: "a", Alpha: "+" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: *, Alpha: "a", Alpha: "+" }); s }, &[(0, None), (0, Some("a")), (0, Some("+"))], true),
    (r#"L6 { e, Alpha: "", Gamma: *, Beta: "é", Eps: *, Gamma: *, Zeta: "a", Gamma: *, Delta: *, Gamma: "", Beta: "+", Zeta: "a", Beta: *, Alpha: *, Alpha: "+" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "", Gamma: *, Beta: "é", Eps: *, Gamma: *, Zeta: "a", Gamma: *, Delta: *, Gamma: "", Beta: "+", Zeta: "a", Beta: *, Alpha: *, Alpha: "+" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "", Gamma: *, Beta: "é", Eps: *, Gamma: *, Zeta: "a", Gamma: *, Delta: *, Gamma: "", Beta: "+", Zeta: "a", Beta: *, Alpha: *, Alpha: "+" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "", Gamma: *, Beta: "é", Eps: *, Gamma: *, Zeta: "a", Gamma: *, Delta: *, Gamma: "", Beta: "+", Zeta: "a", Beta: *, Alpha: *, Alpha: "+" }); s }, &[(0, Some("")), (2, None), (1, Some("é")), (4, None), (2, None), (5, Some("a")), (2, None), (3, None), (2, Some("")), (1, Some("+")), (5, Some("a")), (1, None), (0, None), (0, Some("+"))], true),
    (r#"L6 { e, Gamma: "++", Gamma: "", Delta: "", Zeta: "a", Eps: "é", Zeta: "é", Gamma: *, Delta: *, Gamma: * }"#, || { let s: Ts = terminal_set!(L6 { e, Gamma: "++", Gamma: "", Delta: "", Zeta: "a", Eps: "é", Zeta: "é", Gamma: *, Delta: *, Gamma: * }); s }, || { let s: Fi = first_set!(L6 { e, Gamma: "++", Gamma: "", Delta: "", Zeta: "a", Eps: "é", Zeta: "é", Gamma: *, Delta: *, Gamma: * }); s }, || { let s: Fo = follow_set!(L6 { e, Gamma: "++", Gamma: "", Delta: "", Zeta: "a", Eps: "é", Zeta: "é", Gamma: *, Delta: *, Gamma: * }); s }, &[(2, Some("++")), (2, Some("")), (3, Some("")), (5, Some("a")), (4, Some("é")), (5, Some("é")), (2, None), (3, None), (2, None)], true),
    (r#"L6 { Alpha: "", Alpha: "+", Alpha: "+" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "", Alpha: "+", Alpha: "+" }); s }, || { let s: Fi = first_set!(L6 { Alpha: "", Alpha: "+", Alpha: "+" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "", Alpha: "+", Alpha: "+" }); s }, &[(0, Some("")), (0, Some("+")), (0, Some("+"))], false),
    (r#"L6 { e, Zeta: "++", Eps: "a" }"#, || { let s: Ts = terminal_set!(L6 { e, Zeta: "++", Eps: "a" }); s }, || { let s: Fi = first_set!(L6 { e, Zeta: "++", Eps: "a" }); s }, || { let s: Fo = follow_set!(L6 { e, Zeta: "++", Eps: "a" }); s }, &[(5, Some("++")), (4, Some("a"))], true),
    (r#"L6 { Alpha: "", Alpha: "é", Alpha: "++", Alpha: "é", Alpha: "++", Alpha: "a" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "", Alpha: "é", Alpha: "++", Alpha: "é", Alpha: "++", Alpha: "a" }); s }, || { let s: Fi = first_set!(L6 { Alpha: "", Alpha: "é", Alpha: "++", Alpha: "é", Alpha: "++", Alpha: "a" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "", Alpha: "é", Alpha: "++", Alpha: "é", Alpha: "++", Alpha: "a" }); s }, &[(0, Some("")), (0, Some("é")), (0, Some("++")), (0, Some("é")), (0, Some("++")), (0, Some("a"))], false),
    (r#"L6 { e, Alpha: "", Alpha: "+", Alpha: "", Alpha: "é", Alpha: "", Alpha: "", Alpha: "+", Alpha: "", Alpha: "é", Alpha: "+", Alpha: "", Alpha: "é", Alpha: "+", Alpha: "a" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "", Alpha: "+", Alpha: "", Alpha: "é", Alpha: "", Alpha: "", Alpha: "+", Alpha: "", Alpha: "é", Alpha: "+", Alpha: "", Alpha: "é", Alpha: "+", Alpha: "a" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "", Alpha: "+", Alpha: "", Alpha: "é", Alpha: "", Alpha: "", Alpha: "+", Alpha: "", Alpha: "é", Alpha: "+", Alpha: "", Alpha: "é", Alpha: "+", Alpha: "a" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "", Alpha: "+", Alpha: "", Alpha: "é", Alpha: "", Alpha: "", Alpha: "+", Alpha: "", Alpha: "é", Alpha: "+", Alpha: "", Alpha: "é", Alpha: "+", Alpha: "a" }); s }, &[(0, Some("")), (0, Some("+")), (0, Some("")), (0, Some("é")), (0, Some("")), (0, Some("")), (0, Some("+")), (0, Some("")), (0, Some("é")), (0, Some("+")), (0, Some("")), (0, Some("é")), (0, Some("+")), (0, Some("a"))], true),
    (r#"L6 { e, Alpha: *, Alpha: *, Alpha: "a", Alpha: "é" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: *, Alpha: *, Alpha: "a", Alpha: "é" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: *, Alpha: *, Alpha: "a", Alpha: "é" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: *, Alpha: *, Alpha: "a", Alpha: "é" }); s }, &[(0, None), (0, None), (0, Some("a")), (0, Some("é"))], true),
    (r#"L6 { e, Alpha: *, Alpha: "a", Alpha: "++" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: *, Alpha: "a", Alpha: "++" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: *, Alpha: "a", Alpha: "++" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: *, Alpha: "a", Alpha: "++" }); s }, &[(0, None), (0, Some("a")), (0, Some("++"))], true),
    (r#"L6 { Beta: "é", Alpha: "é", Beta: *, Alpha: "", Beta: "+", Alpha: "", Alpha: "", Alpha: *, Beta: "++", Beta: "+", Alpha: "a", Beta: "", Beta: "", Alpha: "" }"#, || { let s: Ts = terminal_set!(L6 { Beta: "é", Alpha: "é", Beta: *, Alpha: "", Beta: "+", Alpha: "", Alpha: "", Alpha: *, Beta: "++", Beta: "+", Alpha: "a", Beta: "", Beta: "", Alpha: "" }); s }, || { let s: Fi = first_set!(L6 { Beta: "é", Alpha: "é", Beta: *, Alpha: "", Beta: "+", Alpha: "", Alpha: "", Alpha: *, Beta: "++", Beta: "+", Alpha: "a", Beta: "", Beta: "", Alpha: "" }); s }, || { let s: Fo = follow_set!(L6 { Beta: "é", Alpha: "é", Beta: *, Alpha: "", Beta: "+", Alpha: "", Alpha: "", Alpha: *, Beta: "++", Beta: "+", Alpha: "a", Beta: "", Beta: "", Alpha: "" }); s }, &[(1, Some("é")), (0, Some("é")), (1, None), (0, Some("")), (1, Some("+")), (0, Some("")), (0, Some("")), (0, None), (1, Some("++")), (1, Some("+")), (0, Some("a")), (1, Some("")), (1, Some("")), (0, Some(""))], false),
    (r#"L6 { e, Alpha: "é", Beta: "+" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "é", Beta: "+" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "é", Beta: "+" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "é", Beta: "+" }); s }, &[(0, Some("é")), (1, Some("+"))], true),
    (r#"L6 { Alpha: "+", Alpha: *, Alpha: "é", Alpha: *, Alpha: *, Alpha: * }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "+", Alpha: *, Alpha: "é", Alpha: *, Alpha: *, Alpha: * }); s }, || { let s: Fi = first_set!(L6 { Alpha: "+", Alpha: *, Alpha: "é", Alpha: *, Alpha: *, Alpha: * }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "+", Alpha: *, Alpha: "é", Alpha: *, Alpha: *, Alpha: * }); s }, &[(0, Some("+")), (0, None), (0, Some("é")), (0, None), (0, None), (0, None)], false),
    (r#"L6 { Beta: "a", Beta: "a", Alpha: "+", Beta: "++", Beta: "+", Alpha: "é", Beta: "", Beta: "+", Beta: "a", Beta: "a", Beta: "", Beta: "é", Beta: "é", Beta: "é" }"#, || { let s: Ts = terminal_set!(L6 { Beta: "a", Beta: "a", Alpha: "+", Beta: "++", Beta: "+", Alpha: "é", Beta: "", Beta: "+", Beta: "a", Beta: "a", Beta: "", Beta: "é", Beta: "é", Beta: "é" }); s }, || { let s: Fi = first_set!(L6 { Beta: "a", Beta: "a", Alpha: "+", Beta: "++", Beta: "+", Alpha: "é", Beta: "", Beta: "+", Beta: "a", Beta: "a", Beta: "", Beta: "é", Beta: "é", Beta: "é" }); s }, || { let s: Fo = follow_set!(L6 { Beta: "a", Beta: "a", Alpha: "+", Beta: "++", Beta: "+", Alpha: "é", Beta: "", Beta: "+", Beta: "a", Beta: "a", Beta: "", Beta: "é", Beta: "é", Beta: "é" }); s }, &[(1, Some("a")), (1, Some("a")), (0, Some("+")), (1, Some("++")), (1, Some("+")), (0, Some("é")), (1, Some("")), (1, Some("+")), (1, Some("a")), (1, Some("a")), (1, Some("")), (1, Some("é")), (1, Some("é")), (1, Some("é"))], false),
    (r#"L6 { e, Beta: *, Beta: "++", Beta: "a", Beta: * }"#, || { let s: Ts = terminal_set!(L6 { e, Beta: *, Beta: "++", Beta: "a", Beta: * }); s }, || { let s: Fi = first_set!(L6 { e, Beta: *, Beta: "++", Beta: "a", Beta: * }); s }, || { let s: Fo = follow_set!(L6 { e, Beta: *, Beta: "++", Beta: "a", Beta: * }); s }, &[(1, None), (1, Some("++")), (1, Some("a")), (1, None)], true),
    (r#"L6 { Zeta: "", Beta: "é" }"#, || { let s: Ts = terminal_set!(L6 { Zeta: "", Beta: "é" }); s }, || { let s: Fi = first_set!(L6 { Zeta: "", Beta: "é" }); s }, || { let s: Fo = follow_set!(L6 { Zeta: "", Beta: "é" }); s }, &[(5, Some("")), (1, Some("é"))], false),
    (r#"L6 { e, Beta: "+", Beta: "", Beta: "+" }"#, || { let s: Ts = terminal_set!(L6 { e, Beta: "+", Beta: "", Beta: "+" }); s }, || { let s: Fi = first_set!(L6 { e, Beta: "+", Beta: "", Beta: "+" }); s }, || { let s: Fo = follow_set!(L6 { e, Beta: "+", Beta: "", Beta: "+" }); s }, &[(1, Some("+")), (1, Some("")), (1, Some("+"))], true),
    (r#"L6 { Alpha: *, Alpha: *, Alpha: "+", Alpha: "+", Alpha: *, Alpha: *, Alpha: *, Alpha: *, Alpha: *, Alpha: "", Alpha: *, Alpha: *, Alpha: *, Alpha: "+" }"#, || { let s: Ts = terminal_set!(L6 { Alpha: *, Alpha: *, Alpha: "+", Alpha: "+", Alpha: *, Alpha: *, Alpha: *, Alpha: *, Alpha: *, Alpha: "", Alpha: *, Alpha: *, Alpha: *, Alpha: "+" }); s }, || { let s: Fi = first_set!(L6 { Alpha: *, Alpha: *, Alpha: "+", Alpha: "+", Alpha: *, Alpha: *, Alpha: *, Alpha: *, Alpha: *, Alpha: "", Alpha: *, Alpha: *, Alpha: *, Alpha: "+" }); s }, || { let s: Fo = follow_set!(L6 { Alpha: *, Alpha: *, Alpha: "+", Alpha: "+", Alpha: *, Alpha: *, Alpha: *, Alpha: *, Alpha: *, Alpha: "", Alpha: *, Alpha: *, Alpha: *, Alpha: "+" }); s }, &[(0, None), (0, None), (0, Some("+")), (0, Some("+")), (0, None), (0, None), (0, None), (0, None), (0, None), (0, Some("")), (0, None), (0, None), (0, None), (0, Some("+"))], false),
    (r#"L6 { Alpha: "", Alpha: "++", Beta: *, Beta: *, Alpha: *, Beta: * }"#, || { let s: Ts = terminal_set!(L6 { Alpha: "", Alpha: "++", Beta: *, Beta: *, Alpha: *, Beta: * }); s }, || { let s: Fi = first_set!(L6 { Alpha: "", Alpha: "++", Beta: *, Beta: *, Alpha: *, Beta: * }); s }, || { let s: Fo = follow_set!(L6 { Alpha: "", Alpha: "++", Beta: *, Beta: *, Alpha: *, Beta: * }); s }, &[(0, Some("")), (0, Some("++")), (1, None), (1, None), (0, None), (1, None)], false),
    (r#"L6 { e, Alpha: "a", Alpha: "+", Alpha: "a", Alpha: "+", Alpha: "+", Alpha: "+" }"#, || { let s: Ts = terminal_set!(L6 { e, Alpha: "a", Alpha: "+", Alpha: "a", Alpha: "+", Alpha: "+", Alpha: "+" }); s }, || { let s: Fi = first_set!(L6 { e, Alpha: "a", Alpha: "+", Alpha: "a", Alpha: "+", Alpha: "+", Alpha: "+" }); s }, || { let s: Fo = follow_set!(L6 { e, Alpha: "a", Alpha: "+", Alpha: "a", Alpha: "+", Alpha: "+", Alpha: "+" }); s }, &[(0, Some("a")), (0, Some("+")), (0, Some("a")), (0, Some("+")), (0, Some("+")), (0, Some("+"))], true),
];
pub type Tokens<L> = &'static [(&'static str, fn() -> Set<L>, &'static [usize])];
pub trait Uses: teleparse::Lexicon {
    const ALL: Tokens<Self>;
}
impl Uses for sizes::n1::L {
    const ALL: Tokens<Self> = &[
        ("", || token_set!(), &[]),
        ("sizes::n1::L", || token_set!(sizes::n1::L), &[]),
        ("sizes::n1::L { V0 }", || token_set!(sizes::n1::L { V0 }), &[0]),
        ("sizes::n1::L { V0 }", || token_set!(sizes::n1::L { V0 }), &[0]),
        ("sizes::n1::L { V0 }", || token_set!(sizes::n1::L { V0 }), &[0]),
        ("sizes::n1::L { V0 | V0 | V0 }", || token_set!(sizes::n1::L { V0 | V0 | V0 }), &[0, 0, 0]),
        ("sizes::n1::L { V0 | V0 | V0 | V0 | V0 }", || token_set!(sizes::n1::L { V0 | V0 | V0 | V0 | V0 }), &[0, 0, 0, 0, 0]),
        ("sizes::n1::L { V0 | V0 | V0 }", || token_set!(sizes::n1::L { V0 | V0 | V0 }), &[0, 0, 0]),
        ("sizes::n1::L { V0 }", || token_set!(sizes::n1::L { V0 }), &[0]),
        ("sizes::n1::L { V0 | V0 | V0 }", || token_set!(sizes::n1::L { V0 | V0 | V0 }), &[0, 0, 0]),
        ("sizes::n1::L { V0 | V0 | V0 | V0 | V0 }", || token_set!(sizes::n1::L { V0 | V0 | V0 | V0 | V0 }), &[0, 0, 0, 0, 0]),
        ("sizes::n1::L { V0 }", || token_set!(sizes::n1::L { V0 }), &[0]),
    ];
}
impl Uses for sizes::n2::L {
    const ALL: Tokens<Self> = &[
        ("", || token_set!(), &[]),
        ("sizes::n2::L", || token_set!(sizes::n2::L), &[]),
        ("sizes::n2::L { V1 | V0 }", || token_set!(sizes::n2::L { V1 | V0 }), &[1, 0]),
        ("sizes::n2::L { V1 }", || token_set!(sizes::n2::L { V1 }), &[1]),
        ("sizes::n2::L { V0 }", || token_set!(sizes::n2::L { V0 }), &[0]),
        ("sizes::n2::L { V1 | V0 }", || token_set!(sizes::n2::L { V1 | V0 }), &[1, 0]),
        ("sizes::n2::L { V0 | V1 }", || token_set!(sizes::n2::L { V0 | V1 }), &[0, 1]),
        ("sizes::n2::L { V1 }", || token_set!(sizes::n2::L { V1 }), &[1]),
        ("sizes::n2::L { V0 | V1 | V0 }", || token_set!(sizes::n2::L { V0 | V1 | V0 }), &[0, 1, 0]),
        ("sizes::n2::L { V1 | V1 }", || token_set!(sizes::n2::L { V1 | V1 }), &[1, 1]),
        ("sizes::n2::L { V0 }", || token_set!(sizes::n2::L { V0 }), &[0]),
        ("sizes::n2::L { V0 | V1 | V0 | V0 | V0 }", || token_set!(sizes::n2::L { V0 | V1 | V0 | V0 | V0 }), &[0, 1, 0, 0, 0]),
    ];
}
impl Uses for sizes::n7::L {
    const ALL: Tokens<Self> = &[
        ("", || token_set!(), &[]),
        ("sizes::n7::L", || token_set!(sizes::n7::L), &[]),
        ("sizes::n7::L { V2 | V5 | V4 | V0 | V1 | V3 | V6 }", || token_set!(sizes::n7::L { V2 | V5 | V4 | V0 | V1 | V3 | V6 }), &[2, 5, 4, 0, 1, 3, 6]),
        ("sizes::n7::L { V6 }", || token_set!(sizes::n7::L { V6 }), &[6]),
        ("sizes::n7::L { V0 }", || token_set!(sizes::n7::L { V0 }), &[0]),
        ("sizes::n7::L { V1 | V4 | V6 | V5 | V3 | V6 | V2 | V6 | V3 }", || token_set!(sizes::n7::L { V1 | V4 | V6 | V5 | V3 | V6 | V2 | V6 | V3 }), &[1, 4, 6, 5, 3, 6, 2, 6, 3]),
        ("sizes::n7::L { V5 | V1 | V6 | V0 | V4 }", || token_set!(sizes::n7::L { V5 | V1 | V6 | V0 | V4 }), &[5, 1, 6, 0, 4]),
        ("sizes::n7::L { V5 | V6 | V0 | V0 | V2 }", || token_set!(sizes::n7::L { V5 | V6 | V0 | V0 | V2 }), &[5, 6, 0, 0, 2]),
        ("sizes::n7::L { V5 | V1 }", || token_set!(sizes::n7::L { V5 | V1 }), &[5, 1]),
        ("sizes::n7::L { V0 | V1 | V1 }", || token_set!(sizes::n7::L { V0 | V1 | V1 }), &[0, 1, 1]),
        ("sizes::n7::L { V0 }", || token_set!(sizes::n7::L { V0 }), &[0]),
        ("sizes::n7::L { V6 | V0 | V1 }", || token_set!(sizes::n7::L { V6 | V0 | V1 }), &[6, 0, 1]),
    ];
}
impl Uses for sizes::n8::L {
    const ALL: Tokens<Self> = &[
        ("", || token_set!(), &[]),
        ("sizes::n8::L", || token_set!(sizes::n8::L), &[]),
        ("sizes::n8::L { V5 | V3 | V6 | V7 | V4 | V2 | V1 | V0 }", || token_set!(sizes::n8::L { V5 | V3 | V6 | V7 | V4 | V2 | V1 | V0 }), &[5, 3, 6, 7, 4, 2, 1, 0]),
        ("sizes::n8::L { V7 }", || token_set!(sizes::n8::L { V7 }), &[7]),
        ("sizes::n8::L { V0 }", || token_set!(sizes::n8::L { V0 }), &[0]),
        ("sizes::n8::L { V4 | V1 | V0 | V3 | V4 | V5 | V5 | V2 | V1 }", || token_set!(sizes::n8::L { V4 | V1 | V0 | V3 | V4 | V5 | V5 | V2 | V1 }), &[4, 1, 0, 3, 4, 5, 5, 2, 1]),
        ("sizes::n8::L { V7 }", || token_set!(sizes::n8::L { V7 }), &[7]),
        ("sizes::n8::L { V3 | V6 | V4 | V6 | V6 | V6 | V7 | V1 | V3 }", || token_set!(sizes::n8::L { V3 | V6 | V4 | V6 | V6 | V6 | V7 | V1 | V3 }), &[3, 6, 4, 6, 6, 6, 7, 1, 3]),
        ("sizes::n8::L { V1 | V7 | V1 }", || token_set!(sizes::n8::L { V1 | V7 | V1 }), &[1, 7, 1]),
        ("sizes::n8::L { V2 | V2 | V2 }", || token_set!(sizes::n8::L { V2 | V2 | V2 }), &[2, 2, 2]),
        ("sizes::n8::L { V3 | V5 | V4 }", || token_set!(sizes::n8::L { V3 | V5 | V4 }), &[3, 5, 4]),
        ("sizes::n8::L { V0 | V6 }", || token_set!(sizes::n8::L { V0 | V6 }), &[0, 6]),
    ];
}
impl Uses for sizes::n9::L {
    const ALL: Tokens<Self> = &[
        ("", || token_set!(), &[]),
        ("sizes::n9::L", || token_set!(sizes::n9::L), &[]),
        ("sizes::n9::L { V7 | V3 | V8 | V1 | V2 | V5 | V6 | V0 | V4 }", || token_set!(sizes::n9::L { V7 | V3 | V8 | V1 | V2 | V5 | V6 | V0 | V4 }), &[7, 3, 8, 1, 2, 5, 6, 0, 4]),
        ("sizes::n9::L { V8 }", || token_set!(sizes::n9::L { V8 }), &[8]),
        ("sizes::n9::L { V0 }", || token_set!(sizes::n9::L { V0 }), &[0]),
        ("sizes::n9::L { V0 | V0 | V0 | V3 | V0 }", || token_set!(sizes::n9::L { V0 | V0 | V0 | V3 | V0 }), &[0, 0, 0, 3, 0]),
        ("sizes::n9::L { V6 | V5 | V1 | V7 | V1 }", || token_set!(sizes::n9::L { V6 | V5 | V1 | V7 | V1 }), &[6, 5, 1, 7, 1]),
        ("sizes::n9::L { V0 }", || token_set!(sizes::n9::L { V0 }), &[0]),
        ("sizes::n9::L { V7 | V7 | V0 | V7 | V6 }", || token_set!(sizes::n9::L { V7 | V7 | V0 | V7 | V6 }), &[7, 7, 0, 7, 6]),
        ("sizes::n9::L { V8 | V7 | V4 | V3 | V5 }", || token_set!(sizes::n9::L { V8 | V7 | V4 | V3 | V5 }), &[8, 7, 4, 3, 5]),
        ("sizes::n9::L { V2 | V0 }", || token_set!(sizes::n9::L { V2 | V0 }), &[2, 0]),
        ("sizes::n9::L { V6 | V7 | V6 | V4 | V1 | V3 | V7 | V2 | V5 }", || token_set!(sizes::n9::L { V6 | V7 | V6 | V4 | V1 | V3 | V7 | V2 | V5 }), &[6, 7, 6, 4, 1, 3, 7, 2, 5]),
    ];
}
impl Uses for sizes::n15::L {
    const ALL: Tokens<Self> = &[
        ("", || token_set!(), &[]),
        ("sizes::n15::L", || token_set!(sizes::n15::L), &[]),
        ("sizes::n15::L { V8 | V11 | V10 | V13 | V9 | V12 | V6 | V0 | V1 | V7 | V2 | V3 | V5 | V14 | V4 }", || token_set!(sizes::n15::L { V8 | V11 | V10 | V13 | V9 | V12 | V6 | V0 | V1 | V7 | V2 | V3 | V5 | V14 | V4 }), &[8, 11, 10, 13, 9, 12, 6, 0, 1, 7, 2, 3, 5, 14, 4]),
        ("sizes::n15::L { V14 }", || token_set!(sizes::n15::L { V14 }), &[14]),
        ("sizes::n15::L { V0 }", || token_set!(sizes::n15::L { V0 }), &[0]),
        ("sizes::n15::L { V14 | V7 | V10 }", || token_set!(sizes::n15::L { V14 | V7 | V10 }), &[14, 7, 10]),
        ("sizes::n15::L { V7 | V12 }", || token_set!(sizes::n15::L { V7 | V12 }), &[7, 12]),
        ("sizes::n15::L { V11 | V14 }", || token_set!(sizes::n15::L { V11 | V14 }), &[11, 14]),
        ("sizes::n15::L { V5 | V11 | V5 | V13 | V11 | V8 | V9 | V6 | V6 }", || token_set!(sizes::n15::L { V5 | V11 | V5 | V13 | V11 | V8 | V9 | V6 | V6 }), &[5, 11, 5, 13, 11, 8, 9, 6, 6]),
        ("sizes::n15::L { V14 | V7 | V11 }", || token_set!(sizes::n15::L { V14 | V7 | V11 }), &[14, 7, 11]),
        ("sizes::n15::L { V4 | V6 | V7 }", || token_set!(sizes::n15::L { V4 | V6 | V7 }), &[4, 6, 7]),
        ("sizes::n15::L { V5 | V8 | V4 | V12 | V7 }", || token_set!(sizes::n15::L { V5 | V8 | V4 | V12 | V7 }), &[5, 8, 4, 12, 7]),
    ];
}
impl Uses for sizes::n16::L {
    const ALL: Tokens<Self> = &[
        ("", || token_set!(), &[]),
        ("sizes::n16::L", || token_set!(sizes::n16::L), &[]),
        ("sizes::n16::L { V13 | V4 | V12 | V0 | V11 | V1 | V2 | V3 | V14 | V9 | V5 | V6 | V15 | V7 | V10 | V8 }", || token_set!(sizes::n16::L { V13 | V4 | V12 | V0 | V11 | V1 | V2 | V3 | V14 | V9 | V5 | V6 | V15 | V7 | V10 | V8 }), &[13, 4, 12, 0, 11, 1, 2, 3, 14, 9, 5, 6, 15, 7, 10, 8]),
        ("sizes::n16::L { V15 }", || token_set!(sizes::n16::L { V15 }), &[15]),
        ("sizes::n16::L { V0 }", || token_set!(sizes::n16::L { V0 }), &[0]),
        ("sizes::n16::L { V8 | V5 }", || token_set!(sizes::n16::L { V8 | V5 }), &[8, 5]),
        ("sizes::n16::L { V3 | V8 }", || token_set!(sizes::n16::L { V3 | V8 }), &[3, 8]),
        ("sizes::n16::L { V8 }", || token_set!(sizes::n16::L { V8 }), &[8]),
        ("sizes::n16::L { V12 }", || token_set!(sizes::n16::L { V12 }), &[12]),
        ("sizes::n16::L { V13 | V15 | V6 }", || token_set!(sizes::n16::L { V13 | V15 | V6 }), &[13, 15, 6]),
        ("sizes::n16::L { V10 | V10 | V12 }", || token_set!(sizes::n16::L { V10 | V10 | V12 }), &[10, 10, 12]),
        ("sizes::n16::L { V7 | V2 | V6 | V13 | V4 }", || token_set!(sizes::n16::L { V7 | V2 | V6 | V13 | V4 }), &[7, 2, 6, 13, 4]),
    ];
}
impl Uses for sizes::n17::L {
    const ALL: Tokens<Self> = &[
        ("", || token_set!(), &[]),
        ("sizes::n17::L", || token_set!(sizes::n17::L), &[]),
        ("sizes::n17::L { V14 | V9 | V15 | V10 | V2 | V3 | V13 | V1 | V5 | V8 | V16 | V6 | V0 | V7 | V11 | V12 | V4 }", || token_set!(sizes::n17::L { V14 | V9 | V15 | V10 | V2 | V3 | V13 | V1 | V5 | V8 | V16 | V6 | V0 | V7 | V11 | V12 | V4 }), &[14, 9, 15, 10, 2, 3, 13, 1, 5, 8, 16, 6, 0, 7, 11, 12, 4]),
        ("sizes::n17::L { V16 }", || token_set!(sizes::n17::L { V16 }), &[16]),
        ("sizes::n17::L { V0 }", || token_set!(sizes::n17::L { V0 }), &[0]),
        ("sizes::n17::L { V14 | V4 | V10 | V6 | V0 }", || token_set!(sizes::n17::L { V14 | V4 | V10 | V6 | V0 }), &[14, 4, 10, 6, 0]),
        ("sizes::n17::L { V2 }", || token_set!(sizes::n17::L { V2 }), &[2]),
        ("sizes::n17::L { V11 | V1 | V13 | V3 | V6 }", || token_set!(sizes::n17::L { V11 | V1 | V13 | V3 | V6 }), &[11, 1, 13, 3, 6]),
        ("sizes::n17::L { V11 | V1 | V14 | V2 | V3 }", || token_set!(sizes::n17::L { V11 | V1 | V14 | V2 | V3 }), &[11, 1, 14, 2, 3]),
        ("sizes::n17::L { V8 | V0 | V0 | V1 | V12 | V16 | V9 | V7 | V2 }", || token_set!(sizes::n17::L { V8 | V0 | V0 | V1 | V12 | V16 | V9 | V7 | V2 }), &[8, 0, 0, 1, 12, 16, 9, 7, 2]),
        ("sizes::n17::L { V5 }", || token_set!(sizes::n17::L { V5 }), &[5]),
        ("sizes::n17::L { V1 }", || token_set!(sizes::n17::L { V1 }), &[1]),
    ];
}
impl Uses for sizes::n31::L {
    const ALL: Tokens<Self> = &[
        ("", || token_set!(), &[]),
        ("sizes::n31::L", || token_set!(sizes::n31::L), &[]),
        ("sizes::n31::L { V1 | V15 | V26 | V2 | V10 | V19 | V17 | V7 | V8 | V5 | V30 | V4 | V25 | V18 | V9 | V22 | V12 | V21 | V27 | V0 | V24 | V6 | V23 | V28 | V29 | V13 | V20 | V14 | V3 | V11 | V16 }", || token_set!(sizes::n31::L { V1 | V15 | V26 | V2 | V10 | V19 | V17 | V7 | V8 | V5 | V30 | V4 | V25 | V18 | V9 | V22 | V12 | V21 | V27 | V0 | V24 | V6 | V23 | V28 | V29 | V13 | V20 | V14 | V3 | V11 | V16 }), &[1, 15, 26, 2, 10, 19, 17, 7, 8, 5, 30, 4, 25, 18, 9, 22, 12, 21, 27, 0, 24, 6, 23, 28, 29, 13, 20, 14, 3, 11, 16]),
        ("sizes::n31::L { V30 }", || token_set!(sizes::n31::L { V30 }), &[30]),
        ("sizes::n31::L { V0 }", || token_set!(sizes::n31::L { V0 }), &[0]),
        ("sizes::n31::L { V12 | V12 | V27 | V7 | V9 }", || token_set!(sizes::n31::L { V12 | V12 | V27 | V7 | V9 }), &[12, 12, 27, 7, 9]),
        ("sizes::n31::L { V2 | V19 | V18 }", || token_set!(sizes::n31::L { V2 | V19 | V18 }), &[2, 19, 18]),
        ("sizes::n31::L { V13 }", || token_set!(sizes::n31::L { V13 }), &[13]),
        ("sizes::n31::L { V26 | V23 | V6 }", || token_set!(sizes::n31::L { V26 | V23 | V6 }), &[26, 23, 6]),
        ("sizes::n31::L { V26 | V10 | V6 | V27 | V2 }", || token_set!(sizes::n31::L { V26 | V10 | V6 | V27 | V2 }), &[26, 10, 6, 27, 2]),
        ("sizes::n31::L { V7 | V19 | V2 | V30 | V12 }", || token_set!(sizes::n31::L { V7 | V19 | V2 | V30 | V12 }), &[7, 19, 2, 30, 12]),
        ("sizes::n31::L { V12 | V11 | V0 }", || token_set!(sizes::n31::L { V12 | V11 | V0 }), &[12, 11, 0]),
    ];
}
impl Uses for sizes::n32::L {
    const ALL: Tokens<Self> = &[
        ("", || token_set!(), &[]),
        ("sizes::n32::L", || token_set!(sizes::n32::L), &[]),
        ("sizes::n32::L { V21 | V4 | V9 | V2 | V25 | V13 | V11 | V23 | V1 | V20 | V30 | V10 | V3 | V28 | V8 | V14 | V7 | V22 | V0 | V15 | V5 | V19 | V6 | V17 | V31 | V12 | V27 | V24 | V16 | V26 | V18 | V29 }", || token_set!(sizes::n32::L { V21 | V4 | V9 | V2 | V25 | V13 | V11 | V23 | V1 | V20 | V30 | V10 | V3 | V28 | V8 | V14 | V7 | V22 | V0 | V15 | V5 | V19 | V6 | V17 | V31 | V12 | V27 | V24 | V16 | V26 | V18 | V29 }), &[21, 4, 9, 2, 25, 13, 11, 23, 1, 20, 30, 10, 3, 28, 8, 14, 7, 22, 0, 15, 5, 19, 6, 17, 31, 12, 27, 24, 16, 26, 18, 29]),
        ("sizes::n32::L { V31 }", || token_set!(sizes::n32::L { V31 }), &[31]),
        ("sizes::n32::L { V0 }", || token_set!(sizes::n32::L { V0 }), &[0]),
        ("sizes::n32::L { V13 }", || token_set!(sizes::n32::L { V13 }), &[13]),
        ("sizes::n32::L { V6 | V17 | V28 | V22 | V29 | V21 | V17 | V15 | V15 }", || token_set!(sizes::n32::L { V6 | V17 | V28 | V22 | V29 | V21 | V17 | V15 | V15 }), &[6, 17, 28, 22, 29, 21, 17, 15, 15]),
        ("sizes::n32::L { V13 | V28 | V29 }", || token_set!(sizes::n32::L { V13 | V28 | V29 }), &[13, 28, 29]),
        ("sizes::n32::L { V1 | V12 | V23 | V10 | V0 }", || token_set!(sizes::n32::L { V1 | V12 | V23 | V10 | V0 }), &[1, 12, 23, 10, 0]),
        ("sizes::n32::L { V25 }", || token_set!(sizes::n32::L { V25 }), &[25]),
        ("sizes::n32::L { V16 | V5 | V7 | V1 | V31 | V25 | V23 | V0 | V16 }", || token_set!(sizes::n32::L { V16 | V5 | V7 | V1 | V31 | V25 | V23 | V0 | V16 }), &[16, 5, 7, 1, 31, 25, 23, 0, 16]),
        ("sizes::n32::L { V29 | V21 }", || token_set!(sizes::n32::L { V29 | V21 }), &[29, 21]),
    ];
}
impl Uses for sizes::n33::L {
    const ALL: Tokens<Self> = &[
        ("", || token_set!(), &[]),
        ("sizes::n33::L", || token_set!(sizes::n33::L), &[]),
        ("sizes::n33::L { V9 | V6 | V13 | V27 | V19 | V1 | V20 | V11 | V4 | V7 | V3 | V2 | V16 | V14 | V22 | V24 | V32 | V26 | V18 | V17 | V5 | V29 | V23 | V10 | V21 | V25 | V30 | V31 | V12 | V8 | V15 | V0 | V28 }", || token_set!(sizes::n33::L { V9 | V6 | V13 | V27 | V19 | V1 | V20 | V11 | V4 | V7 | V3 | V2 | V16 | V14 | V22 | V24 | V32 | V26 | V18 | V17 | V5 | V29 | V23 | V10 | V21 | V25 | V30 | V31 | V12 | V8 | V15 | V0 | V28 }), &[9, 6, 13, 27, 19, 1, 20, 11, 4, 7, 3, 2, 16, 14, 22, 24, 32, 26, 18, 17, 5, 29, 23, 10, 21, 25, 30, 31, 12, 8, 15, 0, 28]),
        ("sizes::n33::L { V32 }", || token_set!(sizes::n33::L { V32 }), &[32]),
        ("sizes::n33::L { V0 }", || token_set!(sizes::n33::L { V0 }), &[0]),
        ("sizes::n33::L { V11 }", || token_set!(sizes::n33::L { V11 }), &[11]),
        ("sizes::n33::L { V4 | V4 | V30 | V24 | V5 }", || token_set!(sizes::n33::L { V4 | V4 | V30 | V24 | V5 }), &[4, 4, 30, 24, 5]),
        ("sizes::n33::L { V1 | V3 | V17 }", || token_set!(sizes::n33::L { V1 | V3 | V17 }), &[1, 3, 17]),
        ("sizes::n33::L { V18 | V27 | V1 | V28 | V11 | V0 | V10 | V14 | V31 }", || token_set!(sizes::n33::L { V18 | V27 | V1 | V28 | V11 | V0 | V10 | V14 | V31 }), &[18, 27, 1, 28, 11, 0, 10, 14, 31]),
        ("sizes::n33::L { V18 | V31 }", || token_set!(sizes::n33::L { V18 | V31 }), &[18, 31]),
        ("sizes::n33::L { V32 | V16 | V14 | V1 | V32 }", || token_set!(sizes::n33::L { V32 | V16 | V14 | V1 | V32 }), &[32, 16, 14, 1, 32]),
        ("sizes::n33::L { V6 }", || token_set!(sizes::n33::L { V6 }), &[6]),
    ];
}
impl Uses for sizes::n48::L {
    const ALL: Tokens<Self> = &[
        ("", || token_set!(), &[]),
        ("sizes::n48::L", || token_set!(sizes::n48::L), &[]),
        ("sizes::n48::L { V5 | V40 | V13 | V45 | V14 | V39 | V8 | V36 | V4 | V6 | V31 | V20 | V44 | V42 | V18 | V35 | V28 | V30 | V10 | V22 | V9 | V1 | V16 | V32 | V17 | V43 | V2 | V24 | V19 | V0 | V38 | V27 | V47 | V41 | V23 | V15 | V12 | V25 | V37 | V34 | V29 | V3 | V26 | V7 | V11 | V21 | V33 | V46 }", || token_set!(sizes::n48::L { V5 | V40 | V13 | V45 | V14 | V39 | V8 | V36 | V4 | V6 | V31 | V20 | V44 | V42 | V18 | V35 | V28 | V30 | V10 | V22 | V9 | V1 | V16 | V32 | V17 | V43 | V2 | V24 | V19 | V0 | V38 | V27 | V47 | V41 | V23 | V15 | V12 | V25 | V37 | V34 | V29 | V3 | V26 | V7 | V11 | V21 | V33 | V46 }), &[5, 40, 13, 45, 14, 39, 8, 36, 4, 6, 31, 20, 44, 42, 18, 35, 28, 30, 10, 22, 9, 1, 16, 32, 17, 43, 2, 24, 19, 0, 38, 27, 47, 41, 23, 15, 12, 25, 37, 34, 29, 3, 26, 7, 11, 21, 33, 46]),
        ("sizes::n48::L { V47 }", || token_set!(sizes::n48::L { V47 }), &[47]),
        ("sizes::n48::L { V0 }", || token_set!(sizes::n48::L { V0 }), &[0]),
        ("sizes::n48::L { V4 | V10 | V13 | V17 | V40 | V19 | V32 | V11 | V4 }", || token_set!(sizes::n48::L { V4 | V10 | V13 | V17 | V40 | V19 | V32 | V11 | V4 }), &[4, 10, 13, 17, 40, 19, 32, 11, 4]),
        ("sizes::n48::L { V44 }", || token_set!(sizes::n48::L { V44 }), &[44]),
        ("sizes::n48::L { V47 | V10 }", || token_set!(sizes::n48::L { V47 | V10 }), &[47, 10]),
        ("sizes::n48::L { V44 }", || token_set!(sizes::n48::L { V44 }), &[44]),
        ("sizes::n48::L { V21 | V23 | V22 | V44 | V4 | V47 | V44 | V34 | V27 }", || token_set!(sizes::n48::L { V21 | V23 | V22 | V44 | V4 | V47 | V44 | V34 | V27 }), &[21, 23, 22, 44, 4, 47, 44, 34, 27]),
        ("sizes::n48::L { V38 }", || token_set!(sizes::n48::L { V38 }), &[38]),
        ("sizes::n48::L { V21 | V19 }", || token_set!(sizes::n48::L { V21 | V19 }), &[21, 19]),
    ];
}
impl Uses for sizes::n63::L {
    const ALL: Tokens<Self> = &[
        ("", || token_set!(), &[]),
        ("sizes::n63::L", || token_set!(sizes::n63::L), &[]),
        ("sizes::n63::L { V53 | V6 | V28 | V25 | V37 | V50 | V21 | V24 | V47 | V2 | V58 | V56 | V16 | V18 | V46 | V40 | V59 | V43 | V3 | V14 | V22 | V45 | V35 | V32 | V5 | V15 | V17 | V49 | V51 | V42 | V9 | V13 | V11 | V26 | V60 | V27 | V23 | V29 | V39 | V52 | V34 | V41 | V54 | V55 | V33 | V44 | V20 | V8 | V62 | V12 | V36 | V31 | V30 | V4 | V38 | V10 | V1 | V0 | V48 | V19 | V57 | V61 | V7 }", || token_set!(sizes::n63::L { V53 | V6 | V28 | V25 | V37 | V50 | V21 | V24 | V47 | V2 | V58 | V56 | V16 | V18 | V46 | V40 | V59 | V43 | V3 | V14 | V22 | V45 | V35 | V32 | V5 | V15 | V17 | V49 | V51 | V42 | V9 | V13 | V11 | V26 | V60 | V27 | V23 | V29 | V39 | V52 | V34 | V41 | V54 | V55 | V33 | V44 | V20 | V8 | V62 | V12 | V36 | V31 | V30 | V4 | V38 | V10 | V1 | V0 | V48 | V19 | V57 | V61 | V7 }), &[53, 6, 28, 25, 37, 50, 21, 24, 47, 2, 58, 56, 16, 18, 46, 40, 59, 43, 3, 14, 22, 45, 35, 32, 5, 15, 17, 49, 51, 42, 9, 13, 11, 26, 60, 27, 23, 29, 39, 52, 34, 41, 54, 55, 33, 44, 20, 8, 62, 12, 36, 31, 30, 4, 38, 10, 1, 0, 48, 19, 57, 61, 7]),
        ("sizes::n63::L { V62 }", || token_set!(sizes::n63::L { V62 }), &[62]),
        ("sizes::n63::L { V0 }", || token_set!(sizes::n63::L { V0 }), &[0]),
        ("sizes::n63::L { V47 | V23 | V15 | V44 | V51 | V5 | V60 | V16 | V7 }", || token_set!(sizes::n63::L { V47 | V23 | V15 | V44 | V51 | V5 | V60 | V16 | V7 }), &[47, 23, 15, 44, 51, 5, 60, 16, 7]),
        ("sizes::n63::L { V53 }", || token_set!(sizes::n63::L { V53 }), &[53]),
        ("sizes::n63::L { V61 | V22 | V22 | V13 | V56 }", || token_set!(sizes::n63::L { V61 | V22 | V22 | V13 | V56 }), &[61, 22, 22, 13, 56]),
        ("sizes::n63::L { V37 | V35 | V9 }", || token_set!(sizes::n63::L { V37 | V35 | V9 }), &[37, 35, 9]),
        ("sizes::n63::L { V19 | V39 | V44 | V8 | V60 }", || token_set!(sizes::n63::L { V19 | V39 | V44 | V8 | V60 }), &[19, 39, 44, 8, 60]),
        ("sizes::n63::L { V62 | V57 | V37 | V60 | V29 }", || token_set!(sizes::n63::L { V62 | V57 | V37 | V60 | V29 }), &[62, 57, 37, 60, 29]),
        ("sizes::n63::L { V49 | V26 | V53 | V44 | V11 | V10 | V23 | V19 | V25 }", || token_set!(sizes::n63::L { V49 | V26 | V53 | V44 | V11 | V10 | V23 | V19 | V25 }), &[49, 26, 53, 44, 11, 10, 23, 19, 25]),
    ];
}
impl Uses for sizes::n64::L {
    const ALL: Tokens<Self> = &[
        ("", || token_set!(), &[]),
        ("sizes::n64::L", || token_set!(sizes::n64::L), &[]),
        ("sizes::n64::L { V34 | V59 | V9 | V30 | V60 | V18 | V35 | V13 | V37 | V33 | V40 | V36 | V46 | V43 | V48 | V50 | V58 | V11 | V10 | V4 | V2 | V6 | V15 | V8 | V0 | V56 | V63 | V23 | V31 | V17 | V52 | V62 | V39 | V41 | V28 | V21 | V29 | V14 | V7 | V53 | V32 | V44 | V26 | V3 | V51 | V19 | V20 | V25 | V42 | V5 | V47 | V16 | V61 | V12 | V22 | V27 | V57 | V38 | V49 | V55 | V1 | V24 | V45 | V54 }", || token_set!(sizes::n64::L { V34 | V59 | V9 | V30 | V60 | V18 | V35 | V13 | V37 | V33 | V40 | V36 | V46 | V43 | V48 | V50 | V58 | V11 | V10 | V4 | V2 | V6 | V15 | V8 | V0 | V56 | V63 | V23 | V31 | V17 | V52 | V62 | V39 | V41 | V28 | V21 | V29 | V14 | V7 | V53 | V32 | V44 | V26 | V3 | V51 | V19 | V20 | V25 | V42 | V5 | V47 | V16 | V61 | V12 | V22 | V27 | V57 | V38 | V49 | V55 | V1 | V24 | V45 | V54 }), &[34, 59, 9, 30, 60, 18, 35, 13, 37, 33, 40, 36, 46, 43, 48, 50, 58, 11, 10, 4, 2, 6, 15, 8, 0, 56, 63, 23, 31, 17, 52, 62, 39, 41, 28, 21, 29, 14, 7, 53, 32, 44, 26, 3, 51, 19, 20, 25, 42, 5, 47, 16, 61, 12, 22, 27, 57, 38, 49, 55, 1, 24, 45, 54]),
        ("sizes::n64::L { V63 }", || token_set!(sizes::n64::L { V63 }), &[63]),
        ("sizes::n64::L { V0 }", || token_set!(sizes::n64::L { V0 }), &[0]),
        ("sizes::n64::L { V53 | V60 }", || token_set!(sizes::n64::L { V53 | V60 }), &[53, 60]),
        ("sizes::n64::L { V62 | V43 | V50 | V1 | V26 }", || token_set!(sizes::n64::L { V62 | V43 | V50 | V1 | V26 }), &[62, 43, 50, 1, 26]),
        ("sizes::n64::L { V61 | V59 | V36 | V40 | V2 }", || token_set!(sizes::n64::L { V61 | V59 | V36 | V40 | V2 }), &[61, 59, 36, 40, 2]),
        ("sizes::n64::L { V60 | V31 | V41 | V52 | V59 }", || token_set!(sizes::n64::L { V60 | V31 | V41 | V52 | V59 }), &[60, 31, 41, 52, 59]),
        ("sizes::n64::L { V53 | V15 }", || token_set!(sizes::n64::L { V53 | V15 }), &[53, 15]),
        ("sizes::n64::L { V38 }", || token_set!(sizes::n64::L { V38 }), &[38]),
        ("sizes::n64::L { V26 | V16 | V42 | V21 | V48 }", || token_set!(sizes::n64::L { V26 | V16 | V42 | V21 | V48 }), &[26, 16, 42, 21, 48]),
    ];
}
impl Uses for sizes::n65::L {
    const ALL: Tokens<Self> = &[
        ("", || token_set!(), &[]),
        ("sizes::n65::L", || token_set!(sizes::n65::L), &[]),
        ("sizes::n65::L { V11 | V31 | V26 | V46 | V32 | V19 | V42 | V9 | V43 | V55 | V37 | V28 | V4 | V24 | V38 | V51 | V27 | V7 | V16 | V13 | V30 | V25 | V21 | V18 | V63 | V57 | V3 | V59 | V50 | V23 | V61 | V44 | V49 | V6 | V1 | V45 | V33 | V29 | V56 | V17 | V14 | V48 | V8 | V52 | V64 | V60 | V35 | V12 | V22 | V53 | V58 | V2 | V62 | V40 | V15 | V5 | V41 | V20 | V54 | V10 | V36 | V39 | V47 | V34 | V0 }", || token_set!(sizes::n65::L { V11 | V31 | V26 | V46 | V32 | V19 | V42 | V9 | V43 | V55 | V37 | V28 | V4 | V24 | V38 | V51 | V27 | V7 | V16 | V13 | V30 | V25 | V21 | V18 | V63 | V57 | V3 | V59 | V50 | V23 | V61 | V44 | V49 | V6 | V1 | V45 | V33 | V29 | V56 | V17 | V14 | V48 | V8 | V52 | V64 | V60 | V35 | V12 | V22 | V53 | V58 | V2 | V62 | V40 | V15 | V5 | V41 | V20 | V54 | V10 | V36 | V39 | V47 | V34 | V0 }), &[11, 31, 26, 46, 32, 19, 42, 9, 43, 55, 37, 28, 4, 24, 38, 51, 27, 7, 16, 13, 30, 25, 21, 18, 63, 57, 3, 59, 50, 23, 61, 44, 49, 6, 1, 45, 33, 29, 56, 17, 14, 48, 8, 52, 64, 60, 35, 12, 22, 53, 58, 2, 62, 40, 15, 5, 41, 20, 54, 10, 36, 39, 47, 34, 0]),
        ("sizes::n65::L { V64 }", || token_set!(sizes::n65::L { V64 }), &[64]),
        ("sizes::n65::L { V0 }", || token_set!(sizes::n65::L { V0 }), &[0]),
        ("sizes::n65::L { V33 }", || token_set!(sizes::n65::L { V33 }), &[33]),
        ("sizes::n65::L { V56 }", || token_set!(sizes::n65::L { V56 }), &[56]),
        ("sizes::n65::L { V2 | V34 | V31 }", || token_set!(sizes::n65::L { V2 | V34 | V31 }), &[2, 34, 31]),
        ("sizes::n65::L { V3 | V40 | V21 | V24 | V0 | V57 | V30 | V12 | V10 }", || token_set!(sizes::n65::L { V3 | V40 | V21 | V24 | V0 | V57 | V30 | V12 | V10 }), &[3, 40, 21, 24, 0, 57, 30, 12, 10]),
        ("sizes::n65::L { V10 | V8 | V31 | V34 | V11 | V21 | V48 | V15 | V45 }", || token_set!(sizes::n65::L { V10 | V8 | V31 | V34 | V11 | V21 | V48 | V15 | V45 }), &[10, 8, 31, 34, 11, 21, 48, 15, 45]),
        ("sizes::n65::L { V57 | V42 | V0 | V12 | V51 }", || token_set!(sizes::n65::L { V57 | V42 | V0 | V12 | V51 }), &[57, 42, 0, 12, 51]),
        ("sizes::n65::L { V49 }", || token_set!(sizes::n65::L { V49 }), &[49]),
    ];
}
impl Uses for sizes::n96::L {
    const ALL: Tokens<Self> = &[
        ("", || token_set!(), &[]),
        ("sizes::n96::L", || token_set!(sizes::n96::L), &[]),
        ("sizes::n96::L { V0 | V90 | V41 | V18 | V17 | V14 | V50 | V7 | V79 | V89 | V53 | V2 | V94 | V43 | V91 | V49 | V78 | V12 | V28 | V1 | V75 | V32 | V45 | V13 | V4 | V16 | V81 | V22 | V30 | V59 | V57 | V52 | V39 | V87 | V31 | V21 | V24 | V86 | V5 | V55 | V66 | V61 | V15 | V71 | V72 | V8 | V82 | V11 | V88 | V56 | V20 | V46 | V83 | V64 | V44 | V84 | V63 | V33 | V93 | V65 | V70 | V48 | V34 | V40 | V29 | V80 | V25 | V27 | V6 | V73 | V74 | V10 | V3 | V19 | V37 | V26 | V54 | V60 | V9 | V38 | V85 | V92 | V51 | V47 | V68 | V67 | V58 | V35 | V77 | V36 | V69 | V62 | V23 | V76 | V95 | V42 }", || token_set!(sizes::n96::L { V0 | V90 | V41 | V18 | V17 | V14 | V50 | V7 | V79 | V89 | V53 | V2 | V94 | V43 | V91 | V49 | V78 | V12 | V28 | V1 | V75 | V32 | V45 | V13 | V4 | V16 | V81 | V22 | V30 | V59 | V57 | V52 | V39 | V87 | V31 | V21 | V24 | V86 | V5 | V55 | V66 | V61 | V15 | V71 | V72 | V8 | V82 | V11 | V88 | V56 | V20 | V46 | V83 | V64 | V44 | V84 | V63 | V33 | V93 | V65 | V70 | V48 | V34 | V40 | V29 | V80 | V25 | V27 | V6 | V73 | V74 | V10 | V3 | V19 | V37 | V26 | V54 | V60 | V9 | V38 | V85 | V92 | V51 | V47 | V68 | V67 | V58 | V35 | V77 | V36 | V69 | V62 | V23 | V76 | V95 | V42 }), &[0, 90, 41, 18, 17, 14, 50, 7, 79, 89, 53, 2, 94, 43, 91, 49, 78, 12, 28, 1, 75, 32, 45, 13, 4, 16, 81, 22, 30, 59, 57, 52, 39, 87, 31, 21, 24, 86, 5, 55, 66, 61, 15, 71, 72, 8, 82, 11, 88, 56, 20, 46, 83, 64, 44, 84, 63, 33, 93, 65, 70, 48, 34, 40, 29, 80, 25, 27, 6, 73, 74, 10, 3, 19, 37, 26, 54, 60, 9, 38, 85, 92, 51, 47, 68, 67, 58, 35, 77, 36, 69, 62, 23, 76, 95, 42]),
        ("sizes::n96::L { V95 }", || token_set!(sizes::n96::L { V95 }), &[95]),
        ("sizes::n96::L { V0 }", || token_set!(sizes::n96::L { V0 }), &[0]),
        ("sizes::n96::L { V45 | V87 }", || token_set!(sizes::n96::L { V45 | V87 }), &[45, 87]),
        ("sizes::n96::L { V59 | V79 | V29 | V76 | V69 }", || token_set!(sizes::n96::L { V59 | V79 | V29 | V76 | V69 }), &[59, 79, 29, 76, 69]),
        ("sizes::n96::L { V76 | V52 | V29 | V62 | V68 }", || token_set!(sizes::n96::L { V76 | V52 | V29 | V62 | V68 }), &[76, 52, 29, 62, 68]),
        ("sizes::n96::L { V50 | V86 | V14 | V93 | V23 | V75 | V78 | V20 | V53 }", || token_set!(sizes::n96::L { V50 | V86 | V14 | V93 | V23 | V75 | V78 | V20 | V53 }), &[50, 86, 14, 93, 23, 75, 78, 20, 53]),
        ("sizes::n96::L { V67 | V94 | V11 | V45 | V76 }", || token_set!(sizes::n96::L { V67 | V94 | V11 | V45 | V76 }), &[67, 94, 11, 45, 76]),
        ("sizes::n96::L { V93 | V8 | V38 }", || token_set!(sizes::n96::L { V93 | V8 | V38 }), &[93, 8, 38]),
        ("sizes::n96::L { V1 | V19 }", || token_set!(sizes::n96::L { V1 | V19 }), &[1, 19]),
    ];
}
impl Uses for sizes::n127::L {
    const ALL: Tokens<Self> = &[
        ("", || token_set!(), &[]),
        ("sizes::n127::L", || token_set!(sizes::n127::L), &[]),
        ("sizes::n127::L { V70 | V107 | V10 | V13 | V90 | V119 | V73 | V68 | V40 | V115 | V62 | V66 | V19 | V79 | V108 | V54 | V60 | V77 | V27 | V18 | V111 | V31 | V32 | V58 | V82 | V52 | V110 | V2 | V50 | V9 | V5 | V22 | V121 | V97 | V51 | V49 | V126 | V101 | V92 | V112 | V123 | V26 | V86 | V84 | V96 | V65 | V33 | V88 | V47 | V74 | V116 | V98 | V24 | V11 | V94 | V23 | V117 | V16 | V76 | V124 | V71 | V114 | V45 | V95 | V118 | V3 | V21 | V59 | V125 | V30 | V55 | V61 | V41 | V17 | V103 | V99 | V36 | V67 | V7 | V25 | V57 | V28 | V69 | V56 | V37 | V91 | V6 | V20 | V0 | V46 | V72 | V105 | V89 | V12 | V109 | V104 | V83 | V93 | V29 | V38 | V122 | V4 | V85 | V42 | V8 | V35 | V39 | V106 | V81 | V102 | V120 | V53 | V44 | V78 | V34 | V64 | V14 | V100 | V43 | V48 | V75 | V80 | V1 | V87 | V15 | V63 | V113 }", || token_set!(sizes::n127::L { V70 | V107 | V10 | V13 | V90 | V119 | V73 | V68 | V40 | V115 | V62 | V66 | V19 | V79 | V108 | V54 | V60 | V77 | V27 | V18 | V111 | V31 | V32 | V58 | V82 | V52 | V110 | V2 | V50 | V9 | V5 | V22 | V121 | V97 | V51 | V49 | V126 | V101 | V92 | V112 | V123 | V26 | V86 | V84 | V96 | V65 | V33 | V88 | V47 | V74 | V116 | V98 | V24 | V11 | V94 | V23 | V117 | V16 | V76 | V124 | V71 | V114 | V45 | V95 | V118 | V3 | V21 | V59 | V125 | V30 | V55 | V61 | V41 | V17 | V103 | V99 | V36 | V67 | V7 | V25 | V57 | V28 | V69 | V56 | V37 | V91 | V6 | V20 | V0 | V46 | V72 | V105 | V89 | V12 | V109 | V104 | V83 | V93 | V29 | V38 | V122 | V4 | V85 | V42 | V8 | V35 | V39 | V106 | V81 | V102 | V120 | V53 | V44 | V78 | V34 | V64 | V14 | V100 | V43 | V48 | V75 | V80 | V1 | V87 | V15 | V63 | V113 }), &[70, 107, 10, 13, 90, 119, 73, 68, 40, 115, 62, 66, 19, 79, 108, 54, 60, 77, 27, 18, 111, 31, 32, 58, 82, 52, 110, 2, 50, 9, 5, 22, 121, 97, 51, 49, 126, 101, 92, 112, 123, 26, 86, 84, 96, 65, 33, 88, 47, 74, 116, 98, 24, 11, 94, 23, 117, 16, 76, 124, 71, 114, 45, 95, 118, 3, 21, 59, 125, 30, 55, 61, 41, 17, 103, 99, 36, 67, 7, 25, 57, 28, 69, 56, 37, 91, 6, 20, 0, 46, 72, 105, 89, 12, 109, 104, 83, 93, 29, 38, 122, 4, 85, 42, 8, 35, 39, 106, 81, 102, 120, 53, 44, 78, 34, 64, 14, 100, 43, 48, 75, 80, 1, 87, 15, 63, 113]),
        ("sizes::n127::L { V126 }", || token_set!(sizes::n127::L { V126 }), &[126]),
        ("sizes::n127::L { V0 }", || token_set!(sizes::n127::L { V0 }), &[0]),
        ("sizes::n127::L { V102 | V116 | V11 }", || token_set!(sizes::n127::L { V102 | V116 | V11 }), &[102, 116, 11]),
        ("sizes::n127::L { V112 }", || token_set!(sizes::n127::L { V112 }), &[112]),
        ("sizes::n127::L { V15 | V37 | V103 | V32 | V57 | V21 | V32 | V124 | V81 }", || token_set!(sizes::n127::L { V15 | V37 | V103 | V32 | V57 | V21 | V32 | V124 | V81 }), &[15, 37, 103, 32, 57, 21, 32, 124, 81]),
        ("sizes::n127::L { V39 }", || token_set!(sizes::n127::L { V39 }), &[39]),
        ("sizes::n127::L { V69 | V49 }", || token_set!(sizes::n127::L { V69 | V49 }), &[69, 49]),
        ("sizes::n127::L { V112 }", || token_set!(sizes::n127::L { V112 }), &[112]),
        ("sizes::n127::L { V112 | V10 }", || token_set!(sizes::n127::L { V112 | V10 }), &[112, 10]),
    ];
}
impl Uses for sizes::n128::L {
    const ALL: Tokens<Self> = &[
        ("", || token_set!(), &[]),
        ("sizes::n128::L", || token_set!(sizes::n128::L), &[]),
        ("sizes::n128::L { V7 | V0 | V78 | V79 | V40 | V66 | V22 | V41 | V34 | V89 | V97 | V36 | V103 | V14 | V67 | V69 | V23 | V83 | V4 | V75 | V13 | V120 | V104 | V82 | V74 | V39 | V92 | V45 | V87 | V35 | V122 | V53 | V76 | V123 | V111 | V127 | V72 | V114 | V43 | V77 | V51 | V48 | V95 | V94 | V102 | V100 | V16 | V85 | V31 | V96 | V42 | V25 | V52 | V10 | V54 | V113 | V115 | V119 | V105 | V118 | V109 | V21 | V30 | V1 | V28 | V11 | V18 | V46 | V88 | V12 | V93 | V26 | V50 | V47 | V3 | V73 | V6 | V60 | V63 | V84 | V32 | V108 | V61 | V99 | V80 | V65 | V24 | V110 | V49 | V91 | V116 | V17 | V68 | V8 | V98 | V44 | V37 | V38 | V55 | V64 | V124 | V107 | V117 | V56 | V58 | V70 | V9 | V29 | V27 | V90 | V121 | V59 | V71 | V57 | V106 | V33 | V86 | V62 | V19 | V5 | V101 | V2 | V126 | V81 | V20 | V15 | V125 | V112 }", || token_set!(sizes::n128::L { V7 | V0 | V78 | V79 | V40 | V66 | V22 | V41 | V34 | V89 | V97 | V36 | V103 | V14 | V67 | V69 | V23 | V83 | V4 | V75 | V13 | V120 | V104 | V82 | V74 | V39 | V92 | V45 | V87 | V35 | V122 | V53 | V76 | V123 | V111 | V127 | V72 | V114 | V43 | V77 | V51 | V48 | V95 | V94 | V102 | V100 | V16 | V85 | V31 | V96 | V42 | V25 | V52 | V10 | V54 | V113 | V115 | V119 | V105 | V118 | V109 | V21 | V30 | V1 | V28 | V11 | V18 | V46 | V88 | V12 | V93 | V26 | V50 | V47 | V3 | V73 | V6 | V60 | V63 | V84 | V32 | V108 | V61 | V99 | V80 | V65 | V24 | V110 | V49 | V91 | V116 | V17 | V68 | V8 | V98 | V44 | V37 | V38 | V55 | V64 | V124 | V107 | V117 | V56 | V58 | V70 | V9 | V29 | V27 | V90 | V121 | V59 | V71 | V57 | V106 | V33 | V86 | V62 | V19 | V5 | V101 | V2 | V126 | V81 | V20 | V15 | V125 | V112 }), &[7, 0, 78, 79, 40, 66, 22, 41, 34, 89, 97, 36, 103, 14, 67, 69, 23, 83, 4, 75, 13, 120, 104, 82, 74, 39, 92, 45, 87, 35, 122, 53, 76, 123, 111, 127, 72, 114, 43, 77, 51, 48, 95, 94, 102, 100, 16, 85, 31, 96, 42, 25, 52, 10, 54, 113, 115, 119, 105, 118, 109, 21, 30, 1, 28, 11, 18, 46, 88, 12, 93, 26, 50, 47, 3, 73, 6, 60, 63, 84, 32, 108, 61, 99, 80, 65, 24, 110, 49, 91, 116, 17, 68, 8, 98, 44, 37, 38, 55, 64, 124, 107, 117, 56, 58, 70, 9, 29, 27, 90, 121, 59, 71, 57, 106, 33, 86, 62, 19, 5, 101, 2, 126, 81, 20, 15, 125, 112]),
        ("sizes::n128::L { V127 }", || token_set!(sizes::n128::L { V127 }), &[127]),
        ("sizes::n128::L { V0 }", || token_set!(sizes::n128::L { V0 }), &[0]),
        ("sizes::n128::L { V108 | V63 }", || token_set!(sizes::n128::L { V108 | V63 }), &[108, 63]),
        ("sizes::n128::L { V7 | V40 }", || token_set!(sizes::n128::L { V7 | V40 }), &[7, 40]),
        ("sizes::n128::L { V7 | V57 | V112 | V93 | V72 | V86 | V102 | V99 | V65 }", || token_set!(sizes::n128::L { V7 | V57 | V112 | V93 | V72 | V86 | V102 | V99 | V65 }), &[7, 57, 112, 93, 72, 86, 102, 99, 65]),
        ("sizes::n128::L { V41 | V107 | V18 | V8 | V33 | V118 | V58 | V119 | V66 }", || token_set!(sizes::n128::L { V41 | V107 | V18 | V8 | V33 | V118 | V58 | V119 | V66 }), &[41, 107, 18, 8, 33, 118, 58, 119, 66]),
        ("sizes::n128::L { V72 | V113 }", || token_set!(sizes::n128::L { V72 | V113 }), &[72, 113]),
        ("sizes::n128::L { V30 | V86 | V87 | V78 | V51 | V10 | V92 | V44 | V123 }", || token_set!(sizes::n128::L { V30 | V86 | V87 | V78 | V51 | V10 | V92 | V44 | V123 }), &[30, 86, 87, 78, 51, 10, 92, 44, 123]),
        ("sizes::n128::L { V34 | V68 | V29 | V107 | V104 }", || token_set!(sizes::n128::L { V34 | V68 | V29 | V107 | V104 }), &[34, 68, 29, 107, 104]),
    ];
}
