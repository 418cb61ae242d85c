//! The unrepaired findings of C10 (KNOWN_FINDINGS.txt): exactly these inputs.
use crate::rt::lex_with;
mod keyword {
    use teleparse::prelude::*;
    #[derive_lexicon]
    pub enum L {
        #[teleparse(terminal(If = "if"))]
        Keyword,
        #[teleparse(regex(r"[a-zA-Z]\w*"), terminal(Ident))]
        Word,
    }
}
mod fork {
    use teleparse::prelude::*;
    #[derive_lexicon]
    pub enum L {
        #[teleparse(terminal(Dot = ".", Range = "..=", Rest = "..."))]
        Op,
    }
}
mod looped {
    use teleparse::prelude::*;
    #[derive_lexicon]
    pub enum L {
        #[teleparse(regex("(?:ab|c)+"), terminal(Run))]
        Run,
    }
}
fn show(v: crate::rt::Lexed) -> String {
    v.iter().map(|x| format!("{:?} {:?};", x.0, x.1)).collect()
}
/// (key, what the lexer gives, what it should give)
pub fn run() -> Vec<(&'static str, String, String)> {
    let end = (None, None);
    vec![
        (
            "keyword-multibyte",
            show(lex_with::<keyword::L>("if😀")),
            show(vec![(None, Some((0, 0, 2))), (Some((2, 6)), None), end, end]),
        ),
        (
            "literal-fork",
            show(lex_with::<fork::L>("..")),
            show(vec![(None, Some((0, 0, 1))), (None, Some((0, 1, 2))), end, end, end]),
        ),
        (
            "loop-fork",
            show(lex_with::<looped::L>("aba")),
            show(vec![(None, Some((0, 0, 2))), (Some((2, 3)), None), end, end]),
        ),
    ]
}
