//! token types for the table-level suites
use teleparse::prelude::*;

/// small lexicon (8-bit sets)
#[derive_lexicon]
pub enum L6 {
    Alpha,
    Beta,
    Gamma,
    Delta,
    Eps,
    Zeta,
}

/// larger lexicon (64-bit sets)
#[derive_lexicon]
pub enum L40 {
    V00, V01, V02, V03, V04, V05, V06, V07, V08, V09,
    V10, V11, V12, V13, V14, V15, V16, V17, V18, V19,
    V20, V21, V22, V23, V24, V25, V26, V27, V28, V29,
    V30, V31, V32, V33, V34, V35, V36, V37, V38, V39,
}

#[derive_lexicon]
pub enum Ser6 {
    Alpha,
    Beta,
    Gamma,
    Delta,
    Eps,
    Zeta,
}
#[derive_lexicon]
pub enum Ser20 {
    V00, V01, V02, V03, V04, V05, V06, V07, V08, V09,
    V10, V11, V12, V13, V14, V15, V16, V17, V18, V19,
}
macro_rules! ser { ($($t:ident)*) => { $(impl serde::Serialize for $t {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{self:?}"))
    }
})* } }
ser!(Ser6 Ser20);

/// many literals
pub fn bulk() -> &'static [&'static str] {
    static B: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    B.get_or_init(|| {
        (0..150)
            .map(|i| -> &'static str {
                let x = match i % 4 {
                    0 => format!("k{i}"),
                    1 => format!("{i}é"),
                    2 => format!("{}\"\\{i}", "w".repeat(i)),
                    _ => format!("K{i}\n"),
                };
                Box::leak(x.into_boxed_str())
            })
            .collect()
    })
}
