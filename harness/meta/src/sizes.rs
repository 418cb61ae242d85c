// generated by tools/gen_sizes.py
use teleparse::prelude::*;

/// what a variant declares
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K { Semantic, Regex, RegexTerm, Lit, TwoLits }

pub mod n1 { use super::*;
#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum L {
    #[teleparse(regex("q0_[0-9]+"))] V0,
}
pub const KINDS: [K; 1] = [K::Regex];
pub const ALL: [L; 1] = [L::V0];
}
pub mod n2 { use super::*;
#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum L {
    #[teleparse(regex("r0_[0-9]+"), terminal(R0))] V0,
    #[teleparse(terminal(B1 = "b1;", C1 = "é1;"))] V1,
}
pub const KINDS: [K; 2] = [K::RegexTerm, K::TwoLits];
pub const ALL: [L; 2] = [L::V0, L::V1];
}
pub mod n7 { use super::*;
#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum L {
    #[teleparse(regex("r0_[0-9]+"), terminal(R0))] V0,
    #[teleparse(terminal(B1 = "b1;", C1 = "é1;"))] V1,
    #[teleparse(regex("q2_[0-9]+"))] V2,
    #[teleparse(terminal(A3 = "a3;"))] V3,
    V4,
    #[teleparse(regex("r5_[0-9]+"), terminal(R5))] V5,
    #[teleparse(terminal(B6 = "b6;", C6 = "é6;"))] V6,
}
pub const KINDS: [K; 7] = [K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits];
pub const ALL: [L; 7] = [L::V0, L::V1, L::V2, L::V3, L::V4, L::V5, L::V6];
}
pub mod n8 { use super::*;
#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum L {
    #[teleparse(terminal(A0 = "a0;"))] V0,
    V1,
    #[teleparse(regex("r2_[0-9]+"), terminal(R2))] V2,
    #[teleparse(terminal(B3 = "b3;", C3 = "é3;"))] V3,
    #[teleparse(regex("q4_[0-9]+"))] V4,
    #[teleparse(terminal(A5 = "a5;"))] V5,
    V6,
    #[teleparse(regex("r7_[0-9]+"), terminal(R7))] V7,
}
pub const KINDS: [K; 8] = [K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm];
pub const ALL: [L; 8] = [L::V0, L::V1, L::V2, L::V3, L::V4, L::V5, L::V6, L::V7];
}
pub mod n9 { use super::*;
#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum L {
    #[teleparse(terminal(B0 = "b0;", C0 = "é0;"))] V0,
    #[teleparse(regex("q1_[0-9]+"))] V1,
    #[teleparse(terminal(A2 = "a2;"))] V2,
    V3,
    #[teleparse(regex("r4_[0-9]+"), terminal(R4))] V4,
    #[teleparse(terminal(B5 = "b5;", C5 = "é5;"))] V5,
    #[teleparse(regex("q6_[0-9]+"))] V6,
    #[teleparse(terminal(A7 = "a7;"))] V7,
    V8,
}
pub const KINDS: [K; 9] = [K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic];
pub const ALL: [L; 9] = [L::V0, L::V1, L::V2, L::V3, L::V4, L::V5, L::V6, L::V7, L::V8];
}
pub mod n15 { use super::*;
#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum L {
    V0,
    #[teleparse(regex("r1_[0-9]+"), terminal(R1))] V1,
    #[teleparse(terminal(B2 = "b2;", C2 = "é2;"))] V2,
    #[teleparse(regex("q3_[0-9]+"))] V3,
    #[teleparse(terminal(A4 = "a4;"))] V4,
    V5,
    #[teleparse(regex("r6_[0-9]+"), terminal(R6))] V6,
    #[teleparse(terminal(B7 = "b7;", C7 = "é7;"))] V7,
    #[teleparse(regex("q8_[0-9]+"))] V8,
    #[teleparse(terminal(A9 = "a9;"))] V9,
    V10,
    #[teleparse(regex("r11_[0-9]+"), terminal(R11))] V11,
    #[teleparse(terminal(B12 = "b12;", C12 = "é12;"))] V12,
    #[teleparse(regex("q13_[0-9]+"))] V13,
    #[teleparse(terminal(A14 = "a14;"))] V14,
}
pub const KINDS: [K; 15] = [K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit];
pub const ALL: [L; 15] = [L::V0, L::V1, L::V2, L::V3, L::V4, L::V5, L::V6, L::V7, L::V8, L::V9, L::V10, L::V11, L::V12, L::V13, L::V14];
}
pub mod n16 { use super::*;
#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum L {
    #[teleparse(regex("q0_[0-9]+"))] V0,
    #[teleparse(terminal(A1 = "a1;"))] V1,
    V2,
    #[teleparse(regex("r3_[0-9]+"), terminal(R3))] V3,
    #[teleparse(terminal(B4 = "b4;", C4 = "é4;"))] V4,
    #[teleparse(regex("q5_[0-9]+"))] V5,
    #[teleparse(terminal(A6 = "a6;"))] V6,
    V7,
    #[teleparse(regex("r8_[0-9]+"), terminal(R8))] V8,
    #[teleparse(terminal(B9 = "b9;", C9 = "é9;"))] V9,
    #[teleparse(regex("q10_[0-9]+"))] V10,
    #[teleparse(terminal(A11 = "a11;"))] V11,
    V12,
    #[teleparse(regex("r13_[0-9]+"), terminal(R13))] V13,
    #[teleparse(terminal(B14 = "b14;", C14 = "é14;"))] V14,
    #[teleparse(regex("q15_[0-9]+"))] V15,
}
pub const KINDS: [K; 16] = [K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex];
pub const ALL: [L; 16] = [L::V0, L::V1, L::V2, L::V3, L::V4, L::V5, L::V6, L::V7, L::V8, L::V9, L::V10, L::V11, L::V12, L::V13, L::V14, L::V15];
}
pub mod n17 { use super::*;
#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum L {
    #[teleparse(regex("r0_[0-9]+"), terminal(R0))] V0,
    #[teleparse(terminal(B1 = "b1;", C1 = "é1;"))] V1,
    #[teleparse(regex("q2_[0-9]+"))] V2,
    #[teleparse(terminal(A3 = "a3;"))] V3,
    V4,
    #[teleparse(regex("r5_[0-9]+"), terminal(R5))] V5,
    #[teleparse(terminal(B6 = "b6;", C6 = "é6;"))] V6,
    #[teleparse(regex("q7_[0-9]+"))] V7,
    #[teleparse(terminal(A8 = "a8;"))] V8,
    V9,
    #[teleparse(regex("r10_[0-9]+"), terminal(R10))] V10,
    #[teleparse(terminal(B11 = "b11;", C11 = "é11;"))] V11,
    #[teleparse(regex("q12_[0-9]+"))] V12,
    #[teleparse(terminal(A13 = "a13;"))] V13,
    V14,
    #[teleparse(regex("r15_[0-9]+"), terminal(R15))] V15,
    #[teleparse(terminal(B16 = "b16;", C16 = "é16;"))] V16,
}
pub const KINDS: [K; 17] = [K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits];
pub const ALL: [L; 17] = [L::V0, L::V1, L::V2, L::V3, L::V4, L::V5, L::V6, L::V7, L::V8, L::V9, L::V10, L::V11, L::V12, L::V13, L::V14, L::V15, L::V16];
}
pub mod n31 { use super::*;
#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum L {
    #[teleparse(regex("q0_[0-9]+"))] V0,
    #[teleparse(terminal(A1 = "a1;"))] V1,
    V2,
    #[teleparse(regex("r3_[0-9]+"), terminal(R3))] V3,
    #[teleparse(terminal(B4 = "b4;", C4 = "é4;"))] V4,
    #[teleparse(regex("q5_[0-9]+"))] V5,
    #[teleparse(terminal(A6 = "a6;"))] V6,
    V7,
    #[teleparse(regex("r8_[0-9]+"), terminal(R8))] V8,
    #[teleparse(terminal(B9 = "b9;", C9 = "é9;"))] V9,
    #[teleparse(regex("q10_[0-9]+"))] V10,
    #[teleparse(terminal(A11 = "a11;"))] V11,
    V12,
    #[teleparse(regex("r13_[0-9]+"), terminal(R13))] V13,
    #[teleparse(terminal(B14 = "b14;", C14 = "é14;"))] V14,
    #[teleparse(regex("q15_[0-9]+"))] V15,
    #[teleparse(terminal(A16 = "a16;"))] V16,
    V17,
    #[teleparse(regex("r18_[0-9]+"), terminal(R18))] V18,
    #[teleparse(terminal(B19 = "b19;", C19 = "é19;"))] V19,
    #[teleparse(regex("q20_[0-9]+"))] V20,
    #[teleparse(terminal(A21 = "a21;"))] V21,
    V22,
    #[teleparse(regex("r23_[0-9]+"), terminal(R23))] V23,
    #[teleparse(terminal(B24 = "b24;", C24 = "é24;"))] V24,
    #[teleparse(regex("q25_[0-9]+"))] V25,
    #[teleparse(terminal(A26 = "a26;"))] V26,
    V27,
    #[teleparse(regex("r28_[0-9]+"), terminal(R28))] V28,
    #[teleparse(terminal(B29 = "b29;", C29 = "é29;"))] V29,
    #[teleparse(regex("q30_[0-9]+"))] V30,
}
pub const KINDS: [K; 31] = [K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex];
pub const ALL: [L; 31] = [L::V0, L::V1, L::V2, L::V3, L::V4, L::V5, L::V6, L::V7, L::V8, L::V9, L::V10, L::V11, L::V12, L::V13, L::V14, L::V15, L::V16, L::V17, L::V18, L::V19, L::V20, L::V21, L::V22, L::V23, L::V24, L::V25, L::V26, L::V27, L::V28, L::V29, L::V30];
}
pub mod n32 { use super::*;
#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum L {
    #[teleparse(regex("r0_[0-9]+"), terminal(R0))] V0,
    #[teleparse(terminal(B1 = "b1;", C1 = "é1;"))] V1,
    #[teleparse(regex("q2_[0-9]+"))] V2,
    #[teleparse(terminal(A3 = "a3;"))] V3,
    V4,
    #[teleparse(regex("r5_[0-9]+"), terminal(R5))] V5,
    #[teleparse(terminal(B6 = "b6;", C6 = "é6;"))] V6,
    #[teleparse(regex("q7_[0-9]+"))] V7,
    #[teleparse(terminal(A8 = "a8;"))] V8,
    V9,
    #[teleparse(regex("r10_[0-9]+"), terminal(R10))] V10,
    #[teleparse(terminal(B11 = "b11;", C11 = "é11;"))] V11,
    #[teleparse(regex("q12_[0-9]+"))] V12,
    #[teleparse(terminal(A13 = "a13;"))] V13,
    V14,
    #[teleparse(regex("r15_[0-9]+"), terminal(R15))] V15,
    #[teleparse(terminal(B16 = "b16;", C16 = "é16;"))] V16,
    #[teleparse(regex("q17_[0-9]+"))] V17,
    #[teleparse(terminal(A18 = "a18;"))] V18,
    V19,
    #[teleparse(regex("r20_[0-9]+"), terminal(R20))] V20,
    #[teleparse(terminal(B21 = "b21;", C21 = "é21;"))] V21,
    #[teleparse(regex("q22_[0-9]+"))] V22,
    #[teleparse(terminal(A23 = "a23;"))] V23,
    V24,
    #[teleparse(regex("r25_[0-9]+"), terminal(R25))] V25,
    #[teleparse(terminal(B26 = "b26;", C26 = "é26;"))] V26,
    #[teleparse(regex("q27_[0-9]+"))] V27,
    #[teleparse(terminal(A28 = "a28;"))] V28,
    V29,
    #[teleparse(regex("r30_[0-9]+"), terminal(R30))] V30,
    #[teleparse(terminal(B31 = "b31;", C31 = "é31;"))] V31,
}
pub const KINDS: [K; 32] = [K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits];
pub const ALL: [L; 32] = [L::V0, L::V1, L::V2, L::V3, L::V4, L::V5, L::V6, L::V7, L::V8, L::V9, L::V10, L::V11, L::V12, L::V13, L::V14, L::V15, L::V16, L::V17, L::V18, L::V19, L::V20, L::V21, L::V22, L::V23, L::V24, L::V25, L::V26, L::V27, L::V28, L::V29, L::V30, L::V31];
}
pub mod n33 { use super::*;
#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum L {
    #[teleparse(terminal(A0 = "a0;"))] V0,
    V1,
    #[teleparse(regex("r2_[0-9]+"), terminal(R2))] V2,
    #[teleparse(terminal(B3 = "b3;", C3 = "é3;"))] V3,
    #[teleparse(regex("q4_[0-9]+"))] V4,
    #[teleparse(terminal(A5 = "a5;"))] V5,
    V6,
    #[teleparse(regex("r7_[0-9]+"), terminal(R7))] V7,
    #[teleparse(terminal(B8 = "b8;", C8 = "é8;"))] V8,
    #[teleparse(regex("q9_[0-9]+"))] V9,
    #[teleparse(terminal(A10 = "a10;"))] V10,
    V11,
    #[teleparse(regex("r12_[0-9]+"), terminal(R12))] V12,
    #[teleparse(terminal(B13 = "b13;", C13 = "é13;"))] V13,
    #[teleparse(regex("q14_[0-9]+"))] V14,
    #[teleparse(terminal(A15 = "a15;"))] V15,
    V16,
    #[teleparse(regex("r17_[0-9]+"), terminal(R17))] V17,
    #[teleparse(terminal(B18 = "b18;", C18 = "é18;"))] V18,
    #[teleparse(regex("q19_[0-9]+"))] V19,
    #[teleparse(terminal(A20 = "a20;"))] V20,
    V21,
    #[teleparse(regex("r22_[0-9]+"), terminal(R22))] V22,
    #[teleparse(terminal(B23 = "b23;", C23 = "é23;"))] V23,
    #[teleparse(regex("q24_[0-9]+"))] V24,
    #[teleparse(terminal(A25 = "a25;"))] V25,
    V26,
    #[teleparse(regex("r27_[0-9]+"), terminal(R27))] V27,
    #[teleparse(terminal(B28 = "b28;", C28 = "é28;"))] V28,
    #[teleparse(regex("q29_[0-9]+"))] V29,
    #[teleparse(terminal(A30 = "a30;"))] V30,
    V31,
    #[teleparse(regex("r32_[0-9]+"), terminal(R32))] V32,
}
pub const KINDS: [K; 33] = [K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm];
pub const ALL: [L; 33] = [L::V0, L::V1, L::V2, L::V3, L::V4, L::V5, L::V6, L::V7, L::V8, L::V9, L::V10, L::V11, L::V12, L::V13, L::V14, L::V15, L::V16, L::V17, L::V18, L::V19, L::V20, L::V21, L::V22, L::V23, L::V24, L::V25, L::V26, L::V27, L::V28, L::V29, L::V30, L::V31, L::V32];
}
pub mod n48 { use super::*;
#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum L {
    #[teleparse(terminal(A0 = "a0;"))] V0,
    V1,
    #[teleparse(regex("r2_[0-9]+"), terminal(R2))] V2,
    #[teleparse(terminal(B3 = "b3;", C3 = "é3;"))] V3,
    #[teleparse(regex("q4_[0-9]+"))] V4,
    #[teleparse(terminal(A5 = "a5;"))] V5,
    V6,
    #[teleparse(regex("r7_[0-9]+"), terminal(R7))] V7,
    #[teleparse(terminal(B8 = "b8;", C8 = "é8;"))] V8,
    #[teleparse(regex("q9_[0-9]+"))] V9,
    #[teleparse(terminal(A10 = "a10;"))] V10,
    V11,
    #[teleparse(regex("r12_[0-9]+"), terminal(R12))] V12,
    #[teleparse(terminal(B13 = "b13;", C13 = "é13;"))] V13,
    #[teleparse(regex("q14_[0-9]+"))] V14,
    #[teleparse(terminal(A15 = "a15;"))] V15,
    V16,
    #[teleparse(regex("r17_[0-9]+"), terminal(R17))] V17,
    #[teleparse(terminal(B18 = "b18;", C18 = "é18;"))] V18,
    #[teleparse(regex("q19_[0-9]+"))] V19,
    #[teleparse(terminal(A20 = "a20;"))] V20,
    V21,
    #[teleparse(regex("r22_[0-9]+"), terminal(R22))] V22,
    #[teleparse(terminal(B23 = "b23;", C23 = "é23;"))] V23,
    #[teleparse(regex("q24_[0-9]+"))] V24,
    #[teleparse(terminal(A25 = "a25;"))] V25,
    V26,
    #[teleparse(regex("r27_[0-9]+"), terminal(R27))] V27,
    #[teleparse(terminal(B28 = "b28;", C28 = "é28;"))] V28,
    #[teleparse(regex("q29_[0-9]+"))] V29,
    #[teleparse(terminal(A30 = "a30;"))] V30,
    V31,
    #[teleparse(regex("r32_[0-9]+"), terminal(R32))] V32,
    #[teleparse(terminal(B33 = "b33;", C33 = "é33;"))] V33,
    #[teleparse(regex("q34_[0-9]+"))] V34,
    #[teleparse(terminal(A35 = "a35;"))] V35,
    V36,
    #[teleparse(regex("r37_[0-9]+"), terminal(R37))] V37,
    #[teleparse(terminal(B38 = "b38;", C38 = "é38;"))] V38,
    #[teleparse(regex("q39_[0-9]+"))] V39,
    #[teleparse(terminal(A40 = "a40;"))] V40,
    V41,
    #[teleparse(regex("r42_[0-9]+"), terminal(R42))] V42,
    #[teleparse(terminal(B43 = "b43;", C43 = "é43;"))] V43,
    #[teleparse(regex("q44_[0-9]+"))] V44,
    #[teleparse(terminal(A45 = "a45;"))] V45,
    V46,
    #[teleparse(regex("r47_[0-9]+"), terminal(R47))] V47,
}
pub const KINDS: [K; 48] = [K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm];
pub const ALL: [L; 48] = [L::V0, L::V1, L::V2, L::V3, L::V4, L::V5, L::V6, L::V7, L::V8, L::V9, L::V10, L::V11, L::V12, L::V13, L::V14, L::V15, L::V16, L::V17, L::V18, L::V19, L::V20, L::V21, L::V22, L::V23, L::V24, L::V25, L::V26, L::V27, L::V28, L::V29, L::V30, L::V31, L::V32, L::V33, L::V34, L::V35, L::V36, L::V37, L::V38, L::V39, L::V40, L::V41, L::V42, L::V43, L::V44, L::V45, L::V46, L::V47];
}
pub mod n63 { use super::*;
#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum L {
    #[teleparse(terminal(A0 = "a0;"))] V0,
    V1,
    #[teleparse(regex("r2_[0-9]+"), terminal(R2))] V2,
    #[teleparse(terminal(B3 = "b3;", C3 = "é3;"))] V3,
    #[teleparse(regex("q4_[0-9]+"))] V4,
    #[teleparse(terminal(A5 = "a5;"))] V5,
    V6,
    #[teleparse(regex("r7_[0-9]+"), terminal(R7))] V7,
    #[teleparse(terminal(B8 = "b8;", C8 = "é8;"))] V8,
    #[teleparse(regex("q9_[0-9]+"))] V9,
    #[teleparse(terminal(A10 = "a10;"))] V10,
    V11,
    #[teleparse(regex("r12_[0-9]+"), terminal(R12))] V12,
    #[teleparse(terminal(B13 = "b13;", C13 = "é13;"))] V13,
    #[teleparse(regex("q14_[0-9]+"))] V14,
    #[teleparse(terminal(A15 = "a15;"))] V15,
    V16,
    #[teleparse(regex("r17_[0-9]+"), terminal(R17))] V17,
    #[teleparse(terminal(B18 = "b18;", C18 = "é18;"))] V18,
    #[teleparse(regex("q19_[0-9]+"))] V19,
    #[teleparse(terminal(A20 = "a20;"))] V20,
    V21,
    #[teleparse(regex("r22_[0-9]+"), terminal(R22))] V22,
    #[teleparse(terminal(B23 = "b23;", C23 = "é23;"))] V23,
    #[teleparse(regex("q24_[0-9]+"))] V24,
    #[teleparse(terminal(A25 = "a25;"))] V25,
    V26,
    #[teleparse(regex("r27_[0-9]+"), terminal(R27))] V27,
    #[teleparse(terminal(B28 = "b28;", C28 = "é28;"))] V28,
    #[teleparse(regex("q29_[0-9]+"))] V29,
    #[teleparse(terminal(A30 = "a30;"))] V30,
    V31,
    #[teleparse(regex("r32_[0-9]+"), terminal(R32))] V32,
    #[teleparse(terminal(B33 = "b33;", C33 = "é33;"))] V33,
    #[teleparse(regex("q34_[0-9]+"))] V34,
    #[teleparse(terminal(A35 = "a35;"))] V35,
    V36,
    #[teleparse(regex("r37_[0-9]+"), terminal(R37))] V37,
    #[teleparse(terminal(B38 = "b38;", C38 = "é38;"))] V38,
    #[teleparse(regex("q39_[0-9]+"))] V39,
    #[teleparse(terminal(A40 = "a40;"))] V40,
    V41,
    #[teleparse(regex("r42_[0-9]+"), terminal(R42))] V42,
    #[teleparse(terminal(B43 = "b43;", C43 = "é43;"))] V43,
    #[teleparse(regex("q44_[0-9]+"))] V44,
    #[teleparse(terminal(A45 = "a45;"))] V45,
    V46,
    #[teleparse(regex("r47_[0-9]+"), terminal(R47))] V47,
    #[teleparse(terminal(B48 = "b48;", C48 = "é48;"))] V48,
    #[teleparse(regex("q49_[0-9]+"))] V49,
    #[teleparse(terminal(A50 = "a50;"))] V50,
    V51,
    #[teleparse(regex("r52_[0-9]+"), terminal(R52))] V52,
    #[teleparse(terminal(B53 = "b53;", C53 = "é53;"))] V53,
    #[teleparse(regex("q54_[0-9]+"))] V54,
    #[teleparse(terminal(A55 = "a55;"))] V55,
    V56,
    #[teleparse(regex("r57_[0-9]+"), terminal(R57))] V57,
    #[teleparse(terminal(B58 = "b58;", C58 = "é58;"))] V58,
    #[teleparse(regex("q59_[0-9]+"))] V59,
    #[teleparse(terminal(A60 = "a60;"))] V60,
    V61,
    #[teleparse(regex("r62_[0-9]+"), terminal(R62))] V62,
}
pub const KINDS: [K; 63] = [K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm];
pub const ALL: [L; 63] = [L::V0, L::V1, L::V2, L::V3, L::V4, L::V5, L::V6, L::V7, L::V8, L::V9, L::V10, L::V11, L::V12, L::V13, L::V14, L::V15, L::V16, L::V17, L::V18, L::V19, L::V20, L::V21, L::V22, L::V23, L::V24, L::V25, L::V26, L::V27, L::V28, L::V29, L::V30, L::V31, L::V32, L::V33, L::V34, L::V35, L::V36, L::V37, L::V38, L::V39, L::V40, L::V41, L::V42, L::V43, L::V44, L::V45, L::V46, L::V47, L::V48, L::V49, L::V50, L::V51, L::V52, L::V53, L::V54, L::V55, L::V56, L::V57, L::V58, L::V59, L::V60, L::V61, L::V62];
}
pub mod n64 { use super::*;
#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum L {
    #[teleparse(terminal(B0 = "b0;", C0 = "é0;"))] V0,
    #[teleparse(regex("q1_[0-9]+"))] V1,
    #[teleparse(terminal(A2 = "a2;"))] V2,
    V3,
    #[teleparse(regex("r4_[0-9]+"), terminal(R4))] V4,
    #[teleparse(terminal(B5 = "b5;", C5 = "é5;"))] V5,
    #[teleparse(regex("q6_[0-9]+"))] V6,
    #[teleparse(terminal(A7 = "a7;"))] V7,
    V8,
    #[teleparse(regex("r9_[0-9]+"), terminal(R9))] V9,
    #[teleparse(terminal(B10 = "b10;", C10 = "é10;"))] V10,
    #[teleparse(regex("q11_[0-9]+"))] V11,
    #[teleparse(terminal(A12 = "a12;"))] V12,
    V13,
    #[teleparse(regex("r14_[0-9]+"), terminal(R14))] V14,
    #[teleparse(terminal(B15 = "b15;", C15 = "é15;"))] V15,
    #[teleparse(regex("q16_[0-9]+"))] V16,
    #[teleparse(terminal(A17 = "a17;"))] V17,
    V18,
    #[teleparse(regex("r19_[0-9]+"), terminal(R19))] V19,
    #[teleparse(terminal(B20 = "b20;", C20 = "é20;"))] V20,
    #[teleparse(regex("q21_[0-9]+"))] V21,
    #[teleparse(terminal(A22 = "a22;"))] V22,
    V23,
    #[teleparse(regex("r24_[0-9]+"), terminal(R24))] V24,
    #[teleparse(terminal(B25 = "b25;", C25 = "é25;"))] V25,
    #[teleparse(regex("q26_[0-9]+"))] V26,
    #[teleparse(terminal(A27 = "a27;"))] V27,
    V28,
    #[teleparse(regex("r29_[0-9]+"), terminal(R29))] V29,
    #[teleparse(terminal(B30 = "b30;", C30 = "é30;"))] V30,
    #[teleparse(regex("q31_[0-9]+"))] V31,
    #[teleparse(terminal(A32 = "a32;"))] V32,
    V33,
    #[teleparse(regex("r34_[0-9]+"), terminal(R34))] V34,
    #[teleparse(terminal(B35 = "b35;", C35 = "é35;"))] V35,
    #[teleparse(regex("q36_[0-9]+"))] V36,
    #[teleparse(terminal(A37 = "a37;"))] V37,
    V38,
    #[teleparse(regex("r39_[0-9]+"), terminal(R39))] V39,
    #[teleparse(terminal(B40 = "b40;", C40 = "é40;"))] V40,
    #[teleparse(regex("q41_[0-9]+"))] V41,
    #[teleparse(terminal(A42 = "a42;"))] V42,
    V43,
    #[teleparse(regex("r44_[0-9]+"), terminal(R44))] V44,
    #[teleparse(terminal(B45 = "b45;", C45 = "é45;"))] V45,
    #[teleparse(regex("q46_[0-9]+"))] V46,
    #[teleparse(terminal(A47 = "a47;"))] V47,
    V48,
    #[teleparse(regex("r49_[0-9]+"), terminal(R49))] V49,
    #[teleparse(terminal(B50 = "b50;", C50 = "é50;"))] V50,
    #[teleparse(regex("q51_[0-9]+"))] V51,
    #[teleparse(terminal(A52 = "a52;"))] V52,
    V53,
    #[teleparse(regex("r54_[0-9]+"), terminal(R54))] V54,
    #[teleparse(terminal(B55 = "b55;", C55 = "é55;"))] V55,
    #[teleparse(regex("q56_[0-9]+"))] V56,
    #[teleparse(terminal(A57 = "a57;"))] V57,
    V58,
    #[teleparse(regex("r59_[0-9]+"), terminal(R59))] V59,
    #[teleparse(terminal(B60 = "b60;", C60 = "é60;"))] V60,
    #[teleparse(regex("q61_[0-9]+"))] V61,
    #[teleparse(terminal(A62 = "a62;"))] V62,
    V63,
}
pub const KINDS: [K; 64] = [K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic];
pub const ALL: [L; 64] = [L::V0, L::V1, L::V2, L::V3, L::V4, L::V5, L::V6, L::V7, L::V8, L::V9, L::V10, L::V11, L::V12, L::V13, L::V14, L::V15, L::V16, L::V17, L::V18, L::V19, L::V20, L::V21, L::V22, L::V23, L::V24, L::V25, L::V26, L::V27, L::V28, L::V29, L::V30, L::V31, L::V32, L::V33, L::V34, L::V35, L::V36, L::V37, L::V38, L::V39, L::V40, L::V41, L::V42, L::V43, L::V44, L::V45, L::V46, L::V47, L::V48, L::V49, L::V50, L::V51, L::V52, L::V53, L::V54, L::V55, L::V56, L::V57, L::V58, L::V59, L::V60, L::V61, L::V62, L::V63];
}
pub mod n65 { use super::*;
#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum L {
    V0,
    #[teleparse(regex("r1_[0-9]+"), terminal(R1))] V1,
    #[teleparse(terminal(B2 = "b2;", C2 = "é2;"))] V2,
    #[teleparse(regex("q3_[0-9]+"))] V3,
    #[teleparse(terminal(A4 = "a4;"))] V4,
    V5,
    #[teleparse(regex("r6_[0-9]+"), terminal(R6))] V6,
    #[teleparse(terminal(B7 = "b7;", C7 = "é7;"))] V7,
    #[teleparse(regex("q8_[0-9]+"))] V8,
    #[teleparse(terminal(A9 = "a9;"))] V9,
    V10,
    #[teleparse(regex("r11_[0-9]+"), terminal(R11))] V11,
    #[teleparse(terminal(B12 = "b12;", C12 = "é12;"))] V12,
    #[teleparse(regex("q13_[0-9]+"))] V13,
    #[teleparse(terminal(A14 = "a14;"))] V14,
    V15,
    #[teleparse(regex("r16_[0-9]+"), terminal(R16))] V16,
    #[teleparse(terminal(B17 = "b17;", C17 = "é17;"))] V17,
    #[teleparse(regex("q18_[0-9]+"))] V18,
    #[teleparse(terminal(A19 = "a19;"))] V19,
    V20,
    #[teleparse(regex("r21_[0-9]+"), terminal(R21))] V21,
    #[teleparse(terminal(B22 = "b22;", C22 = "é22;"))] V22,
    #[teleparse(regex("q23_[0-9]+"))] V23,
    #[teleparse(terminal(A24 = "a24;"))] V24,
    V25,
    #[teleparse(regex("r26_[0-9]+"), terminal(R26))] V26,
    #[teleparse(terminal(B27 = "b27;", C27 = "é27;"))] V27,
    #[teleparse(regex("q28_[0-9]+"))] V28,
    #[teleparse(terminal(A29 = "a29;"))] V29,
    V30,
    #[teleparse(regex("r31_[0-9]+"), terminal(R31))] V31,
    #[teleparse(terminal(B32 = "b32;", C32 = "é32;"))] V32,
    #[teleparse(regex("q33_[0-9]+"))] V33,
    #[teleparse(terminal(A34 = "a34;"))] V34,
    V35,
    #[teleparse(regex("r36_[0-9]+"), terminal(R36))] V36,
    #[teleparse(terminal(B37 = "b37;", C37 = "é37;"))] V37,
    #[teleparse(regex("q38_[0-9]+"))] V38,
    #[teleparse(terminal(A39 = "a39;"))] V39,
    V40,
    #[teleparse(regex("r41_[0-9]+"), terminal(R41))] V41,
    #[teleparse(terminal(B42 = "b42;", C42 = "é42;"))] V42,
    #[teleparse(regex("q43_[0-9]+"))] V43,
    #[teleparse(terminal(A44 = "a44;"))] V44,
    V45,
    #[teleparse(regex("r46_[0-9]+"), terminal(R46))] V46,
    #[teleparse(terminal(B47 = "b47;", C47 = "é47;"))] V47,
    #[teleparse(regex("q48_[0-9]+"))] V48,
    #[teleparse(terminal(A49 = "a49;"))] V49,
    V50,
    #[teleparse(regex("r51_[0-9]+"), terminal(R51))] V51,
    #[teleparse(terminal(B52 = "b52;", C52 = "é52;"))] V52,
    #[teleparse(regex("q53_[0-9]+"))] V53,
    #[teleparse(terminal(A54 = "a54;"))] V54,
    V55,
    #[teleparse(regex("r56_[0-9]+"), terminal(R56))] V56,
    #[teleparse(terminal(B57 = "b57;", C57 = "é57;"))] V57,
    #[teleparse(regex("q58_[0-9]+"))] V58,
    #[teleparse(terminal(A59 = "a59;"))] V59,
    V60,
    #[teleparse(regex("r61_[0-9]+"), terminal(R61))] V61,
    #[teleparse(terminal(B62 = "b62;", C62 = "é62;"))] V62,
    #[teleparse(regex("q63_[0-9]+"))] V63,
    #[teleparse(terminal(A64 = "a64;"))] V64,
}
pub const KINDS: [K; 65] = [K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit];
pub const ALL: [L; 65] = [L::V0, L::V1, L::V2, L::V3, L::V4, L::V5, L::V6, L::V7, L::V8, L::V9, L::V10, L::V11, L::V12, L::V13, L::V14, L::V15, L::V16, L::V17, L::V18, L::V19, L::V20, L::V21, L::V22, L::V23, L::V24, L::V25, L::V26, L::V27, L::V28, L::V29, L::V30, L::V31, L::V32, L::V33, L::V34, L::V35, L::V36, L::V37, L::V38, L::V39, L::V40, L::V41, L::V42, L::V43, L::V44, L::V45, L::V46, L::V47, L::V48, L::V49, L::V50, L::V51, L::V52, L::V53, L::V54, L::V55, L::V56, L::V57, L::V58, L::V59, L::V60, L::V61, L::V62, L::V63, L::V64];
}
pub mod n96 { use super::*;
#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum L {
    #[teleparse(regex("q0_[0-9]+"))] V0,
    #[teleparse(terminal(A1 = "a1;"))] V1,
    V2,
    #[teleparse(regex("r3_[0-9]+"), terminal(R3))] V3,
    #[teleparse(terminal(B4 = "b4;", C4 = "é4;"))] V4,
    #[teleparse(regex("q5_[0-9]+"))] V5,
    #[teleparse(terminal(A6 = "a6;"))] V6,
    V7,
    #[teleparse(regex("r8_[0-9]+"), terminal(R8))] V8,
    #[teleparse(terminal(B9 = "b9;", C9 = "é9;"))] V9,
    #[teleparse(regex("q10_[0-9]+"))] V10,
    #[teleparse(terminal(A11 = "a11;"))] V11,
    V12,
    #[teleparse(regex("r13_[0-9]+"), terminal(R13))] V13,
    #[teleparse(terminal(B14 = "b14;", C14 = "é14;"))] V14,
    #[teleparse(regex("q15_[0-9]+"))] V15,
    #[teleparse(terminal(A16 = "a16;"))] V16,
    V17,
    #[teleparse(regex("r18_[0-9]+"), terminal(R18))] V18,
    #[teleparse(terminal(B19 = "b19;", C19 = "é19;"))] V19,
    #[teleparse(regex("q20_[0-9]+"))] V20,
    #[teleparse(terminal(A21 = "a21;"))] V21,
    V22,
    #[teleparse(regex("r23_[0-9]+"), terminal(R23))] V23,
    #[teleparse(terminal(B24 = "b24;", C24 = "é24;"))] V24,
    #[teleparse(regex("q25_[0-9]+"))] V25,
    #[teleparse(terminal(A26 = "a26;"))] V26,
    V27,
    #[teleparse(regex("r28_[0-9]+"), terminal(R28))] V28,
    #[teleparse(terminal(B29 = "b29;", C29 = "é29;"))] V29,
    #[teleparse(regex("q30_[0-9]+"))] V30,
    #[teleparse(terminal(A31 = "a31;"))] V31,
    V32,
    #[teleparse(regex("r33_[0-9]+"), terminal(R33))] V33,
    #[teleparse(terminal(B34 = "b34;", C34 = "é34;"))] V34,
    #[teleparse(regex("q35_[0-9]+"))] V35,
    #[teleparse(terminal(A36 = "a36;"))] V36,
    V37,
    #[teleparse(regex("r38_[0-9]+"), terminal(R38))] V38,
    #[teleparse(terminal(B39 = "b39;", C39 = "é39;"))] V39,
    #[teleparse(regex("q40_[0-9]+"))] V40,
    #[teleparse(terminal(A41 = "a41;"))] V41,
    V42,
    #[teleparse(regex("r43_[0-9]+"), terminal(R43))] V43,
    #[teleparse(terminal(B44 = "b44;", C44 = "é44;"))] V44,
    #[teleparse(regex("q45_[0-9]+"))] V45,
    #[teleparse(terminal(A46 = "a46;"))] V46,
    V47,
    #[teleparse(regex("r48_[0-9]+"), terminal(R48))] V48,
    #[teleparse(terminal(B49 = "b49;", C49 = "é49;"))] V49,
    #[teleparse(regex("q50_[0-9]+"))] V50,
    #[teleparse(terminal(A51 = "a51;"))] V51,
    V52,
    #[teleparse(regex("r53_[0-9]+"), terminal(R53))] V53,
    #[teleparse(terminal(B54 = "b54;", C54 = "é54;"))] V54,
    #[teleparse(regex("q55_[0-9]+"))] V55,
    #[teleparse(terminal(A56 = "a56;"))] V56,
    V57,
    #[teleparse(regex("r58_[0-9]+"), terminal(R58))] V58,
    #[teleparse(terminal(B59 = "b59;", C59 = "é59;"))] V59,
    #[teleparse(regex("q60_[0-9]+"))] V60,
    #[teleparse(terminal(A61 = "a61;"))] V61,
    V62,
    #[teleparse(regex("r63_[0-9]+"), terminal(R63))] V63,
    #[teleparse(terminal(B64 = "b64;", C64 = "é64;"))] V64,
    #[teleparse(regex("q65_[0-9]+"))] V65,
    #[teleparse(terminal(A66 = "a66;"))] V66,
    V67,
    #[teleparse(regex("r68_[0-9]+"), terminal(R68))] V68,
    #[teleparse(terminal(B69 = "b69;", C69 = "é69;"))] V69,
    #[teleparse(regex("q70_[0-9]+"))] V70,
    #[teleparse(terminal(A71 = "a71;"))] V71,
    V72,
    #[teleparse(regex("r73_[0-9]+"), terminal(R73))] V73,
    #[teleparse(terminal(B74 = "b74;", C74 = "é74;"))] V74,
    #[teleparse(regex("q75_[0-9]+"))] V75,
    #[teleparse(terminal(A76 = "a76;"))] V76,
    V77,
    #[teleparse(regex("r78_[0-9]+"), terminal(R78))] V78,
    #[teleparse(terminal(B79 = "b79;", C79 = "é79;"))] V79,
    #[teleparse(regex("q80_[0-9]+"))] V80,
    #[teleparse(terminal(A81 = "a81;"))] V81,
    V82,
    #[teleparse(regex("r83_[0-9]+"), terminal(R83))] V83,
    #[teleparse(terminal(B84 = "b84;", C84 = "é84;"))] V84,
    #[teleparse(regex("q85_[0-9]+"))] V85,
    #[teleparse(terminal(A86 = "a86;"))] V86,
    V87,
    #[teleparse(regex("r88_[0-9]+"), terminal(R88))] V88,
    #[teleparse(terminal(B89 = "b89;", C89 = "é89;"))] V89,
    #[teleparse(regex("q90_[0-9]+"))] V90,
    #[teleparse(terminal(A91 = "a91;"))] V91,
    V92,
    #[teleparse(regex("r93_[0-9]+"), terminal(R93))] V93,
    #[teleparse(terminal(B94 = "b94;", C94 = "é94;"))] V94,
    #[teleparse(regex("q95_[0-9]+"))] V95,
}
pub const KINDS: [K; 96] = [K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex];
pub const ALL: [L; 96] = [L::V0, L::V1, L::V2, L::V3, L::V4, L::V5, L::V6, L::V7, L::V8, L::V9, L::V10, L::V11, L::V12, L::V13, L::V14, L::V15, L::V16, L::V17, L::V18, L::V19, L::V20, L::V21, L::V22, L::V23, L::V24, L::V25, L::V26, L::V27, L::V28, L::V29, L::V30, L::V31, L::V32, L::V33, L::V34, L::V35, L::V36, L::V37, L::V38, L::V39, L::V40, L::V41, L::V42, L::V43, L::V44, L::V45, L::V46, L::V47, L::V48, L::V49, L::V50, L::V51, L::V52, L::V53, L::V54, L::V55, L::V56, L::V57, L::V58, L::V59, L::V60, L::V61, L::V62, L::V63, L::V64, L::V65, L::V66, L::V67, L::V68, L::V69, L::V70, L::V71, L::V72, L::V73, L::V74, L::V75, L::V76, L::V77, L::V78, L::V79, L::V80, L::V81, L::V82, L::V83, L::V84, L::V85, L::V86, L::V87, L::V88, L::V89, L::V90, L::V91, L::V92, L::V93, L::V94, L::V95];
}
pub mod n127 { use super::*;
#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum L {
    #[teleparse(regex("r0_[0-9]+"), terminal(R0))] V0,
    #[teleparse(terminal(B1 = "b1;", C1 = "é1;"))] V1,
    #[teleparse(regex("q2_[0-9]+"))] V2,
    #[teleparse(terminal(A3 = "a3;"))] V3,
    V4,
    #[teleparse(regex("r5_[0-9]+"), terminal(R5))] V5,
    #[teleparse(terminal(B6 = "b6;", C6 = "é6;"))] V6,
    #[teleparse(regex("q7_[0-9]+"))] V7,
    #[teleparse(terminal(A8 = "a8;"))] V8,
    V9,
    #[teleparse(regex("r10_[0-9]+"), terminal(R10))] V10,
    #[teleparse(terminal(B11 = "b11;", C11 = "é11;"))] V11,
    #[teleparse(regex("q12_[0-9]+"))] V12,
    #[teleparse(terminal(A13 = "a13;"))] V13,
    V14,
    #[teleparse(regex("r15_[0-9]+"), terminal(R15))] V15,
    #[teleparse(terminal(B16 = "b16;", C16 = "é16;"))] V16,
    #[teleparse(regex("q17_[0-9]+"))] V17,
    #[teleparse(terminal(A18 = "a18;"))] V18,
    V19,
    #[teleparse(regex("r20_[0-9]+"), terminal(R20))] V20,
    #[teleparse(terminal(B21 = "b21;", C21 = "é21;"))] V21,
    #[teleparse(regex("q22_[0-9]+"))] V22,
    #[teleparse(terminal(A23 = "a23;"))] V23,
    V24,
    #[teleparse(regex("r25_[0-9]+"), terminal(R25))] V25,
    #[teleparse(terminal(B26 = "b26;", C26 = "é26;"))] V26,
    #[teleparse(regex("q27_[0-9]+"))] V27,
    #[teleparse(terminal(A28 = "a28;"))] V28,
    V29,
    #[teleparse(regex("r30_[0-9]+"), terminal(R30))] V30,
    #[teleparse(terminal(B31 = "b31;", C31 = "é31;"))] V31,
    #[teleparse(regex("q32_[0-9]+"))] V32,
    #[teleparse(terminal(A33 = "a33;"))] V33,
    V34,
    #[teleparse(regex("r35_[0-9]+"), terminal(R35))] V35,
    #[teleparse(terminal(B36 = "b36;", C36 = "é36;"))] V36,
    #[teleparse(regex("q37_[0-9]+"))] V37,
    #[teleparse(terminal(A38 = "a38;"))] V38,
    V39,
    #[teleparse(regex("r40_[0-9]+"), terminal(R40))] V40,
    #[teleparse(terminal(B41 = "b41;", C41 = "é41;"))] V41,
    #[teleparse(regex("q42_[0-9]+"))] V42,
    #[teleparse(terminal(A43 = "a43;"))] V43,
    V44,
    #[teleparse(regex("r45_[0-9]+"), terminal(R45))] V45,
    #[teleparse(terminal(B46 = "b46;", C46 = "é46;"))] V46,
    #[teleparse(regex("q47_[0-9]+"))] V47,
    #[teleparse(terminal(A48 = "a48;"))] V48,
    V49,
    #[teleparse(regex("r50_[0-9]+"), terminal(R50))] V50,
    #[teleparse(terminal(B51 = "b51;", C51 = "é51;"))] V51,
    #[teleparse(regex("q52_[0-9]+"))] V52,
    #[teleparse(terminal(A53 = "a53;"))] V53,
    V54,
    #[teleparse(regex("r55_[0-9]+"), terminal(R55))] V55,
    #[teleparse(terminal(B56 = "b56;", C56 = "é56;"))] V56,
    #[teleparse(regex("q57_[0-9]+"))] V57,
    #[teleparse(terminal(A58 = "a58;"))] V58,
    V59,
    #[teleparse(regex("r60_[0-9]+"), terminal(R60))] V60,
    #[teleparse(terminal(B61 = "b61;", C61 = "é61;"))] V61,
    #[teleparse(regex("q62_[0-9]+"))] V62,
    #[teleparse(terminal(A63 = "a63;"))] V63,
    V64,
    #[teleparse(regex("r65_[0-9]+"), terminal(R65))] V65,
    #[teleparse(terminal(B66 = "b66;", C66 = "é66;"))] V66,
    #[teleparse(regex("q67_[0-9]+"))] V67,
    #[teleparse(terminal(A68 = "a68;"))] V68,
    V69,
    #[teleparse(regex("r70_[0-9]+"), terminal(R70))] V70,
    #[teleparse(terminal(B71 = "b71;", C71 = "é71;"))] V71,
    #[teleparse(regex("q72_[0-9]+"))] V72,
    #[teleparse(terminal(A73 = "a73;"))] V73,
    V74,
    #[teleparse(regex("r75_[0-9]+"), terminal(R75))] V75,
    #[teleparse(terminal(B76 = "b76;", C76 = "é76;"))] V76,
    #[teleparse(regex("q77_[0-9]+"))] V77,
    #[teleparse(terminal(A78 = "a78;"))] V78,
    V79,
    #[teleparse(regex("r80_[0-9]+"), terminal(R80))] V80,
    #[teleparse(terminal(B81 = "b81;", C81 = "é81;"))] V81,
    #[teleparse(regex("q82_[0-9]+"))] V82,
    #[teleparse(terminal(A83 = "a83;"))] V83,
    V84,
    #[teleparse(regex("r85_[0-9]+"), terminal(R85))] V85,
    #[teleparse(terminal(B86 = "b86;", C86 = "é86;"))] V86,
    #[teleparse(regex("q87_[0-9]+"))] V87,
    #[teleparse(terminal(A88 = "a88;"))] V88,
    V89,
    #[teleparse(regex("r90_[0-9]+"), terminal(R90))] V90,
    #[teleparse(terminal(B91 = "b91;", C91 = "é91;"))] V91,
    #[teleparse(regex("q92_[0-9]+"))] V92,
    #[teleparse(terminal(A93 = "a93;"))] V93,
    V94,
    #[teleparse(regex("r95_[0-9]+"), terminal(R95))] V95,
    #[teleparse(terminal(B96 = "b96;", C96 = "é96;"))] V96,
    #[teleparse(regex("q97_[0-9]+"))] V97,
    #[teleparse(terminal(A98 = "a98;"))] V98,
    V99,
    #[teleparse(regex("r100_[0-9]+"), terminal(R100))] V100,
    #[teleparse(terminal(B101 = "b101;", C101 = "é101;"))] V101,
    #[teleparse(regex("q102_[0-9]+"))] V102,
    #[teleparse(terminal(A103 = "a103;"))] V103,
    V104,
    #[teleparse(regex("r105_[0-9]+"), terminal(R105))] V105,
    #[teleparse(terminal(B106 = "b106;", C106 = "é106;"))] V106,
    #[teleparse(regex("q107_[0-9]+"))] V107,
    #[teleparse(terminal(A108 = "a108;"))] V108,
    V109,
    #[teleparse(regex("r110_[0-9]+"), terminal(R110))] V110,
    #[teleparse(terminal(B111 = "b111;", C111 = "é111;"))] V111,
    #[teleparse(regex("q112_[0-9]+"))] V112,
    #[teleparse(terminal(A113 = "a113;"))] V113,
    V114,
    #[teleparse(regex("r115_[0-9]+"), terminal(R115))] V115,
    #[teleparse(terminal(B116 = "b116;", C116 = "é116;"))] V116,
    #[teleparse(regex("q117_[0-9]+"))] V117,
    #[teleparse(terminal(A118 = "a118;"))] V118,
    V119,
    #[teleparse(regex("r120_[0-9]+"), terminal(R120))] V120,
    #[teleparse(terminal(B121 = "b121;", C121 = "é121;"))] V121,
    #[teleparse(regex("q122_[0-9]+"))] V122,
    #[teleparse(terminal(A123 = "a123;"))] V123,
    V124,
    #[teleparse(regex("r125_[0-9]+"), terminal(R125))] V125,
    #[teleparse(terminal(B126 = "b126;", C126 = "é126;"))] V126,
}
pub const KINDS: [K; 127] = [K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits];
pub const ALL: [L; 127] = [L::V0, L::V1, L::V2, L::V3, L::V4, L::V5, L::V6, L::V7, L::V8, L::V9, L::V10, L::V11, L::V12, L::V13, L::V14, L::V15, L::V16, L::V17, L::V18, L::V19, L::V20, L::V21, L::V22, L::V23, L::V24, L::V25, L::V26, L::V27, L::V28, L::V29, L::V30, L::V31, L::V32, L::V33, L::V34, L::V35, L::V36, L::V37, L::V38, L::V39, L::V40, L::V41, L::V42, L::V43, L::V44, L::V45, L::V46, L::V47, L::V48, L::V49, L::V50, L::V51, L::V52, L::V53, L::V54, L::V55, L::V56, L::V57, L::V58, L::V59, L::V60, L::V61, L::V62, L::V63, L::V64, L::V65, L::V66, L::V67, L::V68, L::V69, L::V70, L::V71, L::V72, L::V73, L::V74, L::V75, L::V76, L::V77, L::V78, L::V79, L::V80, L::V81, L::V82, L::V83, L::V84, L::V85, L::V86, L::V87, L::V88, L::V89, L::V90, L::V91, L::V92, L::V93, L::V94, L::V95, L::V96, L::V97, L::V98, L::V99, L::V100, L::V101, L::V102, L::V103, L::V104, L::V105, L::V106, L::V107, L::V108, L::V109, L::V110, L::V111, L::V112, L::V113, L::V114, L::V115, L::V116, L::V117, L::V118, L::V119, L::V120, L::V121, L::V122, L::V123, L::V124, L::V125, L::V126];
}
pub mod n128 { use super::*;
#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum L {
    #[teleparse(terminal(A0 = "a0;"))] V0,
    V1,
    #[teleparse(regex("r2_[0-9]+"), terminal(R2))] V2,
    #[teleparse(terminal(B3 = "b3;", C3 = "é3;"))] V3,
    #[teleparse(regex("q4_[0-9]+"))] V4,
    #[teleparse(terminal(A5 = "a5;"))] V5,
    V6,
    #[teleparse(regex("r7_[0-9]+"), terminal(R7))] V7,
    #[teleparse(terminal(B8 = "b8;", C8 = "é8;"))] V8,
    #[teleparse(regex("q9_[0-9]+"))] V9,
    #[teleparse(terminal(A10 = "a10;"))] V10,
    V11,
    #[teleparse(regex("r12_[0-9]+"), terminal(R12))] V12,
    #[teleparse(terminal(B13 = "b13;", C13 = "é13;"))] V13,
    #[teleparse(regex("q14_[0-9]+"))] V14,
    #[teleparse(terminal(A15 = "a15;"))] V15,
    V16,
    #[teleparse(regex("r17_[0-9]+"), terminal(R17))] V17,
    #[teleparse(terminal(B18 = "b18;", C18 = "é18;"))] V18,
    #[teleparse(regex("q19_[0-9]+"))] V19,
    #[teleparse(terminal(A20 = "a20;"))] V20,
    V21,
    #[teleparse(regex("r22_[0-9]+"), terminal(R22))] V22,
    #[teleparse(terminal(B23 = "b23;", C23 = "é23;"))] V23,
    #[teleparse(regex("q24_[0-9]+"))] V24,
    #[teleparse(terminal(A25 = "a25;"))] V25,
    V26,
    #[teleparse(regex("r27_[0-9]+"), terminal(R27))] V27,
    #[teleparse(terminal(B28 = "b28;", C28 = "é28;"))] V28,
    #[teleparse(regex("q29_[0-9]+"))] V29,
    #[teleparse(terminal(A30 = "a30;"))] V30,
    V31,
    #[teleparse(regex("r32_[0-9]+"), terminal(R32))] V32,
    #[teleparse(terminal(B33 = "b33;", C33 = "é33;"))] V33,
    #[teleparse(regex("q34_[0-9]+"))] V34,
    #[teleparse(terminal(A35 = "a35;"))] V35,
    V36,
    #[teleparse(regex("r37_[0-9]+"), terminal(R37))] V37,
    #[teleparse(terminal(B38 = "b38;", C38 = "é38;"))] V38,
    #[teleparse(regex("q39_[0-9]+"))] V39,
    #[teleparse(terminal(A40 = "a40;"))] V40,
    V41,
    #[teleparse(regex("r42_[0-9]+"), terminal(R42))] V42,
    #[teleparse(terminal(B43 = "b43;", C43 = "é43;"))] V43,
    #[teleparse(regex("q44_[0-9]+"))] V44,
    #[teleparse(terminal(A45 = "a45;"))] V45,
    V46,
    #[teleparse(regex("r47_[0-9]+"), terminal(R47))] V47,
    #[teleparse(terminal(B48 = "b48;", C48 = "é48;"))] V48,
    #[teleparse(regex("q49_[0-9]+"))] V49,
    #[teleparse(terminal(A50 = "a50;"))] V50,
    V51,
    #[teleparse(regex("r52_[0-9]+"), terminal(R52))] V52,
    #[teleparse(terminal(B53 = "b53;", C53 = "é53;"))] V53,
    #[teleparse(regex("q54_[0-9]+"))] V54,
    #[teleparse(terminal(A55 = "a55;"))] V55,
    V56,
    #[teleparse(regex("r57_[0-9]+"), terminal(R57))] V57,
    #[teleparse(terminal(B58 = "b58;", C58 = "é58;"))] V58,
    #[teleparse(regex("q59_[0-9]+"))] V59,
    #[teleparse(terminal(A60 = "a60;"))] V60,
    V61,
    #[teleparse(regex("r62_[0-9]+"), terminal(R62))] V62,
    #[teleparse(terminal(B63 = "b63;", C63 = "é63;"))] V63,
    #[teleparse(regex("q64_[0-9]+"))] V64,
    #[teleparse(terminal(A65 = "a65;"))] V65,
    V66,
    #[teleparse(regex("r67_[0-9]+"), terminal(R67))] V67,
    #[teleparse(terminal(B68 = "b68;", C68 = "é68;"))] V68,
    #[teleparse(regex("q69_[0-9]+"))] V69,
    #[teleparse(terminal(A70 = "a70;"))] V70,
    V71,
    #[teleparse(regex("r72_[0-9]+"), terminal(R72))] V72,
    #[teleparse(terminal(B73 = "b73;", C73 = "é73;"))] V73,
    #[teleparse(regex("q74_[0-9]+"))] V74,
    #[teleparse(terminal(A75 = "a75;"))] V75,
    V76,
    #[teleparse(regex("r77_[0-9]+"), terminal(R77))] V77,
    #[teleparse(terminal(B78 = "b78;", C78 = "é78;"))] V78,
    #[teleparse(regex("q79_[0-9]+"))] V79,
    #[teleparse(terminal(A80 = "a80;"))] V80,
    V81,
    #[teleparse(regex("r82_[0-9]+"), terminal(R82))] V82,
    #[teleparse(terminal(B83 = "b83;", C83 = "é83;"))] V83,
    #[teleparse(regex("q84_[0-9]+"))] V84,
    #[teleparse(terminal(A85 = "a85;"))] V85,
    V86,
    #[teleparse(regex("r87_[0-9]+"), terminal(R87))] V87,
    #[teleparse(terminal(B88 = "b88;", C88 = "é88;"))] V88,
    #[teleparse(regex("q89_[0-9]+"))] V89,
    #[teleparse(terminal(A90 = "a90;"))] V90,
    V91,
    #[teleparse(regex("r92_[0-9]+"), terminal(R92))] V92,
    #[teleparse(terminal(B93 = "b93;", C93 = "é93;"))] V93,
    #[teleparse(regex("q94_[0-9]+"))] V94,
    #[teleparse(terminal(A95 = "a95;"))] V95,
    V96,
    #[teleparse(regex("r97_[0-9]+"), terminal(R97))] V97,
    #[teleparse(terminal(B98 = "b98;", C98 = "é98;"))] V98,
    #[teleparse(regex("q99_[0-9]+"))] V99,
    #[teleparse(terminal(A100 = "a100;"))] V100,
    V101,
    #[teleparse(regex("r102_[0-9]+"), terminal(R102))] V102,
    #[teleparse(terminal(B103 = "b103;", C103 = "é103;"))] V103,
    #[teleparse(regex("q104_[0-9]+"))] V104,
    #[teleparse(terminal(A105 = "a105;"))] V105,
    V106,
    #[teleparse(regex("r107_[0-9]+"), terminal(R107))] V107,
    #[teleparse(terminal(B108 = "b108;", C108 = "é108;"))] V108,
    #[teleparse(regex("q109_[0-9]+"))] V109,
    #[teleparse(terminal(A110 = "a110;"))] V110,
    V111,
    #[teleparse(regex("r112_[0-9]+"), terminal(R112))] V112,
    #[teleparse(terminal(B113 = "b113;", C113 = "é113;"))] V113,
    #[teleparse(regex("q114_[0-9]+"))] V114,
    #[teleparse(terminal(A115 = "a115;"))] V115,
    V116,
    #[teleparse(regex("r117_[0-9]+"), terminal(R117))] V117,
    #[teleparse(terminal(B118 = "b118;", C118 = "é118;"))] V118,
    #[teleparse(regex("q119_[0-9]+"))] V119,
    #[teleparse(terminal(A120 = "a120;"))] V120,
    V121,
    #[teleparse(regex("r122_[0-9]+"), terminal(R122))] V122,
    #[teleparse(terminal(B123 = "b123;", C123 = "é123;"))] V123,
    #[teleparse(regex("q124_[0-9]+"))] V124,
    #[teleparse(terminal(A125 = "a125;"))] V125,
    V126,
    #[teleparse(regex("r127_[0-9]+"), terminal(R127))] V127,
}
pub const KINDS: [K; 128] = [K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm, K::TwoLits, K::Regex, K::Lit, K::Semantic, K::RegexTerm];
pub const ALL: [L; 128] = [L::V0, L::V1, L::V2, L::V3, L::V4, L::V5, L::V6, L::V7, L::V8, L::V9, L::V10, L::V11, L::V12, L::V13, L::V14, L::V15, L::V16, L::V17, L::V18, L::V19, L::V20, L::V21, L::V22, L::V23, L::V24, L::V25, L::V26, L::V27, L::V28, L::V29, L::V30, L::V31, L::V32, L::V33, L::V34, L::V35, L::V36, L::V37, L::V38, L::V39, L::V40, L::V41, L::V42, L::V43, L::V44, L::V45, L::V46, L::V47, L::V48, L::V49, L::V50, L::V51, L::V52, L::V53, L::V54, L::V55, L::V56, L::V57, L::V58, L::V59, L::V60, L::V61, L::V62, L::V63, L::V64, L::V65, L::V66, L::V67, L::V68, L::V69, L::V70, L::V71, L::V72, L::V73, L::V74, L::V75, L::V76, L::V77, L::V78, L::V79, L::V80, L::V81, L::V82, L::V83, L::V84, L::V85, L::V86, L::V87, L::V88, L::V89, L::V90, L::V91, L::V92, L::V93, L::V94, L::V95, L::V96, L::V97, L::V98, L::V99, L::V100, L::V101, L::V102, L::V103, L::V104, L::V105, L::V106, L::V107, L::V108, L::V109, L::V110, L::V111, L::V112, L::V113, L::V114, L::V115, L::V116, L::V117, L::V118, L::V119, L::V120, L::V121, L::V122, L::V123, L::V124, L::V125, L::V126, L::V127];
}
#[macro_export] macro_rules! for_sizes { ($m:ident) => { [ $m!(n1), $m!(n2), $m!(n7), $m!(n8), $m!(n9), $m!(n15), $m!(n16), $m!(n17), $m!(n31), $m!(n32), $m!(n33), $m!(n48), $m!(n63), $m!(n64), $m!(n65), $m!(n96), $m!(n127), $m!(n128) ] } }
