// generated by tools/gen_dyn.py
use crate::dynp::{Dyn, Shape, UK, Visitor};
use crate::lx::*;
use crate::tree::{ToTr, Tr, K};
use teleparse::prelude::*;

pub const NS: usize = 8;
pub const NC: usize = 5;
pub const NSYM: usize = 48;
/// semantic types of field / variant i of a derived type of symbol s
pub fn sem_mask(s: usize, i: usize) -> u32 {
    match (s + i) % 5 {
        0 => 1 << SEMA,
        1 => 1 << SEMB,
        2 => 0,
        3 => 1 << SEMA | 1 << SEMC,
        4 => 1 << SEMB | 1 << OP,
        _ => unreachable!(),
    }
}

#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U0_1p(pub Dyn<8>);
impl ToTr for U0_1p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N0_1p { pub f0: Dyn<8> }
impl ToTr for N0_1p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E0_1p { V0(Dyn<8>) }
impl ToTr for E0_1p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U0_1s(#[teleparse(semantic(SemA))] pub Dyn<8>);
impl ToTr for U0_1s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N0_1s { #[teleparse(semantic(SemA))] pub f0: Dyn<8> }
impl ToTr for N0_1s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E0_1s { #[teleparse(semantic(SemA))] V0(Dyn<8>) }
impl ToTr for E0_1s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U0_2p(pub Dyn<8>, pub Dyn<9>);
impl ToTr for U0_2p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N0_2p { pub f0: Dyn<8>, pub f1: Dyn<9> }
impl ToTr for N0_2p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E0_2p { V0(Dyn<8>), V1(Dyn<9>) }
impl ToTr for E0_2p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U0_2s(#[teleparse(semantic(SemA))] pub Dyn<8>, #[teleparse(semantic(SemB))] pub Dyn<9>);
impl ToTr for U0_2s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N0_2s { #[teleparse(semantic(SemA))] pub f0: Dyn<8>, #[teleparse(semantic(SemB))] pub f1: Dyn<9> }
impl ToTr for N0_2s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E0_2s { #[teleparse(semantic(SemA))] V0(Dyn<8>), #[teleparse(semantic(SemB))] V1(Dyn<9>) }
impl ToTr for E0_2s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U0_3p(pub Dyn<8>, pub Dyn<9>, pub Dyn<10>);
impl ToTr for U0_3p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N0_3p { pub f0: Dyn<8>, pub f1: Dyn<9>, pub f2: Dyn<10> }
impl ToTr for N0_3p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E0_3p { V0(Dyn<8>), V1(Dyn<9>), V2(Dyn<10>) }
impl ToTr for E0_3p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U0_3s(#[teleparse(semantic(SemA))] pub Dyn<8>, #[teleparse(semantic(SemB))] pub Dyn<9>, pub Dyn<10>);
impl ToTr for U0_3s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N0_3s { #[teleparse(semantic(SemA))] pub f0: Dyn<8>, #[teleparse(semantic(SemB))] pub f1: Dyn<9>, pub f2: Dyn<10> }
impl ToTr for N0_3s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E0_3s { #[teleparse(semantic(SemA))] V0(Dyn<8>), #[teleparse(semantic(SemB))] V1(Dyn<9>), V2(Dyn<10>) }
impl ToTr for E0_3s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U0_4p(pub Dyn<8>, pub Dyn<9>, pub Dyn<10>, pub Dyn<11>);
impl ToTr for U0_4p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N0_4p { pub f0: Dyn<8>, pub f1: Dyn<9>, pub f2: Dyn<10>, pub f3: Dyn<11> }
impl ToTr for N0_4p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E0_4p { V0(Dyn<8>), V1(Dyn<9>), V2(Dyn<10>), V3(Dyn<11>) }
impl ToTr for E0_4p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U0_4s(#[teleparse(semantic(SemA))] pub Dyn<8>, #[teleparse(semantic(SemB))] pub Dyn<9>, pub Dyn<10>, #[teleparse(semantic(SemA, SemC))] pub Dyn<11>);
impl ToTr for U0_4s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N0_4s { #[teleparse(semantic(SemA))] pub f0: Dyn<8>, #[teleparse(semantic(SemB))] pub f1: Dyn<9>, pub f2: Dyn<10>, #[teleparse(semantic(SemA, SemC))] pub f3: Dyn<11> }
impl ToTr for N0_4s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E0_4s { #[teleparse(semantic(SemA))] V0(Dyn<8>), #[teleparse(semantic(SemB))] V1(Dyn<9>), V2(Dyn<10>), #[teleparse(semantic(SemA, SemC))] V3(Dyn<11>) }
impl ToTr for E0_4s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U0_5p(pub Dyn<8>, pub Dyn<9>, pub Dyn<10>, pub Dyn<11>, pub Dyn<12>);
impl ToTr for U0_5p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3, self.4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N0_5p { pub f0: Dyn<8>, pub f1: Dyn<9>, pub f2: Dyn<10>, pub f3: Dyn<11>, pub f4: Dyn<12> }
impl ToTr for N0_5p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3, self.f4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E0_5p { V0(Dyn<8>), V1(Dyn<9>), V2(Dyn<10>), V3(Dyn<11>), V4(Dyn<12>) }
impl ToTr for E0_5p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), Self::V4(x) => Tr::new(K::Alt(4), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U0_5s(#[teleparse(semantic(SemA))] pub Dyn<8>, #[teleparse(semantic(SemB))] pub Dyn<9>, pub Dyn<10>, #[teleparse(semantic(SemA, SemC))] pub Dyn<11>, #[teleparse(semantic(SemB, Op))] pub Dyn<12>);
impl ToTr for U0_5s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3, self.4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N0_5s { #[teleparse(semantic(SemA))] pub f0: Dyn<8>, #[teleparse(semantic(SemB))] pub f1: Dyn<9>, pub f2: Dyn<10>, #[teleparse(semantic(SemA, SemC))] pub f3: Dyn<11>, #[teleparse(semantic(SemB, Op))] pub f4: Dyn<12> }
impl ToTr for N0_5s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3, self.f4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E0_5s { #[teleparse(semantic(SemA))] V0(Dyn<8>), #[teleparse(semantic(SemB))] V1(Dyn<9>), V2(Dyn<10>), #[teleparse(semantic(SemA, SemC))] V3(Dyn<11>), #[teleparse(semantic(SemB, Op))] V4(Dyn<12>) }
impl ToTr for E0_5s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), Self::V4(x) => Tr::new(K::Alt(4), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U1_1p(pub Dyn<13>);
impl ToTr for U1_1p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N1_1p { pub f0: Dyn<13> }
impl ToTr for N1_1p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E1_1p { V0(Dyn<13>) }
impl ToTr for E1_1p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U1_1s(#[teleparse(semantic(SemB))] pub Dyn<13>);
impl ToTr for U1_1s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N1_1s { #[teleparse(semantic(SemB))] pub f0: Dyn<13> }
impl ToTr for N1_1s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E1_1s { #[teleparse(semantic(SemB))] V0(Dyn<13>) }
impl ToTr for E1_1s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U1_2p(pub Dyn<13>, pub Dyn<14>);
impl ToTr for U1_2p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N1_2p { pub f0: Dyn<13>, pub f1: Dyn<14> }
impl ToTr for N1_2p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E1_2p { V0(Dyn<13>), V1(Dyn<14>) }
impl ToTr for E1_2p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U1_2s(#[teleparse(semantic(SemB))] pub Dyn<13>, pub Dyn<14>);
impl ToTr for U1_2s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N1_2s { #[teleparse(semantic(SemB))] pub f0: Dyn<13>, pub f1: Dyn<14> }
impl ToTr for N1_2s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E1_2s { #[teleparse(semantic(SemB))] V0(Dyn<13>), V1(Dyn<14>) }
impl ToTr for E1_2s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U1_3p(pub Dyn<13>, pub Dyn<14>, pub Dyn<15>);
impl ToTr for U1_3p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N1_3p { pub f0: Dyn<13>, pub f1: Dyn<14>, pub f2: Dyn<15> }
impl ToTr for N1_3p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E1_3p { V0(Dyn<13>), V1(Dyn<14>), V2(Dyn<15>) }
impl ToTr for E1_3p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U1_3s(#[teleparse(semantic(SemB))] pub Dyn<13>, pub Dyn<14>, #[teleparse(semantic(SemA, SemC))] pub Dyn<15>);
impl ToTr for U1_3s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N1_3s { #[teleparse(semantic(SemB))] pub f0: Dyn<13>, pub f1: Dyn<14>, #[teleparse(semantic(SemA, SemC))] pub f2: Dyn<15> }
impl ToTr for N1_3s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E1_3s { #[teleparse(semantic(SemB))] V0(Dyn<13>), V1(Dyn<14>), #[teleparse(semantic(SemA, SemC))] V2(Dyn<15>) }
impl ToTr for E1_3s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U1_4p(pub Dyn<13>, pub Dyn<14>, pub Dyn<15>, pub Dyn<16>);
impl ToTr for U1_4p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N1_4p { pub f0: Dyn<13>, pub f1: Dyn<14>, pub f2: Dyn<15>, pub f3: Dyn<16> }
impl ToTr for N1_4p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E1_4p { V0(Dyn<13>), V1(Dyn<14>), V2(Dyn<15>), V3(Dyn<16>) }
impl ToTr for E1_4p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U1_4s(#[teleparse(semantic(SemB))] pub Dyn<13>, pub Dyn<14>, #[teleparse(semantic(SemA, SemC))] pub Dyn<15>, #[teleparse(semantic(SemB, Op))] pub Dyn<16>);
impl ToTr for U1_4s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N1_4s { #[teleparse(semantic(SemB))] pub f0: Dyn<13>, pub f1: Dyn<14>, #[teleparse(semantic(SemA, SemC))] pub f2: Dyn<15>, #[teleparse(semantic(SemB, Op))] pub f3: Dyn<16> }
impl ToTr for N1_4s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E1_4s { #[teleparse(semantic(SemB))] V0(Dyn<13>), V1(Dyn<14>), #[teleparse(semantic(SemA, SemC))] V2(Dyn<15>), #[teleparse(semantic(SemB, Op))] V3(Dyn<16>) }
impl ToTr for E1_4s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U1_5p(pub Dyn<13>, pub Dyn<14>, pub Dyn<15>, pub Dyn<16>, pub Dyn<17>);
impl ToTr for U1_5p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3, self.4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N1_5p { pub f0: Dyn<13>, pub f1: Dyn<14>, pub f2: Dyn<15>, pub f3: Dyn<16>, pub f4: Dyn<17> }
impl ToTr for N1_5p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3, self.f4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E1_5p { V0(Dyn<13>), V1(Dyn<14>), V2(Dyn<15>), V3(Dyn<16>), V4(Dyn<17>) }
impl ToTr for E1_5p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), Self::V4(x) => Tr::new(K::Alt(4), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U1_5s(#[teleparse(semantic(SemB))] pub Dyn<13>, pub Dyn<14>, #[teleparse(semantic(SemA, SemC))] pub Dyn<15>, #[teleparse(semantic(SemB, Op))] pub Dyn<16>, #[teleparse(semantic(SemA))] pub Dyn<17>);
impl ToTr for U1_5s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3, self.4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N1_5s { #[teleparse(semantic(SemB))] pub f0: Dyn<13>, pub f1: Dyn<14>, #[teleparse(semantic(SemA, SemC))] pub f2: Dyn<15>, #[teleparse(semantic(SemB, Op))] pub f3: Dyn<16>, #[teleparse(semantic(SemA))] pub f4: Dyn<17> }
impl ToTr for N1_5s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3, self.f4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E1_5s { #[teleparse(semantic(SemB))] V0(Dyn<13>), V1(Dyn<14>), #[teleparse(semantic(SemA, SemC))] V2(Dyn<15>), #[teleparse(semantic(SemB, Op))] V3(Dyn<16>), #[teleparse(semantic(SemA))] V4(Dyn<17>) }
impl ToTr for E1_5s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), Self::V4(x) => Tr::new(K::Alt(4), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U2_1p(pub Dyn<18>);
impl ToTr for U2_1p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N2_1p { pub f0: Dyn<18> }
impl ToTr for N2_1p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E2_1p { V0(Dyn<18>) }
impl ToTr for E2_1p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U2_1s(pub Dyn<18>);
impl ToTr for U2_1s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N2_1s { pub f0: Dyn<18> }
impl ToTr for N2_1s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E2_1s { V0(Dyn<18>) }
impl ToTr for E2_1s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U2_2p(pub Dyn<18>, pub Dyn<19>);
impl ToTr for U2_2p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N2_2p { pub f0: Dyn<18>, pub f1: Dyn<19> }
impl ToTr for N2_2p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E2_2p { V0(Dyn<18>), V1(Dyn<19>) }
impl ToTr for E2_2p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U2_2s(pub Dyn<18>, #[teleparse(semantic(SemA, SemC))] pub Dyn<19>);
impl ToTr for U2_2s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N2_2s { pub f0: Dyn<18>, #[teleparse(semantic(SemA, SemC))] pub f1: Dyn<19> }
impl ToTr for N2_2s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E2_2s { V0(Dyn<18>), #[teleparse(semantic(SemA, SemC))] V1(Dyn<19>) }
impl ToTr for E2_2s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U2_3p(pub Dyn<18>, pub Dyn<19>, pub Dyn<20>);
impl ToTr for U2_3p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N2_3p { pub f0: Dyn<18>, pub f1: Dyn<19>, pub f2: Dyn<20> }
impl ToTr for N2_3p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E2_3p { V0(Dyn<18>), V1(Dyn<19>), V2(Dyn<20>) }
impl ToTr for E2_3p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U2_3s(pub Dyn<18>, #[teleparse(semantic(SemA, SemC))] pub Dyn<19>, #[teleparse(semantic(SemB, Op))] pub Dyn<20>);
impl ToTr for U2_3s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N2_3s { pub f0: Dyn<18>, #[teleparse(semantic(SemA, SemC))] pub f1: Dyn<19>, #[teleparse(semantic(SemB, Op))] pub f2: Dyn<20> }
impl ToTr for N2_3s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E2_3s { V0(Dyn<18>), #[teleparse(semantic(SemA, SemC))] V1(Dyn<19>), #[teleparse(semantic(SemB, Op))] V2(Dyn<20>) }
impl ToTr for E2_3s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U2_4p(pub Dyn<18>, pub Dyn<19>, pub Dyn<20>, pub Dyn<21>);
impl ToTr for U2_4p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N2_4p { pub f0: Dyn<18>, pub f1: Dyn<19>, pub f2: Dyn<20>, pub f3: Dyn<21> }
impl ToTr for N2_4p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E2_4p { V0(Dyn<18>), V1(Dyn<19>), V2(Dyn<20>), V3(Dyn<21>) }
impl ToTr for E2_4p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U2_4s(pub Dyn<18>, #[teleparse(semantic(SemA, SemC))] pub Dyn<19>, #[teleparse(semantic(SemB, Op))] pub Dyn<20>, #[teleparse(semantic(SemA))] pub Dyn<21>);
impl ToTr for U2_4s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N2_4s { pub f0: Dyn<18>, #[teleparse(semantic(SemA, SemC))] pub f1: Dyn<19>, #[teleparse(semantic(SemB, Op))] pub f2: Dyn<20>, #[teleparse(semantic(SemA))] pub f3: Dyn<21> }
impl ToTr for N2_4s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E2_4s { V0(Dyn<18>), #[teleparse(semantic(SemA, SemC))] V1(Dyn<19>), #[teleparse(semantic(SemB, Op))] V2(Dyn<20>), #[teleparse(semantic(SemA))] V3(Dyn<21>) }
impl ToTr for E2_4s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U2_5p(pub Dyn<18>, pub Dyn<19>, pub Dyn<20>, pub Dyn<21>, pub Dyn<22>);
impl ToTr for U2_5p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3, self.4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N2_5p { pub f0: Dyn<18>, pub f1: Dyn<19>, pub f2: Dyn<20>, pub f3: Dyn<21>, pub f4: Dyn<22> }
impl ToTr for N2_5p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3, self.f4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E2_5p { V0(Dyn<18>), V1(Dyn<19>), V2(Dyn<20>), V3(Dyn<21>), V4(Dyn<22>) }
impl ToTr for E2_5p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), Self::V4(x) => Tr::new(K::Alt(4), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U2_5s(pub Dyn<18>, #[teleparse(semantic(SemA, SemC))] pub Dyn<19>, #[teleparse(semantic(SemB, Op))] pub Dyn<20>, #[teleparse(semantic(SemA))] pub Dyn<21>, #[teleparse(semantic(SemB))] pub Dyn<22>);
impl ToTr for U2_5s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3, self.4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N2_5s { pub f0: Dyn<18>, #[teleparse(semantic(SemA, SemC))] pub f1: Dyn<19>, #[teleparse(semantic(SemB, Op))] pub f2: Dyn<20>, #[teleparse(semantic(SemA))] pub f3: Dyn<21>, #[teleparse(semantic(SemB))] pub f4: Dyn<22> }
impl ToTr for N2_5s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3, self.f4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E2_5s { V0(Dyn<18>), #[teleparse(semantic(SemA, SemC))] V1(Dyn<19>), #[teleparse(semantic(SemB, Op))] V2(Dyn<20>), #[teleparse(semantic(SemA))] V3(Dyn<21>), #[teleparse(semantic(SemB))] V4(Dyn<22>) }
impl ToTr for E2_5s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), Self::V4(x) => Tr::new(K::Alt(4), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U3_1p(pub Dyn<23>);
impl ToTr for U3_1p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N3_1p { pub f0: Dyn<23> }
impl ToTr for N3_1p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E3_1p { V0(Dyn<23>) }
impl ToTr for E3_1p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U3_1s(#[teleparse(semantic(SemA, SemC))] pub Dyn<23>);
impl ToTr for U3_1s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N3_1s { #[teleparse(semantic(SemA, SemC))] pub f0: Dyn<23> }
impl ToTr for N3_1s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E3_1s { #[teleparse(semantic(SemA, SemC))] V0(Dyn<23>) }
impl ToTr for E3_1s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U3_2p(pub Dyn<23>, pub Dyn<24>);
impl ToTr for U3_2p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N3_2p { pub f0: Dyn<23>, pub f1: Dyn<24> }
impl ToTr for N3_2p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E3_2p { V0(Dyn<23>), V1(Dyn<24>) }
impl ToTr for E3_2p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U3_2s(#[teleparse(semantic(SemA, SemC))] pub Dyn<23>, #[teleparse(semantic(SemB, Op))] pub Dyn<24>);
impl ToTr for U3_2s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N3_2s { #[teleparse(semantic(SemA, SemC))] pub f0: Dyn<23>, #[teleparse(semantic(SemB, Op))] pub f1: Dyn<24> }
impl ToTr for N3_2s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E3_2s { #[teleparse(semantic(SemA, SemC))] V0(Dyn<23>), #[teleparse(semantic(SemB, Op))] V1(Dyn<24>) }
impl ToTr for E3_2s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U3_3p(pub Dyn<23>, pub Dyn<24>, pub Dyn<25>);
impl ToTr for U3_3p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N3_3p { pub f0: Dyn<23>, pub f1: Dyn<24>, pub f2: Dyn<25> }
impl ToTr for N3_3p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E3_3p { V0(Dyn<23>), V1(Dyn<24>), V2(Dyn<25>) }
impl ToTr for E3_3p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U3_3s(#[teleparse(semantic(SemA, SemC))] pub Dyn<23>, #[teleparse(semantic(SemB, Op))] pub Dyn<24>, #[teleparse(semantic(SemA))] pub Dyn<25>);
impl ToTr for U3_3s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N3_3s { #[teleparse(semantic(SemA, SemC))] pub f0: Dyn<23>, #[teleparse(semantic(SemB, Op))] pub f1: Dyn<24>, #[teleparse(semantic(SemA))] pub f2: Dyn<25> }
impl ToTr for N3_3s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E3_3s { #[teleparse(semantic(SemA, SemC))] V0(Dyn<23>), #[teleparse(semantic(SemB, Op))] V1(Dyn<24>), #[teleparse(semantic(SemA))] V2(Dyn<25>) }
impl ToTr for E3_3s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U3_4p(pub Dyn<23>, pub Dyn<24>, pub Dyn<25>, pub Dyn<26>);
impl ToTr for U3_4p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N3_4p { pub f0: Dyn<23>, pub f1: Dyn<24>, pub f2: Dyn<25>, pub f3: Dyn<26> }
impl ToTr for N3_4p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E3_4p { V0(Dyn<23>), V1(Dyn<24>), V2(Dyn<25>), V3(Dyn<26>) }
impl ToTr for E3_4p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U3_4s(#[teleparse(semantic(SemA, SemC))] pub Dyn<23>, #[teleparse(semantic(SemB, Op))] pub Dyn<24>, #[teleparse(semantic(SemA))] pub Dyn<25>, #[teleparse(semantic(SemB))] pub Dyn<26>);
impl ToTr for U3_4s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N3_4s { #[teleparse(semantic(SemA, SemC))] pub f0: Dyn<23>, #[teleparse(semantic(SemB, Op))] pub f1: Dyn<24>, #[teleparse(semantic(SemA))] pub f2: Dyn<25>, #[teleparse(semantic(SemB))] pub f3: Dyn<26> }
impl ToTr for N3_4s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E3_4s { #[teleparse(semantic(SemA, SemC))] V0(Dyn<23>), #[teleparse(semantic(SemB, Op))] V1(Dyn<24>), #[teleparse(semantic(SemA))] V2(Dyn<25>), #[teleparse(semantic(SemB))] V3(Dyn<26>) }
impl ToTr for E3_4s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U3_5p(pub Dyn<23>, pub Dyn<24>, pub Dyn<25>, pub Dyn<26>, pub Dyn<27>);
impl ToTr for U3_5p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3, self.4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N3_5p { pub f0: Dyn<23>, pub f1: Dyn<24>, pub f2: Dyn<25>, pub f3: Dyn<26>, pub f4: Dyn<27> }
impl ToTr for N3_5p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3, self.f4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E3_5p { V0(Dyn<23>), V1(Dyn<24>), V2(Dyn<25>), V3(Dyn<26>), V4(Dyn<27>) }
impl ToTr for E3_5p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), Self::V4(x) => Tr::new(K::Alt(4), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U3_5s(#[teleparse(semantic(SemA, SemC))] pub Dyn<23>, #[teleparse(semantic(SemB, Op))] pub Dyn<24>, #[teleparse(semantic(SemA))] pub Dyn<25>, #[teleparse(semantic(SemB))] pub Dyn<26>, pub Dyn<27>);
impl ToTr for U3_5s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3, self.4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N3_5s { #[teleparse(semantic(SemA, SemC))] pub f0: Dyn<23>, #[teleparse(semantic(SemB, Op))] pub f1: Dyn<24>, #[teleparse(semantic(SemA))] pub f2: Dyn<25>, #[teleparse(semantic(SemB))] pub f3: Dyn<26>, pub f4: Dyn<27> }
impl ToTr for N3_5s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3, self.f4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E3_5s { #[teleparse(semantic(SemA, SemC))] V0(Dyn<23>), #[teleparse(semantic(SemB, Op))] V1(Dyn<24>), #[teleparse(semantic(SemA))] V2(Dyn<25>), #[teleparse(semantic(SemB))] V3(Dyn<26>), V4(Dyn<27>) }
impl ToTr for E3_5s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), Self::V4(x) => Tr::new(K::Alt(4), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U4_1p(pub Dyn<28>);
impl ToTr for U4_1p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N4_1p { pub f0: Dyn<28> }
impl ToTr for N4_1p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E4_1p { V0(Dyn<28>) }
impl ToTr for E4_1p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U4_1s(#[teleparse(semantic(SemB, Op))] pub Dyn<28>);
impl ToTr for U4_1s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N4_1s { #[teleparse(semantic(SemB, Op))] pub f0: Dyn<28> }
impl ToTr for N4_1s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E4_1s { #[teleparse(semantic(SemB, Op))] V0(Dyn<28>) }
impl ToTr for E4_1s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U4_2p(pub Dyn<28>, pub Dyn<29>);
impl ToTr for U4_2p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N4_2p { pub f0: Dyn<28>, pub f1: Dyn<29> }
impl ToTr for N4_2p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E4_2p { V0(Dyn<28>), V1(Dyn<29>) }
impl ToTr for E4_2p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U4_2s(#[teleparse(semantic(SemB, Op))] pub Dyn<28>, #[teleparse(semantic(SemA))] pub Dyn<29>);
impl ToTr for U4_2s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N4_2s { #[teleparse(semantic(SemB, Op))] pub f0: Dyn<28>, #[teleparse(semantic(SemA))] pub f1: Dyn<29> }
impl ToTr for N4_2s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E4_2s { #[teleparse(semantic(SemB, Op))] V0(Dyn<28>), #[teleparse(semantic(SemA))] V1(Dyn<29>) }
impl ToTr for E4_2s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U4_3p(pub Dyn<28>, pub Dyn<29>, pub Dyn<30>);
impl ToTr for U4_3p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N4_3p { pub f0: Dyn<28>, pub f1: Dyn<29>, pub f2: Dyn<30> }
impl ToTr for N4_3p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E4_3p { V0(Dyn<28>), V1(Dyn<29>), V2(Dyn<30>) }
impl ToTr for E4_3p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U4_3s(#[teleparse(semantic(SemB, Op))] pub Dyn<28>, #[teleparse(semantic(SemA))] pub Dyn<29>, #[teleparse(semantic(SemB))] pub Dyn<30>);
impl ToTr for U4_3s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N4_3s { #[teleparse(semantic(SemB, Op))] pub f0: Dyn<28>, #[teleparse(semantic(SemA))] pub f1: Dyn<29>, #[teleparse(semantic(SemB))] pub f2: Dyn<30> }
impl ToTr for N4_3s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E4_3s { #[teleparse(semantic(SemB, Op))] V0(Dyn<28>), #[teleparse(semantic(SemA))] V1(Dyn<29>), #[teleparse(semantic(SemB))] V2(Dyn<30>) }
impl ToTr for E4_3s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U4_4p(pub Dyn<28>, pub Dyn<29>, pub Dyn<30>, pub Dyn<31>);
impl ToTr for U4_4p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N4_4p { pub f0: Dyn<28>, pub f1: Dyn<29>, pub f2: Dyn<30>, pub f3: Dyn<31> }
impl ToTr for N4_4p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E4_4p { V0(Dyn<28>), V1(Dyn<29>), V2(Dyn<30>), V3(Dyn<31>) }
impl ToTr for E4_4p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U4_4s(#[teleparse(semantic(SemB, Op))] pub Dyn<28>, #[teleparse(semantic(SemA))] pub Dyn<29>, #[teleparse(semantic(SemB))] pub Dyn<30>, pub Dyn<31>);
impl ToTr for U4_4s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N4_4s { #[teleparse(semantic(SemB, Op))] pub f0: Dyn<28>, #[teleparse(semantic(SemA))] pub f1: Dyn<29>, #[teleparse(semantic(SemB))] pub f2: Dyn<30>, pub f3: Dyn<31> }
impl ToTr for N4_4s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E4_4s { #[teleparse(semantic(SemB, Op))] V0(Dyn<28>), #[teleparse(semantic(SemA))] V1(Dyn<29>), #[teleparse(semantic(SemB))] V2(Dyn<30>), V3(Dyn<31>) }
impl ToTr for E4_4s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U4_5p(pub Dyn<28>, pub Dyn<29>, pub Dyn<30>, pub Dyn<31>, pub Dyn<32>);
impl ToTr for U4_5p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3, self.4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N4_5p { pub f0: Dyn<28>, pub f1: Dyn<29>, pub f2: Dyn<30>, pub f3: Dyn<31>, pub f4: Dyn<32> }
impl ToTr for N4_5p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3, self.f4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E4_5p { V0(Dyn<28>), V1(Dyn<29>), V2(Dyn<30>), V3(Dyn<31>), V4(Dyn<32>) }
impl ToTr for E4_5p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), Self::V4(x) => Tr::new(K::Alt(4), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U4_5s(#[teleparse(semantic(SemB, Op))] pub Dyn<28>, #[teleparse(semantic(SemA))] pub Dyn<29>, #[teleparse(semantic(SemB))] pub Dyn<30>, pub Dyn<31>, #[teleparse(semantic(SemA, SemC))] pub Dyn<32>);
impl ToTr for U4_5s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3, self.4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N4_5s { #[teleparse(semantic(SemB, Op))] pub f0: Dyn<28>, #[teleparse(semantic(SemA))] pub f1: Dyn<29>, #[teleparse(semantic(SemB))] pub f2: Dyn<30>, pub f3: Dyn<31>, #[teleparse(semantic(SemA, SemC))] pub f4: Dyn<32> }
impl ToTr for N4_5s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3, self.f4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E4_5s { #[teleparse(semantic(SemB, Op))] V0(Dyn<28>), #[teleparse(semantic(SemA))] V1(Dyn<29>), #[teleparse(semantic(SemB))] V2(Dyn<30>), V3(Dyn<31>), #[teleparse(semantic(SemA, SemC))] V4(Dyn<32>) }
impl ToTr for E4_5s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), Self::V4(x) => Tr::new(K::Alt(4), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U5_1p(pub Dyn<33>);
impl ToTr for U5_1p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N5_1p { pub f0: Dyn<33> }
impl ToTr for N5_1p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E5_1p { V0(Dyn<33>) }
impl ToTr for E5_1p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U5_1s(#[teleparse(semantic(SemA))] pub Dyn<33>);
impl ToTr for U5_1s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N5_1s { #[teleparse(semantic(SemA))] pub f0: Dyn<33> }
impl ToTr for N5_1s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E5_1s { #[teleparse(semantic(SemA))] V0(Dyn<33>) }
impl ToTr for E5_1s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U5_2p(pub Dyn<33>, pub Dyn<34>);
impl ToTr for U5_2p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N5_2p { pub f0: Dyn<33>, pub f1: Dyn<34> }
impl ToTr for N5_2p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E5_2p { V0(Dyn<33>), V1(Dyn<34>) }
impl ToTr for E5_2p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U5_2s(#[teleparse(semantic(SemA))] pub Dyn<33>, #[teleparse(semantic(SemB))] pub Dyn<34>);
impl ToTr for U5_2s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N5_2s { #[teleparse(semantic(SemA))] pub f0: Dyn<33>, #[teleparse(semantic(SemB))] pub f1: Dyn<34> }
impl ToTr for N5_2s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E5_2s { #[teleparse(semantic(SemA))] V0(Dyn<33>), #[teleparse(semantic(SemB))] V1(Dyn<34>) }
impl ToTr for E5_2s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U5_3p(pub Dyn<33>, pub Dyn<34>, pub Dyn<35>);
impl ToTr for U5_3p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N5_3p { pub f0: Dyn<33>, pub f1: Dyn<34>, pub f2: Dyn<35> }
impl ToTr for N5_3p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E5_3p { V0(Dyn<33>), V1(Dyn<34>), V2(Dyn<35>) }
impl ToTr for E5_3p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U5_3s(#[teleparse(semantic(SemA))] pub Dyn<33>, #[teleparse(semantic(SemB))] pub Dyn<34>, pub Dyn<35>);
impl ToTr for U5_3s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N5_3s { #[teleparse(semantic(SemA))] pub f0: Dyn<33>, #[teleparse(semantic(SemB))] pub f1: Dyn<34>, pub f2: Dyn<35> }
impl ToTr for N5_3s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E5_3s { #[teleparse(semantic(SemA))] V0(Dyn<33>), #[teleparse(semantic(SemB))] V1(Dyn<34>), V2(Dyn<35>) }
impl ToTr for E5_3s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U5_4p(pub Dyn<33>, pub Dyn<34>, pub Dyn<35>, pub Dyn<36>);
impl ToTr for U5_4p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N5_4p { pub f0: Dyn<33>, pub f1: Dyn<34>, pub f2: Dyn<35>, pub f3: Dyn<36> }
impl ToTr for N5_4p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E5_4p { V0(Dyn<33>), V1(Dyn<34>), V2(Dyn<35>), V3(Dyn<36>) }
impl ToTr for E5_4p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U5_4s(#[teleparse(semantic(SemA))] pub Dyn<33>, #[teleparse(semantic(SemB))] pub Dyn<34>, pub Dyn<35>, #[teleparse(semantic(SemA, SemC))] pub Dyn<36>);
impl ToTr for U5_4s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N5_4s { #[teleparse(semantic(SemA))] pub f0: Dyn<33>, #[teleparse(semantic(SemB))] pub f1: Dyn<34>, pub f2: Dyn<35>, #[teleparse(semantic(SemA, SemC))] pub f3: Dyn<36> }
impl ToTr for N5_4s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E5_4s { #[teleparse(semantic(SemA))] V0(Dyn<33>), #[teleparse(semantic(SemB))] V1(Dyn<34>), V2(Dyn<35>), #[teleparse(semantic(SemA, SemC))] V3(Dyn<36>) }
impl ToTr for E5_4s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U5_5p(pub Dyn<33>, pub Dyn<34>, pub Dyn<35>, pub Dyn<36>, pub Dyn<37>);
impl ToTr for U5_5p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3, self.4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N5_5p { pub f0: Dyn<33>, pub f1: Dyn<34>, pub f2: Dyn<35>, pub f3: Dyn<36>, pub f4: Dyn<37> }
impl ToTr for N5_5p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3, self.f4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E5_5p { V0(Dyn<33>), V1(Dyn<34>), V2(Dyn<35>), V3(Dyn<36>), V4(Dyn<37>) }
impl ToTr for E5_5p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), Self::V4(x) => Tr::new(K::Alt(4), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U5_5s(#[teleparse(semantic(SemA))] pub Dyn<33>, #[teleparse(semantic(SemB))] pub Dyn<34>, pub Dyn<35>, #[teleparse(semantic(SemA, SemC))] pub Dyn<36>, #[teleparse(semantic(SemB, Op))] pub Dyn<37>);
impl ToTr for U5_5s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3, self.4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N5_5s { #[teleparse(semantic(SemA))] pub f0: Dyn<33>, #[teleparse(semantic(SemB))] pub f1: Dyn<34>, pub f2: Dyn<35>, #[teleparse(semantic(SemA, SemC))] pub f3: Dyn<36>, #[teleparse(semantic(SemB, Op))] pub f4: Dyn<37> }
impl ToTr for N5_5s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3, self.f4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E5_5s { #[teleparse(semantic(SemA))] V0(Dyn<33>), #[teleparse(semantic(SemB))] V1(Dyn<34>), V2(Dyn<35>), #[teleparse(semantic(SemA, SemC))] V3(Dyn<36>), #[teleparse(semantic(SemB, Op))] V4(Dyn<37>) }
impl ToTr for E5_5s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), Self::V4(x) => Tr::new(K::Alt(4), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U6_1p(pub Dyn<38>);
impl ToTr for U6_1p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N6_1p { pub f0: Dyn<38> }
impl ToTr for N6_1p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E6_1p { V0(Dyn<38>) }
impl ToTr for E6_1p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U6_1s(#[teleparse(semantic(SemB))] pub Dyn<38>);
impl ToTr for U6_1s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N6_1s { #[teleparse(semantic(SemB))] pub f0: Dyn<38> }
impl ToTr for N6_1s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E6_1s { #[teleparse(semantic(SemB))] V0(Dyn<38>) }
impl ToTr for E6_1s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U6_2p(pub Dyn<38>, pub Dyn<39>);
impl ToTr for U6_2p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N6_2p { pub f0: Dyn<38>, pub f1: Dyn<39> }
impl ToTr for N6_2p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E6_2p { V0(Dyn<38>), V1(Dyn<39>) }
impl ToTr for E6_2p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U6_2s(#[teleparse(semantic(SemB))] pub Dyn<38>, pub Dyn<39>);
impl ToTr for U6_2s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N6_2s { #[teleparse(semantic(SemB))] pub f0: Dyn<38>, pub f1: Dyn<39> }
impl ToTr for N6_2s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E6_2s { #[teleparse(semantic(SemB))] V0(Dyn<38>), V1(Dyn<39>) }
impl ToTr for E6_2s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U6_3p(pub Dyn<38>, pub Dyn<39>, pub Dyn<40>);
impl ToTr for U6_3p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N6_3p { pub f0: Dyn<38>, pub f1: Dyn<39>, pub f2: Dyn<40> }
impl ToTr for N6_3p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E6_3p { V0(Dyn<38>), V1(Dyn<39>), V2(Dyn<40>) }
impl ToTr for E6_3p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U6_3s(#[teleparse(semantic(SemB))] pub Dyn<38>, pub Dyn<39>, #[teleparse(semantic(SemA, SemC))] pub Dyn<40>);
impl ToTr for U6_3s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N6_3s { #[teleparse(semantic(SemB))] pub f0: Dyn<38>, pub f1: Dyn<39>, #[teleparse(semantic(SemA, SemC))] pub f2: Dyn<40> }
impl ToTr for N6_3s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E6_3s { #[teleparse(semantic(SemB))] V0(Dyn<38>), V1(Dyn<39>), #[teleparse(semantic(SemA, SemC))] V2(Dyn<40>) }
impl ToTr for E6_3s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U6_4p(pub Dyn<38>, pub Dyn<39>, pub Dyn<40>, pub Dyn<41>);
impl ToTr for U6_4p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N6_4p { pub f0: Dyn<38>, pub f1: Dyn<39>, pub f2: Dyn<40>, pub f3: Dyn<41> }
impl ToTr for N6_4p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E6_4p { V0(Dyn<38>), V1(Dyn<39>), V2(Dyn<40>), V3(Dyn<41>) }
impl ToTr for E6_4p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U6_4s(#[teleparse(semantic(SemB))] pub Dyn<38>, pub Dyn<39>, #[teleparse(semantic(SemA, SemC))] pub Dyn<40>, #[teleparse(semantic(SemB, Op))] pub Dyn<41>);
impl ToTr for U6_4s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N6_4s { #[teleparse(semantic(SemB))] pub f0: Dyn<38>, pub f1: Dyn<39>, #[teleparse(semantic(SemA, SemC))] pub f2: Dyn<40>, #[teleparse(semantic(SemB, Op))] pub f3: Dyn<41> }
impl ToTr for N6_4s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E6_4s { #[teleparse(semantic(SemB))] V0(Dyn<38>), V1(Dyn<39>), #[teleparse(semantic(SemA, SemC))] V2(Dyn<40>), #[teleparse(semantic(SemB, Op))] V3(Dyn<41>) }
impl ToTr for E6_4s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U6_5p(pub Dyn<38>, pub Dyn<39>, pub Dyn<40>, pub Dyn<41>, pub Dyn<42>);
impl ToTr for U6_5p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3, self.4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N6_5p { pub f0: Dyn<38>, pub f1: Dyn<39>, pub f2: Dyn<40>, pub f3: Dyn<41>, pub f4: Dyn<42> }
impl ToTr for N6_5p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3, self.f4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E6_5p { V0(Dyn<38>), V1(Dyn<39>), V2(Dyn<40>), V3(Dyn<41>), V4(Dyn<42>) }
impl ToTr for E6_5p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), Self::V4(x) => Tr::new(K::Alt(4), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U6_5s(#[teleparse(semantic(SemB))] pub Dyn<38>, pub Dyn<39>, #[teleparse(semantic(SemA, SemC))] pub Dyn<40>, #[teleparse(semantic(SemB, Op))] pub Dyn<41>, #[teleparse(semantic(SemA))] pub Dyn<42>);
impl ToTr for U6_5s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3, self.4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N6_5s { #[teleparse(semantic(SemB))] pub f0: Dyn<38>, pub f1: Dyn<39>, #[teleparse(semantic(SemA, SemC))] pub f2: Dyn<40>, #[teleparse(semantic(SemB, Op))] pub f3: Dyn<41>, #[teleparse(semantic(SemA))] pub f4: Dyn<42> }
impl ToTr for N6_5s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3, self.f4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E6_5s { #[teleparse(semantic(SemB))] V0(Dyn<38>), V1(Dyn<39>), #[teleparse(semantic(SemA, SemC))] V2(Dyn<40>), #[teleparse(semantic(SemB, Op))] V3(Dyn<41>), #[teleparse(semantic(SemA))] V4(Dyn<42>) }
impl ToTr for E6_5s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), Self::V4(x) => Tr::new(K::Alt(4), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U7_1p(pub Dyn<43>);
impl ToTr for U7_1p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N7_1p { pub f0: Dyn<43> }
impl ToTr for N7_1p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E7_1p { V0(Dyn<43>) }
impl ToTr for E7_1p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U7_1s(pub Dyn<43>);
impl ToTr for U7_1s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N7_1s { pub f0: Dyn<43> }
impl ToTr for N7_1s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E7_1s { V0(Dyn<43>) }
impl ToTr for E7_1s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U7_2p(pub Dyn<43>, pub Dyn<44>);
impl ToTr for U7_2p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N7_2p { pub f0: Dyn<43>, pub f1: Dyn<44> }
impl ToTr for N7_2p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E7_2p { V0(Dyn<43>), V1(Dyn<44>) }
impl ToTr for E7_2p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U7_2s(pub Dyn<43>, #[teleparse(semantic(SemA, SemC))] pub Dyn<44>);
impl ToTr for U7_2s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N7_2s { pub f0: Dyn<43>, #[teleparse(semantic(SemA, SemC))] pub f1: Dyn<44> }
impl ToTr for N7_2s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E7_2s { V0(Dyn<43>), #[teleparse(semantic(SemA, SemC))] V1(Dyn<44>) }
impl ToTr for E7_2s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U7_3p(pub Dyn<43>, pub Dyn<44>, pub Dyn<45>);
impl ToTr for U7_3p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N7_3p { pub f0: Dyn<43>, pub f1: Dyn<44>, pub f2: Dyn<45> }
impl ToTr for N7_3p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E7_3p { V0(Dyn<43>), V1(Dyn<44>), V2(Dyn<45>) }
impl ToTr for E7_3p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U7_3s(pub Dyn<43>, #[teleparse(semantic(SemA, SemC))] pub Dyn<44>, #[teleparse(semantic(SemB, Op))] pub Dyn<45>);
impl ToTr for U7_3s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N7_3s { pub f0: Dyn<43>, #[teleparse(semantic(SemA, SemC))] pub f1: Dyn<44>, #[teleparse(semantic(SemB, Op))] pub f2: Dyn<45> }
impl ToTr for N7_3s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E7_3s { V0(Dyn<43>), #[teleparse(semantic(SemA, SemC))] V1(Dyn<44>), #[teleparse(semantic(SemB, Op))] V2(Dyn<45>) }
impl ToTr for E7_3s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U7_4p(pub Dyn<43>, pub Dyn<44>, pub Dyn<45>, pub Dyn<46>);
impl ToTr for U7_4p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N7_4p { pub f0: Dyn<43>, pub f1: Dyn<44>, pub f2: Dyn<45>, pub f3: Dyn<46> }
impl ToTr for N7_4p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E7_4p { V0(Dyn<43>), V1(Dyn<44>), V2(Dyn<45>), V3(Dyn<46>) }
impl ToTr for E7_4p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U7_4s(pub Dyn<43>, #[teleparse(semantic(SemA, SemC))] pub Dyn<44>, #[teleparse(semantic(SemB, Op))] pub Dyn<45>, #[teleparse(semantic(SemA))] pub Dyn<46>);
impl ToTr for U7_4s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N7_4s { pub f0: Dyn<43>, #[teleparse(semantic(SemA, SemC))] pub f1: Dyn<44>, #[teleparse(semantic(SemB, Op))] pub f2: Dyn<45>, #[teleparse(semantic(SemA))] pub f3: Dyn<46> }
impl ToTr for N7_4s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E7_4s { V0(Dyn<43>), #[teleparse(semantic(SemA, SemC))] V1(Dyn<44>), #[teleparse(semantic(SemB, Op))] V2(Dyn<45>), #[teleparse(semantic(SemA))] V3(Dyn<46>) }
impl ToTr for E7_4s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U7_5p(pub Dyn<43>, pub Dyn<44>, pub Dyn<45>, pub Dyn<46>, pub Dyn<47>);
impl ToTr for U7_5p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3, self.4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N7_5p { pub f0: Dyn<43>, pub f1: Dyn<44>, pub f2: Dyn<45>, pub f3: Dyn<46>, pub f4: Dyn<47> }
impl ToTr for N7_5p { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3, self.f4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E7_5p { V0(Dyn<43>), V1(Dyn<44>), V2(Dyn<45>), V3(Dyn<46>), V4(Dyn<47>) }
impl ToTr for E7_5p { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), Self::V4(x) => Tr::new(K::Alt(4), lo, hi, vec![x.tr()]), } } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct U7_5s(pub Dyn<43>, #[teleparse(semantic(SemA, SemC))] pub Dyn<44>, #[teleparse(semantic(SemB, Op))] pub Dyn<45>, #[teleparse(semantic(SemA))] pub Dyn<46>, #[teleparse(semantic(SemB))] pub Dyn<47>);
impl ToTr for U7_5s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.0, self.1, self.2, self.3, self.4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct N7_5s { pub f0: Dyn<43>, #[teleparse(semantic(SemA, SemC))] pub f1: Dyn<44>, #[teleparse(semantic(SemB, Op))] pub f2: Dyn<45>, #[teleparse(semantic(SemA))] pub f3: Dyn<46>, #[teleparse(semantic(SemB))] pub f4: Dyn<47> }
impl ToTr for N7_5s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [self.f0, self.f1, self.f2, self.f3, self.f4]) } }
#[derive_syntax]
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub enum E7_5s { V0(Dyn<43>), #[teleparse(semantic(SemA, SemC))] V1(Dyn<44>), #[teleparse(semantic(SemB, Op))] V2(Dyn<45>), #[teleparse(semantic(SemA))] V3(Dyn<46>), #[teleparse(semantic(SemB))] V4(Dyn<47>) }
impl ToTr for E7_5s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { Self::V0(x) => Tr::new(K::Alt(0), lo, hi, vec![x.tr()]), Self::V1(x) => Tr::new(K::Alt(1), lo, hi, vec![x.tr()]), Self::V2(x) => Tr::new(K::Alt(2), lo, hi, vec![x.tr()]), Self::V3(x) => Tr::new(K::Alt(3), lo, hi, vec![x.tr()]), Self::V4(x) => Tr::new(K::Alt(4), lo, hi, vec![x.tr()]), } } }

pub fn structural<V: Visitor>(s: usize, shape: Shape, n: usize, sem: bool, v: V) -> V::Out {
    match (s, shape, n, sem) {
        (0, Shape::Unnamed, 1, false) => v.visit::<U0_1p>(),
        (0, Shape::Named, 1, false) => v.visit::<N0_1p>(),
        (0, Shape::Enum, 1, false) => v.visit::<E0_1p>(),
        (0, Shape::Unnamed, 1, true) => v.visit::<U0_1s>(),
        (0, Shape::Named, 1, true) => v.visit::<N0_1s>(),
        (0, Shape::Enum, 1, true) => v.visit::<E0_1s>(),
        (0, Shape::Unnamed, 2, false) => v.visit::<U0_2p>(),
        (0, Shape::Named, 2, false) => v.visit::<N0_2p>(),
        (0, Shape::Enum, 2, false) => v.visit::<E0_2p>(),
        (0, Shape::Unnamed, 2, true) => v.visit::<U0_2s>(),
        (0, Shape::Named, 2, true) => v.visit::<N0_2s>(),
        (0, Shape::Enum, 2, true) => v.visit::<E0_2s>(),
        (0, Shape::Unnamed, 3, false) => v.visit::<U0_3p>(),
        (0, Shape::Named, 3, false) => v.visit::<N0_3p>(),
        (0, Shape::Enum, 3, false) => v.visit::<E0_3p>(),
        (0, Shape::Unnamed, 3, true) => v.visit::<U0_3s>(),
        (0, Shape::Named, 3, true) => v.visit::<N0_3s>(),
        (0, Shape::Enum, 3, true) => v.visit::<E0_3s>(),
        (0, Shape::Unnamed, 4, false) => v.visit::<U0_4p>(),
        (0, Shape::Named, 4, false) => v.visit::<N0_4p>(),
        (0, Shape::Enum, 4, false) => v.visit::<E0_4p>(),
        (0, Shape::Unnamed, 4, true) => v.visit::<U0_4s>(),
        (0, Shape::Named, 4, true) => v.visit::<N0_4s>(),
        (0, Shape::Enum, 4, true) => v.visit::<E0_4s>(),
        (0, Shape::Unnamed, 5, false) => v.visit::<U0_5p>(),
        (0, Shape::Named, 5, false) => v.visit::<N0_5p>(),
        (0, Shape::Enum, 5, false) => v.visit::<E0_5p>(),
        (0, Shape::Unnamed, 5, true) => v.visit::<U0_5s>(),
        (0, Shape::Named, 5, true) => v.visit::<N0_5s>(),
        (0, Shape::Enum, 5, true) => v.visit::<E0_5s>(),
        (0, Shape::Tuple, 2, _) => v.visit::<(Dyn<8>, Dyn<9>)>(),
        (0, Shape::Tuple, 3, _) => v.visit::<(Dyn<8>, Dyn<9>, Dyn<10>)>(),
        (0, Shape::Tuple, 4, _) => v.visit::<(Dyn<8>, Dyn<9>, Dyn<10>, Dyn<11>)>(),
        (0, Shape::Tuple, 5, _) => v.visit::<(Dyn<8>, Dyn<9>, Dyn<10>, Dyn<11>, Dyn<12>)>(),
        (0, Shape::Split, _, _) => v.visit::<tp::Split<Dyn<8>, Dyn<9>>>(),
        (0, Shape::Punct, _, _) => v.visit::<tp::Punct<Dyn<8>, Dyn<9>>>(),
        (0, Shape::Recover, _, _) => v.visit::<tp::Recover<Dyn<8>, Dyn<9>>>(),
        (1, Shape::Unnamed, 1, false) => v.visit::<U1_1p>(),
        (1, Shape::Named, 1, false) => v.visit::<N1_1p>(),
        (1, Shape::Enum, 1, false) => v.visit::<E1_1p>(),
        (1, Shape::Unnamed, 1, true) => v.visit::<U1_1s>(),
        (1, Shape::Named, 1, true) => v.visit::<N1_1s>(),
        (1, Shape::Enum, 1, true) => v.visit::<E1_1s>(),
        (1, Shape::Unnamed, 2, false) => v.visit::<U1_2p>(),
        (1, Shape::Named, 2, false) => v.visit::<N1_2p>(),
        (1, Shape::Enum, 2, false) => v.visit::<E1_2p>(),
        (1, Shape::Unnamed, 2, true) => v.visit::<U1_2s>(),
        (1, Shape::Named, 2, true) => v.visit::<N1_2s>(),
        (1, Shape::Enum, 2, true) => v.visit::<E1_2s>(),
        (1, Shape::Unnamed, 3, false) => v.visit::<U1_3p>(),
        (1, Shape::Named, 3, false) => v.visit::<N1_3p>(),
        (1, Shape::Enum, 3, false) => v.visit::<E1_3p>(),
        (1, Shape::Unnamed, 3, true) => v.visit::<U1_3s>(),
        (1, Shape::Named, 3, true) => v.visit::<N1_3s>(),
        (1, Shape::Enum, 3, true) => v.visit::<E1_3s>(),
        (1, Shape::Unnamed, 4, false) => v.visit::<U1_4p>(),
        (1, Shape::Named, 4, false) => v.visit::<N1_4p>(),
        (1, Shape::Enum, 4, false) => v.visit::<E1_4p>(),
        (1, Shape::Unnamed, 4, true) => v.visit::<U1_4s>(),
        (1, Shape::Named, 4, true) => v.visit::<N1_4s>(),
        (1, Shape::Enum, 4, true) => v.visit::<E1_4s>(),
        (1, Shape::Unnamed, 5, false) => v.visit::<U1_5p>(),
        (1, Shape::Named, 5, false) => v.visit::<N1_5p>(),
        (1, Shape::Enum, 5, false) => v.visit::<E1_5p>(),
        (1, Shape::Unnamed, 5, true) => v.visit::<U1_5s>(),
        (1, Shape::Named, 5, true) => v.visit::<N1_5s>(),
        (1, Shape::Enum, 5, true) => v.visit::<E1_5s>(),
        (1, Shape::Tuple, 2, _) => v.visit::<(Dyn<13>, Dyn<14>)>(),
        (1, Shape::Tuple, 3, _) => v.visit::<(Dyn<13>, Dyn<14>, Dyn<15>)>(),
        (1, Shape::Tuple, 4, _) => v.visit::<(Dyn<13>, Dyn<14>, Dyn<15>, Dyn<16>)>(),
        (1, Shape::Tuple, 5, _) => v.visit::<(Dyn<13>, Dyn<14>, Dyn<15>, Dyn<16>, Dyn<17>)>(),
        (1, Shape::Split, _, _) => v.visit::<tp::Split<Dyn<13>, Dyn<14>>>(),
        (1, Shape::Punct, _, _) => v.visit::<tp::Punct<Dyn<13>, Dyn<14>>>(),
        (1, Shape::Recover, _, _) => v.visit::<tp::Recover<Dyn<13>, Dyn<14>>>(),
        (2, Shape::Unnamed, 1, false) => v.visit::<U2_1p>(),
        (2, Shape::Named, 1, false) => v.visit::<N2_1p>(),
        (2, Shape::Enum, 1, false) => v.visit::<E2_1p>(),
        (2, Shape::Unnamed, 1, true) => v.visit::<U2_1s>(),
        (2, Shape::Named, 1, true) => v.visit::<N2_1s>(),
        (2, Shape::Enum, 1, true) => v.visit::<E2_1s>(),
        (2, Shape::Unnamed, 2, false) => v.visit::<U2_2p>(),
        (2, Shape::Named, 2, false) => v.visit::<N2_2p>(),
        (2, Shape::Enum, 2, false) => v.visit::<E2_2p>(),
        (2, Shape::Unnamed, 2, true) => v.visit::<U2_2s>(),
        (2, Shape::Named, 2, true) => v.visit::<N2_2s>(),
        (2, Shape::Enum, 2, true) => v.visit::<E2_2s>(),
        (2, Shape::Unnamed, 3, false) => v.visit::<U2_3p>(),
        (2, Shape::Named, 3, false) => v.visit::<N2_3p>(),
        (2, Shape::Enum, 3, false) => v.visit::<E2_3p>(),
        (2, Shape::Unnamed, 3, true) => v.visit::<U2_3s>(),
        (2, Shape::Named, 3, true) => v.visit::<N2_3s>(),
        (2, Shape::Enum, 3, true) => v.visit::<E2_3s>(),
        (2, Shape::Unnamed, 4, false) => v.visit::<U2_4p>(),
        (2, Shape::Named, 4, false) => v.visit::<N2_4p>(),
        (2, Shape::Enum, 4, false) => v.visit::<E2_4p>(),
        (2, Shape::Unnamed, 4, true) => v.visit::<U2_4s>(),
        (2, Shape::Named, 4, true) => v.visit::<N2_4s>(),
        (2, Shape::Enum, 4, true) => v.visit::<E2_4s>(),
        (2, Shape::Unnamed, 5, false) => v.visit::<U2_5p>(),
        (2, Shape::Named, 5, false) => v.visit::<N2_5p>(),
        (2, Shape::Enum, 5, false) => v.visit::<E2_5p>(),
        (2, Shape::Unnamed, 5, true) => v.visit::<U2_5s>(),
        (2, Shape::Named, 5, true) => v.visit::<N2_5s>(),
        (2, Shape::Enum, 5, true) => v.visit::<E2_5s>(),
        (2, Shape::Tuple, 2, _) => v.visit::<(Dyn<18>, Dyn<19>)>(),
        (2, Shape::Tuple, 3, _) => v.visit::<(Dyn<18>, Dyn<19>, Dyn<20>)>(),
        (2, Shape::Tuple, 4, _) => v.visit::<(Dyn<18>, Dyn<19>, Dyn<20>, Dyn<21>)>(),
        (2, Shape::Tuple, 5, _) => v.visit::<(Dyn<18>, Dyn<19>, Dyn<20>, Dyn<21>, Dyn<22>)>(),
        (2, Shape::Split, _, _) => v.visit::<tp::Split<Dyn<18>, Dyn<19>>>(),
        (2, Shape::Punct, _, _) => v.visit::<tp::Punct<Dyn<18>, Dyn<19>>>(),
        (2, Shape::Recover, _, _) => v.visit::<tp::Recover<Dyn<18>, Dyn<19>>>(),
        (3, Shape::Unnamed, 1, false) => v.visit::<U3_1p>(),
        (3, Shape::Named, 1, false) => v.visit::<N3_1p>(),
        (3, Shape::Enum, 1, false) => v.visit::<E3_1p>(),
        (3, Shape::Unnamed, 1, true) => v.visit::<U3_1s>(),
        (3, Shape::Named, 1, true) => v.visit::<N3_1s>(),
        (3, Shape::Enum, 1, true) => v.visit::<E3_1s>(),
        (3, Shape::Unnamed, 2, false) => v.visit::<U3_2p>(),
        (3, Shape::Named, 2, false) => v.visit::<N3_2p>(),
        (3, Shape::Enum, 2, false) => v.visit::<E3_2p>(),
        (3, Shape::Unnamed, 2, true) => v.visit::<U3_2s>(),
        (3, Shape::Named, 2, true) => v.visit::<N3_2s>(),
        (3, Shape::Enum, 2, true) => v.visit::<E3_2s>(),
        (3, Shape::Unnamed, 3, false) => v.visit::<U3_3p>(),
        (3, Shape::Named, 3, false) => v.visit::<N3_3p>(),
        (3, Shape::Enum, 3, false) => v.visit::<E3_3p>(),
        (3, Shape::Unnamed, 3, true) => v.visit::<U3_3s>(),
        (3, Shape::Named, 3, true) => v.visit::<N3_3s>(),
        (3, Shape::Enum, 3, true) => v.visit::<E3_3s>(),
        (3, Shape::Unnamed, 4, false) => v.visit::<U3_4p>(),
        (3, Shape::Named, 4, false) => v.visit::<N3_4p>(),
        (3, Shape::Enum, 4, false) => v.visit::<E3_4p>(),
        (3, Shape::Unnamed, 4, true) => v.visit::<U3_4s>(),
        (3, Shape::Named, 4, true) => v.visit::<N3_4s>(),
        (3, Shape::Enum, 4, true) => v.visit::<E3_4s>(),
        (3, Shape::Unnamed, 5, false) => v.visit::<U3_5p>(),
        (3, Shape::Named, 5, false) => v.visit::<N3_5p>(),
        (3, Shape::Enum, 5, false) => v.visit::<E3_5p>(),
        (3, Shape::Unnamed, 5, true) => v.visit::<U3_5s>(),
        (3, Shape::Named, 5, true) => v.visit::<N3_5s>(),
        (3, Shape::Enum, 5, true) => v.visit::<E3_5s>(),
        (3, Shape::Tuple, 2, _) => v.visit::<(Dyn<23>, Dyn<24>)>(),
        (3, Shape::Tuple, 3, _) => v.visit::<(Dyn<23>, Dyn<24>, Dyn<25>)>(),
        (3, Shape::Tuple, 4, _) => v.visit::<(Dyn<23>, Dyn<24>, Dyn<25>, Dyn<26>)>(),
        (3, Shape::Tuple, 5, _) => v.visit::<(Dyn<23>, Dyn<24>, Dyn<25>, Dyn<26>, Dyn<27>)>(),
        (3, Shape::Split, _, _) => v.visit::<tp::Split<Dyn<23>, Dyn<24>>>(),
        (3, Shape::Punct, _, _) => v.visit::<tp::Punct<Dyn<23>, Dyn<24>>>(),
        (3, Shape::Recover, _, _) => v.visit::<tp::Recover<Dyn<23>, Dyn<24>>>(),
        (4, Shape::Unnamed, 1, false) => v.visit::<U4_1p>(),
        (4, Shape::Named, 1, false) => v.visit::<N4_1p>(),
        (4, Shape::Enum, 1, false) => v.visit::<E4_1p>(),
        (4, Shape::Unnamed, 1, true) => v.visit::<U4_1s>(),
        (4, Shape::Named, 1, true) => v.visit::<N4_1s>(),
        (4, Shape::Enum, 1, true) => v.visit::<E4_1s>(),
        (4, Shape::Unnamed, 2, false) => v.visit::<U4_2p>(),
        (4, Shape::Named, 2, false) => v.visit::<N4_2p>(),
        (4, Shape::Enum, 2, false) => v.visit::<E4_2p>(),
        (4, Shape::Unnamed, 2, true) => v.visit::<U4_2s>(),
        (4, Shape::Named, 2, true) => v.visit::<N4_2s>(),
        (4, Shape::Enum, 2, true) => v.visit::<E4_2s>(),
        (4, Shape::Unnamed, 3, false) => v.visit::<U4_3p>(),
        (4, Shape::Named, 3, false) => v.visit::<N4_3p>(),
        (4, Shape::Enum, 3, false) => v.visit::<E4_3p>(),
        (4, Shape::Unnamed, 3, true) => v.visit::<U4_3s>(),
        (4, Shape::Named, 3, true) => v.visit::<N4_3s>(),
        (4, Shape::Enum, 3, true) => v.visit::<E4_3s>(),
        (4, Shape::Unnamed, 4, false) => v.visit::<U4_4p>(),
        (4, Shape::Named, 4, false) => v.visit::<N4_4p>(),
        (4, Shape::Enum, 4, false) => v.visit::<E4_4p>(),
        (4, Shape::Unnamed, 4, true) => v.visit::<U4_4s>(),
        (4, Shape::Named, 4, true) => v.visit::<N4_4s>(),
        (4, Shape::Enum, 4, true) => v.visit::<E4_4s>(),
        (4, Shape::Unnamed, 5, false) => v.visit::<U4_5p>(),
        (4, Shape::Named, 5, false) => v.visit::<N4_5p>(),
        (4, Shape::Enum, 5, false) => v.visit::<E4_5p>(),
        (4, Shape::Unnamed, 5, true) => v.visit::<U4_5s>(),
        (4, Shape::Named, 5, true) => v.visit::<N4_5s>(),
        (4, Shape::Enum, 5, true) => v.visit::<E4_5s>(),
        (4, Shape::Tuple, 2, _) => v.visit::<(Dyn<28>, Dyn<29>)>(),
        (4, Shape::Tuple, 3, _) => v.visit::<(Dyn<28>, Dyn<29>, Dyn<30>)>(),
        (4, Shape::Tuple, 4, _) => v.visit::<(Dyn<28>, Dyn<29>, Dyn<30>, Dyn<31>)>(),
        (4, Shape::Tuple, 5, _) => v.visit::<(Dyn<28>, Dyn<29>, Dyn<30>, Dyn<31>, Dyn<32>)>(),
        (4, Shape::Split, _, _) => v.visit::<tp::Split<Dyn<28>, Dyn<29>>>(),
        (4, Shape::Punct, _, _) => v.visit::<tp::Punct<Dyn<28>, Dyn<29>>>(),
        (4, Shape::Recover, _, _) => v.visit::<tp::Recover<Dyn<28>, Dyn<29>>>(),
        (5, Shape::Unnamed, 1, false) => v.visit::<U5_1p>(),
        (5, Shape::Named, 1, false) => v.visit::<N5_1p>(),
        (5, Shape::Enum, 1, false) => v.visit::<E5_1p>(),
        (5, Shape::Unnamed, 1, true) => v.visit::<U5_1s>(),
        (5, Shape::Named, 1, true) => v.visit::<N5_1s>(),
        (5, Shape::Enum, 1, true) => v.visit::<E5_1s>(),
        (5, Shape::Unnamed, 2, false) => v.visit::<U5_2p>(),
        (5, Shape::Named, 2, false) => v.visit::<N5_2p>(),
        (5, Shape::Enum, 2, false) => v.visit::<E5_2p>(),
        (5, Shape::Unnamed, 2, true) => v.visit::<U5_2s>(),
        (5, Shape::Named, 2, true) => v.visit::<N5_2s>(),
        (5, Shape::Enum, 2, true) => v.visit::<E5_2s>(),
        (5, Shape::Unnamed, 3, false) => v.visit::<U5_3p>(),
        (5, Shape::Named, 3, false) => v.visit::<N5_3p>(),
        (5, Shape::Enum, 3, false) => v.visit::<E5_3p>(),
        (5, Shape::Unnamed, 3, true) => v.visit::<U5_3s>(),
        (5, Shape::Named, 3, true) => v.visit::<N5_3s>(),
        (5, Shape::Enum, 3, true) => v.visit::<E5_3s>(),
        (5, Shape::Unnamed, 4, false) => v.visit::<U5_4p>(),
        (5, Shape::Named, 4, false) => v.visit::<N5_4p>(),
        (5, Shape::Enum, 4, false) => v.visit::<E5_4p>(),
        (5, Shape::Unnamed, 4, true) => v.visit::<U5_4s>(),
        (5, Shape::Named, 4, true) => v.visit::<N5_4s>(),
        (5, Shape::Enum, 4, true) => v.visit::<E5_4s>(),
        (5, Shape::Unnamed, 5, false) => v.visit::<U5_5p>(),
        (5, Shape::Named, 5, false) => v.visit::<N5_5p>(),
        (5, Shape::Enum, 5, false) => v.visit::<E5_5p>(),
        (5, Shape::Unnamed, 5, true) => v.visit::<U5_5s>(),
        (5, Shape::Named, 5, true) => v.visit::<N5_5s>(),
        (5, Shape::Enum, 5, true) => v.visit::<E5_5s>(),
        (5, Shape::Tuple, 2, _) => v.visit::<(Dyn<33>, Dyn<34>)>(),
        (5, Shape::Tuple, 3, _) => v.visit::<(Dyn<33>, Dyn<34>, Dyn<35>)>(),
        (5, Shape::Tuple, 4, _) => v.visit::<(Dyn<33>, Dyn<34>, Dyn<35>, Dyn<36>)>(),
        (5, Shape::Tuple, 5, _) => v.visit::<(Dyn<33>, Dyn<34>, Dyn<35>, Dyn<36>, Dyn<37>)>(),
        (5, Shape::Split, _, _) => v.visit::<tp::Split<Dyn<33>, Dyn<34>>>(),
        (5, Shape::Punct, _, _) => v.visit::<tp::Punct<Dyn<33>, Dyn<34>>>(),
        (5, Shape::Recover, _, _) => v.visit::<tp::Recover<Dyn<33>, Dyn<34>>>(),
        (6, Shape::Unnamed, 1, false) => v.visit::<U6_1p>(),
        (6, Shape::Named, 1, false) => v.visit::<N6_1p>(),
        (6, Shape::Enum, 1, false) => v.visit::<E6_1p>(),
        (6, Shape::Unnamed, 1, true) => v.visit::<U6_1s>(),
        (6, Shape::Named, 1, true) => v.visit::<N6_1s>(),
        (6, Shape::Enum, 1, true) => v.visit::<E6_1s>(),
        (6, Shape::Unnamed, 2, false) => v.visit::<U6_2p>(),
        (6, Shape::Named, 2, false) => v.visit::<N6_2p>(),
        (6, Shape::Enum, 2, false) => v.visit::<E6_2p>(),
        (6, Shape::Unnamed, 2, true) => v.visit::<U6_2s>(),
        (6, Shape::Named, 2, true) => v.visit::<N6_2s>(),
        (6, Shape::Enum, 2, true) => v.visit::<E6_2s>(),
        (6, Shape::Unnamed, 3, false) => v.visit::<U6_3p>(),
        (6, Shape::Named, 3, false) => v.visit::<N6_3p>(),
        (6, Shape::Enum, 3, false) => v.visit::<E6_3p>(),
        (6, Shape::Unnamed, 3, true) => v.visit::<U6_3s>(),
        (6, Shape::Named, 3, true) => v.visit::<N6_3s>(),
        (6, Shape::Enum, 3, true) => v.visit::<E6_3s>(),
        (6, Shape::Unnamed, 4, false) => v.visit::<U6_4p>(),
        (6, Shape::Named, 4, false) => v.visit::<N6_4p>(),
        (6, Shape::Enum, 4, false) => v.visit::<E6_4p>(),
        (6, Shape::Unnamed, 4, true) => v.visit::<U6_4s>(),
        (6, Shape::Named, 4, true) => v.visit::<N6_4s>(),
        (6, Shape::Enum, 4, true) => v.visit::<E6_4s>(),
        (6, Shape::Unnamed, 5, false) => v.visit::<U6_5p>(),
        (6, Shape::Named, 5, false) => v.visit::<N6_5p>(),
        (6, Shape::Enum, 5, false) => v.visit::<E6_5p>(),
        (6, Shape::Unnamed, 5, true) => v.visit::<U6_5s>(),
        (6, Shape::Named, 5, true) => v.visit::<N6_5s>(),
        (6, Shape::Enum, 5, true) => v.visit::<E6_5s>(),
        (6, Shape::Tuple, 2, _) => v.visit::<(Dyn<38>, Dyn<39>)>(),
        (6, Shape::Tuple, 3, _) => v.visit::<(Dyn<38>, Dyn<39>, Dyn<40>)>(),
        (6, Shape::Tuple, 4, _) => v.visit::<(Dyn<38>, Dyn<39>, Dyn<40>, Dyn<41>)>(),
        (6, Shape::Tuple, 5, _) => v.visit::<(Dyn<38>, Dyn<39>, Dyn<40>, Dyn<41>, Dyn<42>)>(),
        (6, Shape::Split, _, _) => v.visit::<tp::Split<Dyn<38>, Dyn<39>>>(),
        (6, Shape::Punct, _, _) => v.visit::<tp::Punct<Dyn<38>, Dyn<39>>>(),
        (6, Shape::Recover, _, _) => v.visit::<tp::Recover<Dyn<38>, Dyn<39>>>(),
        (7, Shape::Unnamed, 1, false) => v.visit::<U7_1p>(),
        (7, Shape::Named, 1, false) => v.visit::<N7_1p>(),
        (7, Shape::Enum, 1, false) => v.visit::<E7_1p>(),
        (7, Shape::Unnamed, 1, true) => v.visit::<U7_1s>(),
        (7, Shape::Named, 1, true) => v.visit::<N7_1s>(),
        (7, Shape::Enum, 1, true) => v.visit::<E7_1s>(),
        (7, Shape::Unnamed, 2, false) => v.visit::<U7_2p>(),
        (7, Shape::Named, 2, false) => v.visit::<N7_2p>(),
        (7, Shape::Enum, 2, false) => v.visit::<E7_2p>(),
        (7, Shape::Unnamed, 2, true) => v.visit::<U7_2s>(),
        (7, Shape::Named, 2, true) => v.visit::<N7_2s>(),
        (7, Shape::Enum, 2, true) => v.visit::<E7_2s>(),
        (7, Shape::Unnamed, 3, false) => v.visit::<U7_3p>(),
        (7, Shape::Named, 3, false) => v.visit::<N7_3p>(),
        (7, Shape::Enum, 3, false) => v.visit::<E7_3p>(),
        (7, Shape::Unnamed, 3, true) => v.visit::<U7_3s>(),
        (7, Shape::Named, 3, true) => v.visit::<N7_3s>(),
        (7, Shape::Enum, 3, true) => v.visit::<E7_3s>(),
        (7, Shape::Unnamed, 4, false) => v.visit::<U7_4p>(),
        (7, Shape::Named, 4, false) => v.visit::<N7_4p>(),
        (7, Shape::Enum, 4, false) => v.visit::<E7_4p>(),
        (7, Shape::Unnamed, 4, true) => v.visit::<U7_4s>(),
        (7, Shape::Named, 4, true) => v.visit::<N7_4s>(),
        (7, Shape::Enum, 4, true) => v.visit::<E7_4s>(),
        (7, Shape::Unnamed, 5, false) => v.visit::<U7_5p>(),
        (7, Shape::Named, 5, false) => v.visit::<N7_5p>(),
        (7, Shape::Enum, 5, false) => v.visit::<E7_5p>(),
        (7, Shape::Unnamed, 5, true) => v.visit::<U7_5s>(),
        (7, Shape::Named, 5, true) => v.visit::<N7_5s>(),
        (7, Shape::Enum, 5, true) => v.visit::<E7_5s>(),
        (7, Shape::Tuple, 2, _) => v.visit::<(Dyn<43>, Dyn<44>)>(),
        (7, Shape::Tuple, 3, _) => v.visit::<(Dyn<43>, Dyn<44>, Dyn<45>)>(),
        (7, Shape::Tuple, 4, _) => v.visit::<(Dyn<43>, Dyn<44>, Dyn<45>, Dyn<46>)>(),
        (7, Shape::Tuple, 5, _) => v.visit::<(Dyn<43>, Dyn<44>, Dyn<45>, Dyn<46>, Dyn<47>)>(),
        (7, Shape::Split, _, _) => v.visit::<tp::Split<Dyn<43>, Dyn<44>>>(),
        (7, Shape::Punct, _, _) => v.visit::<tp::Punct<Dyn<43>, Dyn<44>>>(),
        (7, Shape::Recover, _, _) => v.visit::<tp::Recover<Dyn<43>, Dyn<44>>>(),
        x => panic!("no such shape {x:?}"),
    }
}

pub fn unary<V: Visitor>(k: UK, j: usize, v: V) -> V::Out {
    match j {
        0 => un::<0, V>(k, v),
        1 => un::<1, V>(k, v),
        2 => un::<2, V>(k, v),
        3 => un::<3, V>(k, v),
        4 => un::<4, V>(k, v),
        5 => un::<5, V>(k, v),
        6 => un::<6, V>(k, v),
        7 => un::<7, V>(k, v),
        x => panic!("no such target {x}"),
    }
}
fn un<const J: usize, V: Visitor>(k: UK, v: V) -> V::Out {
    match k {
        UK::Plain => v.visit::<Dyn<J>>(),
        UK::Opt => v.visit::<tp::Option<Dyn<J>>>(),
        UK::Exists => v.visit::<tp::Exists<Dyn<J>>>(),
        UK::Nev => v.visit::<tp::Nev<Dyn<J>>>(),
        UK::NevDeque => v.visit::<tp::NevDeque<Dyn<J>>>(),
        UK::Vec => v.visit::<tp::Vec<Dyn<J>>>(),
        UK::VecDeque => v.visit::<tp::VecDeque<Dyn<J>>>(),
        UK::Loop => v.visit::<tp::Loop<Dyn<J>>>(),
        UK::Quote => v.visit::<tp::String<Dyn<J>>>(),
        UK::Parse => v.visit::<tp::Parse<u32, Dyn<J>>>(),
        UK::Boxed => v.visit::<Box<Dyn<J>>>(),
    }
}

pub fn terminal<V: Visitor>(t: usize, v: V) -> V::Out {
    match t {
        0 => v.visit::<Ident>(),
        1 => v.visit::<KwIf>(),
        2 => v.visit::<KwFn>(),
        3 => v.visit::<KwDo>(),
        4 => v.visit::<Int>(),
        5 => v.visit::<OpAdd>(),
        6 => v.visit::<OpInc>(),
        7 => v.visit::<OpMul>(),
        8 => v.visit::<OpAssign>(),
        9 => v.visit::<OpEq>(),
        10 => v.visit::<ParenL>(),
        11 => v.visit::<ParenR>(),
        12 => v.visit::<Comma>(),
        13 => v.visit::<Semi>(),
        14 => v.visit::<Arrow>(),
        15 => v.visit::<Eacute>(),
        16 => v.visit::<Str>(),
        17 => v.visit::<Empty>(),
        18 => v.visit::<Back>(),
        19 => v.visit::<KwNext>(),
        x => panic!("no such terminal {x}"),
    }
}
