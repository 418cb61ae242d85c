#![allow(dead_code)]
//! Reference side: a fixed lexicon with a hand-written reference lexer, node grammars as data,
//! their context-free grammar, a reference interpreter of the documented parsing and recovery rules,
//! and conversion of real trees into one comparable form.
pub mod lx;
#[macro_use]
pub mod tree;
pub mod dynp;
pub mod gen;
pub mod model;

pub mod input;
pub mod compare;
pub mod check;
pub mod statics;
