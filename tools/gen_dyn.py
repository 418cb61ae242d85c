#!/usr/bin/env python3
"""Writes harness/dyn/src/gen.rs: derived structs / enums over the Dyn<N> cells and the type dispatch."""
import os
NS, NC = 8, 5
SEM = [["SemA"], ["SemB"], [], ["SemA", "SemC"], ["SemB", "Op"]]
def cell(s, k): return NS + NC * s + k
o = ["// generated by tools/gen_dyn.py",
     "use crate::dynp::{Dyn, Shape, UK, Visitor};", "use crate::lx::*;", "use crate::tree::{ToTr, Tr, K};", "use teleparse::prelude::*;", "",
     f"pub const NS: usize = {NS};", f"pub const NC: usize = {NC};", f"pub const NSYM: usize = {NS + NS * NC};",
     "/// semantic types of field / variant i of a derived type of symbol s",
     "pub fn sem_mask(s: usize, i: usize) -> u32 {", "    match (s + i) % 5 {"]
bit = {"SemA": "1 << SEMA", "SemB": "1 << SEMB", "SemC": "1 << SEMC", "Op": "1 << OP"}
for i, m in enumerate(SEM):
    o.append(f"        {i} => {' | '.join(bit[x] for x in m) or '0'},")
o += ["        _ => unreachable!(),", "    }", "}", ""]
arms = []
def attr(s, i, sem):
    m = SEM[(s + i) % 5]
    return f"#[teleparse(semantic({', '.join(m)}))] " if sem and m else ""
for s in range(NS):
    for n in range(1, NC + 1):
        for sem in (0, 1):
            t = "s" if sem else "p"
            u, nm, e = f"U{s}_{n}{t}", f"N{s}_{n}{t}", f"E{s}_{n}{t}"
            o.append("#[derive_syntax]\n#[derive(Debug)]\n#[allow(non_camel_case_types)]\npub struct %s(%s);" % (u, ", ".join(f"{attr(s,i,sem)}pub Dyn<{cell(s,i)}>" for i in range(n))))
            o.append("impl ToTr for %s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [%s]) } }" % (u, ", ".join(f"self.{i}" for i in range(n))))
            o.append("#[derive_syntax]\n#[derive(Debug)]\n#[allow(non_camel_case_types)]\npub struct %s { %s }" % (nm, ", ".join(f"{attr(s,i,sem)}pub f{i}: Dyn<{cell(s,i)}>" for i in range(n))))
            o.append("impl ToTr for %s { fn tr(self) -> Tr { tr_node!(self, K::Seq, [%s]) } }" % (nm, ", ".join(f"self.f{i}" for i in range(n))))
            o.append("#[derive_syntax]\n#[derive(Debug)]\n#[allow(non_camel_case_types)]\npub enum %s { %s }" % (e, ", ".join(f"{attr(s,i,sem)}V{i}(Dyn<{cell(s,i)}>)" for i in range(n))))
            o.append("impl ToTr for %s { fn tr(self) -> Tr { let (lo, hi) = (self.lo(), self.hi()); match self { %s } } }" % (e, " ".join(f"Self::V{i}(x) => Tr::new(K::Alt({i}), lo, hi, vec![x.tr()])," for i in range(n))))
            b = "true" if sem else "false"
            arms += [f"        ({s}, Shape::Unnamed, {n}, {b}) => v.visit::<{u}>(),",
                     f"        ({s}, Shape::Named, {n}, {b}) => v.visit::<{nm}>(),",
                     f"        ({s}, Shape::Enum, {n}, {b}) => v.visit::<{e}>(),"]
    for n in range(2, NC + 1):
        arms.append(f"        ({s}, Shape::Tuple, {n}, _) => v.visit::<({', '.join(f'Dyn<{cell(s,i)}>' for i in range(n))})>(),")
    for k in ("Split", "Punct", "Recover"):
        arms.append(f"        ({s}, Shape::{k}, _, _) => v.visit::<tp::{k}<Dyn<{cell(s,0)}>, Dyn<{cell(s,1)}>>>(),")
o += ["", "pub fn structural<V: Visitor>(s: usize, shape: Shape, n: usize, sem: bool, v: V) -> V::Out {", "    match (s, shape, n, sem) {"] + arms + ["        x => panic!(\"no such shape {x:?}\"),", "    }", "}"]
o += ["", "pub fn unary<V: Visitor>(k: UK, j: usize, v: V) -> V::Out {", "    match j {"]
o += [f"        {j} => un::<{j}, V>(k, v)," for j in range(NS)] + ["        x => panic!(\"no such target {x}\"),", "    }", "}",
"fn un<const J: usize, V: Visitor>(k: UK, v: V) -> V::Out {", "    match k {",
"        UK::Plain => v.visit::<Dyn<J>>(),",
"        UK::Opt => v.visit::<tp::Option<Dyn<J>>>(),",
"        UK::Exists => v.visit::<tp::Exists<Dyn<J>>>(),",
"        UK::Nev => v.visit::<tp::Nev<Dyn<J>>>(),",
"        UK::NevDeque => v.visit::<tp::NevDeque<Dyn<J>>>(),",
"        UK::Vec => v.visit::<tp::Vec<Dyn<J>>>(),",
"        UK::VecDeque => v.visit::<tp::VecDeque<Dyn<J>>>(),",
"        UK::Loop => v.visit::<tp::Loop<Dyn<J>>>(),",
"        UK::Quote => v.visit::<tp::String<Dyn<J>>>(),",
"        UK::Parse => v.visit::<tp::Parse<u32, Dyn<J>>>(),",
"        UK::Boxed => v.visit::<Box<Dyn<J>>>(),",
"    }", "}"]
names = "Ident KwIf KwFn KwDo Int OpAdd OpInc OpMul OpAssign OpEq ParenL ParenR Comma Semi Arrow Eacute Str Empty Back KwNext".split()
o += ["", "pub fn terminal<V: Visitor>(t: usize, v: V) -> V::Out {", "    match t {"]
o += [f"        {i} => v.visit::<{n}>()," for i, n in enumerate(names)] + ["        x => panic!(\"no such terminal {x}\"),", "    }", "}"]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "dyn", "src", "gen.rs"), "w") as f:
    f.write("\n".join(o) + "\n")
