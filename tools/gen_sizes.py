"""writes harness/meta/src/sizes.rs: lexicons of many sizes with known per-variant kinds"""
import os
SIZES=[1,2,7,8,9,15,16,17,31,32,33,48,63,64,65,96,127,128]
o=["// generated by tools/gen_sizes.py","use teleparse::prelude::*;","",
"/// what a variant declares","#[derive(Clone, Copy, Debug, PartialEq)]",
"pub enum K { Semantic, Regex, RegexTerm, Lit, TwoLits }",""]
KN=["Semantic","Regex","RegexTerm","Lit","TwoLits"]
for n in SIZES:
    o.append(f"pub mod n{n} {{ use super::*;")
    o.append("#[derive_lexicon]\n#[teleparse(ignore(r\"\\s+\"))]\npub enum L {")
    ks=[]
    for i in range(n):
        k=(i*7+n)%5
        ks.append(k)
        a=""
        if k==1: a=f'#[teleparse(regex("q{i}_[0-9]+"))] '
        if k==2: a=f'#[teleparse(regex("r{i}_[0-9]+"), terminal(R{i}))] '
        if k==3: a=f'#[teleparse(terminal(A{i} = "a{i};"))] '
        if k==4: a=f'#[teleparse(terminal(B{i} = "b{i};", C{i} = "é{i};"))] '
        o.append(f"    {a}V{i},")
    o.append("}")
    o.append(f"pub const KINDS: [K; {n}] = ["+", ".join("K::"+KN[k] for k in ks)+"];")
    o.append(f"pub const ALL: [L; {n}] = ["+", ".join(f"L::V{i}" for i in range(n))+"];")
    o.append("}")
o.append("#[macro_export] macro_rules! for_sizes { ($m:ident) => { [ "+", ".join(f"$m!(n{n})" for n in SIZES)+" ] } }")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"../harness/meta/src/sizes.rs"),"w").write("\n".join(o)+"\n")
