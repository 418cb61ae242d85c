"""Random uses of the set macros, with what they say (writes harness/meta/src/setmacros.rs)."""
import random, re, os
HERE = os.path.dirname(os.path.abspath(__file__))
r = random.Random(20)
TY = ["Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta"]
LITS = ["+", "++", "a", "é", ""]
out = ["// generated by tools/gen_setmacros.py", "use crate::lx::L6;", "use crate::sizes;", "use teleparse::lex::Set;",
       "use teleparse::syntax::{FirstSet, FollowSet, TerminalSet};", "use teleparse::{first_set, follow_set, terminal_set, token_set};",
       "type Ts = TerminalSet<L6>;", "type Fi = FirstSet<L6>;", "type Fo = FollowSet<L6>;",
       "/// the text, the sets it makes, the terminals in it, whether it has the empty marker",
       "pub type Terms = (&'static str, fn() -> Ts, fn() -> Fi, fn() -> Fo, &'static [(usize, Option<&'static str>)], bool);",
       "pub const TERMS: &[Terms] = &["]


def q(s):
    return '"' + s + '"'


def case(e, items):
    body = ", ".join((["e"] if e else []) + [f"{TY[t]}: {'*' if l is None else q(l)}" for t, l in items])
    m = "L6 { " + body + " }"
    if not body and r.random() < 0.5:
        m = "L6"
    lst = ", ".join(f"({t}, {'None' if l is None else 'Some(' + q(l) + ')'})" for t, l in items)
    out.append(f"    (r#\"{m}\"#, || {{ let s: Ts = terminal_set!({m}); s }}, || {{ let s: Fi = first_set!({m}); s }}, || {{ let s: Fo = follow_set!({m}); s }}, &[{lst}], {str(e).lower()}),")


case(False, [])
case(True, [])
for t in range(6):
    for l in [None, "a", ""]:
        case(False, [(t, l)])
        case(True, [(t, l)])
for _ in range(120):
    n = r.choice([2, 2, 3, 3, 4, 6, 9, 14])
    nt = r.choice([1, 2, 6])
    wild = r.choice([0, 0.2, 0.5])
    case(r.random() < 0.5, [(r.randrange(nt), None if r.random() < wild else r.choice(LITS)) for _ in range(n)])
out.append("];")
out.append("type S<const N: usize> = (&'static str, fn() -> usize);")
sizes = open(os.path.join(HERE, "../harness/meta/src/sizes.rs")).read()
mods = [int(x) for x in re.findall(r"pub mod n(\d+) ", sizes)]
out[-1] = "pub type Tokens<L> = &'static [(&'static str, fn() -> Set<L>, &'static [usize])];"
out.append("pub trait Uses: teleparse::Lexicon {\n    const ALL: Tokens<Self>;\n}")
for n in mods:
    out.append(f"impl Uses for sizes::n{n}::L {{\n    const ALL: Tokens<Self> = &[")
    L = f"sizes::n{n}::L"
    for k in range(12):
        if k == 0:
            out.append(f"        (\"\", || token_set!(), &[]),")
            continue
        if k == 1:
            out.append(f"        (\"{L}\", || token_set!({L}), &[]),")
            continue
        if k == 2:
            v = list(range(n))
        elif k == 3:
            v = [n - 1]
        elif k == 4:
            v = [0]
        else:
            v = [r.randrange(n) for _ in range(r.choice([1, 2, 3, 5, 9]))]
        v = v[:]
        r.shuffle(v)
        body = " | ".join(f"V{i}" for i in v)
        out.append(f"        (\"{L} {{ {body} }}\", || token_set!({L} {{ {body} }}), &{v}),")
    out.append("    ];\n}")
open(os.path.join(HERE, "../harness/meta/src/setmacros.rs"), "w").write("\n".join(out) + "\n")
