"""Random user types that derive teleparse's ToSpan and Node, each with a check of what the derive gives them.
Emits Rust modules; the checks run in harness/wrapgen."""
import random

TERMS = ["Ident", "KwIf", "Int", "OpAdd", "Semi", "Str"]
FIELDS = ["a", "b", "value", "span", "node", "lo", "hi", "x", "inner", "r#type", "r#match", "_s", "head", "other", "input", "n1", "self_", "out"]
NAMES = ["W", "Foo", "Node2", "Wrap", "Item", "Default", "From", "Deref", "DerefMut", "Some", "Ok", "Target", "Value", "Boxed", "L", "T1", "String_", "r#async", "Pos", "Span2", "Token2"]
# values a node can hold: type, expression (uses r)
VALS = [("u32", "r.below(1000) as u32"), ("bool", "r.below(2) == 1"), ("::std::string::String", "crate::word(r)"), ("&'static str", "*r.pick(&[\"\", \"a\", \"bc\"])"),
        ("Vec<u8>", "crate::bytes(r)"), ("::core::option::Option<u8>", "if r.below(2) == 1 { ::core::option::Option::Some(r.below(9) as u8) } else { None }"),
        ("::core::result::Result<u8, ::std::string::String>", "if r.below(2) == 1 { ::core::result::Result::Ok(r.below(9) as u8) } else { Err(crate::word(r)) }"),
        ("(u8, ::std::string::String)", "(r.below(9) as u8, crate::word(r))"), ("[u16; 2]", "[r.below(9) as u16, r.below(9) as u16]"), ("()", "()"),
        ("::std::collections::BTreeMap<u8, u8>", "[(r.below(9) as u8, 1u8)].into_iter().collect()"), ("::std::boxed::Box<u64>", "::std::boxed::Box::new(r.below(9) as u64)"),
        ("::std::vec::Vec<::std::vec::Vec<u8>>", "vec![crate::bytes(r)]"), ("char", "*r.pick(&['a', 'ä'])"), ("fn(u8) -> u8", "crate::ID"), ("teleparse::Span", "teleparse::Span::new(r.below(9), r.below(9))")]
OTHERS = [("u8", "r.below(200) as u8"), ("::std::string::String", "crate::word(r)"), ("::core::marker::PhantomData<u8>", "::core::marker::PhantomData"), ("bool", "r.below(2) == 1"),
          ("::core::option::Option<u16>", "::core::option::Option::None"), ("(u8, u8)", "(r.below(3) as u8, 1)"), ("teleparse::Span", "teleparse::Span::new(r.below(99), r.below(99))"), ("[u8; 3]", "[1, 2, r.below(5) as u8]"),
          ("Vec<u8>", "crate::bytes(r)")]


def spanned(r, depth, own):
    """type and constructor (with lo and hi in scope) of something that has the span lo..hi"""
    k = r.random()
    if own and k < 0.25:
        n = r.choice(own)
        return n[0], f"{n[1]}(r, lo, hi)"
    if depth > 0 and k < 0.33:
        t, c = spanned(r, depth - 1, own)
        return f"::std::boxed::Box<{t}>", f"::std::boxed::Box::new({c})"
    if depth > 0 and k < 0.40:
        t, c = spanned(r, depth - 1, own)
        return f"&'static {t}", f"&*::std::boxed::Box::leak(::std::boxed::Box::new({c}))"
    if depth > 0 and k < 0.52:
        n = r.randint(2, 5)
        parts = [spanned(r, depth - 1, own) for _ in range(n)]
        cs = []
        for i, (t, c) in enumerate(parts):
            a = "lo" if i == 0 else "r.below(1000)"
            b = "hi" if i == n - 1 else "r.below(1000)"
            cs.append("{ let (lo, hi) = (" + a + ", " + b + "); " + c + " }")
        return "(" + ", ".join(t for t, _ in parts) + ")", "(" + ", ".join(cs) + ")"
    if k < 0.66:
        return "teleparse::Span", "teleparse::Span::new(lo, hi)"
    if k < 0.82:
        v, e = r.choice(VALS)
        return r.choice(["teleparse::tp::Node", "teleparse::prelude::Node", "Nd"]) + f"<{v}>", f"teleparse::tp::Node::new(lo..hi, {e})"
    if k < 0.87:
        return "teleparse::Token<Lx>", "teleparse::Token::new(lo..hi, *r.pick(&[Lx::Word, Lx::Num, Lx::Text]))"
    t = r.choice(TERMS)
    return r.choice([(t, f"{t}::from_span(lo..hi)"),
                     (f"teleparse::tp::Option<{t}>", "teleparse::tp::Node::new(lo..hi, ::core::option::Option::None).into()"),
                     (f"teleparse::tp::Exists<{t}>", "teleparse::tp::Node::new(lo..hi, r.below(2) == 1).into()"),
                     (f"teleparse::tp::Vec<{t}>", "teleparse::tp::Node::new(lo..hi, vec![]).into()"),
                     (f"teleparse::tp::NevDeque<{t}>", f"teleparse::tp::Node::new(lo..hi, ::std::collections::VecDeque::from(vec![{t}::from_span(1..2)])).into()"),
                     (f"teleparse::tp::String<{t}>", "teleparse::tp::Node::new(lo..hi, crate::word(r)).into()"),
                     (f"teleparse::tp::Parse<u8, {t}>", "teleparse::tp::Node::new(lo..hi, crate::word(r).parse::<u8>()).into()"),
                     (f"teleparse::tp::Punct<{t}, Comma>", "teleparse::tp::Punct { span: teleparse::Span::new(lo, hi), elems: vec![], puncts: vec![] }"),
                     (f"teleparse::tp::Split<{t}, Comma>", "teleparse::tp::Split { elems: teleparse::tp::Node::new(lo..hi, vec![]), puncts: vec![] }"),
                     (f"teleparse::tp::Recover<{t}, Semi>", "teleparse::tp::Recover { head: teleparse::tp::Node::new(lo..r.below(99), ::core::option::Option::None), tail: Semi::from_span(r.below(99)..hi) }")])


class M:
    """one module"""
    def __init__(self, r):
        self.r, self.out, self.own, self.checks, self.names = r, [], [], [], r.sample(NAMES, len(NAMES))
        self.k = 0

    def vis(self):
        return self.r.choice(["pub ", "pub(crate) ", "", "pub "])

    def fields(self, n):
        return self.r.sample(FIELDS, n)

    def to_span(self):
        r, name = self.r, self.names.pop()
        self.k += 1
        mk = f"mk_{self.k}"
        derive = r.choice(["teleparse::ToSpan", "ToSpan", "::teleparse::ToSpan"])
        head = f"#[derive({derive})]\n" if r.random() < 0.6 else f"#[derive(Clone, {derive})]\n" if r.random() < 0.0 else f"#[allow(unused)]\n#[derive({derive})]\n/// doc\n"
        gen, args, where = [], [], []
        shape = r.choice(["named", "tuple", "enum", "enum"])

        def first():
            t, c = spanned(r, 2, self.own)
            if r.random() < 0.2:
                g = "ABCD"[len(gen)] if len(gen) < 4 else None
                if g:
                    if r.random() < 0.5:
                        gen.append(f"{g}: teleparse::ToSpan")
                    else:
                        gen.append(g)
                        where.append(f"{g}: teleparse::ToSpan")
                    args.append(t)
                    k = r.random()
                    if k < 0.6:
                        return g, c
                    if k < 0.8:
                        return f"::std::boxed::Box<{g}>", f"::std::boxed::Box::new({c})"
                    return f"({g}, teleparse::Span)", "({ let hi = r.below(1000); " + c + " }, teleparse::Span::new(r.below(1000), hi))"
            return t, c

        def body(kind, path):
            """fields of a struct or variant: (declaration, constructor)"""
            n = r.choice([1, 1, 2, 2, 3, 4, 7])
            fs = [first()] + [r.choice(OTHERS + [spanned(r, 1, self.own)]) for _ in range(n - 1)]
            names = self.fields(n)
            at = lambda: r.choice(["", "", "", "#[allow(unused)] ", "/// d\n "])
            junk = lambda i, c: c if i == 0 else "{ let (lo, hi) = (r.below(1000), r.below(1000)); " + c + " }"
            v = self.vis if path is None else (lambda: "")
            if kind == "named":
                d = "{ " + ", ".join(f"{at()}{v()}{f}: {t}" for f, (t, _) in zip(names, fs)) + r.choice(["", ","]) + " }"
                return d, "{ " + ", ".join(f"{f}: {junk(i, c)}" for i, (f, (_, c)) in enumerate(zip(names, fs))) + " }"
            d = "(" + ", ".join(f"{at()}{v()}{t}" for t, _ in fs) + r.choice(["", ","]) + ")"
            return d, "(" + ", ".join(junk(i, c) for i, (_, c) in enumerate(fs)) + ")"
        if shape == "enum":
            vs = []
            for i in range(r.choice([1, 2, 3, 5, 9])):
                vn = r.choice(["A", "B", "Some", "None", "Ok", "X", "Lo", "r#Dyn"]) + str(i)
                kind = r.choice(["named", "tuple"])
                d, c = body(kind, vn)
                vs.append((vn, d, c))
            ctor = "match r.below(" + str(len(vs)) + ") { " + ", ".join(f"{i if i < len(vs) - 1 else '_'} => {name}::{vn} {c}" for i, (vn, _, c) in enumerate(vs)) + " }"
            decl = "{ " + ", ".join(f"{vn} {d}" for vn, d, _ in vs) + r.choice(["", ","]) + " }"
            kw = "enum"
        else:
            d, c = body(shape, None)
            decl, ctor, kw = d, f"{name} {c}", "struct"
        extra = None
        if shape != "enum" and not gen and r.random() < 0.2:
            extra = r.choice(["lt", "const"])
        if extra == "lt":
            gen.append("'a")
            decl = decl[:-1].rstrip().rstrip(",") + (", zz: ::core::marker::PhantomData<&'a u8> }" if shape == "named" else ", ::core::marker::PhantomData<&'a u8>)")
            ctor = ctor[:-1].rstrip() + (", zz: ::core::marker::PhantomData }" if shape == "named" else ", ::core::marker::PhantomData)")
            args.append("'static")
        elif extra == "const":
            gen.append("const N: usize")
            decl = decl[:-1].rstrip().rstrip(",") + (", zz: [u8; N] }" if shape == "named" else ", [u8; N])")
            ctor = ctor[:-1].rstrip() + (", zz: [0; 3] }" if shape == "named" else ", [0; 3])")
            args.append("3")
        g = "<" + ", ".join(gen) + ">" if gen else ""
        w = " where " + ", ".join(where) if where else ""
        if shape == "tuple":
            text = f"{head}pub {kw} {name}{g}{decl}{w};\n"
        else:
            text = f"{head}pub {kw} {name}{g}{w} {decl}\n"
        ty = name + ("<" + ", ".join(args) + ">" if args else "")
        text += f"pub fn {mk}(r: &mut Src, lo: usize, hi: usize) -> {ty} {{ {ctor} }}\n"
        self.out.append(text)
        self.own.append((ty, mk))
        self.checks.append((f"crate::spanned(\"{name}\", r, {mk})?;", text))

    def node(self):
        r, name = self.r, self.names.pop()
        self.k += 1
        v, e = r.choice(VALS)
        gen, args, where = [], [], []
        vt = v
        k = r.random()
        if k < 0.15:
            gen.append("T")
            args.append(v)
            vt = "T"
        elif k < 0.25:
            gen.append("T: Clone")
            args.append("u8")
            vt, v, e = "::std::vec::Vec<T>", "::std::vec::Vec<u8>", "crate::bytes(r)"
        elif k < 0.32:
            gen.append("A")
            where.append("A: ::core::str::FromStr")
            args.append("u8")
            vt, v, e = "::core::result::Result<A, A::Err>", "::core::result::Result<u8, ::core::num::ParseIntError>", "crate::word(r).parse()"
        elif k < 0.37:
            gen.append("'a")
            args.append("'static")
            vt, v, e = "&'a str", "&'static str", "*r.pick(&[\"\", \"a\", \"bc\"])"
        elif k < 0.42:
            gen.append("const N: usize")
            args.append("2")
            vt, v, e = "[u8; N]", "[u8; 2]", "[1, r.below(7) as u8]"
        n = r.choice([0, 0, 1, 1, 2, 3, 6])
        others = [r.choice(OTHERS) for _ in range(n)]
        node = r.choice(["teleparse::tp::Node", "teleparse::prelude::Node", "Nd", "::teleparse::tp::Node"])
        span = r.random() < 0.5
        derive = ["teleparse::tp::Node", "Nd", "teleparse::prelude::Node"]
        ds = [r.choice(derive)] + (["teleparse::ToSpan"] if span else [])
        r.shuffle(ds)
        g = "<" + ", ".join(gen) + ">" if gen else ""
        w = " where " + ", ".join(where) if where else ""
        names = self.fields(n + 1)
        ts = [f"{node}<{vt}>"] + [t for t, _ in others]
        dflt = "::core::default::Default::default()"
        if r.random() < 0.5:
            decl = f"{g}{w} {{ " + ", ".join(f"{self.vis()}{f}: {t}" for f, t in zip(names, ts)) + r.choice(["", ","]) + " }"
            acc = names
        else:
            decl = f"{g}(" + ", ".join(self.vis() + t for t in ts) + r.choice(["", ","]) + f"){w};"
            acc = [str(i) for i in range(n + 1)]
        ty = name + ("<" + ", ".join(args) + ">" if args else "")
        text = f"#[derive({', '.join(ds)})]\npub struct {name}{decl}\n"
        others_ok = "".join(f" crate::is_default(\"{name}.{a}\", &x.{a})?;" for a in acc[1:])
        sp = f" crate::same(\"{name} span\", (teleparse::ToSpan::lo(&x), teleparse::ToSpan::hi(&x)), (lo, hi))?;" if span else ""
        chk = f"""{{
    let (lo, hi) = (r.below(1000), r.below(1000));
    let v: {v} = {e};
    let v2: {v} = {e};
    let mut x: {ty} = ::core::convert::From::from(teleparse::tp::Node::new(lo..hi, v.clone()));
    crate::same("{name} first field", x.{acc[0]}.clone(), teleparse::tp::Node::new(lo..hi, v.clone()))?;
    {others_ok}{sp}
    {{ let t: &{v} = &x; crate::same("{name} deref", t.clone(), v.clone())?; }}
    {{ let t: &mut {v} = &mut x; crate::same("{name} deref_mut", t.clone(), v.clone())?; *t = v2.clone(); }}
    crate::same("{name} after writing through deref_mut", x.{acc[0]}.clone(), teleparse::tp::Node::new(lo..hi, v2.clone()))?;
    {others_ok}
    let y: {v} = x.into_inner();
    crate::same("{name} into_inner", y, v2)?;
}}"""
        self.out.append(text)
        self.checks.append((chk, text))

    def render(self, i):
        r = self.r
        for _ in range(r.randint(3, 6)):
            self.to_span() if r.random() < 0.6 else self.node()
        body = "".join(self.out)
        cs = "".join(f"    {c}\n" for c, _ in self.checks)
        return (f"#[allow(warnings)]\npub mod m{i} {{\nuse crate::Lx; use vp_core::Src; use teleparse::ToSpan; use teleparse::tp::Node as Nd;\nuse vp_dyn::lx::*;\n{body}"
                f"pub fn check(r: &mut Src) -> ::core::result::Result<(), ::std::string::String> {{\n{cs}    ::core::result::Result::Ok(())\n}}\npub const TEXT: &str = {rust_str(body)};\n}}\n")


def rust_str(s):
    return 'r####"' + s + '"####'


def emit(seed, count):
    r = random.Random(f"wrap {seed}")
    o = "".join(M(r).render(i) for i in range(count))
    o += "pub const ALL: &[(fn(&mut vp_core::Src) -> Result<(), String>, &str)] = &[" + ", ".join(f"(m{i}::check, m{i}::TEXT)" for i in range(count)) + "];\n"
    return o


if __name__ == "__main__":
    import sys
    print(emit(int(sys.argv[1]), int(sys.argv[2])))
