"""Random ill-formed definitions: each is a well-formed random definition with one thing wrong.
Every one must be rejected by the compiler. All are checked in one crate, one module each; errors are mapped to modules
by line. Modules without an error are checked again without the others, because an error can hide later ones."""
import json, os, random, re
import lexgen
from lexgen import rs
from vlib import HARNESS, KNOWN, Broken, cargo, fresh_repo_build, generated, save_replay


DECKS = {}


def deal(r, forms):
    """like r.choice, but every form comes before one comes again"""
    d = DECKS.setdefault(tuple(forms), [])
    if not d:
        d += forms
        r.shuffle(d)
    return d.pop()


# ------------------------------------------------------------------ lexicons
class Def:
    def __init__(self, r):
        self.r = r
        types, ignore, _ = lexgen.lexicon(r, r.choice([1, 2, 3, 4, 5, 6]))
        self.ignore = list(ignore)
        self.root = []
        self.more_root = []
        self.head = "pub enum L"
        self.tail = ""
        self.body = None
        self.v = [{"name": t.name, "regex": list(t.regex), "terms": [list(x) for x in t.terms], "metas": [], "attrs": [], "fields": "", "order": r.random() < 0.5,
                   "split": r.random() < 0.3} for t in types]
        self.n = 1000

    def name(self):
        self.n += 1
        return f"X{self.n}"

    def render(self):
        r = self.r
        root = list(self.root)
        if self.ignore:
            root.append("ignore(" + ", ".join(x if isinstance(x, Raw) else rs(x, r.random() < 0.5) for x in self.ignore) + ")")
        if r.random() < 0.5:
            root.append("terminal_parse")
        r.shuffle(root)
        o = "#[derive_lexicon]\n"
        if root:
            o += f"#[teleparse({', '.join(root)})]\n"
        for m in self.more_root:
            o += attribute(m) + "\n"
        if self.body is not None:
            return o + self.body + "\n"
        o += self.head + " {\n"
        for v in self.v:
            m = []
            if v["regex"]:
                m.append("regex(" + ", ".join(x if isinstance(x, Raw) else rs(x, r.random() < 0.5) for x in v["regex"]) + ")")
            if v["terms"]:
                m.append("terminal(" + ", ".join(t if isinstance(t, Raw) else t[0] if t[1] is None else f"{t[0]} = {t[1] if isinstance(t[1], Raw) else rs(t[1], False)}"
                                                for t in v["terms"]) + ")")
            if v["order"]:
                m.reverse()
            for x in v["metas"]:
                m.insert(r.randint(0, len(m)), x)
            if m and v["split"]:
                o += "".join(f"    #[teleparse({x})]\n" for x in m)
            elif m:
                o += f"    #[teleparse({', '.join(m)})]\n"
            o += "".join(f"    {attribute(x)}\n" for x in v["attrs"])
            o += f"    {v['name']}{v['fields']},\n"
        return o + "}\n" + self.tail


class Raw(str):
    pass


def attribute(x):
    return x if x.startswith("#[") else f"#[teleparse({x})]"


# attributes that are not teleparse's and that nobody else defines
FOREIGN = ["#[tools::teleparse(%)]", "#[teleparse::teleparse(%)]", "#[Teleparse(%)]", "#[teleparse_(%)]", "#[tele_parse(%)]", "#[tools::teleparse]", "#[::teleparse::teleparse(%)]",
           "#[a::b::teleparse(%)]", "#[teleparse::tools(%)]", "#[parse(%)]", "#[teleparser(%)]", "#[logos(%)]", "#[TELEPARSE(%)]"]


WORDS = ["if", "else", "fn", "let", "in", "do", "xy", "a", "zz"]
# pattern, literals it matches whole, not at all, not at the start, only a proper prefix of
PAT = [(r"[a-z]+", ["if", "zz", "q"], ["+", "12", "Ä"], ["+if", "1a", "→x"], ["if-", "a1", "ab+c", "zé"]),
       (r"[0-9]+", ["0", "12"], ["a", "-"], ["a1", "-1"], ["1a", "0x", "1.5"]),
       (r"[a-z]{2,4}", ["ab", "abcd"], ["a", "1"], ["1ab", "Aabc"], ["abcde", "ab1"]),
       (r"(?:ab|cd)+", ["ab", "abcd"], ["x", "ba"], ["xab", "bcd"], ["abc", "cdx"]),
       (r"#[^\n]*", ["#", "#a b"], ["a"], ["a#", " #"], ["#a\n", "#\n#"]),
       (r"\+\+?", ["+", "++"], ["-"], ["-+", "a++"], ["+++", "+a"]),
       (r"a|ab", ["a", "ab"], ["b"], ["ba", "xab"], ["abc", "aa"]),
       (r"ab|a", ["a", "ab"], ["b", "c"], ["ca"], ["aba", "ac"]),
       (r"→+", ["→", "→→"], ["a"], ["a→"], ["→a"])]
EMPTY = ["a*", "a?", "(?:)", "(a|)", "|a", "a|", "[0-9]*", "a*b*", "x{0,3}", "(?:ab)*", "(?:a?)+", r"\s*", "[^a]*", "(?:a|b*)", "$", "^"]
INVALID = ["[a", "(", "(?:a", "a{2,1}", "*a", "a**b(", r"\p{Nope}", "[z-a]", r"\q", "(?<n", "a)", "{2}(", "?a"]


def lits(v):
    return [t[1] for t in v["terms"] if t[1] is not None]


def fresh(d, **kw):
    """a new variant at a random place, well formed by itself"""
    r = d.r
    v = {"name": "New", "regex": [], "terms": [], "metas": [], "attrs": [], "fields": "", "order": r.random() < 0.5, "split": r.random() < 0.3}
    v.update(kw)
    d.v.insert(r.randint(0, len(d.v)), v)
    return v


def any_lit(d, pool=("@@", "§", "if1", "->>", "é?", "~\"", "\\\\")):
    return d.r.choice(pool)


def m_empty_literal(d):
    r = d.r
    k = r.random()
    if k < 0.4:
        v = fresh(d, terms=[[d.name(), any_lit(d)] for _ in range(r.randint(0, 1))])
    elif k < 0.7:
        p = r.choice(PAT)
        v = fresh(d, regex=[p[0]], terms=[[d.name(), None]])
    else:
        v = fresh(d, terms=[[d.name(), None]])
    v["terms"].insert(r.randint(0, len(v["terms"])), [d.name(), Raw(r.choice(['""', 'r""', 'r#""#']))])


def m_duplicate_literal(d):
    r = d.r
    w = r.choice(WORDS)
    spell = lambda: Raw(r.choice([f'"{w}"', f'r"{w}"', f'r#"{w}"#', '"' + "".join(f"\\u{{{ord(c):x}}}" for c in w) + '"', f'"\\x{ord(w[0]):02x}{w[1:]}"']))
    t = [[d.name(), spell()], [d.name(), spell()]]
    for _ in range(r.randint(0, 2)):
        t.insert(r.randint(0, len(t)), [d.name(), d.name()])
    k = r.random()
    if k < 0.55:
        t.insert(r.randint(0, len(t)), [d.name(), None])
        # with a pattern that matches every literal
        fresh(d, terms=t, regex=[r"[a-zA-Z0-9]+"] if k < 0.35 else [])
    else:
        fresh(d, terms=t)


def m_two_wildcards(d):
    r = d.r
    t = [[d.name(), None] for _ in range(r.randint(2, 3))]
    for w in r.sample(WORDS, r.randint(0, 2)):
        t.insert(r.randint(0, len(t)), [d.name(), w])
    fresh(d, terms=t, regex=["[a-z]+"] if r.random() < 0.7 else [])


def m_redundant(d):
    r = d.r
    p = r.choice(PAT)
    n = r.randint(1, min(2, len(p[1])))
    fresh(d, terms=[[d.name(), w] for w in r.sample(p[1], n)], regex=[p[0]])


def put_pattern(d, bad):
    r = d.r
    k = r.random()
    if k < 0.35:
        d.ignore.insert(r.randint(0, len(d.ignore)), bad)
    else:
        v = fresh(d, regex=[r.choice(PAT)[0]] if r.random() < 0.4 else [], terms=[[d.name(), None]] if r.random() < 0.6 else [])
        v["regex"].insert(r.randint(0, len(v["regex"])), bad)


def m_invalid_pattern(d):
    put_pattern(d, deal(d.r, INVALID))


def m_empty_pattern(d):
    put_pattern(d, deal(d.r, EMPTY))


def mismatch(d, col):
    r = d.r
    p = r.choice(PAT)
    t = [[d.name(), w] for w in r.sample(p[1], r.randint(0, min(2, len(p[1]))))]
    t.insert(r.randint(0, len(t)), [d.name(), r.choice(p[col])])
    t.insert(r.randint(0, len(t)), [d.name(), None])
    v = fresh(d, terms=t, regex=[p[0]])
    if r.random() < 0.3:
        v["regex"].insert(r.randint(0, 1), r"(?s:.+)X|.")


def m_no_match(d):
    mismatch(d, 2)


def m_not_at_start(d):
    mismatch(d, 3)


def m_proper_prefix(d):
    mismatch(d, 4)


def m_second_pattern(d):
    """every pattern must match every literal"""
    r = d.r
    w = r.choice(["if", "zz", "q"])
    bad = r.choice(["[0-9]+", "#[a-z]+", "[A-Z]+", "[a-z]{5,}", w + "x", w + "+[0-9]", "x" + w])
    good = "[a-z]+"
    v = fresh(d, terms=[[d.name(), w], [d.name(), None]], regex=[good, bad])
    if r.random() < 0.5:
        v["regex"].reverse()
    if r.random() < 0.5:
        v["terms"].reverse()


def m_repeated(d):
    r = d.r
    k = r.randint(0, 4)
    if k == 0:
        fresh(d, regex=["[a-z]+"], metas=[r.choice(['regex("[0-9]+")', 'regex(r"[a-z]+")', 'regex()'])], terms=[[d.name(), None]] if r.random() < 0.6 else [])
    elif k == 1:
        fresh(d, terms=[[d.name(), "§"]], metas=[r.choice([f'terminal({d.name()} = "@@")', f"terminal({d.name()})", "terminal()"])])
    elif k == 2:
        d.ignore = d.ignore or [r"\s+"]
        d.root.append('ignore("%%%")')
    elif k == 3:
        d.ignore = d.ignore or [r"\s+"]
        d.more_root.append(r.choice(["terminal_parse", 'ignore("%%%")']))
    else:
        n = d.name()
        fresh(d, terms=[[n, "§"], [d.name(), "@@"], [n, "%%%"]])


def m_unknown_root(d):
    if d.r.random() < 0.6:
        d.ignore = []
    d.root.append(deal(d.r, ["foo", "foo = \"x\"", "x(\"%%\")", "foo(x)", "ignore", "ignore = \"x\"", "terminal_parse(x)", "terminal_parse = true", "terminal_parse()", "Ignore(\"x\")",
                              "teleparse::ignore(\"x\")", "regex(\"x\")", "terminal(X)", "root", "skip(\"a\")", "terminal_parser", "ignore(5)", "ignore(x)", "ignore(\"a\" \"b\")"]))


def m_unknown_variant(d):
    r = d.r
    m = deal(r, ["foo", "foo = \"x\"", "foo(x)", "regex", "regex = \"a\"", "terminal", "terminal = \"x\"", "Regex(\"a\")", "regexp(\"a\")", "terminals(A)", "a::regex(\"a\")",
                  "ignore(\"a\")", "extract", "terminal_parse", "skip", "root", "semantic(A)", "regex(5)", "regex(a)", "regex('a')", "regex(b\"a\")", "regex(\"a\" \"b\")", "token(\"a\")"])
    v = r.choice(d.v)
    if m.startswith(("regex(", "terminal(")) or v["split"]:
        v = fresh(d)
    (v["metas"] if r.random() < 0.6 else v["attrs"]).append(m)


def m_terminal_form(d):
    r = d.r
    n = d.name()
    bad = Raw(r.choice([f"{n}(x)", f"a::{n}", f"a::{n} = \"x\"", f"{n} = 5", f"{n} = 'c'", f"{n} = b\"x\"", f"{n} = x", f"{n} = \"a\" + \"b\"", f"{n} = true", f"{n}(\"x\")", "\"x\"", f"{n}: \"x\""]))
    t = [[d.name(), "§"]] if r.random() < 0.5 else []
    t.insert(r.randint(0, len(t)), bad)
    fresh(d, terms=t)


def m_fields(d):
    d.r.choice(d.v)["fields"] = d.r.choice(["(u8)", "(u8, u8)", "{ a: u8 }", "()", " {}"])


def m_generics(d):
    d.head = "pub enum L" + d.r.choice(["<T>", "<'a>", "<const N: usize>", "<T: Copy>"])


def m_kind(d):
    d.body = d.r.choice(["pub struct L { a: u8 }", "pub struct L;", "pub struct L(u8);", "pub union L { a: u8, b: u8 }", "pub struct L {}"])


def m_size(d):
    n = d.r.choice([0, 129, 129, 130, 200, 256, 257])
    if n == 0:
        d.v = []
        return
    while len(d.v) < n:
        d.v.append({"name": f"Z{len(d.v)}", "regex": [], "terms": [] if d.r.random() < 0.5 else [[d.name(), f"§{len(d.v)}"]], "metas": [], "attrs": [], "fields": "", "order": False, "split": False})


LEX = [(m_empty_literal, 3), (m_duplicate_literal, 4), (m_two_wildcards, 3), (m_redundant, 3), (m_invalid_pattern, 3), (m_empty_pattern, 4), (m_no_match, 3), (m_not_at_start, 3),
       (m_proper_prefix, 3), (m_second_pattern, 3), (m_repeated, 4), (m_unknown_root, 4), (m_unknown_variant, 4), (m_terminal_form, 3), (m_fields, 2), (m_generics, 1), (m_kind, 1), (m_size, 1)]


def bad_lexicon(r):
    d = Def(r)
    f = deal(r, [x[0] for x in LEX for _ in range(x[1])])
    f(d)
    return f.__name__[2:], d.render()


def good_lexicon(r):
    return "well-formed", Def(r).render()


# ------------------------------------------------------------------ syntax definitions
BASE = """#[derive_lexicon]
#[teleparse(ignore(r"\\s+"))]
pub enum L {
    #[teleparse(regex("[a-z]+"), terminal(Ident, KwIf = "if"))]
    Word,
    #[teleparse(regex("[0-9]+"), terminal(Int))]
    Num,
    #[teleparse(terminal(Add = "+", Mul = "*", Comma = ","))]
    Op,
    Sem,
    Sem2,
}
"""
TYPES = ["Ident", "Int", "Add", "KwIf", "Mul", "tp::Option<Add>", "tp::Nev<Int>", "(Ident, Int)", "tp::Split<Ident, Comma>", "Box<Int>", "tp::String<Ident>"]


class Syn:
    def __init__(self, r):
        self.r = r
        self.shape = r.choice(["named", "unnamed", "enum"])
        n = r.randint(1, 4)
        t = ["Ident", "Int", "Add", "KwIf", "Mul"]
        if self.shape == "enum":
            r.shuffle(t)
            self.f = [[x, []] for x in t[:n]]
        else:
            self.f = [[r.choice(t + TYPES), []] for _ in range(n)]
        for x in self.f:
            if r.random() < 0.4:
                x[1] = r.sample(["semantic(Sem)", "semantic(Sem, Sem2)", "semantic(Sem2,)"], 1)
                if r.random() < 0.3:
                    x[1].append("hook(h)")
                    r.shuffle(x[1])
        self.more = [[] for _ in self.f]
        self.root = r.choice([[], ["root"], ["root", "no_test"], ["no_test", "root"]])
        self.more_root = []
        self.body = None
        self.vshape = {}
        self.head = ""
        self.repr = ""

    def render(self):
        o = "#[derive_syntax]\n"
        if self.root:
            o += f"#[teleparse({', '.join(self.root)})]\n"
        for x in self.more_root:
            o += attribute(x) + "\n"
        o += self.repr
        if self.body is not None:
            return o + self.body + "\n"
        at = lambda i: ("".join(attribute(x) + " " for x in ([", ".join(self.f[i][1])] if self.f[i][1] else []) + self.more[i]))
        if self.shape == "named":
            return o + "pub struct S { " + ", ".join(f"{at(i)}pub f{i}: {f[0]}" for i, f in enumerate(self.f)) + " }\n"
        if self.shape == "unnamed":
            return o + "pub struct S(" + ", ".join(f"{at(i)}pub {f[0]}" for i, f in enumerate(self.f)) + ");\n"
        return o + "pub enum S { " + ", ".join(f"{at(i)}V{i}{self.vshape.get(i, f'({f[0]})')}" for i, f in enumerate(self.f)) + " }\n"


def s_empty(d):
    d.body = d.r.choice(["pub struct S;", "pub struct S();", "pub struct S {}", "pub enum S {}"])


def s_variant(d):
    if d.shape != "enum":
        d.shape = "enum"
        d.f = [[x, []] for x in d.r.sample(["Ident", "Int", "Add", "Mul"], len(d.f))]
    i = d.r.randrange(len(d.f))
    t = d.f[i][0]
    d.vshape[i] = d.r.choice(["", "()", " {}", f" {{ a: {t} }}", f"({t}, Int)", f" {{ a: {t}, b: Int }}", f"({t}, Int, Comma)"])


def s_discriminant(d):
    d.shape = "enum"
    d.f = [[x, []] for x in d.r.sample(["Ident", "Int", "Add", "Mul"], len(d.f))]
    d.more = [[] for _ in d.f]
    d.repr = "#[repr(u8)]\n"
    i = d.r.randrange(len(d.f))
    d.vshape[i] = f"({d.f[i][0]}) = {d.r.randint(0, 9)}"


def s_union(d):
    d.body = "pub union S { a: u8, b: u8 }"


def s_unknown_root(d):
    x = deal(d.r, ["foo", "foo(x)", "foo = \"x\"", "root(x)", "root = true", "no_test(x)", "Root", "semantic(Sem)", "terminal_parse", "a::root", "test", "hook(h)", "root()", "no_test = 1"])
    d.root.insert(d.r.randint(0, len(d.root)), x)


def s_no_test(d):
    d.root = ["no_test"] if d.r.random() < 0.8 else ["no_test", "no_test"]


def s_repeated_root(d):
    d.root = d.root or ["root"]
    d.more_root.append(d.r.choice(["root", "root, no_test", "no_test"]))


def s_unknown_field(d):
    i = d.r.randrange(len(d.f))
    x = deal(d.r, ["foo", "foo(x)", "foo = \"x\"", "semantic", "semantic = \"Sem\"", "hook", "hook = \"h\"", "Semantic(Sem)", "semantics(Sem)", "hooks(h)", "root", "a::semantic(Sem)", "terminal(A)",
                    "regex(\"a\")", "no_test", "foo()", "parse(x)"])
    d.f[i][1].insert(d.r.randint(0, len(d.f[i][1])), x)


def s_foreign(d):
    r = d.r
    x = deal(r, FOREIGN)
    if r.random() < 0.5:
        if r.random() < 0.5:
            d.root = []
        d.more_root.insert(r.randint(0, len(d.more_root)), x.replace("%", r.choice(["", "root", "root, no_test"])))
    else:
        i = r.randrange(len(d.f))
        if r.random() < 0.5:
            d.f[i][1] = []
        d.more[i].append(x.replace("%", r.choice(["", "semantic(Sem)", "hook(h)"])))


def s_malformed(d):
    i = d.r.randrange(len(d.f))
    d.f[i][1] = [x for x in d.f[i][1] if x.startswith("hook")]
    x = deal(d.r, ["semantic(1)", "semantic(\"Sem\")", "semantic(a::Sem)", "semantic(Sem Sem2)", "semantic(Sem | Sem2)", "semantic(Nope)", "semantic(Sem, Nope)", "semantic(sem)"])
    d.f[i][1].insert(d.r.randint(0, len(d.f[i][1])), x)


def s_malformed_hook(d):
    i = d.r.randrange(len(d.f))
    d.f[i][1] = [x for x in d.f[i][1] if x.startswith("semantic")]
    d.f[i][1].insert(d.r.randint(0, len(d.f[i][1])), deal(d.r, ["hook(1)", "hook()", "hook(a, b)", "hook(\"h\")", "hook(a::b)"]))


def s_repeated_field(d):
    i = d.r.randrange(len(d.f))
    k = d.r.randint(0, 2)
    if k == 0:
        d.f[i][1] = ["semantic(Sem)", d.r.choice(["semantic(Sem2)", "semantic(Sem)"])] + (["hook(h)"] if d.r.random() < 0.3 else [])
    elif k == 1:
        d.f[i][1] = ["hook(h)", d.r.choice(["hook(h)", "hook(g)"])] + (["semantic(Sem)"] if d.r.random() < 0.3 else [])
    else:
        d.f[i][1] = d.f[i][1] or ["semantic(Sem)"]
        d.more[i].append(d.r.choice(["semantic(Sem2)", "hook(g)", "semantic(Sem)"]))
    if k != 2:
        d.r.shuffle(d.f[i][1])


SYN = [(s_empty, 2), (s_variant, 4), (s_discriminant, 2), (s_union, 1), (s_unknown_root, 4), (s_no_test, 1), (s_repeated_root, 2), (s_unknown_field, 5), (s_foreign, 2), (s_malformed, 4),
       (s_malformed_hook, 2), (s_repeated_field, 5)]


def bad_syntax(r):
    d = Syn(r)
    f = deal(r, [x[0] for x in SYN for _ in range(x[1])])
    f(d)
    return f.__name__[2:], d.render()


def good_syntax(r):
    return "well-formed", Syn(r).render()


# ------------------------------------------------------------------ checking
def lines_of(span, path, out):
    if os.path.basename(span["file_name"]) == os.path.basename(path):
        out.append(span["line_start"])
    e = span.get("expansion")
    if e:
        lines_of(e["span"], path, out)


def compile_modules(tag, mods, prelude, pkg="vp-baddefs", lib="teleparse"):
    """indices of the modules that have an error"""
    text, starts = "#![allow(warnings)]\n"[:0] + prelude, []
    for i, m in mods:
        starts.append((text.count("\n") + 1, i))
        text += f"#[allow(warnings)]\npub mod m{i} {{\nuse {lib}::prelude::*;\n{'use super::*;' if prelude else ''}\n{m}}}\n"
    path = generated(f"bad-{tag}.rs", text)
    p = cargo(["check", "--offline", "--locked", "-p", pkg, "--message-format=json"], HARNESS, env={"VP_BADDEFS": path})
    bad, seen = set(), 0
    for l in p.stdout.splitlines():
        if not l.startswith("{"):
            continue
        j = json.loads(l)
        if j.get("reason") != "compiler-message" or j["message"]["level"] not in ("error", "error: internal compiler error"):
            continue
        if pkg[3:] not in j.get("package_id", ""):
            raise Broken("the crate under test does not build: " + j["message"]["message"])
        seen += 1
        at = []

        def walk(m):
            for s in m["spans"]:
                lines_of(s, path, at)
            for c in m.get("children", []):
                walk(c)
        walk(j["message"])
        for n in at:
            own = [i for s, i in starts if s <= n]
            if own:
                bad.add(own[-1])
    if p.returncode == 0:
        return set(), True
    if seen == 0:
        raise Broken("cargo check failed without an error: " + p.stderr[-3000:])
    return bad, False


def run(kind, make, control, prelude, prop, seed, tier, quick, thorough, known=()):
    fresh_repo_build()
    r = random.Random(f"bad {kind} {seed}")
    DECKS.clear()
    rounds, per = (1, quick) if tier == "quick" else (thorough // 400, 400)
    labels, total, seen, samples, violations, found = {}, 0, set(), [], [], []
    # the unchanged definitions that the bad ones are made from compile
    good = [(i, control(r)[1]) for i in range(per // 6)]
    rejected, ok = compile_modules(f"{kind}-{seed}-good", good, prelude)
    labels["well-formed, must compile"] = len(good)
    for i, t in good:
        if i in rejected:
            bad1, ok1 = compile_modules(f"{kind}-{seed}-alone", [(i, t)], prelude)
            if not ok1:
                violations.append((f"a well-formed definition does not compile:\n{t}", save_replay(prop, f"{kind}-well-formed", {"what": "well-formed", "prelude": prelude, "definition": t})))
                break
    for key, what, t in known:
        bad1, ok1 = compile_modules(f"{kind}-{seed}-alone", [(0, t)], prelude)
        if not ok1:
            found.append(f"{key}: {what}")
    for b in range(rounds):
        if violations:
            break
        mods = []
        for i in range(per):
            what, text = make(r)
            mods.append((i, what, text))
            labels[what] = labels.get(what, 0) + 1
            seen.add(text)
            if len(samples) < 8 and i % 7 == 0:
                samples.append(f"{what}: {text}"[:900])
        total += per
        left = [(i, t) for i, _, t in mods]
        while left:
            bad, ok = compile_modules(f"{kind}-{seed}-{b}", left, prelude)
            rest = [(i, t) for i, t in left if i not in bad]
            if ok or not bad:
                for i, t in rest[:3]:
                    # alone
                    bad1, ok1 = compile_modules(f"{kind}-{seed}-alone", [(i, t)], prelude)
                    if ok1:
                        violations.append((f"an ill-formed definition ({mods[i][1]}) compiles:\n{t}", save_replay(prop, f"{kind}-{mods[i][1]}", {"what": mods[i][1], "prelude": prelude, "definition": t})))
                if not ok and not violations:
                    raise Broken("errors that belong to no definition")
                break
            left = rest
    return {"suite": f"bad_{kind}", "evaluations": total + len(good), "distinct_nontrivial": len(seen) + len(good), "rule": "every ill-formed definition and every well-formed control; distinct by its text", "samples": samples, "labels": labels,
            "violations": violations, "known": found}


def known(prop):
    """listed definitions of this property that wrongly do not compile"""
    r = []
    for l in open(KNOWN):
        m = re.match(r"known: property=(\S+) key=(\S+) definition=<(.*)> (.*)", l)
        if m and m.group(1) == prop:
            r.append((m.group(2), m.group(4), m.group(3) + "\n"))
    return r


def c15(prop, seed, tier):
    return run("lexicon", bad_lexicon, good_lexicon, "", prop, seed, tier, 600, 6000)


def c20(prop, seed, tier):
    return run("syntax", bad_syntax, good_syntax, "use teleparse::prelude::*;\n" + BASE, prop, seed, tier, 600, 6000, known("C20"))


# ------------------------------------------------------------------ ToSpan and Node
def bad_wrap(r):
    """a shape that has no first field to delegate to"""
    import wrapgen
    node = r.random() < 0.5
    d = r.choice(["teleparse::tp::Node", "teleparse::prelude::Node"]) if node else r.choice(["teleparse::ToSpan", "::teleparse::ToSpan"])
    f = r.choice(wrapgen.FIELDS)
    good = [f"({r.choice(['teleparse::Span', 'teleparse::tp::Node<u8>'])}, u8)", f" {{ {f}: teleparse::Span }}", "(teleparse::Span)"]
    kinds = ["unit", "named without fields", "tuple without fields", "union"]
    kinds += ["enum", "first field has no value type", "first field is no path", "first field is no node"] if node else ["variant without fields", "empty enum", "first field has no span"]
    k = deal(r, kinds)
    o = f"#[derive({d})]\n"
    if k == "unit":
        return k, o + "pub struct S;\n"
    if k == "named without fields":
        return k, o + "pub struct S {}\n"
    if k == "tuple without fields":
        return k, o + "pub struct S();\n"
    if k == "union":
        return k, o + f"pub union S {{ {f}: teleparse::Span, b2: u8 }}\n"
    if k == "empty enum":
        return k, o + "pub enum S {}\n"
    if k == "enum":
        return k, o + "pub enum S { " + ", ".join(f"V{i}{r.choice(['(teleparse::tp::Node<u8>)', '(teleparse::tp::Node<u8>, u8)', ' { a: teleparse::tp::Node<u8> }'])}" for i in range(r.randint(1, 4))) + " }\n"
    if k == "variant without fields":
        n = r.randint(1, 5)
        i = r.randrange(n)
        return k, o + "pub enum S { " + ", ".join(f"V{j}" + (r.choice(["", "()", " {}"]) if i == j else r.choice(good)) for j in range(n)) + " }\n"
    bad = {"first field has no value type": ["u32", "teleparse::Span", "Vec"], "first field is no path": ["(teleparse::tp::Node<u8>, u8)", "[teleparse::tp::Node<u8>; 1]", "&'static teleparse::tp::Node<u8>", "fn(u8)", "()"],
           "first field is no node": ["Vec<u8>", "::core::option::Option<teleparse::tp::Node<u8>>", "::std::boxed::Box<teleparse::tp::Node<u8>>"], "first field has no span": ["u32", "::std::string::String", "Vec<teleparse::Span>", "()", "(u8, teleparse::Span)", "(teleparse::Span, u8)", "(teleparse::Span,)", "::core::option::Option<teleparse::Span>"]}[k]
    rest = r.choice(["", ", teleparse::tp::Node<u8>", ", teleparse::Span, u8"])
    if r.random() < 0.5:
        return k, o + f"pub struct S({r.choice(bad)}{rest});\n"
    return k, o + f"pub struct S {{ {f}0: {r.choice(bad)}" + "".join(f", g{i}: {t.strip()}" for i, t in enumerate(rest.split(",")[1:])) + " }\n"


def good_wrap(r):
    import wrapgen
    f = r.sample(wrapgen.FIELDS, 2)
    v = r.choice(["u8", "::std::string::String", "(u8, bool)", "::core::result::Result<u8, ()>"])
    node = r.choice(["teleparse::tp::Node", "teleparse::prelude::Node"])
    return "well-formed", r.choice([f"#[derive({node}, teleparse::ToSpan)]\npub struct S({node}<{v}>, u8);\n", f"#[derive({node})]\npub struct S {{ {f[0]}: {node}<{v}>, {f[1]}: u8 }}\n",
                                    f"#[derive(teleparse::ToSpan)]\npub enum S {{ A({node}<{v}>, u8), B {{ {f[0]}: teleparse::Span, {f[1]}: {v} }} }}\n", f"#[derive(teleparse::ToSpan)]\npub struct S {{ {f[0]}: teleparse::Span }}\n"])


def c24(prop, seed, tier):
    return run("wrapper", bad_wrap, good_wrap, "", prop, seed, tier, 300, 2400)


# ------------------------------------------------------------------ under another name
def renamed(prop, make, prelude, seed, n):
    """well-formed definitions in a crate that knows the library under another name"""
    fresh_repo_build()
    r = random.Random(f"renamed {prop} {seed}")
    mods = [(i, make(r)[1]) for i in range(n)]
    re_name = lambda t: re.sub(r"\bteleparse::", "parselib::", t)
    mods = [(i, re_name(t)) for i, t in mods]
    bad, ok = compile_modules(f"renamed-{prop}-{seed}", mods, re_name(prelude), "vp-renamed", "parselib")
    v = []
    for i in sorted(bad)[:1]:
        t = mods[i][1]
        if not compile_modules(f"renamed-{prop}-{seed}-alone", [(i, t)], re_name(prelude), "vp-renamed", "parselib")[1]:
            v.append((f"a well-formed definition does not compile in a crate that names the library `parselib`:\n{t}", save_replay(prop, "renamed", {"what": "renamed", "prelude": re_name(prelude), "definition": t})))
    if not ok and not v:
        raise Broken("errors that belong to no definition")
    return {"suite": "renamed", "evaluations": n, "distinct_nontrivial": len({t for _, t in mods}), "rule": "every well-formed definition in a crate that renames the library; distinct by its text",
            "samples": [t[:600] for _, t in mods[:2]], "labels": {"must compile": n}, "violations": v, "known": []}


def c15_renamed(prop, seed, tier):
    return renamed(prop, good_lexicon, "", seed, 40 if tier == "quick" else 400)


def c20_renamed(prop, seed, tier):
    return renamed(prop, good_syntax, "use teleparse::prelude::*;\n" + BASE, seed, 60 if tier == "quick" else 600)


def c24_renamed(prop, seed, tier):
    return renamed(prop, good_wrap, "", seed, 40 if tier == "quick" else 400)
