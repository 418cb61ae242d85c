"""random lexicon definitions (well formed), and broken variations of them"""
import os
import random

# family -> (first characters are disjoint between families) list of (pattern, shortest match, samples)
FAM = {
    "word": [(r"[a-z_][a-z0-9_]*", 1, ["a", "iff", "i", "x_1", "fnn", "elsewhere", "z"]),
             (r"[a-z]+", 1, ["a", "if", "abc", "ifif"]),
             (r"[a-zA-Z]\w*", 1, ["A", "Zé", "if_", "iF", "q9"]),
             (r"(?:[a-z]|_)+[0-9]?", 1, ["a", "_", "ab1", "if2", "__9"]),
             (r"[[:alpha:]]+", 1, ["a", "If", "Zz"]),
             (r"[a-z]{2,4}", 2, ["a", "ab", "abcd", "abcde", "ifs"])],
    "num": [(r"[0-9]+", 1, ["0", "42", "007"]),
            (r"[0-9]+(?:\.[0-9]+)?", 1, ["1", "1.5", "1.", "10.25", "1.2.3"]),
            (r"0x[0-9a-f]+|[0-9]+", 1, ["0", "0x", "0xff", "0xg", "10"]),
            (r"[1-9][0-9]*|0", 1, ["0", "00", "10", "01"]),
            (r"[0-9][0-9_]*", 1, ["1_000", "1", "9_"])],
    "str": [("\"[^\"\\n]*\"", 2, ['""', '"a b"', '"', '"//"', '"é"', '"x\n"']),
            ("\"(?:[^\"\\\\\\n]|\\\\.)*\"", 2, ['""', '"\\""', '"\\', '"a"', '"\\n"', '"\\\n"'])],
    "chr": [(r"'[^'\n]'", 3, ["'a'", "'", "'é'", "''", "'ab'"]),
            (r"'[a-z]*", 1, ["'", "'a", "'static"])],
    "hash": [(r"#[^\n]*", 1, ["#", "# c\n", "#x", "#é\n"]),
             (r"#[a-z]+", 2, ["#", "#a", "##if"])],
    "slash": [(r"//[^\n]*", 2, ["//", "// c\n", "/", "//é"]),
              (r"/\*[^*]*\*+(?:[^/*][^*]*\*+)*/", 4, ["/**/", "/* a */", "/*", "/***/", "/* * */", "/*/"])],
    "at": [(r"@[a-z]+", 2, ["@", "@a", "@if"]), (r"@(?:a|ab|abc)", 2, ["@", "@a", "@ab", "@abc", "@abcd"])],
    "dollar": [(r"\$[0-9]*", 1, ["$", "$1", "$22"]), (r"\$+", 1, ["$", "$$", "$$$"])],
    "greek": [(r"[α-ω]+", 1, ["α", "λω", "αé", "αΑ", "ωϐ"]), (r"[α-ωА-я]+", 1, ["α", "яz", "Ж", "яѐ", "αΑ"])],
    "cjk": [("[一-龥]", 1, ["中", "中文", "字", "䷿"]), ("[一-龥]+", 1, ["中", "中文", "字䷿", "龦"])],
    "bang": [(r"![!?]*", 1, ["!", "!!", "!?", "!?!"]), (r"!(?:=|==)?", 1, ["!", "!=", "!==", "!==="])],
    "tilde": [(r"~~~|~", 1, ["~", "~~", "~~~", "~~~~", "~~~~~"]), (r"~(?:ab)+", 3, ["~", "~ab", "~aba", "~abab"])],
}
# patterns with a continuation of several bytes that can fail half way: logos then prefers them to a literal of another
# type that ends where they can (KNOWN_FINDINGS.txt, C10 keyword-multibyte), so no such literal is put next to them
UNSAFE = {r"[a-zA-Z]\w*", r"[0-9]+(?:\.[0-9]+)?", r"0x[0-9a-f]+|[0-9]+", r"~(?:ab)+", r"~~~|~", r"[α-ω]+", r"[α-ωА-я]+", "[一-龥]+"}
SPACE = [r"\s+", r"[ \t\n]+", r"[ \t]+", r"\s", r"[ \n]"]
KEYWORDS = ["if", "ifx", "else", "fn", "for", "fo", "let", "in", "int", "do", "done", "continue", "function", "returning", "implementation",
            "identifier_of_more_than_32_letters_0123456789", "If", "IF", "iF", "Else", "FN", "Continue", "Function", "FUNCTION", "q" * 70, "a" * 300]
CHAINS = [["<", "<=", "<=>", "<<", "<<="], ["=", "==", "===", "=>"], ["+", "++", "+="], [".", "..", "...", "..="],
          ["(", ")"], ["[", "]", "[]"], [":", "::", ":="], ["→", "→→", "↔"], ["é", "ée", "è"], [";", ","],
          ["*", "**", "*="], ["-", "->", "--", "-->"], ["|", "||", "|>"], ["%", "%%"], ["&", "&&"], ["😀", "😀😀"],
          ["^", "^^^"], ["{", "}", "{{", "}}"], ["?", "?.", "??="], ["\\", "\\\\"], ["\\n", "\\t"], ["É", "Éa"], ["`", "``", "```"],
          ["NOT", "Not", "NULL", "Null"], ["«", "»", "«»"], [">", ">=", ">>", ">>="], ["\x01", "\x7f"], ["a-b", "a-B"], ["K", "\u212a"]]
FIRST = {"word": "_abcdefghijklmnopqrstuvwxyzABCZ", "num": "0123456789", "str": '"', "chr": "'", "hash": "#", "slash": "/", "at": "@",
         "dollar": "$", "greek": "α", "cjk": "中", "bang": "!", "tilde": "~"}


def rs(s, raw=True):
    if raw and "\n" not in s and '"#' not in s and "\r" not in s:
        return f'r#"{s}"#' if '"' in s else f'r"{s}"'
    s = s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")
    return '"' + "".join(c if ord(c) >= 32 and ord(c) != 127 else f"\\u{{{ord(c):x}}}" for c in s) + '"'


class Ty:
    def __init__(self, name):
        self.name, self.regex, self.terms, self.samples = name, [], [], []

    @property
    def lits(self):
        return [l for _, l in self.terms if l is not None]

    @property
    def any(self):
        return any(l is None for _, l in self.terms)

    def rules(self):
        """what the lexer knows of this type"""
        if self.regex:
            return self.regex, []
        if self.any:
            return [], []
        return [], self.lits


def full(pattern, text):
    import re
    p = pattern.replace("[[:alpha:]]", "[A-Za-z]").replace("\\A", "").replace("\\z", "")
    return re.fullmatch(p, text) is not None


def lexicon(r, size=None):
    """one well formed definition: (types, ignore, terminal_parse)"""
    n = size or r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12])
    fams = list(FAM)
    r.shuffle(fams)
    chains = [list(c) for c in CHAINS]
    r.shuffle(chains)
    pool = []
    for c in chains:
        r.shuffle(c)
        pool += c if r.random() < 0.7 else c[:1]
    kw = list(KEYWORDS)
    r.shuffle(kw)
    ignore, used = [], []
    # sometimes every token has several bytes: text at the end can then be too short for any of them
    least = r.choice([2, 2, 3, 4]) if r.random() < 0.2 else 1
    pick = {f: [p for p in FAM[f] if p[1] >= least] for f in fams}
    fams = [f for f in fams if pick[f]]
    pool = [x for x in pool if len(x.encode()) >= least]
    kw = [x for x in kw if len(x.encode()) >= least]
    k = r.random()
    if k < 0.85 and least == 1:
        ignore.append(r.choice(SPACE))
    many = r.random() < 0.2
    for f in ("slash", "hash", "at", "dollar", "tilde", "cjk", "greek"):
        if f in fams and r.random() < (0.6 if many else 0.3 if f in ("slash", "hash") else 0.02):
            p = r.choice(pick[f])
            ignore.append(p[0])
            fams.remove(f)
            used.append(p)
    r.shuffle(ignore)
    types, tn, pats = [], 0, [p for p in used]
    word = None
    for i in range(n):
        t = Ty(f"V{i}" if r.random() < 0.8 else f"Kind{i}")

        def term(lit):
            nonlocal tn
            t.terms.append((f"T{tn}", lit))
            tn += 1
        what = r.random()
        if what < 0.08:
            pass
        elif what < 0.42 and fams:
            f = fams.pop()
            p = r.choice(pick[f])
            t.regex.append(p[0])
            t.samples += p[2]
            pats.append(p)
            if r.random() < 0.15 and fams:
                q = r.choice(pick[fams[-1]])
                fams.pop()
                t.regex.append(q[0])
                t.samples += q[2]
                pats.append(q)
            if r.random() < 0.75:
                lits = []
                if len(t.regex) == 1 and r.random() < 0.6:
                    c = [x for x in kw + p[2] if full(p[0], x) and len(x.encode()) >= least]
                    r.shuffle(c)
                    for x in c[:r.randint(1, 3) if r.random() < 0.8 else 8]:
                        if x not in lits:
                            lits.append(x)
                for x in lits:
                    term(x)
                k = r.randint(0, len(t.terms))
                t.terms.insert(k, (f"T{tn}", None))
                tn += 1
                kw = [x for x in kw if x not in lits]
        elif what < 0.47:
            # a terminal for any text, but no pattern: never produced by the lexer
            term(None)
            if r.random() < 0.5 and pool:
                term("~" * 3 + str(i))
        else:
            for _ in range(r.randint(1, 4) if r.random() < 0.85 else r.randint(5, 20)):
                src = kw if (kw and r.random() < 0.3) else pool
                if src:
                    term(src.pop())
            r.shuffle(t.terms)
        types.append(t)
    # a literal that a pattern of another type also matches whole must be longer than the shortest match
    for t in types:
        if t.rules()[1]:
            t.terms = [(a, l) for a, l in t.terms if not any(full(p[0], l) and len(l) <= p[1] for p in pats)]
            if any(full(s, l) for _, l in t.terms for s in ignore):
                t.terms = []
            t.terms = [(a, l) for a, l in t.terms if not any(p[0] in UNSAFE and full(p[0], l) for p in pats)]
    # logos loses count in literals like "." "..." "..=" (KNOWN_FINDINGS.txt, C10 literal-fork)
    while True:
        lits = sorted({l for t in types for l in t.rules()[1]})
        hit = None
        for a in lits:
            for b in lits:
                q = os.path.commonprefix([a.encode(), b.encode()])
                if a < b and q not in (a.encode(), b.encode()) and q.decode(errors="ignore") not in lits \
                        and any(q.startswith(x.encode()) for x in lits):
                    hit = b
        if hit is None:
            break
        for t in types:
            if t.rules()[1]:
                t.terms = [(a, l) for a, l in t.terms if l != hit]
    if not any(t.rules()[0] or t.rules()[1] for t in types):
        t = r.choice(types)
        t.regex, t.terms = [], [(f"T{tn}", "zzzz")]
    return types, ignore, True


def render(types, ignore, r, name="L", terminal_parse=True):
    root = []
    if ignore or r.random() < 0.1:
        root.append("ignore(" + ", ".join(rs(p, r.random() < 0.5) for p in ignore) + ")")
    if terminal_parse:
        root.append("terminal_parse")
    r.shuffle(root)
    o = "#[derive_lexicon]\n"
    if root or r.random() < 0.5:
        o += f"#[teleparse({', '.join(root)})]\n"
    o += f"pub enum {name} {{\n"
    for t in types:
        m = []
        if t.regex:
            m.append("regex(" + ", ".join(rs(p, r.random() < 0.5) for p in t.regex) + (",)" if r.random() < 0.2 else ")"))
        if t.terms or r.random() < 0.2:
            m.append("terminal(" + ", ".join(a if l is None else f"{a} = {rs(l, False)}" for a, l in t.terms) + ")")
        r.shuffle(m)
        if r.random() < 0.2:
            o += f"    /// {t.name}\n"
        if len(m) == 2 and r.random() < 0.3:
            o += "".join(f"    #[teleparse({x})]\n" for x in m)
        elif m:
            o += f"    #[teleparse({', '.join(m)})]\n"
        o += f"    {t.name},\n"
    return o + "}\n"


def strs(v):
    return "&[" + ", ".join(rs(x, False) for x in v) + "]"


def entry(i, types, ignore, r):
    o = f"pub mod l{i} {{\n#![allow(unused, non_camel_case_types, clippy::all)]\nuse teleparse::prelude::*;\nuse crate::rt;\n"
    o += render(types, ignore, r)
    o += "pub fn spec() -> rt::Spec { rt::Spec { types: vec![\n"
    for t in types:
        reg, lits = t.rules()
        terms = ", ".join(f"({rs(a, False)}, {'None' if l is None else 'Some(' + rs(l, False) + ')'})" for a, l in t.terms)
        o += f"  rt::Ty {{ name: {rs(t.name)}, regex: {strs(reg)}, lits: {strs(lits)}, terms: &[{terms}], samples: {strs(t.samples)} }},\n"
    o += f"], ignore: {strs(ignore)} }} }}\n"
    o += "pub fn lex(s: &str) -> rt::Lexed { rt::lex_with::<L>(s) }\n"
    o += "pub fn term(k: usize, s: &str) -> Result<rt::TermOut, String> { match k {\n"
    k = 0
    for t in types:
        for a, _ in t.terms:
            o += f"  {k} => rt::one::<L, {a}>(s),\n"
            k += 1
    o += "  _ => unreachable!() } }\n"
    o += f"pub fn laws() -> Result<(), String> {{ rt::laws::<L>(&[{', '.join('L::' + t.name for t in types)}], &spec()) }}\n"
    o += "pub fn stream(s: &str, ops: &[(u8, usize)]) -> Vec<rt::Seen> { rt::stream::<L>(s, ops) }\n}\n"
    return o


def source(seed, count, big=()):
    r = random.Random(f"lexgen {seed}")
    o, defs = "// generated\n", []
    for i in range(count):
        types, ignore, _ = lexicon(r, big[i] if i < len(big) else None)
        o += entry(i, types, ignore, r)
    o += "pub fn all() -> Vec<rt::Entry> { vec![\n"
    for i in range(count):
        o += f"  rt::Entry {{ spec: l{i}::spec(), lex: l{i}::lex, term: l{i}::term, laws: l{i}::laws, stream: l{i}::stream }},\n"
    return o + "] }\n"


if __name__ == "__main__":
    import sys
    print(source(sys.argv[1], int(sys.argv[2])))
