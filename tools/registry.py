"""which suites decide which property"""
GR = "random grammars against a textbook LL(1) reference"
TRUST = " Trusts the reference written from the definitions (harness/core/src/cfg.rs) and the generator's bounds (see DESIGN.md)."
CHECKS = {
    "C01": {"steps": [("suite", "vp-meta", "c01"), ("suite", "vp-dyn", "c01_nodes")],
            "technique": "property-based testing: random grammars, differential against a textbook LL(1) decision",
            "note": "Every generated grammar's verdict is compared with the definition of LL(1) and left recursion." + TRUST},
    "C02": {"steps": [("suite", "vp-meta", "c02"), ("suite", "vp-dyn", "c02_nodes")],
            "technique": "property-based testing: random grammars and registration orders, differential against least-fixpoint FIRST/FOLLOW",
            "note": "All sets of all symbols compared for equality, including after shuffling the registration order." + TRUST},
    "C03": {"steps": [("suite", "vp-meta", "c03"), ("suite", "vp-dyn", "c03_nodes")],
            "technique": "property-based testing: random rejected grammars, the reported defect is checked against the definitions",
            "note": "Each reported conflict or cycle is verified to exist with exactly the reported terminals." + TRUST},
    "C04": {"steps": [("suite", "vp-meta", "c04"), ("suite", "vp-dyn", "c04_nodes")],
            "technique": "property-based testing: random accepted grammars x all lookaheads, differential against prediction by definition",
            "note": "All choice symbols and every lookahead class (each literal, another text of each type, end of input)." + TRUST},
    "C11": {"steps": [("suite", "vp-meta", "c11"), ("py", "lexstep", "c11")], "build_is_part": ["meta/src/sizes.rs"],
            "technique": "model-based testing of operation histories over lexicons of many sizes",
            "note": "Sets and maps against BTreeSet/vector models for lexicon sizes around every representation boundary (1..128)."},
    "C12": {"steps": [("suite", "vp-meta", "c12")],
            "technique": "model-based testing: random token layouts and queries against brute-force definitions",
            "note": "Every query is recomputed by filtering all tokens by the stated definition."},
    "C13": {"steps": [("suite", "vp-meta", "c13_lits"), ("suite", "vp-meta", "c13_terms")],
            "technique": "model-based testing of set operation histories against explicit finite sets",
            "note": "Membership, change flags, equality and rendering after every operation."},
    "C10": {"steps": [("py", "lexstep", "c10")],
            "technique": "property-based testing: random lexicon definitions compiled with the real macro, random text against a reference lexer",
            "note": "60 generated lexicons per run; regions, tokens and their order compared with longest-match by definition." + TRUST},
    "C15": {"steps": [("py", "lexstep", "c15"), ("py", "baddefs", "c15"), ("py", "baddefs", "c15_renamed")],
            "technique": "property-based testing: random well-formed lexicon definitions must compile and their terminals parse exactly their token; random ill-formed ones must be rejected",
            "note": "Generated definitions compiled by the real macro; 18 kinds of one-defect mutations of random definitions." + TRUST},
    "C05": {"steps": [("suite", "vp-dyn", "c05")],
            "technique": "property-based testing: random accepted type grammars, generated sentences, expected tree built by the generator",
            "note": "The tree of a sentence is known from its generation; the real parser must return exactly it with no error." + TRUST},
    "C06": {"steps": [("suite", "vp-dyn", "c06")],
            "technique": "property-based testing: broken and random inputs against a recogniser, accepted trees validated as derivations",
            "note": "A separate derivation validator and an LL(1) recogniser judge each parse." + TRUST},
    "C07": {"steps": [("suite", "vp-dyn", "c07")],
            "technique": "property-based testing / fuzzing with arbitrary text and later parser calls; crash, hang and silence oracle",
            "note": "Random text and random follow-up calls under allocation, depth, work and time guards." + TRUST},
    "C08": {"steps": [("suite", "vp-dyn", "c08")],
            "technique": "property-based testing: spans of parsed trees against the generating derivation and structural span invariants",
            "note": "Exact spans for sentences, invariants for recovered trees." + TRUST},
    "C09": {"steps": [("suite", "vp-dyn", "c09"), ("py", "lexstep", "c09")],
            "technique": "model-based testing of token stream histories against a reference tokenizer",
            "note": "After each operation the recorded tokens, extracted tokens, invalid regions and errors are compared." + TRUST},
    "C14": {"steps": [("suite", "vp-dyn", "c14")],
            "technique": "property-based testing: marks of generated sentences and recovered parses against the reference interpreter",
            "note": "The marks of every consumed token are compared." + TRUST},
    "C16": {"steps": [("suite", "vp-dyn", "c16")],
            "technique": "metamorphic testing: a grammar and a copy with interchangeable node types must parse alike",
            "note": "Trees, errors, marks and stream records of both are compared." + TRUST},
    "C17": {"steps": [("suite", "vp-dyn", "c17")],
            "technique": "differential testing of broken inputs against a reference interpreter of recovery",
            "note": "Tree, errors, consumed tokens and marks equal those of the reference interpreter." + TRUST},
    "C18": {"steps": [("suite", "vp-dyn", "c18"), ("py", "synstep", "races")],
            "technique": "metamorphic testing: repeated, interleaved and concurrent parses against single ones; first uses raced in fresh processes",
            "note": "Every parse is repeated in other orders, interleaved with other parsers and on other threads; thread schedules are those the operating system makes." + TRUST},
    "C19": {"steps": [("suite", "vp-dyn", "c19")],
            "technique": "stateful testing: histories of parses on one parser against fresh parsers and the reference interpreter",
            "note": "Each later parse equals a parse of the remaining text." + TRUST},
    "C20": {"steps": [("py", "synstep", "c20"), ("py", "synstep", "tests"), ("py", "baddefs", "c20"), ("py", "baddefs", "c20_renamed")],
            "technique": "property-based testing: random well-formed syntax definitions must compile and parse like the reference; random ill-formed ones must be rejected",
            "note": "60 generated grammars of real derived types per run against the reference interpreter; 11 kinds of one-defect mutations of random definitions." + TRUST},
    "C21": {"steps": [("suite", "vp-dyn", "c21"), ("suite", "vp-meta", "c21_message")],
            "technique": "property-based testing: each error's position, kind and set against the reference and the input",
            "note": "Order, spans, expecting sets and rendered messages." + TRUST},
    "C22": {"steps": [("suite", "vp-dyn", "c22"), ("suite", "vp-dyn", "c22_direct"), ("suite", "vp-dyn", "c22_terminals")],
            "technique": "property-based testing: literal insertion decided by its definition on random grammars, follow sets and inputs",
            "note": "Whole parses, direct token requests with random follow sets, and terminals as roots." + TRUST},
    "C23": {"steps": [("suite", "vp-meta", "c23")],
            "technique": "property-based round-trip and structural comparison of serialized values",
            "note": "serde_json value compared with the expected form, and round-trips for spans and sets of every size."},
    "C24": {"steps": [("py", "wrapstep", "c24"), ("py", "wrapstep", "nodes"), ("py", "baddefs", "c24"), ("py", "baddefs", "c24_renamed")],
            "technique": "property-based testing: random user types deriving ToSpan and Node compiled with the real macros and random contents of the library's nodes; what goes in must come out",
            "note": "Spans, deref, writing, conversion, iteration, equality and rendering of each; ill-formed shapes must be rejected."},
    "C25": {"steps": [("suite", "vp-meta", "c25_tables"), ("py", "synstep", "c25")],
            "technique": "property-based testing: metadata of random grammars and of random derived definitions, and its printed form, against the textbook reference",
            "note": "Printed tables are parsed and compared as sets; names, FIRST, FOLLOW and choices of all symbols of generated definitions are compared with the reference." + TRUST},
}
NOT_APPLICABLE = {}
