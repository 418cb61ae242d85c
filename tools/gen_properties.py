#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
T = "packages/teleparse/src/"
M = "packages/macros/src/"

p("C01", "A grammar is accepted if and only if it is LL(1) and not left recursive",
  "For every grammar built from terminals, sequences, alternatives, optional parts and the library's repetition, separation, recovery and tuple nodes, requesting the parser's tables succeeds exactly when the grammar, read as a context-free grammar, has no FIRST/FIRST conflict between alternatives, no FIRST/FOLLOW conflict on a symbol that can be empty, and no left recursion. Two terminals conflict exactly when some token (type and text) matches both. A rejected grammar never yields a parse tree: parsing with it returns the grammar error for every input.",
  ["programs"], "all grammars (finite systems of productions over typed/literal terminals), including nullable symbols, indirect recursion, unproductive symbols and shared sub-grammars",
  "Unit tests fix about thirty hand-written grammars; acceptance is a whole-grammar fixpoint property and wrong answers need particular combinations of nullable symbols, cycles and literal/any overlap.",
  [T+"syntax/metadata.rs", T+"syntax/first/builder.rs", T+"syntax/follow/builder.rs", T+"tp_impl/option.rs", T+"tp_impl/iter.rs", T+"tp_impl/punct.rs", T+"tp_impl/split.rs", T+"tp_impl/tuple.rs"],
  [("conflict check over reachable productions", T+"syntax/metadata.rs check_conflicts"), ("left recursion check", T+"syntax/metadata.rs check_left_recursive"), ("production registration of each node type", T+"tp_impl/*.rs Production::register")],
  observe=["MetadataBuilder::build", "Metadata::build_for", "Root::metadata / Root::parse"])
p("C02", "FIRST and FOLLOW sets equal the textbook least sets",
  "For every grammar, the FIRST set of every symbol is exactly the set of terminals that can begin a string derived from it (plus empty iff it can derive the empty string), and the FOLLOW set of every symbol is exactly the set of terminals that can come right after it in a sentential form derived from the root (plus end-of-input iff it can come last), both computed as least fixpoints. A literal terminal of a token type is absorbed by the any-text terminal of the same type. Nothing is missing and nothing is added, independent of the order in which productions are registered.",
  ["programs"], "all grammars, all symbols of each grammar, all registration orders",
  "The table tests compare a handful of known grammars; fixpoint bugs need chains of nullable symbols, cycles or a specific processing order that the fixed grammars do not have.",
  [T+"syntax/first/builder.rs", T+"syntax/first/set.rs", T+"syntax/follow/builder.rs", T+"syntax/follow/set.rs", T+"syntax/term_set.rs", T+"syntax/lit_set.rs"],
  [("FIRST relations iterated to a fixpoint", T+"syntax/first/builder.rs"), ("FOLLOW relations iterated to a fixpoint", T+"syntax/follow/builder.rs")],
  observe=["Metadata.first / Metadata.follow for every symbol", "FirstBuilder::build", "FollowBuilder::build"])
p("C03", "Every grammar rejection names a genuine conflict or cycle",
  "Whenever a grammar is rejected, the error describes a defect that is really there: the named non-terminal has the named alternatives or sequence symbols, the listed terminals are exactly the terminals both sides share, a symbol said to be possibly empty is, and a reported left-recursion path is a real cycle in which every step can be reached without consuming input. The rendered message contains those names and terminals.",
  ["programs"], "all rejected grammars",
  "The existing tests pin the message of particular grammars; they cannot tell whether the named symbols are the conflicting ones when several candidates exist.",
  [T+"syntax/metadata.rs", T+"syntax/term_set.rs", T+"lib.rs"],
  [("conflict reporting", T+"syntax/metadata.rs check_conflicts"), ("intersection representation", T+"syntax/term_set.rs intersection_repr"), ("GrammarError", T+"lib.rs")],
  observe=["GrammarError returned by MetadataBuilder::build / Root::metadata, and its Display text"])
p("C04", "The predictive table picks the one right alternative for every lookahead",
  "For every accepted grammar, every choice and every possible next token (any type, any text, or end of input), prediction yields the alternative whose FIRST set contains that token; if there is none it yields the alternative that can be empty, and if no alternative can be empty it yields nothing. A derived choice node given such a lookahead parses exactly that alternative, and fails with the full set of expected terminals when prediction yields nothing.",
  ["programs", "inputs"], "all accepted grammars x all choice symbols x all lookahead tokens including end of input",
  "Tests drive choices with the tokens of valid programs; entries for other texts of the same token type, for empty alternatives and for tokens that start nothing are never looked up.",
  [T+"syntax/jump.rs", T+"syntax/metadata.rs", T+"syntax/first/set.rs", M+"syntax.rs"],
  [("jump table construction", T+"syntax/metadata.rs build_jump, "+T+"syntax/first/set.rs add_to_jump_table"), ("jump table lookup", T+"syntax/jump.rs look_up"), ("derived enum parser", M+"syntax.rs expand_enum")],
  observe=["Metadata.jump.look_up", "the variant and errors produced by a derived enum"])
p("C05", "Every sentence of an accepted grammar parses cleanly into its derivation tree",
  "For every accepted grammar and every sentence of its language, written with any amount of ignored text and extracted tokens between the tokens, parsing succeeds with no error and consumes the whole input. The tree returned is the unique derivation tree of the sentence: the same alternatives, the same number of items in each repetition, optional parts present exactly when derived, and every terminal holding its own token.",
  ["programs", "inputs"], "all accepted grammars x all sentences x all layouts",
  "Tests parse a few programs of a few grammars; each additional nesting of optional, repeated and separated parts is a new path through the hand-written parsers.",
  [T+"tp_impl/option.rs", T+"tp_impl/iter.rs", T+"tp_impl/split.rs", T+"tp_impl/punct.rs", T+"tp_impl/recover.rs", T+"tp_impl/tuple.rs", T+"parser/parser_impl.rs", M+"syntax.rs"],
  [("node parsers", T+"tp_impl"), ("derived parsers", M+"syntax.rs"), ("token stream", T+"parser/parser_impl.rs")],
  observe=["tree, errors and remaining input of Root::parse / Parser::parse"])
p("C06", "Input outside the language is never accepted silently",
  "For every accepted grammar and every token sequence, a parse that returns a tree without any error has consumed exactly a sentence of the grammar and the tree is its derivation; otherwise at least one error is reported. No syntax error starts before the first token at which the input stops being a sentence or a prefix of one.",
  ["programs", "inputs"], "all accepted grammars x all token sequences",
  "Negative tests cover particular broken inputs; silently dropped or invented tokens only show on particular combinations of a broken part inside a recovering part.",
  [T+"tp_impl", T+"parser/parser_impl.rs", M+"syntax.rs"],
  [("error propagation (success / recovered / panic)", T+"syntax/error.rs handle_result"), ("node parsers", T+"tp_impl"), ("literal insertion", T+"parser/parser_impl.rs parse_token_lit")],
  observe=["tree, errors, consumed tokens and remaining input"])
p("C07", "Parsing any text terminates without crashing and explains failures",
  "For every accepted grammar in which every symbol derives some finite text, and every UTF-8 input, parsing terminates, never panics, and never reports the internal \"parser did not advance\" error. If no tree is returned, at least one error is. Every call on the parser afterwards (remaining text, spans, further parses) is still safe.",
  ["programs", "inputs"], "all accepted grammars x all strings (multi-byte, unlexable, truncated, random)",
  "Tests never feed arbitrary text; infinite recovery loops and slicing panics need a particular token at a particular recovery point.",
  [T+"parser/parser_impl.rs", T+"tp_impl/iter.rs", T+"tp_impl/split.rs", T+"tp_impl/punct.rs", T+"tp_impl/recover.rs", T+"lex/lexer.rs", T+"lex/span.rs"],
  [("recovery loops consume or stop", T+"tp_impl/{iter,split,punct,recover}.rs"), ("span slicing clamps", T+"lex/span.rs")],
  observe=["return of Root::parse within a work bound", "Parser::info / remaining"])
p("C08", "Every node and error span covers exactly the text it stands for",
  "In every tree returned without errors, each node's span starts where its first part starts and ends where its last part ends, a terminal has the span of its token, and an empty part sits with zero length at the end of the token consumed before it. In every tree, also a recovered one, children lie inside their parent in source order without overlapping, and all positions are within the source on character boundaries. Spans of errors and of invalid, consumed and extracted tokens are also in bounds, ordered and on character boundaries, and a token's span slices to exactly the text it was recognised from.",
  ["programs", "inputs"], "all accepted grammars x all inputs, including recovered trees and multi-byte text",
  "Span assertions in tests are literal numbers for single small inputs; empty nodes at the edges and recovered nodes are where spans go wrong.",
  [T+"lex/span.rs", T+"tp_impl/node.rs", T+"tp_impl", T+"parser/parser_impl.rs", M+"to_span.rs", M+"syntax.rs", M+"node.rs"],
  [("span derivation of structs, enums and tuples", M+"to_span.rs, "+M+"syntax.rs, "+T+"lex/span.rs"), ("node span construction", T+"tp_impl"), ("empty span", T+"parser/parser_impl.rs empty_span")],
  observe=["ToSpan of every node", "Info.errors / tokens / extracted_tokens / invalid_source spans"])
p("C09", "The token stream hands out every token exactly once, in order",
  "For every history of peeking, consuming, type-directed and literal-directed token parsing, position queries and remaining-text queries on one parser, each token of the source is handed out exactly once and in order; peeking and querying never change what is consumed. At any moment the consumed tokens, the extracted tokens and the invalid regions recorded are exactly those up to the lookahead, each invalid region is reported as exactly one error, and the remaining text starts at the lookahead. A type-directed parse consumes only on a type match, a literal-directed parse only on a type and text match.",
  ["histories", "inputs"], "all operation histories x all source texts",
  "Tests run one fixed order of operations; lost or duplicated tokens need a peek, a failed match and a query in a particular order around ignored, extracted or invalid text.",
  [T+"parser/parser_impl.rs", T+"parser/info.rs", T+"lex/lexer.rs"],
  [("lookahead buffering", T+"parser/parser_impl.rs try_read_next_token"), ("token matching", T+"parser/parser_impl.rs parse_token, parse_token_lit")],
  state=[("peeked", "the lookahead token", T+"parser/parser_impl.rs"), ("info", "consumed and extracted tokens, invalid regions, errors", T+"parser/info.rs")],
  observe=["Parser stream API results and Info after every step"])
p("C10", "The lexer yields longest matches and accounts for every byte",
  "For every lexicon and every input, the lexer's tokens, the ignored text and the reported invalid regions partition the input in order with no byte lost or claimed twice. At each position where some token rule or ignore rule matches, the longest match is taken and classified under the type that declares it, a declared literal winning over a pattern of another type of equal length; where none matches, one character is skipped as invalid; the invalid text before a token is reported as one region from its first to its last invalid character (ignored text in between does not split it). The text of a token whose type declares only literals is always one of those literals.",
  ["programs", "inputs"], "all lexicons (1-128 types; literals, patterns, ignore patterns) x all inputs",
  "Tests lex a few strings with three lexicons; literal/pattern interplay, prefix chains of literals, skipped text next to invalid text and large lexicons are not sampled.",
  [T+"lex/lexer.rs", M+"lexicon.rs"],
  [("lexer wrapper with error coalescing", T+"lex/lexer.rs next"), ("generated lexer rules", M+"lexicon.rs")],
  observe=["Lexer::next until exhaustion"])
p("C11", "Token types, token sets and token maps obey their laws up to 128 types",
  "For every lexicon of 1 to 128 token types, in declaration order the types have ids 0,1,2,..., round-trip through their ids, enumerate from first to last and each own exactly one bit, distinct from all others. Token sets behave as mathematical sets of types under every history of insert, remove, union, containment and iteration (iterating in declaration order, each member once), sets written with token_set! contain exactly the listed types, and a token map keeps one independent value per type. Types are marked for extraction exactly when they declare no terminal.",
  ["programs", "histories"], "all lexicon sizes 1..=128 x all sets/maps x operation histories",
  "Tests use a 7-type lexicon, so the 16-, 32-, 64- and 128-bit representations and their boundaries are never exercised.",
  [M+"lexicon.rs", T+"lex/set.rs", T+"lex/map.rs", T+"lex/lexicon.rs"],
  [("generated ids and bits", M+"lexicon.rs"), ("bit set", T+"lex/set.rs"), ("array map", T+"lex/map.rs")],
  observe=["Lexicon trait methods", "lex::Set / lex::Map API"])
p("C12", "Token storage queries agree with their definitions",
  "For every ordered sequence of consumed tokens and every query span or position, the tokens overlapping the span are exactly those sharing a non-empty part with it, the tokens inside are exactly those contained in it, the runs ending or beginning at a position are the maximal runs satisfying the predicate, and a single-token query answers exactly when exactly one token lies inside. The mutable variants select the same tokens, and marking a selection changes the semantic types of exactly the selected tokens, adding to what was there.",
  ["inputs", "histories"], "all token layouts (adjacent, gapped, empty storage) x all spans and positions x marking histories",
  "Tests enumerate one short token list; boundary comparisons are wrong only for particular adjacency/gap patterns.",
  [T+"lex/vec.rs"],
  [("binary searches on span ends", T+"lex/vec.rs search_lo, search_hi"), ("bounds", T+"lex/vec.rs overlap_bounds, inside_bounds")],
  observe=["TokenVec / TokenSlice queries, Cell::types / semantics"])
p("C13", "Terminal sets obey set algebra with per-type wildcards",
  "Literal sets, terminal sets, FIRST sets and FOLLOW sets behave as mathematical sets of tokens under every history of insertion, removal, clearing, union, intersection and membership, where an any-text entry stands for every text of its type and the empty / end-of-input marker is a separate member that each operation includes or excludes as documented. Sets written with terminal_set!, first_set! and follow_set! have exactly the listed members. Every mutating operation reports a change exactly when membership changed, and equality and the rendered form depend only on the members.",
  ["histories", "inputs"], "all operation histories on sets over token types, literals, the wildcard and the empty marker",
  "Tests sample individual operations on small sets; the fixpoint computations rely on the change flags and on absorption in every combination.",
  [T+"syntax/lit_set.rs", T+"syntax/term_set.rs", T+"syntax/first/set.rs", T+"syntax/follow/set.rs"],
  [("literal sets with universe", T+"syntax/lit_set.rs"), ("per-type map plus empty marker", T+"syntax/term_set.rs")],
  observe=["LitSet, TerminalSet, FirstSet, FollowSet public API"])
p("C14", "Semantic types mark exactly the tokens of annotated parts",
  "After any parse, a consumed token carries a semantic type if and only if it lies in a successfully parsed field or alternative annotated with that type (directly or through an enclosing annotated part), and its own token type is always among its reported types. Empty optional parts and unannotated parts mark nothing, a part that failed to parse is not marked by its own annotation, neighbouring tokens are never marked, and marks accumulate over nested annotations.",
  ["programs", "inputs"], "all annotated grammars x all inputs",
  "The semantic tests check four inputs of one grammar; marks that leak to neighbours need empty or recovered nodes next to tokens.",
  [M+"syntax.rs", T+"parser/parser_impl.rs", T+"lex/vec.rs"],
  [("derived marking after success", M+"syntax.rs apply_semantic_impl"), ("marking by span", T+"parser/parser_impl.rs apply_semantic")],
  observe=["Info.tokens[i].semantics() / types()"])
p("C15", "A lexicon definition compiles exactly when it is well formed",
  "Deriving a lexicon succeeds for every well-formed enum (1-128 unit variants, valid patterns, consistent terminals) and reports a compile error for every ill-formed one: empty or duplicate literals in a variant, several wildcard terminals in a variant, a pattern made redundant by literals, an invalid pattern, a pattern or ignore pattern that matches the empty string, a pattern that cannot match one of its variant's literals as a whole from the start, repeated or unknown attributes, non-unit variants, generics, non-enums, and zero or more than 128 variants. Accepted definitions yield one type per declared terminal that parses exactly its token.",
  ["programs"], "all enum definitions with lexicon attributes",
  "Nine fixed compile-fail files exist; validation is a predicate over arbitrary combinations of patterns, literals and attribute orders.",
  [M+"lexicon.rs", M+"prelude.rs"],
  [("attribute parsing and validation", M+"lexicon.rs expand"), ("pattern validation", M+"lexicon.rs checked_regex_rule")],
  observe=["success or failure of compiling the definition, and where the error is reported"])
p("C16", "Interchangeable node types parse alike",
  "Nodes that differ only in what they store behave identically on every input: optional value versus presence flag, list versus deque, boxed versus plain, tuple versus unnamed struct versus named struct, text-quoting and value-parsing nodes versus the node they wrap all consume the same tokens, give the same spans and report the same errors. A quoting node holds exactly the source text of the wrapped node's span, and a value-parsing node holds exactly the result of converting that text.",
  ["programs", "inputs"], "all grammars containing such nodes x all inputs",
  "Tests check each wrapper on one or two successful inputs; failure and recovery paths of the wrappers are unobserved.",
  [T+"tp_impl/option.rs", T+"tp_impl/string.rs", T+"tp_impl/boxed.rs", T+"tp_impl/tuple.rs", T+"tp_impl/iter.rs", M+"syntax.rs"],
  [("mapping over parse results", T+"syntax/error.rs Result::map"), ("wrappers", T+"tp_impl/{option,string,boxed,tuple,iter}.rs")],
  observe=["trees, spans, errors and consumed tokens of both forms"])
p("C17", "Recovery follows the documented algorithm exactly",
  "For every grammar and every broken input, optional, repeated, looped, separated (no trailing separator), punctuated (trailing separator allowed) and skip-until nodes recover exactly as documented: what is skipped, which separator or item is kept or dropped, where recovery stops (separator, item start, follower, end of input), what partial tree results and which errors with which expected terminals and spans are reported. A reference interpreter of the documented rules and the parser agree on tree, errors, consumed tokens and remaining input.",
  ["programs", "inputs"], "all grammars with recovering nodes x all (broken) inputs",
  "Recovery tests fix one inner grammar and a few inputs per node; interactions between nested recovering nodes and followers are unsampled.",
  [T+"tp_impl/iter.rs", T+"tp_impl/split.rs", T+"tp_impl/punct.rs", T+"tp_impl/recover.rs", T+"tp_impl/option.rs", "packages/book/src/tp"],
  [("recovery loops", T+"tp_impl/{iter,split,punct,recover,option}.rs"), ("follow sets", T+"syntax/follow")],
  observe=["tree, errors (kind, span, expected set), tokens, remaining"])
p("C18", "Results are deterministic and independent of other parsers and threads",
  "Parsing the same text with the same grammar always gives the same tree, tokens and errors, however often it is repeated, whatever other grammars or texts were parsed before, with several parsers interleaved on one thread, and when many threads use a grammar for the first time at once. Tables for a grammar are the same on every construction.",
  ["histories", "schedules", "inputs"], "all interleavings of parses on one or several threads x inputs",
  "Tests parse once per process on one thread, so lazily shared tables and leftover parser state are never raced or reused.",
  [M+"root.rs", T+"parser/parser_impl.rs", T+"parser/tree.rs", T+"syntax/metadata.rs"],
  [("tables built once and shared", M+"root.rs metadata"), ("parser state is per parser", T+"parser/parser_impl.rs Parser")],
  observe=["results compared across repetitions, interleavings and threads"])
p("C19", "Successive parses on one parser continue where the last one stopped",
  "Parsing several roots in a row from one parser gives, for each, the same tree and errors as parsing it from the remaining text at that point, with positions relative to the whole source. Consumed tokens, extracted tokens, invalid regions and errors accumulate in order without loss or duplication, a failed parse leaves the offending token available to the next one, and convenience parsing of a text equals one parse on a fresh parser.",
  ["histories", "inputs"], "all sequences of root types x all texts",
  "The tests parse one root per parser; the hand-over of lookahead, errors and positions between parses is never exercised.",
  [T+"parser/parser_impl.rs", T+"parser/tree.rs"],
  [("parser state carried across parses", T+"parser/parser_impl.rs parse, parse_with_meta"), ("Root::parse", T+"parser/tree.rs")],
  observe=["results of consecutive Parser::parse calls versus fresh parsers"])
p("C20", "A syntax definition compiles exactly when its shape is supported",
  "Deriving a syntax node succeeds for every struct with at least one field (named or not) and every enum whose variants each hold exactly one unnamed field, with any mix of supported attributes, and reports a compile error for unit or empty structs, empty enums, variants of any other shape, discriminants, unions, unknown or malformed attributes, repeated attributes and a test switch without a root. (The lexicon is taken from the first part, so the type of the first part must not lead back to the type being defined.) Whatever is accepted parses its fields in declaration order, its alternatives by lookahead, and spans from its first to its last field; a root brings a test that passes exactly when its grammar is LL(1), unless that is switched off.",
  ["programs"], "all struct and enum definitions with syntax attributes",
  "There is no compile-fail test for syntax definitions at all, and code generation is compared for two small definitions only.",
  [M+"syntax.rs", M+"prelude.rs", M+"root.rs"],
  [("shape and attribute validation", M+"syntax.rs"), ("code generation", M+"syntax.rs")],
  observe=["success or failure of compiling the definition and the behaviour of accepted ones"])
p("C21", "Every error can be rendered and lists exactly what was expected",
  "For every parse of every input, every reported error renders to a message without panicking; a message about unexpected text quotes exactly the source text of the error's span, and a message about expected terminals lists each expected terminal exactly once: literals in quotes, any-text terminals by type name, in sorted order. The expected set of an error raised at a choice or terminal is exactly the set of terminals acceptable to that node at that point.",
  ["programs", "inputs"], "all parses x all reported errors",
  "Tests compare messages for a few errors; slices of odd spans (end of input, multi-byte, merged regions) and large expected sets are not rendered.",
  [T+"syntax/error.rs", T+"syntax/term_set.rs", T+"lex/span.rs"],
  [("message rendering", T+"syntax/error.rs message"), ("set representation", T+"syntax/term_set.rs to_repr"), ("slicing", T+"lex/span.rs get")],
  observe=["Error::message, Error span, ErrorKind"])
p("C22", "A missing literal is inserted exactly when what follows allows it",
  "When a literal terminal is expected and the next token (or end of input) is something else, the parser inserts the literal if and only if that token (or end of input) may follow the terminal somewhere in the grammar: it then holds a zero-length token at the end of the last consumed token, one error asks for the literal at the position of the lookahead, and nothing is consumed. Otherwise the node fails without consuming anything. Terminals that accept any text of a type are never inserted.",
  ["programs", "inputs"], "all accepted grammars x all inputs in which a literal is missing or replaced",
  "Tests cover one missing delimiter in one grammar; whether insertion happens depends on the whole grammar's FOLLOW sets and on end of input.",
  [T+"parser/parser_impl.rs", M+"lexicon.rs", T+"syntax/follow"],
  [("insertion", T+"parser/parser_impl.rs parse_token_lit"), ("generated terminal parsers", M+"lexicon.rs derive_terminal")],
  observe=["inserted tokens, errors, consumed tokens and position"])
p("C23", "Serialized spans, sets and errors are faithful",
  "Serializing a span or token set and reading it back gives an equal value for every value and lexicon size, a token map serializes to the list of its values in declaration order, and the serialized form of a terminal set or error contains exactly its members, wildcard markers, empty marker, kind and span.",
  ["inputs", "programs"], "all spans, token sets (all lexicon sizes), maps, terminal sets and errors",
  "No test serializes anything although the feature is on by default.",
  [T+"lex/set.rs", T+"lex/span.rs", T+"lex/map.rs", T+"syntax/error.rs", T+"syntax/lit_set.rs", T+"syntax/term_set.rs"],
  [("serde implementations", T+"lex/{set,span,map}.rs, "+T+"syntax/{error,lit_set,term_set}.rs")],
  observe=["serde_json value of each type"])
p("C24", "Wrapper nodes hand out exactly what they hold",
  "Every type that derives ToSpan (any struct with a first field that has a span, any enum of such variants, with generics, where clauses and further fields) has the span of its first field, and so have references, boxes and tuples of it (from the first part's start to the last part's end). Every type that derives Node (named or unnamed, generic, with further fields) stores the node it is converted from, sets the other fields to their defaults, and gives the value back unchanged by dereferencing, writing through it and into_inner. The library's own nodes do the same; iterating a list by value, reference or mutable reference visits every item once in order; two nodes are equal exactly when their spans and contents are; rendering shows span and value. Shapes without a first field to delegate to are compile errors. The derives work in crates that rename the library.",
  ["inputs", "programs"], "all type shapes that the derives accept, all contents and spans of nodes",
  "Tests use a handful of nodes of the library and derive Node for none with named fields.",
  [M+"node.rs", M+"to_span.rs", T+"tp_impl", T+"lex/span.rs"],
  [("ToSpan derive and tuples", M+"to_span.rs, "+T+"lex/span.rs"), ("Node derive", M+"node.rs"), ("list nodes", T+"tp_impl/{iter,punct,split}.rs")],
  observe=["lo, hi, span, deref, into_inner, iteration, equality, Debug output", "whether rustc accepts the definition"])
p("C25", "The analysis of a grammar can be read, symbol by symbol",
  "The metadata of an accepted grammar has an entry for every symbol reachable from the root, each exactly once, with its name, its FIRST set, its FOLLOW set and, for a choice, the alternative that each next token selects. A name is the usual notation of what the symbol derives: a terminal is called by its literal (or by its type's name if it has none), a derived type by its identifier, a sequence by its parts' names separated by spaces, a repetition ( X )+, one with separators ( X )[P]+, an optional part (X)?, an optional repetition ( X )* or ( X )[P]*, and the empty production (). Printing the metadata (Debug) shows exactly those FIRST sets, FOLLOW sets and, for each choice, the terminals that select each alternative, under those names: nothing is missing, added or attributed to another symbol.",
  ["inputs", "programs"], "all grammars, of symbols registered by hand and of derived definitions with every node combinator, nested in any way",
  "One unit test prints the tables of one grammar; the names of nested combinators are not tested.",
  [T+"syntax/metadata.rs", T+"syntax/{first,follow}/mod.rs", T+"syntax/jump.rs", T+"syntax/ast.rs", T+"tp_impl"],
  [("symbol names", T+"syntax/ast.rs, "+T+"tp_impl/{option,iter,punct,tuple}.rs, "+M+"{lexicon,syntax}.rs"), ("Debug of metadata", T+"syntax/metadata.rs"), ("Debug of tables", T+"syntax/jump.rs, "+T+"syntax/{first,follow}/mod.rs, "+T+"syntax/term_set.rs")],
  observe=["names, first, follow, jump of the metadata", "format!(\"{:?}\", metadata)"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
