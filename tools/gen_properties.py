#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

BUF="nommy/src/buffer.rs"; IMPL="nommy/src/impls.rs"; VEC="nommy/src/vec.rs"; LIB="nommy/src/lib.rs"
TX=["nommy/src/text/tag.rs","nommy/src/text/one_of.rs","nommy/src/text/many.rs","nommy/src/text/mod.rs"]
BY=["nommy/src/bytes/tag.rs","nommy/src/bytes/one_of.rs","nommy/src/bytes/many.rs"]
FN="nommy-derive/src/fn_impl.rs"; ATTR="nommy-derive/src/attr.rs"
ST=["nommy-derive/src/struct_impl/named.rs","nommy-derive/src/struct_impl/unnamed.rs","nommy-derive/src/struct_impl/unit.rs"]
EN=["nommy-derive/src/enum_impl/mod.rs","nommy-derive/src/enum_impl/named.rs","nommy-derive/src/enum_impl/unnamed.rs","nommy-derive/src/enum_impl/unit.rs"]

prop("C01","Buffers and nested cursors are positions in one unchanging sequence",
 "A buffer made from any iterator delivers exactly the iterator's elements, in order, none lost, repeated or reordered, whatever mix of reading, looking ahead, skipping forward and cursors is applied to it. Reading, skipping or resetting a cursor, at any nesting depth, never changes what its parent reads next; looking ahead by i returns the element i places after the current position; skipping by n moves the position by exactly n elements. A cursor's position is the number of elements it is ahead of its parent (a read at the end of input moves nothing), resetting returns it to its start, and skipping the parent by that position puts the parent exactly where the cursor was.",
 ["histories","inputs"],"every history of next / peek_ahead / fast_forward / cursor / reset / commit / drop operations, over every source length, including operations at and beyond the end of input",
 "Two unit tests run one fixed history each, at depth two, far from the end of input; the property is about all histories and all combinations of cached length, position and skip distance.",
 [BUF],[("Buf::next/fast_forward/peek_ahead",BUF),("Cursor index/base arithmetic",BUF)],["Buffer, Cursor and Iterator methods"],
 [("Buf.buffer","elements read from the source but not yet consumed",BUF),("Cursor.base/index","offset of the cursor from the root buffer / from its parent",BUF)])
prop("C02","The source iterator is never read further than needed",
 "Buffers pull each source element at most once and only when an operation asks for an element at or beyond it, so they work on infinite and interactive sources. Parsing or peeking never pulls an element beyond the furthest one that a left-to-right match of the grammar has to look at to decide (a tag or an array of n single elements: n; a repetition: one attempt beyond its last match). In particular a parser that has its answer leaves the rest of the source unread.",
 ["inputs","histories","programs"],"every source content and length (including infinite ones), every buffer operation history, and every parser of the explored grammars",
 "Existing tests use finite in-memory strings and only look at results, never at how much of the source was pulled.",
 [BUF,IMPL,VEC]+TX+BY,[("peek_ahead pulls only the missing elements",BUF),("take(n) in Tag, one-element lookahead in repetitions","nommy/src/text/tag.rs, nommy/src/impls.rs")],["the source iterator's next() calls"],
 [("Buf.iter","the source",BUF)])
prop("C03","Text parsers match exactly what they document",
 "Over text, a tag matches exactly its own characters (for any tag, including empty and non-ASCII ones), one-of matches exactly one character of its set, any-of / any-of-1 match the longest run of characters in the set (the latter at least one), while-not-1 the longest non-empty run of characters outside the set. Space matches one space or tab, line ending one \"\\n\" or \"\\r\\n\", whitespace one space, tab, \"\\n\" or \"\\r\\n\", and nothing else. On success they consume exactly the matched text and yield exactly that text; otherwise they return an error.",
 ["inputs","programs"],"every character of Unicode, every input, every tag / character set (with empty, repeated, self-overlapping and multi-byte ones), at the end of input and before more input",
 "The tests use a handful of ASCII inputs and one or two sets; non-ASCII tags, runs ending at the end of input, lone carriage returns and long runs are never tried.",
 TX,[("Tag/OneOf/AnyOf/AnyOf1/WhileNot1/LineEnding/Space/WhiteSpace parse","nommy/src/text")],["Parse::parse on text parsers, conversion to String/char"])
prop("C04","Byte parsers match exactly what they document",
 "Over bytes, a tag matches exactly its own byte sequence, one-of exactly one byte of its set and any-of-1 the longest non-empty run of bytes of its set. On success they consume exactly the matched bytes and yield exactly those bytes; otherwise they return an error. This holds for all 256 byte values, whether or not they form valid text.",
 ["inputs","programs"],"every byte value, every input up to the bound, every tag / byte set explored",
 "One happy-path test and one error test on ASCII; non-ASCII bytes, empty and overlapping tags and end of input are not tried.",
 BY,[("bytes::Tag/OneOf/AnyOf1 parse","nommy/src/bytes")],["Parse::parse on byte parsers, conversion to Vec<u8>/u8"])
prop("C05","Repetition, option, array and box combinators are greedy, exact and backtrack",
 "Vec yields every consecutive match from the current position until the first failure, Vec1 does the same but fails when there is no first match, an array of N yields exactly N matches or fails, Option yields the match or nothing, and Box behaves like its content, in any nesting. The elements appear in input order, and exactly the elements that were matched are consumed: an attempt that fails, even part way through, leaves nothing consumed by Vec, Vec1 (after the first) or Option. None of them fails except Vec1 and arrays, and then only because an element failed.",
 ["inputs","programs"],"every nesting of the combinators over elements that fail at once, fail part way, or match variable lengths; every input; long repetitions",
 "Unit tests try each combinator once over a one-character tag, so neither partial failures nor nesting, nor long runs are reached.",
 [IMPL],[("cursor then fast_forward on success only",IMPL),("loop until first failure",IMPL)],["Parse::parse of Option, Vec, Vec1, [P; N], Box"])
prop("C06","Peeking agrees with parsing",
 "For every built-in parser, every combinator of them and every derived type, peeking at an input returns true exactly when parsing the same input succeeds. When both succeed, both leave the buffer at the same position. This includes fields with prefixes, suffixes, ignored tokens, separators and trailing separators.",
 ["inputs","programs"],"every parser expression and derived type of the explored space, every input, on buffers and on cursors, with input ending at every point",
 "Peek is a separate implementation everywhere; the tests exercise peek for three parsers on one input each and never for a derived type.",
 TX+BY+[IMPL,FN]+EN,[("hand-written peek next to parse","nommy/src"),("peek_impl next to parse_impl",FN)],["Parse::peek vs Parse::parse results and the remaining buffer"])
prop("C07","A parser's result does not depend on where it reads from",
 "Parsing or peeking the same remaining input gives the same result and consumes the same number of elements whether it is read from a fresh buffer, a buffer whose elements were already partly or wholly looked ahead at, a partly consumed buffer, or a cursor at any nesting depth and offset. Parsing from a cursor leaves all parents unmoved.",
 ["inputs","histories","configurations"],"every explored parser and input, crossed with every reading situation (lookahead cached 0..n, elements consumed before 0..n, cursor depth 0..3)",
 "Tests parse from a fresh buffer at offset zero, or one cursor; the caches and offsets are never combined with a parser.",
 [BUF,IMPL,VEC]+TX+BY,[("Buffer abstraction",BUF)],["results and remaining input of the same parser on different Buffer implementations"])
prop("C08","Every parsed value is owned and dropped exactly once",
 "Every element value that a parser creates is either part of the returned result or dropped before the call returns, exactly once, and nothing that was never created is ever dropped. This holds for arrays, vectors, options, boxes, lists and derived types, when parsing succeeds, when it fails at any element, and when it panics. The same holds for the input elements themselves: each one read is returned or dropped exactly once.",
 ["inputs","programs"],"every container and nesting of the explored space, element types that own resources, and every point of failure",
 "The only array test uses a zero-sized element type without a destructor, so a double drop, a leak or a drop of uninitialised memory cannot show.",
 [IMPL,VEC,BUF],[("MaybeUninit array initialisation (unsafe)",IMPL),("moves into Vec/Option/Box",IMPL)],["drops of element values and of input elements"])
prop("C09","List parsing obeys separator, trailing, ignore and maximum rules",
 "The list functions return the elements at the current position in order, at most the given maximum (none for zero), allowing ignored tokens around separators (between elements when there is no separator) but not before the first element. Without a trailing separator, the input is left directly after the last element; with required trailing separators, only elements followed by a separator count and the input is left after the last counted separator and the ignored tokens behind it; with optional ones, a separator and ignored tokens after the last element are consumed if present. An incomplete continuation (a separator with no element behind it where one is needed, a partly matched element) is left unconsumed; an element that cannot be converted makes the call fail.",
 ["inputs","programs"],"the four list functions crossed with element, separator and ignore parsers that fail at once or part way, every maximum, every input",
 "Seven tests, one input each; maximum zero or one, partial separators and elements, multi-token ignores and empty lists are not tried.",
 [VEC],[("cursor / fast_forward commit points in the four loops",VEC)],["parse_vec, parse_vec_seperated_by, ..._trailing, ..._maybe_trailing: value and remaining input"])
prop("C10","Derived structs match prefix, fields and suffix in order, skipping ignored",
 "A derived struct (named, tuple or unit) matches its type prefix, then for each field in declaration order the field's prefix, parser and suffix, then its type suffix, and yields each field's own value. Tokens matched by any of its ignore parsers are skipped, as many as there are, after each of these parts and nowhere else. It fails exactly when one of the parts does not match, and consumes exactly what was matched and skipped.",
 ["inputs","programs"],"every struct definition of the bounded space (kinds, field counts, attribute combinations, ignore lists, generic parameters) and every input",
 "Seven example programs with one or two inputs each; the combinations of attributes and the inputs that fail in the middle are not covered.",
 [FN,ATTR]+ST,[("Builder add_fix/add_field/ignore sequence",FN),("struct token emission","nommy-derive/src/struct_impl")],["parse and peek of derived structs"])
prop("C11","Derived enums take the first matching variant and undo failed ones",
 "A derived enum matches its prefix, then the first variant in declaration order that matches from there, then its suffix, and yields that variant with its own field values. A variant that fails, however far it got, leaves no trace: the next one starts from the same position. Variants skip the ignored tokens of both the variant and the enum; if no variant matches, or the suffix does not match after the chosen variant, the enum fails.",
 ["inputs","programs"],"every enum definition of the bounded space (unit, tuple and named variants, overlapping and nested variants, attributes on enum and variants) and every input",
 "One test enum with disjoint single-token variants plus three example grammars on one input each; overlapping variants that fail late are not tried.",
 EN+[FN,ATTR,BUF],[("one cursor reset before each variant",FN),("variant attributes extended with the enum's ignores",ATTR)],["parse and peek of derived enums"])
prop("C12","Derived list fields follow their separator and trailing settings",
 "A field with an inner parser collects converted elements: back to back when there is no separator, otherwise separated by it, with trailing separators forbidden, required or optional as configured. Ignored tokens may appear around elements and separators and after the list, so whatever follows (a suffix, the next field) is matched as after any other field. The field itself fails only if a matched element cannot be converted.",
 ["inputs","programs"],"every combination of separator, trailing mode, ignore, prefix/suffix and neighbours of the bounded space, every input, parse and peek",
 "Only the JSON and HTTP examples use list fields, on one input each, with elements that happen to swallow the blanks behind them.",
 [FN,ATTR,VEC],[("parser_parse_vec_tokens / peeker_peek_vec_tokens",FN),("parse_trailing",ATTR)],["parse and peek of derived types with inner_parser"])
prop("C13","Parsing finite input always ends, and panics only on empty repetition",
 "On a finite input every parse and peek of every parser ends. In debug builds, repeating, or making optional, something that matched without reading any element is reported by a panic instead of looping forever, also when that happens at the end of input, in list fields and in ignore lists. Nothing else panics: on any input, a parser whose repeated and optional parts read at least one element returns.",
 ["inputs","programs"],"every explored parser (including ones whose repeated part can match nothing) and every input, with the input ending at every point",
 "One should_panic doc test; termination for all inputs cannot be sampled, and the peek methods' loops are not run to the end of input at all.",
 [IMPL,VEC,FN]+TX+BY,[("debug assertions on cursor position",IMPL),("debug assertion in the generated ignore parser",FN)],["return, panic or livelock of parse/peek"])
prop("C14","Errors name the component that failed",
 "When a derived type fails to parse, the outermost error says which part failed first: the field by name, the prefix or suffix of which field or type, or the enum none of whose variants matched. An array's error gives the index of the failing element. The error's causes describe the failing components from the outside inwards.",
 ["inputs","programs"],"every explored derived type and array, every input that makes it fail, at every depth of nesting",
 "Two tests look at three messages of two structs; prefixes, suffixes, enums, tuple fields, arrays and causes are not checked.",
 [FN,IMPL]+EN,[("error strings in add_fix/add_field/finish_variants",FN),("wrap_err in arrays",IMPL)],["Display of the report and of its chain"])
prop("C15","parse and parse_terminated accept exactly what they should",
 "The parse function returns what the type's parser returns on the given input and ignores anything behind it. The parse_terminated function returns the same value if the parser consumed the input completely, and an error otherwise, including when only one element is left or when the parser itself fails. Both accept any iterable of tokens.",
 ["inputs","programs"],"every explored type and every input up to the bound, over owned, borrowed and adapted iterators",
 "Two doc tests with one-character tags.",
 [LIB,BUF],[("parse / parse_terminated",LIB),("IntoBuf",BUF)],["nommy::parse, nommy::parse_terminated"])
prop("C16","How attributes are written does not change the parser",
 "Attribute rules may be put in one block or split over several blocks, in any order, before, between or after other attributes and documentation, and rules of a different kind never affect each other. Repeated ignore rules add up, and for any other repeated rule the last one counts. All spellings of the same set of rules give a parser with the same behaviour.",
 ["programs","inputs"],"all partitions and orders of the explored rule sets, on structs, enums, variants and fields, each on every input",
 "The examples use a few spellings, with no comparison between spellings.",
 [ATTR],[("parse_attrs/parse_attr/parse_args splitting at commas",ATTR)],["behaviour of derived types that differ only in attribute spelling"])
prop("C17","Recursive grammars parse exactly their language",
 "Derived types that refer to themselves, or with a fixed parse type to each other, generic ones included, through boxes, vectors, options or list fields, parse exactly the sentences of the grammar they describe, to any depth. The resulting tree has the structure of the sentence. Sentences with an error at any depth are rejected.",
 ["inputs","programs"],"recursive and mutually recursive grammars (nested brackets, s-expressions, JSON-like, XML-like, expression grammars) and every token string up to the bound, plus deep nestings",
 "Three example programs parse one well-formed document each and mostly only print the result.",
 [FN,"nommy-derive/src/ty.rs"]+EN,[("where-clause suppression for recursive types","nommy-derive/src/ty.rs"),("backtracking cursor",FN)],["parse of recursive derived types"])
prop("C18","Parsers behave the same over any kind of token",
 "Combinators, list functions and derived types behave identically whether the tokens are characters, bytes or a user's own token type, with the token type left open or fixed by attribute. Replacing every token parser and every input token one for one by those of another token type gives the same result.",
 ["programs","inputs"],"the explored definitions instantiated for char, u8 and a custom token type, with and without a fixed parse type, every input",
 "All tests but a few on bytes use char.",
 [FN,ATTR,IMPL,VEC],[("generic Parse<T> impls",IMPL),("parse_type / generic parameter selection",FN)],["results of corresponding parsers over different token types"])
prop("C19","Conversions are applied to every field and failures become errors",
 "A field with its own parser gets the parser's value converted to the field's type, unchanged in content and for every list element. If the conversion fails, parsing that type returns an error rather than panicking or yielding a value: an enclosing enum goes on to its next variant, an enclosing option is empty, an enclosing vector ends before it. Converting a run of digits to a number gives that number, or an error if it does not fit; text with anything else in it (other than a leading sign) is an error.",
 ["inputs","programs"],"explored definitions with infallible and fallible conversions in fields, list fields, enums, options and vectors, every input, numbers around the limit",
 "Conversions are only tried on values that fit.",
 [FN,VEC,"nommy/src/text/many.rs"],[("try_into in generated code",FN),("try_into in list functions",VEC),("TryFrom<AnyOf1> for usize","nommy/src/text/many.rs")],["parse of derived types with parser / inner_parser"])
prop("C20","Names of types, fields and variants do not matter",
 "Deriving works for any names of type, fields, variants and type parameters that do not begin with two underscores, including names that are also used inside the generated code, differ only in case, or are raw identifiers. Renaming consistently changes nothing about what is parsed.",
 ["programs","inputs"],"explored definitions under a set of renamings (identifiers used by the generated code, keywords as raw identifiers, identifiers differing in case, imported-name shadowing), every input",
 "The examples use a dozen ordinary names.",
 [FN,"nommy-derive/src/parsers.rs"]+ST+EN,[("generated local bindings and function names",FN)],["compilation and behaviour of derived types"])
prop("C21","Parses do not influence each other",
 "What a parse or peek returns and consumes depends on its own input and position alone: not on what was parsed before on the same thread or elsewhere in the process, whether that succeeded, failed or panicked, not on parses that run while its token source is asked for an element, and not on parses under way on other threads. The same parse of the same input always gives the same result.",
 ["histories","schedules","programs"],"explored pairs, triples and long repetitions of parses in a process, parses inside the token source of others at every read, and all interleavings of two or three parses on threads at the granularity of reads",
 "Tests run single parses and compare each with its own expectation.",
 [IMPL,VEC,LIB,BUF,FN]+TX+BY,[("parsers keep no state outside of their values and buffers",IMPL),("Buf/Cursor own what they look ahead at",BUF)],["results of parses, in every company"])
prop("C22","Malformed attribute rules are rejected at compile time",
 "A nommy attribute that is not well formed is a compile error and never silently ignored or misread: a rule that does not exist or does not belong on a type, variant or field; a rule without its equals sign, without its value, or with a value of the wrong form or something behind it; a missing or doubled comma; other brackets than parentheses. This holds for structs, enums, variants and fields of every kind, wherever the rule stands among well-formed rules, blocks and other attributes. Well-formed rules are accepted, and unions are rejected. Left open are trailing without a value, what follows debug, and list rules on a field without inner_parser.",
 ["programs"],"every word of attribute tokens up to a length, alone and in the company of well-formed rules, at 13 kinds of places",
 "No test checks that a definition is rejected.",
 [ATTR,"nommy-derive/src/lib.rs"]+ST+EN,[("parse_attrs / parse_attr / parse_args / parse_type / parse_trailing",ATTR),("errors become compile_error!","nommy-derive/src/lib.rs")],["acceptance of derive input by the compiler"])
prop("C23","Reading goes on and on in bounded memory",
 "A buffer holds the elements that were looked ahead at and not yet moved past, and, but for a constant, nothing else: neither elements that were read nor elements that are skipped. A parse or peek takes memory in proportion to the elements it looks at, whatever number of elements the source announces, and when it has returned it holds none of it besides its result and the buffer's look-ahead. So a program that reads, skips, peeks or parses on and on over an endless stream needs no more memory after many rounds than after the first few, whether parsing succeeds or fails.",
 ["histories","programs","inputs"],"every short history of buffer operations over and over on endless sources, far skips, and every program in a loop on streams that repeat every short word or never repeat; bytes held and bytes needed at a time after each round",
 "Tests read a few dozen elements and measure no memory.",
 [BUF,IMPL,VEC,LIB,FN]+TX+BY,[("Buf drops what it hands over or skips",BUF),("parsers own only what they return",IMPL)],["memory held by the process"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in P))
print(len(P))
