"""Attribute rules as words (C22): every word over an alphabet of tokens up to a length, alone and in company,
at every place an attribute can stand; and what the macro has to say about each."""
import itertools

GLOBAL = {"prefix": "type", "suffix": "type", "ignore": "type", "parse_type": "token", "debug": "flag"}
FIELD = {"prefix": "type", "suffix": "type", "parser": "type", "inner_parser": "type", "seperated_by": "type", "trailing": "mode"}
ELSEWHERE = ["prefix", "suffix", "ignore", "parse_type", "debug", "parser", "inner_parser", "seperated_by", "trailing", "separated_by", "min", "max",
             "count", "vec", "parse", "Prefix", "IGNORE", "suffixes", "pre", "type_", "nommy", "with", "rename", "skip", "default"]

GOOD, BAD, OPEN = "accepted", "rejected", "left open"

HEAD = """#![feature(const_generics)]
#![allow(incomplete_features, dead_code, unused, non_camel_case_types, non_snake_case)]
use nommy::Parse;
type A = nommy::text::Tag<"a">;
type Ch = char;
"""


def is_ident(t):
    return t[0].isalpha() or t[0] == "_"


def judge_arg(rules, arg):
    """What the macro has to say about one rule, given as its tokens."""
    if not arg or not is_ident(arg[0]) or arg[0] not in rules:
        return BAD
    kind, rest = rules[arg[0]], arg[1:]
    if kind == "flag":
        return GOOD if not rest else OPEN
    if kind == "mode":
        if not rest:
            return OPEN
        return GOOD if len(rest) == 2 and rest[0] == "=" and rest[1] in ('"yes"', '"no"', '"maybe"') else BAD
    if len(rest) != 2 or rest[0] != "=" or not is_ident(rest[1]):
        return BAD
    # a type by its form; whether it is one that can be used here is not for the macro to say
    return GOOD if rest[1] == {"type": "A", "token": "Ch"}[kind] else OPEN


def judge(rules, word):
    """... about a list of rules in one block, given as its tokens."""
    args, cur = [], []
    for t in word:
        if t == ",":
            args.append(cur)
            cur = []
        else:
            cur.append(t)
    args.append(cur)
    open_end = not args[-1]
    if open_end:
        args.pop()
    v = [judge_arg(rules, a) for a in args]
    if BAD in v:
        return BAD
    return OPEN if open_end or OPEN in v else GOOD


class Place:
    """Somewhere attributes stand: a definition with a hole."""

    def __init__(self, name, rules, text):
        self.name, self.rules, self.text = name, rules, text

    def item(self, attrs, used=()):
        ty = "Vec<A>" if "inner_parser" in used else "A"
        return "#[derive(Parse)] " + self.text.replace("@", attrs).replace("$", ty)


PLACES = [
    Place("named struct", GLOBAL, "@ struct N { a: A, b: A }"),
    Place("tuple struct", GLOBAL, "@ struct N(A);"),
    Place("unit struct", GLOBAL, "@ struct N;"),
    Place("enum", GLOBAL, "@ enum N { V(A), W { a: A }, X }"),
    Place("tuple variant", dict(GLOBAL), "enum N { @ V(A), W { a: A } }"),
    Place("named variant", dict(GLOBAL), "enum N { V(A), @ W { a: A }, X }"),
    Place("unit variant", dict(GLOBAL), "#[nommy(suffix = A)] enum N { V(A), W, @ X }"),
    Place("field of a named struct", FIELD, "struct N { @ a: $, b: A }"),
    Place("last field of a named struct", FIELD, "#[nommy(ignore = A)] struct N { #[nommy(prefix = A)] a: A, b: A, @ c: $ }"),
    Place("field of a tuple struct", FIELD, "struct N(@ $);"),
    Place("last field of a tuple struct", FIELD, "struct N(A, #[nommy(inner_parser = A)] Vec<A>, @ $);"),
    Place("field of a tuple variant", FIELD, "enum N { U, V(A, @ $) }"),
    Place("field of a named variant", FIELD, "enum N { #[nommy(prefix = A)] U { @ a: $, b: A }, V }"),
]
for p in PLACES:
    if "variant" in p.name and p.rules is not FIELD:
        # overridden by the enum's
        p.rules["parse_type"] = "override"


def judge_at(place, word):
    if place.rules.get("parse_type") == "override":
        v = judge(dict(place.rules, parse_type="token"), word)
        return OPEN if v == GOOD and "parse_type" in word else v
    v = judge(place.rules, word)
    if v == GOOD and place.rules is FIELD:
        heads = [t for i, t in enumerate(word) if i == 0 or word[i - 1] == ","]
        if ("seperated_by" in heads or "trailing" in heads) and "inner_parser" not in heads or "parser" in heads and "inner_parser" in heads:
            return OPEN
        if "trailing" in heads and "seperated_by" not in heads:
            return OPEN
    return v


def heads(word):
    return [t for i, t in enumerate(word) if i == 0 or word[i - 1] == ","]


def text(word):
    return " ".join(word)


def alphabet(place, wide):
    rules = list(place.rules)
    other = "ignore" if place.rules is FIELD else "parser"
    some = rules if wide else [r for r in rules if r in ("prefix", "ignore", "parse_type", "debug", "parser", "inner_parser", "trailing")]
    return some + [other, "bogus", "=", ",", "A", '"yes"', "1", ":"]


def words(al, least, most):
    for n in range(least, most + 1):
        yield from itertools.product(al, repeat=n)


def good_rule(place, i=0):
    l = [["suffix", "=", "A"], ["prefix", "=", "A"]]
    l.append(["parser", "=", "A"] if place.rules is FIELD else ["ignore", "=", "A"])
    return l[i % 3]


# what is no type
NO_TYPES = ["A>", "<A>", "Vec<A", "Vec<A>>", "&", "A::", "A B", "A = A", "A;", "A |", "-> A", "=> A", "= A", "fn", "impl", "struct", "for", "A, , ", "A::<A", "Vec<A,", "Vec<,>",
            "1", "'a'", '"a"', "A!", "(A) A", "[A] A", "[A; 1] = A", "A { }", "#A", "A.A", "..", "1..2", "A == A", "if", "let", "*A", "'a", "A 1", "A in A", "-A", "?A ?A"]

SHAPES = ["#[nommy[{}]]", "#[nommy{{{}}}]", '#[nommy = "{}"]']


def cases(th):
    """(place, attributes, verdict, rules used)"""
    C = [","]
    for n, place in enumerate(PLACES):
        al = alphabet(place, True)
        # every word alone
        for w in words(alphabet(place, not th), 1, 4 if th else 3):
            w = list(w)
            yield place, f"#[nommy({text(w)})]", judge_at(place, w), heads(w)
        # every name
        for r in ELSEWHERE:
            for w in ([r], [r, "=", "A"], [r, "=", '"yes"'], [r, "=", "Ch"]):
                yield place, f"#[nommy({text(w)})]", judge_at(place, w), heads(w)
        if place.rules is FIELD:
            for m in ('"yes"', '"no"', '"maybe"', '"Yes"', '"always"', '""', '" yes"', '"true"', "true", "yes", "1", "b\"yes\"", "'y'", '"yes" "no"', '"no" A', "= \"no\"", "A", "! \"no\""):
                w = ["inner_parser", "=", "A", ",", "seperated_by", "=", "A", ",", "trailing", "="] + m.split(" ") if '" ' not in m[:2] else None
                v = None
                if w:
                    v = judge_at(place, w)
                else:
                    w, v = ["inner_parser", "=", "A", ",", "seperated_by", "=", "A", ",", "trailing", "=", m], BAD
                for rot in range(3):
                    parts = ["inner_parser = A", "seperated_by = A", "trailing = " + m]
                    parts = parts[rot:] + parts[:rot]
                    yield place, "#[nommy(" + ", ".join(parts) + ")]", v, heads(w)
                    yield place, " ".join(f"#[nommy({x})]" for x in parts), v, heads(w)
        # something behind or in front of a rule, without a comma
        for i, (rule, kind) in enumerate(place.rules.items()):
            if kind == "mode":
                g = ["inner_parser", "=", "A", ",", "seperated_by", "=", "A", ",", rule, "=", '"yes"']
            else:
                g = [rule] if kind == "flag" else [rule, "=", "Ch" if rule == "parse_type" else "A"]
            h = good_rule(place, i) if rule != "inner_parser" else good_rule(place, i % 2)
            for k, w in enumerate(words([t for t in al if t != ","], 1, 3 if th and i == n % 5 else 2)):
                w = list(w)
                for x in (g + w, w + g if kind != "mode" else None, h + C + g + w if len(w) == 1 or k % 3 == i % 3 else None, g + w + C + h if len(w) == 1 or k % 3 == i % 2 else None):
                    if x:
                        yield place, f"#[nommy({text(x)})]", judge_at(place, x), heads(x)
            if kind in ("type", "token"):
                for t in NO_TYPES:
                    for x in (f"{rule} = {t}", f"{rule} = {t}, {text(h)}", f"{text(h)}, {rule} = {t}"):
                        yield place, f"#[nommy({x})]", BAD, []
        # every short word in company
        for k, w in enumerate(words(al, 1, 3 if th else 2)):
            w = list(w)
            g, h = good_rule(place, k), good_rule(place, k + 1)
            if place.rules is FIELD and ("inner_parser" in w or "trailing" in w) and "parser" in g + h:
                g, h = good_rule(place, 0), good_rule(place, 1)
            for rules, blocks in (
                ([w + C + g], None), ([g + C + w], None), ([g, w], None), ([w, g], None), ([g + C + w + C + h], None), ([g + C + h, w], None),
                ([g, h + C + w], None), ([w + C + g, h], None), ([w, w], None),
            ):
                vs = [judge_at(place, x) for x in rules]
                every = [t for x in rules for t in x + C][:-1]
                v = BAD if BAD in vs else judge_at(place, every) if OPEN not in vs else OPEN
                yield place, " ".join(f"#[nommy({text(x)})]" for x in rules), v, heads(every)
        # a comma too many
        g, h = text(good_rule(place)), text(good_rule(place, 1))
        for t in (f", {g}", f"{g},, {h}", f",, {g}", f"{g}, , {h}"):
            yield place, f"#[nommy({t})]", BAD, []
            yield place, f"#[nommy({g})] #[nommy({t})]", BAD, []
        # other brackets
        for s in SHAPES:
            for t in (g, h, g + ", " + h, "bogus"):
                bad = s.format(t)
                yield place, bad, BAD, []
                yield place, f"#[nommy({g})] {bad}", BAD, []
                yield place, f"{bad} #[nommy({g})]", BAD, []
                yield place, f"#[allow(unused)] {bad} #[doc = \"x\"]", BAD, []
        # company of other attributes
        for w in (["bogus", "=", "A"], ["prefix"], ["prefix", "A"], ["prefix", "=", "1"], ["suffix", "="]):
            for a in ('#[doc = "nommy(prefix = A)"] {}', "#[allow(unused)] {} #[allow(dead_code)]", "/// words\n{}", "#[cfg(all())] {}", "#[cfg_attr(all(), {})]",
                      "#[nommy(suffix = A)] #[allow(unused)] {}"):
                b = f"nommy({text(w)})"
                yield place, a.format(b if "cfg_attr" in a else f"#[{b}]"), BAD, []
    for t in ("union N { a: A }", "#[nommy(prefix = A)] union N { a: A, b: A }", "#[repr(C)] union N { #[nommy(prefix = A)] a: A }"):
        yield Place("union", GLOBAL, t), "", BAD, []


def all_cases(th):
    """Each once: {verdict: [(id, place, source)]}."""
    r, seen = {GOOD: [], BAD: [], OPEN: []}, set()
    for place, attrs, v, used in cases(th):
        s = place.item(attrs, used)
        if s in seen:
            continue
        seen.add(s)
        r[v].append((f"{v[0]}{len(r[v])}", place.name, s))
    return r


if __name__ == "__main__":
    import sys
    c = all_cases(len(sys.argv) > 1)
    print({k: len(v) for k, v in c.items()})
    for k in c:
        for x in c[k][:: max(1, len(c[k]) // 8)]:
            print(k, x)
