"""Spellings of attributes (C16): the same rules in every order, grouping and company."""
import itertools
from core import *
from derive import *

BETWEEN = ["", "/// Words about it, #[nommy(prefix = Never)].\n", "#[allow(dead_code)] ", '#[doc = "nommy(suffix = Never)"] ', "#[cfg(all())] ",
           "/** A block. */ ", "#[cfg_attr(all(), allow(unused))] ", "#[doc(hidden)] ", "#[allow(non_snake_case, unused)] "]


def compositions(n):
    """Ways of cutting n things in a row into blocks, as lists of block lengths."""
    for cuts in range(2 ** max(n - 1, 0)):
        r, k = [], 1
        for i in range(n - 1):
            if cuts >> i & 1:
                r.append(k)
                k = 1
            else:
                k += 1
        yield r + [k] if n else []


def render(rules, comp, deco, style=0):
    """`deco`: index into BETWEEN of what stands before, between and after the blocks."""
    out, i = "", 0
    for j, k in enumerate(comp):
        out += BETWEEN[(deco + j * (1 + deco // len(BETWEEN))) % len(BETWEEN)] if deco else ""
        mine = rules[i:i + k]
        i += k
        if style == 1:
            out += "#[cfg_attr(all(), nommy(" + ", ".join(mine) + "))] "
        elif style == 2:
            out += "#[nommy(\n    " + ",\n    ".join(mine) + "\n)]\n"
        elif style == 3:
            out += "#[nommy[" .replace("[nommy[", "[nommy(") + ",".join(m.replace(" = ", "=") for m in mine) + ")]"
        else:
            out += "#[nommy(" + ", ".join(mine) + ")] "
    if deco:
        out += BETWEEN[(deco + 3) % len(BETWEEN)]
    return out


def spellings(rules, n, start=0):
    """`n` of all spellings of these rules, evenly spread over all of them (all if n is None)."""
    perms = list(itertools.permutations(rules))
    comps = list(compositions(len(rules)))
    total = len(perms) * len(comps)
    n = total if n is None else min(n, total)
    r = []
    for x in range(n):
        at = (x * total // n + start) % total
        # neighbours in `at` differ in both the order and the blocks
        p, c = perms[at % len(perms)], comps[(at // len(perms) + at) % len(comps)]
        r.append(render(list(p), c, (x * 5 + start) % (2 * len(BETWEEN)) if x % 3 else 0, [0, 0, 2, 0, 1, 3][(x + start) % 6]))
    return r


def spelling_progs(th):
    r = []
    k = itertools.count()
    SPC, USC = C(" "), C("_")
    # types with commas inside, written directly
    PQ = P("Seq<C<'p'>, C<'q'>>", "seq(c('p'), c('q'))", alpha="pq")
    DS = P("D<'s', ';'>", "d('s', ';')", alpha="s;")
    TWO = P("Alt<Seq<C<'a'>, C<'b'>>, Seq<C<'a'>, C<'a'>>>", "alt(seq(c('a'), c('b')), seq(c('a'), c('a')))", alpha="ab")
    NEST = P("Seq<Seq<C<'('>, C<'('>>, Seq<C<'('>, C<')'>>>", "seq(seq(c('('), c('(')), seq(c('('), c(')')))", alpha="()")
    COM = P("Seq<C<','>, C<';'>>", "seq(c(','), c(';'))", alpha=",;")

    def add(d, mods="", **kw):
        p = prog(f"w{next(k)}", d, mods=mods, **kw)
        if len(p.alpha) > 7:
            p.with_(".max_pump(300)")
        r.append(p)

    def text(rules):
        """Rule texts of {rule: parser or text}, in that order."""
        out = []
        for n, v in rules:
            out.append(f"{n} = {v.r if isinstance(v, P) else v}")
        return out

    A, B, Z = C("a"), C("b"), C("z")
    num = lambda **kw: F(DIGITS, ty="Small", cv="Small", **kw)
    kinds = ["named", "tuple", "unit", "enum"]

    # --- the type's own rules ---
    def typ(kind, attrs, prefix=None, suffix=None, ignore=(), after=""):
        i = next(k)
        if kind == "enum":
            d = E(f"Wt{i}", [S("Va", "tuple", [F(A), F(B)]), S("Vb", "unit", [], prefix=B)], prefix=prefix, suffix=suffix, ignore=ignore, attrs=attrs)
        else:
            fs = [] if kind == "unit" else [F(A), F(Opt(B))]
            d = S(f"Wt{i}", kind, fs, prefix=prefix, suffix=suffix, ignore=ignore, attrs=attrs)
        if after:
            d.derives = after
        add(d)

    for x, kind in enumerate(kinds):
        for y, (pre, suf) in enumerate(((PQ, DS), (C("p"), C("s")))):
            rules = text([("prefix", pre), ("suffix", suf), ("ignore", SPC), ("ignore", USC), ("parse_type", "char")]) + ["debug"] * y
            for s in spellings(rules, 90 if th else 12, x * 31 + y * 17):
                typ(kind, s, pre, suf, [SPC, USC])
        # every subset of the kinds of rules
        have = [("prefix", PQ), ("suffix", DS), ("ignore", SPC), ("parse_type", "char"), ("debug", None)]
        for m in range(16 if not th else 32):
            mine = [h for b, h in enumerate(have) if m >> b & 1]
            if not th and m % 2 != x % 2:
                continue
            d = dict(mine)
            rules = [n if v is None else text([(n, v)])[0] for n, v in mine]
            rules = rules[::-1] if (m + x) % 2 else rules
            s = render(rules, list(compositions(len(rules)))[(m * 7 + x) % max(1, 2 ** (len(rules) - 1))] if rules else [], m % 3)
            typ(kind, s, d.get("prefix"), d.get("suffix"), [SPC] if "ignore" in d else [])
        # repeated rules: the last prefix, suffix and parse_type count, ignores add up
        dup = [
            ["prefix = Never", "prefix = C<'p'>"],
            ["prefix = Seq<C<'a'>, C<'a'>>", "suffix = DSemi", "prefix = C<'p'>"],
            ["suffix = Never", "ignore = C<' '>", "suffix = DSemi"],
            ["suffix = C<'p'>", "prefix = DSemi", "suffix = DSemi", "prefix = C<'p'>"],
            ["parse_type = u8", "prefix = C<'p'>", "parse_type = char"],
            ["prefix = C<'p'>", "prefix = C<'p'>", "suffix = DSemi", "suffix = DSemi"],
            ["ignore = C<' '>", "prefix = C<'q'>", "ignore = C<'_'>", "prefix = C<'p'>", "ignore = C<' '>"],
            ["ignore = C<' '>", "ignore = C<'_'>", "ignore = C<'.'>", "ignore = Seq<C<','>, C<','>>"],
            ["parse_type = Tk", "parse_type = u8", "parse_type = char", "ignore = C<' '>"],
        ]
        igs = {"C<' '>": SPC, "C<'_'>": USC, "C<'.'>": C("."), "Seq<C<','>, C<','>>": Seq(C(","), C(","))}
        DSemi = P("DSemi", "d('s', ';')", {"DSemi": "D<'s', ';'>"}, alpha="s;")
        for y, rules in enumerate(dup):
            pre = C("p") if any(q == "prefix = C<'p'>" for q in rules) and rules != dup[3] or rules == dup[3] else None
            suf = DSemi if any(q == "suffix = DSemi" for q in rules) else None
            ig = [igs[q.split(" = ")[1]] for q in rules if q.startswith("ignore")]
            comps = list(compositions(len(rules)))
            for z, c in enumerate(comps):
                if th or z in ((y + x) % len(comps), len(comps) - 1 - (x % 2) * (len(comps) - 1)):
                    typ(kind, render(rules, c, (y + z) % 5), pre, suf, ig)
    # above the derive
    for kind in kinds:
        typ(kind, "#[nommy(ignore = C<'_'>)] ", C("p"), None, [SPC, USC], after="#[nommy(prefix = C<'p'>)]\n#[allow(dead_code)]\n#[nommy(ignore = C<' '>)]\n")

    # --- rules of fields: many fields in one type, each written in another way ---
    def fields(rules, mk, per, n, start, wrap):
        sp = spellings(rules, n, start)
        for i in range(0, len(sp), per):
            wrap([mk(s, j) for j, s in enumerate(sp[i:i + per])], i // per)

    def struct_of(fs, i, ignore=(), kinds_=("named", "tuple")):
        add(S(f"Wf{next(k)}", kinds_[i % len(kinds_)], fs, ignore=ignore))

    def enum_of(mk):
        """Each field in a variant of its own, told apart by a token."""
        def wrap(fs, i):
            vs = [S(f"V{j}", ["tuple", "named"][(i + j) % 2], [f], prefix=C("ABCDEFGHIJKLMNOPQRSTUVWXYZ"[j])) for j, f in enumerate(fs)]
            add(E(f"Wv{next(k)}", vs, ignore=[SPC]))
        return wrap

    for y, (pre, suf) in enumerate(((C("("), C(")")), (NEST, TWO))):
        rules = text([("prefix", pre), ("suffix", suf), ("parser", "Digits")])
        fields(rules, lambda s, j: num(prefix=pre, suffix=suf, attrs=s), 6, None if th or y == 0 else 12, y * 5, lambda fs, i: struct_of(fs, i, [SPC]))
        fields(rules, lambda s, j: num(prefix=pre, suffix=suf, attrs=s), 4, 24 if th else 8, 3 + y * 5, enum_of(0))
        rules = text([("prefix", pre), ("suffix", suf)])
        fields(rules, lambda s, j: F(A, prefix=pre, suffix=suf, attrs=s), 4, None, y, lambda fs, i: struct_of(fs, i))
        fields(rules, lambda s, j: F(A, prefix=pre, suffix=suf, attrs=s), 4, None, y, enum_of(0))
    # list fields
    for y, (sep, trail) in enumerate(((C(","), "yes"), (COM, "maybe"), (COM, "no"), (C(","), "maybe"), (COM, "yes"))):
        rules = text([("prefix", C("[")), ("inner_parser", "Digits"), ("seperated_by", sep), ("trailing", f'"{trail}"'), ("suffix", C("]"))])
        mk = lambda s, j: num(prefix=C("["), suffix=C("]"), lst=(sep, trail, "Small"), attrs=s)
        fields(rules, mk, 4, 96 if th else 8, y * 13, enum_of(0))
        fields(rules, mk, 1, 24 if th else 3, y * 7 + 1, lambda fs, i: struct_of(fs + [F(Opt(Z))], i, [SPC]))
        rules = text([("inner_parser", TWO), ("seperated_by", sep), ("trailing", f'"{trail}"')])
        fields(rules, lambda s, j: F(TWO, lst=(sep, trail, "Alt<Seq<C<'a'>, C<'b'>>, Seq<C<'a'>, C<'a'>>>"), attrs=s), 1, 24 if th else 3, y, lambda fs, i: struct_of(fs + [F(Opt(Z))], i))
        rules = text([("prefix", PQ), ("inner_parser", A), ("suffix", TWO), ("seperated_by", sep)])
        fields(rules, lambda s, j: F(A, prefix=PQ, suffix=TWO, lst=(sep, "no", None), attrs=s), 3, 24 if th else 3, y, enum_of(0))
    # repeated rules of fields
    dups = [
        (["prefix = Never", "prefix = C<'('>"], dict(prefix=C("("))),
        (["suffix = NEST", "prefix = C<'('>", "suffix = C<')'>"], dict(prefix=C("("), suffix=C(")"))),
        (["suffix = C<')'>", "suffix = C<')'>"], dict(suffix=C(")"))),
        (["prefix = C<')'>", "suffix = C<'('>", "prefix = C<'('>", "suffix = C<')'>"], dict(prefix=C("("), suffix=C(")"))),
        (["parser = W<'a'>", "parser = Digits"], dict(num=True)),
        (["parser = W<'a'>", "prefix = C<'('>", "parser = Digits", "prefix = C<')'>"], dict(num=True, prefix=C(")"))),
    ]
    dups = [([q.replace("NEST", NEST.r) for q in rules], kw) for rules, kw in dups]

    def field(kw, s):
        kw = dict(kw)
        return (num if kw.pop("num", False) else lambda **q: F(A, **q))(attrs=s, **kw)
    sp = [(field, kw, s) for rules, kw in dups for z, c in enumerate(compositions(len(rules))) for s in [render(rules, c, z % 4)]]
    for i in range(0, len(sp), 5):
        fs = [f(kw, s) for f, kw, s in sp[i:i + 5]]
        struct_of(fs, i // 5)
        fs = [f(kw, s) for f, kw, s in sp[i:i + 5]]
        enum_of(0)(fs, i // 5)
    ldups = [
        (['inner_parser = W<\'a\'>', 'seperated_by = C<\',\'>', 'inner_parser = Digits'], (C(","), "no")),
        (['seperated_by = Never', 'inner_parser = Digits', 'seperated_by = C<\',\'>'], (C(","), "no")),
        (['trailing = "yes"', 'inner_parser = Digits', 'trailing = "no"', 'seperated_by = C<\',\'>'], (C(","), "no")),
        (['trailing = "no"', 'trailing = "yes"', 'inner_parser = Digits', 'seperated_by = C<\',\'>'], (C(","), "yes")),
        (['trailing = "yes"', 'seperated_by = C<\',\'>', 'inner_parser = Digits', 'trailing = "maybe"'], (C(","), "maybe")),
        (['trailing = "maybe"', 'inner_parser = Digits', 'seperated_by = C<\';\'>', 'trailing = "yes"', 'seperated_by = C<\',\'>'], (C(","), "yes")),
        (['trailing = "maybe"', 'inner_parser = Digits', 'trailing = "yes"', 'trailing = "no"', 'seperated_by = C<\',\'>'], (C(","), "no")),
        (['trailing = "no"', 'inner_parser = Digits', 'seperated_by = C<\',\'>', 'trailing = "maybe"'], (C(","), "maybe")),
    ]
    for y, (rules, (sep, trail)) in enumerate(ldups):
        comps = list(compositions(len(rules)))
        pick = comps if th else [comps[0], comps[-1]] if y % 2 else [comps[len(comps) // 2], comps[y % len(comps)]]
        enum_of(0)([num(lst=(sep, trail, "Small"), attrs=render(rules, c, z)) for z, c in enumerate(pick)], y)
        struct_of([num(lst=(sep, trail, "Small"), attrs=render(rules, pick[0], y % 5))], y, [SPC])
    # every subset of the rules of a field, in order and reversed
    fs = []
    for m in range(8):
        for order in (1, -1):
            mine = [h for b, h in enumerate([("prefix", C("(")), ("suffix", C(")")), ("parser", "Digits")]) if m >> b & 1]
            d = dict(mine)
            kw = dict(prefix=d.get("prefix"), suffix=d.get("suffix"), attrs=render(text(mine)[::order], [1] * len(mine) if order < 0 else [len(mine)] if mine else [], m if order > 0 else 0))
            fs.append(num(**kw) if "parser" in d else F(A, **kw))
    for i in range(0, 16, 4):
        struct_of(fs[i:i + 4], i // 4)
    fs = []
    for m in range(4):
        for order in (1, -1):
            for trail in ("no", "yes", "maybe"):
                mine = [("inner_parser", "Digits"), ("seperated_by", C(",")), ("trailing", f'"{trail}"')] + [h for b, h in enumerate([("prefix", C("(")), ("suffix", C(")"))]) if m >> b & 1]
                d = dict(mine)
                fs.append(num(prefix=d.get("prefix"), suffix=d.get("suffix"), lst=(C(","), trail, "Small"),
                              attrs=render(text(mine)[::order], [2] + [1] * (len(mine) - 2), m if order > 0 else 0)))
    for i in range(0, len(fs), 4):
        enum_of(0)(fs[i:i + 4], i)
    # no trailing rule, and rules without a separator
    enum_of(0)([num(lst=(C(","), "no", "Small"), attrs=a) for a in (
        "#[nommy(inner_parser = Digits, seperated_by = C<','>)] ", "#[nommy(seperated_by = C<','>)] #[nommy(inner_parser = Digits)] ",
        "#[nommy(trailing, inner_parser = Digits, seperated_by = C<','>)] ")], 0)

    # --- rules of variants ---
    pool = []
    for y, (pre, suf) in enumerate(((PQ, DS), (C("p"), C("s")))):
        rules = text([("prefix", pre), ("suffix", suf), ("ignore", SPC), ("ignore", USC)])
        pool += [(s, pre, suf, [SPC, USC]) for s in spellings(rules, 192 if th else 24, y * 11)]
    for m in range(8):
        mine = [h for b, h in enumerate([("prefix", PQ), ("suffix", DS), ("ignore", USC)]) if m >> b & 1]
        d = dict(mine)
        for order in (1, -1):
            pool.append((render(text(mine)[::order], [len(mine)] if order > 0 and mine else [1] * len(mine), m), d.get("prefix"), d.get("suffix"), [USC] if "ignore" in d else []))
    for c in compositions(4):
        pool.append((render(["prefix = Never", "suffix = C<'x'>", "prefix = C<'p'>", "suffix = C<'s'>"], c, 1), C("p"), C("s"), []))
        pool.append((render(["ignore = C<' '>", "suffix = Never", "ignore = C<'_'>", "suffix = C<'s'>"], c, 2), None, C("s"), [SPC, USC]))
    for i in range(0, len(pool), 4):
        vs = []
        for j, (s, pre, suf, ig) in enumerate(pool[i:i + 4]):
            kind = ["tuple", "named", "unit"][(i // 4 + j) % 3]
            if kind == "unit" and pre is None and suf is None:
                kind = "tuple"
            fs = [] if kind == "unit" else [F(C("ABCD"[j])), F(Opt(B))]
            if kind == "unit":
                vs.append(S(f"V{j}", "unit", [], prefix=pre, suffix=suf, ignore=ig, attrs=s))
            else:
                vs.append(S(f"V{j}", kind, fs, prefix=pre, suffix=suf, ignore=ig, attrs=s))
        add(E(f"Wu{next(k)}", vs, ignore=[[], [C(".")]][i // 4 % 2]))
    return r
