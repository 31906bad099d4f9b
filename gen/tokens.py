"""The same programs over other tokens (C18)."""
import copy
import re
from core import *
from builtin import *
from derive import *
from families import *
from recursive import grammars
from mix import everything

TOKENS = ["u8", "Tk", "Tb", "StrTok", "PairTok", "Th"]


# the same types, given by their paths
PATHS = {"u8": "std::primitive::u8", "Tk": "::mc::prims::Tk", "Tb": "mc::prims::Tb", "StrTok": "&'static str", "Th": "mc::prims::Th", "Tz": "::mc::prims::Tz", "PairTok": "(String, [u64; 5])", "char": "::std::primitive::char"}


def set_type(p, tok):
    """The definitions of p with their parse type fixed (None: left open)."""
    q = copy.copy(p)
    q.items = [fixed(i, tok) for i in p.items]
    return q


def fixed(item, tok):
    item = re.sub(r"parse_type = \w+", lambda _: f"parse_type = {tok}", item)
    if tok and "#[derive(Parse)]" in item and "parse_type" not in item:
        item = item.replace("#[derive(Parse)]", f"#[derive(Parse)]\n#[nommy(parse_type = {tok})]", 1)
    return item


def token_progs(th):
    mine = everything(th, dict(combo=3, lists=16, structs=5, enums=4, fields=4, conv=3) if th else dict(combo=9, lists=40, structs=14, enums=10, fields=8, conv=5), drop=("text", "bytes"))
    have = {p.id for p in mine}
    mine += [p for p in generic_progs()[:: 1 if th else 2] if p.id not in have]
    for name, defs, start, alpha, nests, _ in grammars(th)[:: 2 if th else 5]:
        for d in defs:
            d.parse_type = "char"
        m = merge(*[p for d in defs for p in d.parts()])
        mine.append(prog("r" + name.replace(" ", ""), P(start, f"{gname(start)}()", m["al"], [d.source() for d in defs], alpha), alpha=alpha,
                         mods=".longest(9)" if name in ("if", "pal2") else ""))
    r = []
    for n, p in enumerate(mine):
        if "text::" in p.source() or "bytes::" in p.source():
            continue
        derived = any("derive(Parse)" in i for i in p.items)
        rec = any("parse_type" in i for i in p.items)
        ways = []
        for i, t in enumerate(TOKENS):
            if not rec:
                ways.append((t, False))
            if derived:
                ways.append((t, True))
        if not th:
            # each program over two kinds of tokens, one of them fixed if it can be
            ways = [ways[n % len(ways)], ways[(n + 3) % len(ways)]]
        elif len(ways) > 4:
            ways = ways[n % 2::2] + ways[:1]
        for t, fix in dict.fromkeys(ways):
            q = copy.copy(p)
            q.id = f"{p.id}{t}{'f' if fix else ''}"
            q.tok = t
            name = PATHS[t] if fix and (n + TOKENS.index(t)) % 2 else t
            q.p = set_type(p.p, name if fix else None) if fix or rec else p.p
            q.items = [fixed(i, name) for i in p.items] if fix or rec else list(p.items)
            twin = set_type(p.p, "char") if fix or rec else p.p
            q.twin = P(twin.r, twin.s, twin.al, [fixed(i, "char") for i in p.items] if fix or rec else list(p.items))
            q.text = f"over {t}{' (fixed)' if fix else ''}: {p.text}"
            q.mods = p.mods
            r.append(q.with_(".no_spec()"))
    return r + sizeless(th)


def sizeless(th):
    """Over tokens without a size, of which there is only one."""
    a, b, m = C("a"), D("a", "a"), M("a")
    ps = [Opt(a), Vec(a), Vec1(b), Arr(3, a), Seq(a, b), Arr(2, Opt(b)), m, Vec(Seq(a, b)), Box(Opt(b)), Opt(Seq(b, b)), Seq(Vec(b), Opt(a))]
    ds = [S("Za", "named", [F(a), F(Opt(b))]), S("Zb", "tuple", [F(a, prefix=b), F(Vec(b))]), S("Zc", "named", [F(b, suffix=a), F(Opt(a))], prefix=a),
          S("Zd", "tuple", [F(a), F(b)], ignore=[b]), S("Ze", "tuple", [F(b, lst=(a, "maybe", None))]), S("Zf", "named", [F(b, lst=(a, "yes", None)), F(Vec(a))]),
          E("Zg", [S("A", "tuple", [F(b), F(b)]), S("B", "named", [F(b), F(a)]), S("C", "unit", [], prefix=a)])]
    r = []
    for i, d in enumerate([p for p in ps] + ds):
        p = prog(f"z{i}", d, alpha="a")
        for fix in ([False, True] if p.items else [False]):
            q = copy.copy(p)
            q.id = f"z{i}{'f' if fix else ''}"
            q.tok = "Tz"
            q.p = set_type(p.p, "Tz" if fix else None) if fix else p.p
            q.items = [fixed(x, "Tz") for x in p.items] if fix else list(p.items)
            q.twin = P(p.p.r, p.p.s, p.p.al, [fixed(x, "char") for x in p.items] if fix else list(p.items))
            q.text = f"over Tz{' (fixed)' if fix else ''}: {p.text}"
            r.append(q.with_(".no_spec()"))
    return r
