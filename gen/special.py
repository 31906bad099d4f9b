"""Program families of single properties: empty repetition, ownership, errors, entry points."""
import itertools
import re
import core
from core import *
from builtin import *
from derive import *
from families import *
from mix import everything


# ---- empty repetition (C13) ----
def empties(th):
    """Parsers that may match without reading, and everything that repeats."""
    A, B = C("a"), C("b")
    unit = S("Nil", "unit", []).p()
    nil = S("Nil2", "named", []).p()
    ennil = E("Enil", [S("Va", "tuple", [F(A)]), S("Vb", "unit", [])]).p()
    opts = S("Opts", "tuple", [F(Opt(A)), F(Opt(B))]).p()
    listy = S("Listy", "tuple", [F(A, lst=(None, "no", None))]).p()
    zero = [EMPTY, END, M("a"), Opt(A), Vec(A), Arr(0, A), Arr(2, Opt(A)), unit, nil, ennil, opts, listy, Seq(Opt(A), M("b")), Alt(A, EMPTY), Box(M("a")),
            Seq(M("a"), END), T_Any("a"), T_Tag("")]
    r = []
    k = itertools.count()

    def add(p, alpha=None, mods=""):
        a = alpha or uniq(p.alpha + "abx")
        r.append(prog(f"z{next(k)}", p, alpha=a, mods=mods, text=None))

    def S_(kind, fields, **kw):
        add(S(f"Z{next(k)}", kind, fields, **kw).p())

    for p in zero:
        for q in (Vec(p), Vec1(p), Opt(p), Arr(2, p), Vec(Seq(p, A)), Vec(Seq(p, p)), Opt(Seq(A, p)), Vec(Alt(B, p))):
            add(q)
        if th:
            for q in (Vec(Vec(p)), Vec(Opt(p)), Opt(Vec(p)), Arr(2, Vec(p)), Box(Vec1(p)), Vec1(Seq(p, B)), Vec(Seq(B, Vec(p)))):
                add(q)
    for p in zero:
        S_("named", [F(A), F(B)], ignore=[p])
        S_("tuple", [F(A, lst=(None, "no", None)), F(Opt(B))], ignore=[p])
        for sep, trail in ((None, "no"), (C(","), "no"), (C(","), "yes"), (C(","), "maybe"), (M(","), "no"), (M(","), "yes"), (M(","), "maybe")):
            S_("named", [F(p, lst=(sep, trail, None))])
    for trail in ("no", "yes", "maybe"):
        for sep in (EMPTY, Opt(C(",")), END):
            S_("tuple", [F(A, lst=(sep, trail, None))])
            S_("tuple", [F(Opt(A), lst=(sep, trail, None)), F(Opt(B))], ignore=[C(" ")])
    S_("named", [F(A), F(B)], ignore=[C(" "), M("_")])
    S_("named", [F(A), F(B)], ignore=[M("_"), C(" ")])
    S_("named", [F(A)], ignore=[Opt(C(" "))], prefix=C("p"), suffix=C("s"))
    for mode in (0, 1, 2, 3):
        for e in (Opt(A), M("a"), END):
            for s in (C(","), M(",")):
                if mode == 0 and s.r != C(",").r:
                    continue
                add(Li(mode, e, e.r, s if mode else NEVER, C(" ")), alpha="a, ")
                add(Li(mode, e, e.r, s if mode else NEVER, C(" ")), alpha="a, ", mods=".max(3)")
            add(Li(mode, A, A.r, C(",") if mode else NEVER, M(" ")), alpha="a, ")
            if mode:
                add(Li(mode, e, e.r, EMPTY, C(" ")), alpha="a, ")
    return r


def ends_progs(th):
    return empties(th) + everything(th, dict(combo=2, lists=16, structs=6, enums=5, fields=4))


# ---- ownership (C08) ----
def owned_progs(th):
    r = []
    core.TRACK = True
    try:
        mine = everything(th, dict(combo=1, lists=4, structs=2, enums=2, fields=2, conv=1) if th else dict(combo=2, lists=16, structs=5, enums=4, fields=4, conv=2), drop=("text", "bytes"))
        A, B, Z = TC("a"), TC("b"), TC("z")
        boom = P("Boom", "empty()", alpha="!b")
        extra = []
        for p in (boom, Seq(A, boom), Alt(boom, A), Seq(boom, boom)):
            extra += [p, Opt(p), Vec(p), Vec1(p), Arr(1, p), Arr(3, p), Box(p), Vec(Arr(2, p)), Arr(2, Vec(p)), Arr(2, Arr(2, p)), Opt(Box(p)), Seq(Vec(A), p), Arr(2, Opt(Seq(A, p)))]
        for mode in (0, 1, 2, 3):
            for m in ("usize::MAX", "2"):
                q = Li(mode, Alt(boom, A), "Alt<Boom, TC<'a'>>", TC(",") if mode else NEVER, TC(" "))
                mine.append(Prog(f"o{len(mine)}", q, alpha="a!b, ", mods=f".max({m})"))
                q = Li(mode, Alt(Z, A), "Alt<TC<'z'>, TC<'a'>>", boom if mode else NEVER, TC(" "))
                mine.append(Prog(f"o{len(mine)}", q, alpha="az!b ", mods=f".max({m})"))
                q = Li(mode, A, "TC<'a'>", C(",") if mode else NEVER, boom)
                mine.append(Prog(f"o{len(mine)}", q, alpha="a,!b", mods=f".max({m})"))
                for x in ("a", "z"):
                    q = Li(mode, TC(x), "Conv", TC(",") if mode else NEVER, TC(" "))
                    mine.append(Prog(f"o{len(mine)}", q, alpha="az, ", mods=f".max({m})"))
        for i, p in enumerate(extra):
            mine.append(Prog(f"p{i}", p, alpha="a!bx"))
        defs = []
        conv = lambda p, **kw: F(p, ty="Conv", **kw)
        defs.append(S("Oa", "named", [conv(A), conv(Z)], ignore=[TC(" ")]))
        defs.append(S("Ob", "tuple", [F(A), conv(A, suffix=Z), F(Opt(Z))]))
        defs.append(S("Oc", "named", [F(A, ty="Conv", lst=(TC(","), "no", "Conv")), F(Z)], ignore=[TC(" ")]))
        defs.append(S("Od", "named", [F(Z, ty="Conv", lst=(TC(","), "yes", "Conv")), F(Opt(A))], ignore=[TC(" ")]))
        defs.append(S("Oe", "tuple", [F(boom), F(A), F(boom, suffix=Z)], prefix=A))
        defs.append(S("Of", "tuple", [F(A), F(A)], ignore=[Seq(boom, boom)], suffix=boom))
        defs.append(S("Og", "tuple", [F(Seq(A, boom), lst=(TC(","), "maybe", None)), F(Vec(Seq(boom, A)))]))
        defs.append(E("Oh", [S("Va", "tuple", [F(A), F(boom)]), S("Vb", "named", [F(A), conv(Z)]), S("Vc", "tuple", [F(Vec(A))])], ignore=[TC(" ")], suffix=TC("s")))
        defs.append(S("Oi", "named", [F(Arr(3, S("Oj", "named", [F(A), conv(A)]).p())), F(boom)]))
        defs.append(S("Ok2", "named", [F(Vec1(S("Ol", "named", [F(A), conv(Z)]).p())), F(Arr(2, Opt(boom)))]))
        mine += [prog(f"q{i}", d) for i, d in enumerate(defs)]
    finally:
        core.TRACK = False
    for p in mine:
        def fix(x):
            return re.sub(r"\bC<", "TC<", x)
        p.p.r, p.items, p.p.al = fix(p.p.r), [fix(i) for i in p.items], {k: fix(v) for k, v in p.p.al.items()}
        if "text::" in p.source() or "bytes::" in p.source():
            continue
        if "Any" in p.p.r or "Tok" in p.p.s or any("Any" in i for i in p.items):
            continue
        p.with_(f".no_spec().tracked(Tracking::Values).with_entry::<{p.p.r}, {p.tok}>()")
        r.append(p)
    # the input's own elements
    more = everything(th, dict(combo=5, lists=24, structs=8, enums=6, fields=6, conv=6) if th else dict(combo=9, lists=48, structs=16, enums=12, fields=10, conv=10), drop=("text", "bytes"))
    for i, p in enumerate(more):
        if "text::" in p.source() or "bytes::" in p.source() or "parse_type" in p.source():
            continue
        p.id = "i" + p.id
        p.tok = "Tracked"
        p.with_(f".no_spec().tracked(Tracking::Input).with_entry::<{p.p.r}, Tracked>()")
        r.append(p)
    return r


# ---- errors (C14) ----
def error_progs(th):
    A, B, DD = C("a"), C("b"), D("a", "b")
    r = struct_progs(th)[:: 1 if th else 2] + enum_progs(th)[:: 1 if th else 2] + listfield_progs(th)[:: 2 if th else 5]
    arr = [Arr(1, A), Arr(2, DD), Arr(3, A), Arr(3, Arr(2, A)), Arr(12, A), Vec1(Arr(2, A)), Box(Arr(2, A)), Arr(2, Vec1(A)), Arr(2, Box(Arr(2, A)))]
    r += [prog(f"y{i}", p, alpha=uniq(p.alpha + "x")) for i, p in enumerate(arr)]
    inner = S("Leaf", "named", [F(A, name="left"), F(B, name="right", prefix=C("<"), suffix=C(">"))], prefix=C("("), suffix=C(")")).p()
    en = E("Choice", [S("One", "tuple", [F(inner)]), S("Two", "named", [F(DD, name="both")])], prefix=C("e"), suffix=C("f")).p()
    mid = S("Middle", "tuple", [F(inner), F(Arr(2, inner), prefix=C(":")), F(Box(inner))], suffix=C(";")).p()
    deep = [
        S("Top", "named", [F(mid, name="middle")]),
        S("Top2", "named", [F(en, name="choice"), F(Vec1(en), name="more")]),
        S("Top3", "tuple", [F(Arr(2, Arr(2, inner)))]),
        S("Top4", "named", [F(Vec(inner), name="many"), F(Opt(inner), name="maybe"), F(inner, name="last", prefix=en, suffix=mid)]),
        S("Top5", "named", [F(S("Up", "named", [F(S("Down", "tuple", [F(S("Bottom", "named", [F(A, name="a")]).p())]).p(), name="down")]).p(), name="up")], ignore=[C(" ")]),
        S("Top6", "tuple", [F(C(c), prefix=C(c.upper()), suffix=C(c.upper())) for c in "abcdefghijkl"]),
        S("Top7", "named", [F(inner, name="items", lst=(C(","), "no", None)), F(inner, name="end")]),
        S("Top8", "named", [F(A, name="r#type", prefix=C("<"), suffix=C(">")), F(B, name="r#match")]),
        E("Outer", [S("In", "tuple", [F(en)]), S("Un", "unit", [], prefix=C("u"))]),
        S("prefix_of", "named", [F(A, name="suffixed"), F(B, name="prefixes", prefix=C("p"), suffix=C("s"))]),
        S("Top9", "tuple", [F(S("Nu", "tuple", [F(DIGITS, ty="Small", cv="Small")]).p(), prefix=C("n")), F(Vec1(A))]),
    ]
    r += [prog(f"d{i}", d) for i, d in enumerate(deep)]
    # long inputs that fail far inside
    return r


# ---- entry points (C15) ----
def entry_progs(th):
    r = everything(th, dict(text=1, bytes=1, combo=4, lists=16, structs=6, enums=5, fields=4, conv=2))
    return with_entries(r)


def with_walks(r):
    for p in r:
        p.with_(f".with_walk::<{p.p.r}, {p.tok}>()")
    return r


def with_entries(r):
    for p in r:
        p.with_(f".with_entry::<{p.p.r}, {p.tok}>()")
    return r
