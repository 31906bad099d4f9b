"""The program spaces of the derived types."""
import itertools
from core import *
from builtin import *
from derive import *

SP = C(" ")
SU = D(" ", "_")
US = C("_")


def rot(l, i):
    return l[i % len(l)]


# ---- structs (C10) ----
def struct_defs(th):
    r = []
    n = itertools.count()

    def S_(kind, fields, **kw):
        r.append(S(f"S{next(n)}", kind, fields, **kw))

    parsers = [C("a"), D("a", "b"), W("a"), Opt(C("a")), Vec(D("a", "b")), Arr(2, C("a")), Box(C("a"))]
    igns = [[], [SP], [SU, US], [SU, SP]]
    k = 0
    # every combination of prefixes, suffixes and ignore lists around one field
    for tp in (None, C("p")):
        for ts in (None, C("s")):
            for fp in (None, C("f")):
                for fs in (None, C("g")):
                    for ig in igns[:3] if not th else igns:
                        for kind in ("named", "tuple") if th else (rot(["named", "tuple"], k),):
                            for p in (parsers if th else [rot(parsers, k), rot(parsers, k + 3)][: 1 + (k % 3 == 0)]):
                                S_(kind, [F(p, prefix=fp, suffix=fs)], prefix=tp, suffix=ts, ignore=ig)
                            k += 1
    # unit structs
    for tp in (None, D("p", "q"), W("p")):
        for ts in (None, C("s"), D("p", "q")):
            for ig in igns:
                if th or tp is None or ts is None or ig:
                    S_("unit", [], prefix=tp, suffix=ts, ignore=ig)
    # empty tuple and named structs
    S_("named", [], prefix=C("p"), ignore=[SP])
    S_("tuple", [], prefix=C("p"), suffix=C("s"))
    # pairs of fields
    for i, p in enumerate(parsers):
        for j, q in enumerate(parsers):
            if th or (i + j) % 2 == 0:
                S_(rot(["named", "tuple"], i + j // 2), [F(p), F(q)], ignore=rot(igns, i + j))
    # three and four fields, attributes on some
    fx = [C("f"), None, D("f", "f"), None]
    for i in range(12 if not th else 40):
        fs = [F(rot(parsers, i * (j + 1) + j), prefix=rot(fx, i + j), suffix=rot(fx, i + 2 * j + 1)) for j in range(3 + i % 2)]
        S_(rot(["named", "tuple"], i), fs, prefix=rot(fx, i), suffix=rot(fx, i + 2), ignore=rot(igns, i))
    # overlapping tokens: ignored tokens that are also prefixes, suffixes, fields or beginnings of them
    A = C("a")
    AS = D(" ", "a")
    over = [
        ("named", [F(A, prefix=SP)], dict(ignore=[SP])),
        ("named", [F(A, suffix=SP)], dict(ignore=[SP])),
        ("named", [F(A, suffix=D(" ", ";"))], dict(ignore=[SP])),
        ("named", [F(A, suffix=D(" ", ";"))], dict(ignore=[SU])),
        ("named", [F(A), F(AS)], dict(ignore=[SP])),
        ("named", [F(A), F(AS)], dict(ignore=[SU])),
        ("tuple", [F(A), F(Opt(AS)), F(A)], dict(ignore=[SP])),
        ("tuple", [F(Vec(AS)), F(A)], dict(ignore=[SU])),
        ("tuple", [F(A), F(A)], dict(ignore=[A])),
        ("tuple", [F(A), F(D("a", "b"))], dict(ignore=[D("a", "a"), SP])),
        ("tuple", [F(A), F(D("a", "b"))], dict(ignore=[SP], prefix=D("a", " "))),
        ("tuple", [F(W("a")), F(W("b"))], dict(ignore=[D("b", "a")])),
        ("named", [F(A)], dict(ignore=[W(" ")], suffix=SP)),
        ("named", [F(A)], dict(ignore=[SU, SP, US], suffix=D("_", "a"))),
        ("named", [F(SP), F(SP)], dict(ignore=[SU])),
        ("tuple", [F(A, prefix=D("a", "b"), suffix=D("a", "b")), F(A)], dict(prefix=D("a", "b"))),
        ("tuple", [F(A)], dict(ignore=[SP, D("\t", " "), C("\n")], suffix=D("\n", ";"))),
        ("tuple", [F(A), F(A)], dict(ignore=[NEVER, SP])),
        ("tuple", [F(A), F(A)], dict(ignore=[SP, NEVER, D(" ", " ")])),
        ("named", [F(M("a")), F(C("b"))], dict(ignore=[SP])),
        ("named", [F(M("a"), prefix=C("p")), F(M("b"), suffix=C("s"))], dict()),
        ("named", [F(END)], dict(prefix=C("a"), ignore=[SP])),
        ("named", [F(A, suffix=END)], dict(ignore=[SP])),
        ("named", [F(A)], dict(suffix=END)),
        ("named", [F(C("b"))], dict(prefix=M("a"))),
        ("named", [F(C("b"), prefix=M("a"), suffix=M("c"))], dict(ignore=[SP])),
        ("named", [F(ANY), F(ANY)], dict(ignore=[A])),
        ("named", [F(ANY, suffix=ANY), F(Opt(ANY))], dict()),
    ]
    for kind, fs, kw in over:
        S_(kind, fs, **kw)
    # wide types
    wide = "abcdefghijkl"
    S_("named", [F(C(c)) for c in wide])
    S_("tuple", [F(C(c)) for c in wide], ignore=[SP])
    S_("tuple", [F(W(c), prefix=SU if c == "c" else None, suffix=D("j", "!") if c == "j" else None) for c in wide])
    S_("named", [F(C(c), name=nm) for c, nm in zip("zyxwv", ["z9", "y", "a", "f0", "elem1"])], ignore=[SP, SU])
    return r


def generic_defs():
    """Generic structs, applied to arguments: list of (P, text)."""
    T, U, V = param("T"), param("U"), param("V")
    r = []
    g1 = S("G1", "named", [F(T)], params=["T"], prefix=C("p"))
    g2 = S("G2", "tuple", [F(T), F(U)], params=["T", "U"], ignore=[SP])
    g3 = S("G3", "named", [F(U, prefix=C("f")), F(T, suffix=C("g")), F(C("a"))], params=["T", "U"], ignore=[SU], suffix=C("s"))
    g4 = S("G4", "tuple", [F(T), F(T), F(V)], params=["T", "V"])
    g5 = S("G5", "named", [F(Seq(C("a"), C("b")), ty="Seq<C<'a'>, C<'b'>>"), F(T)], params=["T"])
    g5.fields[0].ty = None
    A, B, W_, DD = C("a"), C("b"), W("a"), D("a", "b")
    for g, args in [(g1, [A]), (g1, [Vec(DD)]), (g1, [Opt(A)]), (g2, [A, B]), (g2, [W_, A]), (g2, [DD, Opt(A)]),
                    (g3, [A, B]), (g3, [DD, W_]), (g4, [A, DD]), (g5, [W_])]:
        r.append(g.apply(*args))
    # a generic argument that is itself derived, and nested application
    inner = S("In", "tuple", [F(A), F(B)], ignore=[SP]).p()
    r.append(g1.apply(inner))
    r.append(g2.apply(inner, Vec(inner)))
    r.append(g1.apply(g2.apply(A, B)))
    # parameters within other types, in every role; the token type left open and fixed
    for k in (None, "char"):
        def n(x):
            return x + ("k" if k else "o")
        kw = dict(parse_type=k)
        if k:
            h1 = S(n("H1"), "named", [F(T)], params=["T"], prefix=C("p"), **kw)
            h2 = S(n("H2"), "tuple", [F(T), F(U)], params=["T", "U"], ignore=[SP], **kw)
            h3 = S(n("H3"), "named", [F(U, prefix=C("f")), F(T, suffix=C("g")), F(C("a"))], params=["T", "U"], ignore=[SU], suffix=C("s"), **kw)
            r += [h1.apply(DD), h1.apply(h2.apply(A, B)), h2.apply(A, Opt(DD)), h3.apply(DD, W_), h1.apply(g2.apply(A, W_)), g2.apply(h1.apply(A), B)]
        g6 = S(n("G6"), "named", [F(Vec(T)), F(Box(U)), F(Opt(T))], params=["T", "U"], **kw)
        g7 = S(n("G7"), "tuple", [F(Arr(2, T)), F(Vec1(U))], params=["T", "U"], ignore=[SP], **kw)
        g8 = S(n("G8"), "named", [F(T, prefix=U, suffix=T), F(U)], params=["T", "U"], prefix=T, suffix=Opt(U), **kw)
        g9 = S(n("G9"), "tuple", [F(T, lst=(C(","), "maybe", None)), F(T, lst=(U, "yes", None), prefix=C("<"), suffix=C(">")), F(U)], params=["T", "U"], ignore=[SU], **kw)
        ga = S(n("Ga"), "named", [F(g2.apply(T, A)), F(Opt(g1.apply(T)))], params=["T"], **kw)
        r += [g6.apply(DD, C("c")), g6.apply(A, W_), g7.apply(B, DD), g7.apply(Opt(B), A), g8.apply(A, B), g8.apply(DD, W("c")), g9.apply(A, C(";")), g9.apply(DD, D(";", "-")), ga.apply(A), ga.apply(DD)]
    return r


def generic_enums():
    """Generic enums, and generic types that refer to themselves."""
    T, U = param("T"), param("U")
    A, B, DD = C("a"), C("b"), D("a", "b")
    r = []
    for k in (None, "char"):
        def n(x):
            return x + ("k" if k else "o")
        kw = dict(parse_type=k)
        e1 = E(n("Ge"), [S("X", "tuple", [F(T), F(A)]), S("Y", "named", [F(U, prefix=T)]), S("Z", "unit", [], prefix=C("k")), S("W_", "tuple", [F(U), F(Opt(T))])], params=["T", "U"], ignore=[SP], **kw)
        e2 = E(n("Gf"), [S("None_", "unit", [], prefix=C("n")), S("Some_", "tuple", [F(Box(T), suffix=C(";"))]), S("Many", "named", [F(T, lst=(C(","), "maybe", None))])], params=["T"], prefix=C("("), suffix=C(")"), **kw)
        l = S(n("Gl"), "tuple", [F(T), F(itself((n("Gl"), ["T"]), "Option<Box<{}>>", "opt(boxed({}))"))], params=["T"], prefix=C("("), suffix=C(")"), **kw)
        t = E(n("Gt"), [S("Leaf", "named", [F(T), F(Opt(U))]), S("Node", "tuple", [F(itself((n("Gt"), ["T", "U"]), "Vec<{}>", "many({})"), suffix=U)], prefix=C("("))], params=["T", "U"], ignore=[SP], **kw)
        r += [e1.apply(A, B), e1.apply(DD, W("a")), e1.apply(DD, DD), e2.apply(DD), e2.apply(A), e2.apply(e1.apply(A, B)), l.apply(A), l.apply(DD), t.apply(A, C(")")), t.apply(DD, D(")", ".")), l.apply(t.apply(A, C("!")))]
    return r


def generic_progs():
    return [prog(f"g{i}", p) for i, p in enumerate(generic_defs() + generic_enums())]


def nested_defs(th):
    """Derived types used as fields, prefixes, suffixes, ignores and generic arguments of combinators."""
    A = C("a")
    inn = S("In", "named", [F(A), F(C("b"))], ignore=[SP]).p()
    inn2 = S("In2", "tuple", [F(A), F(D("a", "b"))], suffix=C(";")).p()
    unit = S("Un", "unit", [], prefix=D("u", "v"), ignore=[SP]).p()
    r = []
    n = itertools.count()

    def S_(kind, fields, **kw):
        r.append(S(f"N{next(n)}", kind, fields, **kw))

    for p in (inn, inn2, unit, Opt(inn), Vec(inn), Vec(inn2), Vec1(unit), Arr(2, inn), Box(inn2), Opt(Box(inn2))):
        S_("named", [F(p), F(A)])
        S_("tuple", [F(p, suffix=C(";")), F(Opt(A))], ignore=[US] if th else [SU])
    S_("named", [F(A)], prefix=inn, suffix=inn2)
    S_("named", [F(A), F(A)], ignore=[unit])
    S_("tuple", [F(A), F(A)], ignore=[inn2, SP])
    S_("tuple", [F(A, prefix=unit, suffix=inn)], ignore=[SP])
    S_("tuple", [F(inn), F(inn2), F(unit)], ignore=[SP])
    S_("tuple", [F(Vec(S("De", "tuple", [F(inn, prefix=C("<"), suffix=C(">"))], ignore=[SP]).p()))])
    return r


def struct_progs(th):
    r = [prog(f"s{i}", d) for i, d in enumerate(struct_defs(th))]
    r += [prog(f"g{i}", p) for i, p in enumerate(generic_defs())]
    r += [prog(f"n{i}", d) for i, d in enumerate(nested_defs(th))]
    return r


# ---- enums (C11) ----
def variant_pool():
    A, B, DD, WW = C("a"), C("b"), D("a", "b"), W("a")
    return [
        lambda n: S(n, "tuple", [F(A)]),
        lambda n: S(n, "tuple", [F(DD)]),
        lambda n: S(n, "tuple", [F(A), F(B)]),
        lambda n: S(n, "named", [F(WW), F(B)]),
        lambda n: S(n, "unit", [], prefix=DD),
        lambda n: S(n, "named", [F(A), F(A), F(B)]),
        lambda n: S(n, "tuple", [F(Opt(A)), F(B)]),
        lambda n: S(n, "unit", [], prefix=A, suffix=C("c")),
        lambda n: S(n, "tuple", [F(A, prefix=B)], suffix=C("c")),
        lambda n: S(n, "named", [F(A)], prefix=A, ignore=[US]),
        lambda n: S(n, "tuple", [F(Vec(DD)), F(C("c"))], ignore=[C("c")]),
    ]


def enum_defs(th):
    pool = variant_pool()
    r = []
    n = itertools.count()
    names = ["Va", "Vb", "Vc", "Vd", "Ve"]
    igns = [[], [SP], [SU, US]]

    def E_(makers, **kw):
        r.append(E(f"E{next(n)}", [m(names[i]) for i, m in enumerate(makers)], **kw))

    k = 0
    for i in range(len(pool)):
        for j in range(len(pool)):
            if i == j:
                continue
            if th or (i + 2 * j) % 3 == 0:
                E_([pool[i], pool[j]], prefix=rot([None, C("p")], k), suffix=rot([None, None, C("s")], k), ignore=rot(igns, k))
                k += 1
    for i, (a, b, c) in enumerate(itertools.permutations(range(len(pool)), 3)):
        if i % (7 if th else 41) == 0:
            E_([pool[a], pool[b], pool[c]], prefix=rot([None, None, D("p", "q")], k), suffix=rot([C("s"), None], k), ignore=rot(igns, k // 2))
            k += 1
    for m in pool:
        E_([m], ignore=rot(igns, k), suffix=rot([None, C("s")], k))
        k += 1
    E_([pool[i] for i in (1, 4, 0, 2, 3)])
    E_([pool[i] for i in (5, 3, 2, 1, 0)], ignore=[SP], prefix=C("p"), suffix=C("s"))
    # ignores of both the variant and the enum
    A, B = C("a"), C("b")
    E_([lambda n: S(n, "tuple", [F(A), F(A)], ignore=[US]), lambda n: S(n, "tuple", [F(A), F(B)])], ignore=[SP])
    E_([lambda n: S(n, "tuple", [F(A), F(A)], ignore=[SU]), lambda n: S(n, "tuple", [F(A), F(B)], ignore=[D("_", " ")])], ignore=[SP])
    E_([lambda n: S(n, "named", [F(A), F(A)], ignore=[US], prefix=B), lambda n: S(n, "unit", [], ignore=[US], prefix=B, suffix=B)], ignore=[SP], prefix=C("p"), suffix=C("s"))
    E_([lambda n: S(n, "unit", [], ignore=[US], prefix=A), lambda n: S(n, "unit", [], prefix=B)], suffix=C("s"))
    # a variant that matches nothing, last and first
    E_([pool[2], lambda n: S(n, "unit", [])])
    E_([lambda n: S(n, "unit", []), pool[2]])
    E_([pool[2], lambda n: S(n, "unit", [])], prefix=C("p"), suffix=C("s"), ignore=[SP])
    E_([pool[2], lambda n: S(n, "tuple", [F(M("a"))])], suffix=C("s"))
    E_([lambda n: S(n, "tuple", [F(A)]), lambda n: S(n, "tuple", [F(END)])])
    # the chosen variant stays chosen although another one would let the suffix match
    E_([lambda n: S(n, "tuple", [F(A)]), lambda n: S(n, "tuple", [F(D("a", "b"))])], suffix=C("s"))
    E_([lambda n: S(n, "tuple", [F(W("a"))]), lambda n: S(n, "tuple", [F(A)])], suffix=A)
    # ignored tokens at the end of a failed variant, and that a later variant needs
    E_([lambda n: S(n, "tuple", [F(A), F(A)]), lambda n: S(n, "tuple", [F(A), F(SP, suffix=B)])], ignore=[SU])
    E_([lambda n: S(n, "tuple", [F(A), F(A)], ignore=[SP]), lambda n: S(n, "tuple", [F(A), F(SP), F(B)])])
    # nested enums and structs
    inner = E("Ie", [S("X", "tuple", [F(A), F(B)]), S("Y", "unit", [], prefix=A)], ignore=[SP]).p()
    st_ = S("Is", "named", [F(A), F(Opt(B))], ignore=[US]).p()
    E_([lambda n: S(n, "tuple", [F(inner), F(C("c"))]), lambda n: S(n, "tuple", [F(inner), F(C("d"))]), lambda n: S(n, "tuple", [F(st_)])])
    E_([lambda n: S(n, "tuple", [F(Vec(inner)), F(C("c"))]), lambda n: S(n, "named", [F(Vec(inner))])], ignore=[SP])
    E_([lambda n: S(n, "tuple", [F(Opt(st_)), F(C("c"))]), lambda n: S(n, "named", [F(Box(inner), prefix=C("c"))])], prefix=st_)
    r.append(S("Uses", "named", [F(Vec(inner)), F(inner)]))
    r.append(S("Uses2", "tuple", [F(Opt(inner), suffix=C(";")), F(Arr(2, inner))], ignore=[SP]))
    # many variants
    many = "abcdefghijklm"
    r.append(E("Wide", [S("V" + c, ["unit", "tuple", "named"][i % 3], [] if i % 3 == 0 else [F(C(c))], prefix=C(c) if i % 3 == 0 else None) for i, c in enumerate(many)]))
    r.append(E("Wide2", [S("V%d" % i, "tuple", [F(W("a")), F(C(c))]) for i, c in enumerate("bcdefghi")], suffix=C("s")))
    return r


def enum_progs(th):
    r = []
    for i, d in enumerate(enum_defs(th)):
        p = prog(f"e{i}", d)
        if len(p.alpha) > 9:
            p.with_(".max_pump(400)")
        r.append(p)
    return r + [prog(f"ge{i}", p) for i, p in enumerate(generic_enums())]


# ---- list fields (C12) ----
def listfield_defs(th):
    A, B, DD, WW = C("a"), C("b"), D("a", "b"), W("a")
    seps = [None, C(","), D(",", ";")]
    if th:
        seps += [W(","), D(",", " ")]
    igns = [[], [SP], [SU, US]]
    elems = [(A, None, "Id"), (DD, None, "Id"), (WW, "String", "Id"), (DIGITS, "Small", "Small")]
    r = []
    n = itertools.count()

    def S_(kind, fields, **kw):
        r.append(S(f"L{next(n)}", kind, fields, **kw))

    k = 0
    for sep in seps:
        for trail in ("no", "yes", "maybe") if sep else ("no",):
            for ig in igns:
                for (e, q, cv) in elems if th else (rot(elems, k), rot(elems, k + 1)):
                    pre, suf = rot([(None, None), (C("["), C("]")), (None, C("]")), (C("["), None)], k + k // 4)
                    kind = rot(["named", "tuple"], k)
                    S_(kind, [F(e, ty=q, cv=cv, prefix=pre, suffix=suf, lst=(sep, trail, q))], ignore=ig)
                    S_(kind, [F(e, ty=q, cv=cv, prefix=pre, lst=(sep, trail, q)), F(rot([C("z"), e if q is None else C("z"), DD], k))],
                       ignore=ig, prefix=rot([None, C("p")], k // 2), suffix=rot([None, None, C("s")], k))
                    k += 1
    # two lists in a row, lists between fields, nested lists
    for sep, trail in ((C(","), "no"), (C(","), "yes"), (C(","), "maybe"), (None, "no")):
        S_("named", [F(A, lst=(sep, trail, None)), F(B, lst=(sep, trail, None)), F(C("c"))], ignore=[SP])
        S_("tuple", [F(C("c")), F(DD, lst=(sep, trail, None), suffix=C("."))], ignore=[SP])
        inner = S(f"Il{trail}{int(bool(sep))}", "named", [F(A, lst=(sep, trail, None), prefix=C("["), suffix=C("]"))], ignore=[SP]).p()
        S_("named", [F(inner, lst=(C(";"), "no", None))], ignore=[SP])
        if th:
            S_("named", [F(inner, lst=(sep, trail, None)), F(C("z"))])
    # elements, separators and ignores that overlap
    for trail in ("no", "yes", "maybe"):
        S_("named", [F(A, lst=(D(",", "a"), trail, None), suffix=C(","))], ignore=[SP])
        S_("named", [F(A, lst=(D(" ", ","), trail, None)), F(D(" ", "z"))], ignore=[SU])
        S_("named", [F(A, lst=(D(" ", ","), trail, None), suffix=SP)], ignore=[SP] if th else [SU])
        S_("named", [F(Vec1(A), lst=(C(","), trail, None), suffix=D(",", ";"))])
        S_("named", [F(Opt(A), lst=(C(","), trail, None), suffix=C(";"))])
        S_("named", [F(A, lst=(A, trail, None))])
        S_("tuple", [F(ANY, lst=(C(","), trail, None))], ignore=[SP])
    # in enums
    for trail in ("no", "yes", "maybe"):
        r.append(E(f"El{trail}", [
            S("Va", "tuple", [F(A, lst=(C(","), trail, None), suffix=C(";"))]),
            S("Vb", "named", [F(A, lst=(None, "no", None), prefix=C("<")), F(B)]),
            S("Vc", "tuple", [F(DIGITS, ty="Small", cv="Small", lst=(C(","), trail, "Small"))])], ignore=[SP]))
    return r


def listfield_progs(th):
    return [prog(f"f{i}", d) for i, d in enumerate(listfield_defs(th))]


# ---- conversions (C19) ----
def conv_defs(th):
    A, B = C("a"), C("b")
    num = lambda **kw: F(DIGITS, ty="Small", cv="Small", **kw)
    word = lambda **kw: F(W("a"), ty="String", **kw)
    tok = lambda **kw: F(ANY, ty="Tok", **kw)
    r = []
    n = itertools.count()

    def S_(kind, fields, **kw):
        r.append(S(f"K{next(n)}", kind, fields, **kw))
        return r[-1].p()

    one = S_("named", [num()])
    two = S_("tuple", [num(), num()], ignore=[SP])
    S_("named", [num(prefix=C("p"), suffix=C("s")), word()], ignore=[SP])
    S_("tuple", [word(), num(), tok()])
    S_("tuple", [word(suffix=C(";")), word(prefix=C(","))], ignore=[SU])
    S_("named", [tok(), tok(), tok()])
    S_("named", [F(Opt(one)), F(Digits_alias())])
    S_("named", [F(Vec(one_comma())), F(Digits_alias())])
    S_("named", [F(Vec(one_comma())), F(C("z"))])
    S_("tuple", [F(Arr(2, one_comma()))])
    S_("tuple", [F(Vec1(one_comma()))])
    S_("tuple", [F(Box(one)), F(Opt(C("b")))])
    for trail in ("no", "yes", "maybe"):
        for sep in (C(","), D(",", ";")):
            S_("named", [F(DIGITS, ty="Small", cv="Small", lst=(sep, trail, "Small"))], ignore=[SP])
            S_("named", [F(DIGITS, ty="Small", cv="Small", lst=(sep, trail, "Small"), suffix=C(".")), F(A)])
            S_("named", [F(W("a"), ty="String", lst=(sep, trail, "String"))], ignore=[SP])
            S_("tuple", [F(ANY, ty="Tok", lst=(sep, trail, "Tok"))])
    S_("named", [F(DIGITS, ty="Small", cv="Small", lst=(None, "no", "Small"))], ignore=[SP])
    S_("named", [F(Seq(C("1"), DIGITS), lst=(None, "no", None))])
    dig = Digits_alias()
    for vs in (
        [S("Num", "tuple", [num()]), S("Raw", "tuple", [F(dig)])],
        [S("Num", "named", [num(suffix=C(";"))]), S("Raw", "tuple", [F(dig), F(Opt(C(";")))]), S("Word", "tuple", [word()])],
        [S("Two", "tuple", [num(), num(prefix=C(","))]), S("One", "named", [num()]), S("Raw", "tuple", [F(dig)])],
        [S("List", "tuple", [F(DIGITS, ty="Small", cv="Small", lst=(C(","), "no", "Small"))], prefix=C("[")), S("Raw", "tuple", [F(Vec(ANY))])],
    ):
        r.append(E(f"Ke{next(n)}", vs, ignore=rot([[], [SP]], next(n) // 2)))
    en = E("Kn", [S("Num", "tuple", [num()]), S("Raw", "unit", [], prefix=D("3", "3"))]).p()
    S_("named", [F(Vec(en)), F(Opt(dig))], ignore=[SP])
    S_("named", [F(Opt(en)), F(Opt(dig))])
    S_("named", [F(en, lst=(C(","), "maybe", None)), F(Opt(dig))])
    if th:
        S_("named", [F(Opt(two)), F(Vec(ANY))])
        S_("named", [F(Vec(two)), F(Vec(ANY))])
        S_("named", [F(two, lst=(C(","), "yes", None)), F(Vec(ANY))])
        S_("named", [F(two, lst=(C(","), "no", None)), F(Vec(ANY))])
    return r


def Digits_alias():
    return P("Digits", "digits()", alpha="13")


def one_comma():
    return S("Oc", "tuple", [F(DIGITS, ty="Small", cv="Small", suffix=C(","))]).p()


def conv_progs(th):
    r = [prog(f"k{i}", d) for i, d in enumerate(conv_defs(th))]
    # digits to a machine number
    num = P("nommy::text::AnyOf1<\"0123456789\">", "g(G::Any1(toks(\"0123456789\")))", alpha="0159")
    low = P("nommy::text::AnyOf1<\"abc\">", "g(G::Any1(toks(\"abc\")))", alpha="ab")
    def big(mk):
        ins = []
        limit = 2 ** 64
        for v in [0, 1, 9, 10, 99, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63,
                  limit - 2, limit - 1, limit, limit + 1, limit * 10 - 1, limit * 10, 10 ** 19, 10 ** 20 - 1, 10 ** 20, 10 ** 30, 10 ** 60, 2 ** 128, 2 ** 128 + 5] + [10 ** k for k in range(1, 25)]:
            for z in ("", "0", "00000", "0" * 30):
                ins.append(mk(z + str(v)))
        return ".texts(&[" + ", ".join(st(x) for x in ins) + "])"
    a = S("Nu", "named", [F(num, ty="usize", cv="Usize")])
    b = S("Nl", "tuple", [F(num, ty="usize", cv="Usize", lst=(C(","), "maybe", "usize"))], ignore=[SP])
    c = E("Ne", [S("N", "tuple", [F(num, ty="usize", cv="Usize")]), S("S", "tuple", [F(num, ty="String")])])
    d = S("Ns", "tuple", [F(low, ty="String"), F(num, ty="usize", cv="Usize", prefix=C(":"), suffix=C(";"))])
    o = S("No", "tuple", [F(Opt(a.p())), F(Opt(num))])
    r += [prog("u0", a, mods=big(lambda s: s)), prog("u1", b, alpha="019, ", mods=big(lambda s: "1, " + s + " ,7")), prog("u2", c, mods=big(lambda s: s)),
          prog("u3", d, alpha="ab:19;", mods=big(lambda s: "ab:" + s + ";")), prog("u4", o, mods=big(lambda s: s))]
    # text that is not only digits
    for i, (chars, alpha) in enumerate([("0123456789abcdef", "019af"), ("01 -_.", "01 -_."), ("12\u0661\uff11\u00b2", "12\u0661\uff11\u00b2"), ("0123456789xXobeE,", "01xbe,")]):
        t = T_Any1(chars)
        f = F(t, ty="usize", cv="Usize")
        n = S("Nx", "named", [f])
        m = E("Ny", [S("N", "tuple", [F(t, ty="usize", cv="Usize")]), S("S", "tuple", [F(t, ty="String")])])
        l = S("Nz", "tuple", [F(t, ty="usize", cv="Usize", lst=(C(";"), "maybe", "usize")), F(Opt(T_Any1(chars)))])
        r += [prog(f"ux{i}", n, alpha=alpha, mods=big(lambda s: s + chars[-1])), prog(f"uy{i}", m, alpha=alpha, mods=big(lambda s: chars[-1] + s)), prog(f"uz{i}", l, alpha=alpha + ";")]
    # texts, characters and bytes of every kind
    odd = " \t\r\n\0\ufeff\u00a0\u2028\u00df\u0130A,"
    around = lambda *l: "".join(f".around({st(x)}, {st(y)})" for x, y in l)
    n1, a0, a1, o1 = T_Not1(","), T_Any(odd), T_Any1(odd), T_One(odd)
    every = around(*[("x", ""), ("", "x")][: 2 if th else 1], ("", ""))
    r += [prog("w0", S("Ww", "named", [F(n1, ty="String")]), alpha="x ,\ufeff\0", mods=every),
          prog("w1", S("Wl", "tuple", [F(n1, ty="String", lst=(C(","), "maybe", "String"))]), alpha="x ,\t\u00df", mods=around(*[("x,", ",x"), ("", ""), ("x,", "")][: 3 if th else 1])),
          prog("w2", S("Wa", "tuple", [F(a0, ty="String", suffix=C("|")), F(a1, ty="String")]), alpha=odd[:5] + odd[8:10] + "|x", mods=around(*[("", "|\t"), ("|", ""), ("\t", " |\t"), ("|\t", "")][: 4 if th else 2])),
          prog("w3", S("Wo", "tuple", [F(o1, ty="char"), F(o1, ty="char")]), alpha=odd + "x", mods=around(*[("", "\t"), ("\t", "")][: 2 if th else 1])),
          prog("w4", S("Wm", "named", [F(Vec1(o1)), F(T_Tag("x"))]), alpha=odd + "x", mods=".no_pump()")]
    every_byte = list(range(256))
    ba, bo = B_Any1(every_byte), B_One(every_byte)
    most = B_Any1([x for x in every_byte if x != 0x2c])
    pairs = ".inputs((0..65536u32).map(|x| vec![x >> 8, x & 255]).collect()).inputs((0..256u32).map(|x| vec![x]).collect()).alphabet(vec![0, 44, 97, 128, 255])"
    bytes_ = lambda p, cv="Toks", **kw: F(p, ty="Vec<u8>", cv=cv, **kw)
    r += [prog("w5", S("Wb", "named", [bytes_(ba)]), tok="u8", mods=pairs), prog("w6", S("Wc", "tuple", [F(bo, ty="u8"), F(bo, ty="u8")]), tok="u8", mods=pairs),
          prog("w7", S("Wd", "tuple", [bytes_(most, lst=(B_Tag(b","), "maybe", "Vec<u8>"))]), tok="u8", mods=pairs)]
    # every number of up to five digits is in the tree of inputs of prog u5
    r.append(prog("u5", S("Nd", "named", [F(P("nommy::text::AnyOf1<\"0123456789\">", "g(G::Any1(toks(\"0123456789\")))"), ty="usize", cv="Usize")]), alpha="0123456789",
                  mods=".weight(%d.0).no_pump()" % (4 if not th else 2)))
    return r
