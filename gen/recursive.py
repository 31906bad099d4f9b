"""Recursive grammars (C17)."""
import itertools
from core import *
from derive import *
from builtin import *

A, B, SPC = C("a"), C("b"), C(" ")


def box(n):
    return rec(n, "Box<{}>", "boxed({})")


def vec(n):
    return rec(n, "Vec<{}>", "many({})")


def vec1(n):
    return rec(n, "nommy::Vec1<{}>", "many1({})")


def optbox(n):
    return rec(n, "Option<Box<{}>>", "opt(boxed({}))")


class Nest:
    """Deeply nested inputs: u^n m w^n, whole and damaged."""

    def __init__(self, u, m, w):
        self.u, self.m, self.w = u, m, w

    def mods(self, depths, alpha):
        ins = []
        for n in depths:
            u, m, w = self.u * n, self.m, self.w * n
            ins.append((self.u, n, m, self.w, n, ""))
            ins.append((self.u, n, m, self.w, n - 1, ""))
            ins.append((self.u, n - 1, m, self.w, n, ""))
            if n > 500:
                continue
            ins.append((self.u, n, "", self.w, n, ""))
            ins.append((self.u, n, m + m, self.w, n, ""))
            ins.append((self.u, n, "x", self.w, n, ""))
            ins.append((self.u, n, m, self.w, n, self.u))
            for c in alpha:
                # something wrong half way out
                ins.append((self.u, n, m, self.w, n // 2, c + self.w * (n - n // 2)))
                # and half way in
                ins.append((self.u, n // 2, c + self.u * (n - n // 2) + m, self.w, n, ""))
        seen, out = set(), ""
        for u, i, m, w, j, z in ins:
            k = u * i + m + w * j + z
            if k not in seen:
                seen.add(k)
                out += f", nest({st(u)}, {i}, {st(m)}, {st(w)}, {j}, {st(z)})"
        return ".inputs(vec![" + out[2:] + "])"


def grammars(th):
    """(name, list of definitions in order, start, alphabet, nests)"""
    r = []

    def add(name, defs, start, alpha, *nests, open_=True):
        r.append((name, defs, start, alpha, nests, open_))

    # brackets of one and of two kinds
    add("paren", [S("Pa", "named", [F(vec("Pa"), name="inner")], prefix=C("("), suffix=C(")"))], "Pa", "()x", Nest("(", "", ")"), Nest("(", "()", ")"), Nest("()(", "", ")"))
    add("paren2", [E("Br", [S("Round", "tuple", [F(vec("Br"))], prefix=C("("), suffix=C(")")), S("Square", "named", [F(vec("Br"), name="all")], prefix=C("["), suffix=C("]"))])],
        "Br", "()[]", Nest("(", "", ")"), Nest("([", "()", "])"), Nest("[]([", "", "])"))
    add("sexpr", [E("Sx", [S("Atom", "tuple", [F(W("a"))]), S("List", "tuple", [F(vec("Sx"))], prefix=C("("), suffix=C(")"))], ignore=[SPC])],
        "Sx", "(a )", Nest("(", "a", ")"), Nest("(a ", "()", " )"), Nest("( a (", "", "))a"))
    add("json", [
        S("Pair", "named", [F(W("k"), name="key"), F(box("Json"), name="value", prefix=C(":"))], ignore=[SPC]),
        E("Json", [S("Null", "unit", [], prefix=C("n")), S("Num", "tuple", [F(DIGITS)]),
                   S("Arr", "tuple", [F(rec("Json"), lst=(C(","), "no", None), prefix=C("["), suffix=C("]"))]),
                   S("Obj", "named", [F(rec("Pair"), name="pairs", lst=(C(","), "maybe", None), prefix=C("{"), suffix=C("}"))])], ignore=[SPC])],
        "Json", "n1[,]{k:} ", Nest("[", "n", "]"), Nest("[n,", "1", "]"), Nest("{k:", "n", "}"), Nest("[{k:n,kk:", "[]", ",},1]"))
    for trail in ("no", "yes", "maybe"):
        add("tree" + trail, [S("Tr", "tuple", [F(rec("Tr"), lst=(C(","), trail, None))], prefix=C("["), suffix=C("]"), ignore=[SPC])],
            "Tr", "[,] ", Nest("[", "", "]"), Nest("[", "", ",]"), Nest("[[],", "[]", "]"), Nest("[[],", "", ",]"))
    add("treeno sep", [S("Ts", "named", [F(rec("Ts"), name="kids", lst=(None, "no", None), prefix=C("<"), suffix=C(">"))], ignore=[SPC], prefix=C("t"))],
        "Ts", "t<> ", Nest("t<", "", ">"), Nest("t<t<>", "", ">"))
    add("chain", [S("Ch", "tuple", [F(A), F(optbox("Ch"))])], "Ch", "ax", Nest("a", "a", ""))
    add("chain2", [S("Cj", "named", [F(A, name="here"), F(optbox("Cj"), name="r#next", prefix=C(";"))], ignore=[SPC])], "Cj", "a; ", Nest("a;", "", ""), Nest("a ;", "", ";"))
    add("mutual", [S("Ma", "tuple", [F(optbox("Mb"))], prefix=A), S("Mb", "tuple", [F(optbox("Ma"))], prefix=B)], "Ma", "abx", Nest("ab", "a", ""), Nest("ab", "b", ""))
    add("three", [S("Xa", "tuple", [F(vec("Xb"))], prefix=A, suffix=C(";")), S("Xb", "named", [F(optbox("Xc"))], prefix=B, suffix=C(";")),
                  E("Xc", [S("Up", "tuple", [F(box("Xa"))]), S("End", "unit", [], prefix=C("c"))])], "Xa", "abc;", Nest("ab", "", ";;"), Nest("ab", "c", ";;"))
    add("expr", [S("Ex", "named", [F(rec("Te"), name="first"), F(vec("Su"), name="rest")], ignore=[SPC]),
                 S("Su", "tuple", [F(rec("Te"))], prefix=C("+"), ignore=[SPC]),
                 S("Te", "named", [F(rec("Fa"), name="first"), F(rec("Fa"), name="rest", lst=(None, "no", None))], ignore=[SPC]),
                 E("Fa", [S("Num", "tuple", [F(DIGITS)]), S("Paren", "tuple", [F(box("Ex"))], prefix=C("("), suffix=C(")")), S("Neg", "named", [F(box("Fa"))], prefix=C("-"))], ignore=[SPC])],
        "Ex", "1+(- )", Nest("(", "1", ")"), Nest("(1+", "1", ")"), Nest("-(1+-", "3", " )"))
    add("not", [E("No", [S("Not", "tuple", [F(box("No"))], prefix=C("!")), S("Leaf", "unit", [], prefix=A)])], "No", "!ax", Nest("!", "a", ""))
    add("pal", [E("Pl", [S("Aa", "tuple", [F(box("Pl"))], prefix=A, suffix=A), S("Bb", "named", [F(A, name="x", prefix=B), F(box("Pl"), name="y"), F(B, name="z")]), S("Cc", "unit", [], prefix=C("c"))])],
        "Pl", "abc", Nest("a", "c", "a"), Nest("ba", "c", "b"))
    add("pal2", [E("Pk", [S("Aa", "tuple", [F(box("Pk"))], prefix=A, suffix=A), S("Ab", "tuple", [F(box("Pk"))], prefix=A, suffix=B), S("Cc", "unit", [], prefix=C("c"))])],
        "Pk", "abc", *[])
    add("bin", [E("Bi", [S("Node", "tuple", [F(rec("Bi", "[Box<{}>; 2]", "arr(2, boxed({}))"))], prefix=C("n")), S("Leaf", "unit", [], prefix=C("l"))])], "Bi", "nlx", Nest("n", "l", "l"), Nest("nl", "l", ""))
    add("xml", [E("Xn", [S("Text", "tuple", [F(W("t"))]), S("Elem", "tuple", [F(rec("Xe"))])]),
                S("Xe", "named", [F(W("e"), name="name", prefix=C("<"), suffix=C(">")), F(vec("Xn"), name="kids"), F(W("e"), name="end", prefix=D("<", "/"), suffix=C(">"))])],
        "Xe", "<e>t/", Nest("<e>", "", "</e>"), Nest("<e>t", "<e></ee>", "</e>t"))
    add("comment", [S("Co", "named", [F(vec("Ci"), name="body")], prefix=D("(", "*"), suffix=D("*", ")")),
                    E("Ci", [S("In", "tuple", [F(box("Co"))]), S("Word", "tuple", [F(W("a"))])]),
                    S("Cm", "tuple", [F(A), F(B)], ignore=[rec("Co"), SPC])],
        "Cm", "(*)ab ", Nest("", "a(**)b", ""), Nest("a(*", "", "*)"))
    add("nestlist", [S("Ne", "named", [F(rec("Ni"), name="items", lst=(C(";"), "maybe", None), prefix=C("{"), suffix=C("}"))], ignore=[SPC]),
                     E("Ni", [S("Sub", "tuple", [F(box("Ne"))]), S("Let", "named", [F(W("a"), name="w"), F(optbox("Ne"), name="of")])], ignore=[SPC])],
        "Ne", "{;}a ", Nest("{", "", "}"), Nest("{a;a ", "a", "{};}"), Nest("{a", "", "}"))
    add("vec1", [S("Vo", "tuple", [F(rec("Vq", "nommy::Vec1<{}>", "many1({})"))], prefix=C("("), suffix=C(")")),
                 E("Vq", [S("D", "tuple", [F(box("Vo"))]), S("L", "unit", [], prefix=A)])], "Vo", "(a)", Nest("(", "a", ")"), Nest("(a", "a", ")a"))
    add("if", [E("Sm", [S("If", "named", [F(box("Sm"), name="then", prefix=D("i", "f")), F(optbox("Sm"), name="r#else", prefix=C("e"))]),
                        S("If1", "named", [F(box("Sm"), name="then", prefix=D("i", "f"))]), S("Do", "unit", [], prefix=C("d"))], ignore=[SPC])],
        "Sm", "ifed ", *([] if not th else []))
    add("prefixrec", [S("Pr", "tuple", [F(A, prefix=rec("Pq", "Option<Box<{}>>", "opt(boxed({}))"))]), S("Pq", "unit", [], prefix=C("("), suffix=rec("Pz")), S("Pz", "tuple", [F(optbox("Pq"))], suffix=C(")"))],
        "Pr", "(a)", Nest("(", "", ")"), Nest("((", "", "))"))
    add("vecopt", [S("Vp", "named", [F(A, name="x"), F(rec("Vr", "Vec<{}>", "many({})"), name="kids")], suffix=C(".")),
                   E("Vr", [S("K", "tuple", [F(rec("Vp"))]), S("N", "tuple", [F(box("Vp"))], prefix=C("!"))])], "Vp", "a.!", Nest("a", "", "."), Nest("a!", "a.", "."))
    # written with nommy's own parsers of texts, as its documentation does
    word = lambda p, **kw: F(p, ty="String", **kw)
    tag = lambda s: T_Tag(s)
    quoted = lambda **kw: word(T_Not1('"'), prefix=kw.pop("prefix", tag('"')), suffix=tag('"'), **kw)
    add("text json", [
        S("Jo", "named", [quoted(name="key"), F(box("Js"), name="value", prefix=tag(":"))], ignore=[WHITE]),
        E("Js", [S("Null", "unit", [], prefix=tag("null")), S("Bool", "tuple", [F(rec("Jb"))]), S("Num", "tuple", [word(T_Any1("0123456789"))]), S("Str", "tuple", [quoted()]),
                 S("Arr", "tuple", [F(rec("Js"), lst=(tag(","), "no", None), prefix=tag("["), suffix=tag("]"))]),
                 S("Obj", "named", [F(rec("Jo"), name="all", lst=(tag(","), "no", None), prefix=tag("{"), suffix=tag("}"))])], ignore=[WHITE]),
        E("Jb", [S("T", "unit", [], prefix=tag("true")), S("F", "unit", [], prefix=tag("false"))])],
        "Js", '[,]1" {:}', Nest("[", "null", "]"), Nest('{"a" : ', "[true,false]", "\r\n}"), Nest('[{"k":1,"l":', '"x"', "}\t,2]"), open_=False)
    add("text lisp", [E("Li2", [S("Sym", "tuple", [word(T_Any1("abc+"))]), S("Num", "named", [word(T_Any1("01"), name="digits")]), S("Quote", "tuple", [F(box("Li2"))], prefix=tag("'")),
                                S("List", "tuple", [F(vec("Li2"))], prefix=tag("("), suffix=tag(")"))], ignore=[WHITE])],
        "Li2", "(a1)' \n", Nest("(", "a", ")"), Nest("'(a 1 ", "'b", ")"), Nest("( () ", "", "+)"), open_=False)
    add("text xml", [E("Xt", [S("Elem", "tuple", [F(rec("Xu"))]), S("Text", "tuple", [word(T_Not1("<>"))])]),
                     S("Xu", "named", [word(T_Not1("<>/"), name="open", prefix=tag("<"), suffix=tag(">")), F(vec("Xt"), name="kids"), word(T_Not1("<>/"), name="close", prefix=tag("</"), suffix=tag(">"))])],
        "Xu", "<a>/ ", Nest("<a>", "", "</a>"), Nest("<a>t ", "<b></c>", "</a>u"), Nest("<ab>", "", "</ >"), open_=False)
    add("text block", [S("Bn", "named", [word(T_Not1("\r\n"), name="note")], prefix=tag("#")),
                       E("Bl", [S("Line", "tuple", [word(T_Any1("abc")), F(rec("Bn", "Option<{}>", "opt({})"))], suffix=LINE),
                                S("Sub", "named", [word(T_Any1("abc"), name="name"), F(vec("Bl"), name="inner", prefix=tag("{"), suffix=tag("}"))])], ignore=[SPACE])],
        "Bl", "a{}\n #\r", Nest("a{", "b\n", "}"), Nest("a {b #{\r\n", "", " }"), open_=False)
    return r


def recursive_progs(th):
    r = []
    depths = [2, 3, 5, 10, 40] + ([100, 400, 600, 1100, 2100, 4200] if th else [150, 300, 1100, 2100])
    for gi, (name, defs, start, alpha, nests, open_) in enumerate(grammars(th)):
        import copy
        kinds = (("", "char"), ("8", "u8"), ("t", "Tk")) if th else (("", "char"), [("8", "u8"), ("t", "Tk")][gi % 2])
        for variant, tok in kinds + (("o", "char"),):
            if variant in ("8", "t") and not open_:
                continue
            # types that refer to each other need a fixed type, or else the compiler cannot resolve them
            if variant == "o" and (len(defs) > 1 or not th and gi % 2):
                continue
            mine = copy.deepcopy(defs)
            for d in mine:
                d.parse_type = tok if variant != "o" else None
            m = merge(*[p for d in mine for p in d.parts()])
            items = [d.source() for d in mine]
            p = P(start, f"{gname(start)}()", m["al"], items, alpha)
            slow = ".longest(%d)" % limit_of(name) if name in SLOW else ""
            mods = slow + "".join(n.mods([d for d in depths if d <= limit_of(name)], alpha) for n in nests)
            q = prog("r" + variant + name.replace(" ", ""), p, alpha=alpha, tok=tok, mods=mods + f".sentences({5 if th else 4}, 40)")
            r.append(q)
            # inside something else
            if not variant:
                for i, w in enumerate((Opt, Vec, lambda x: Seq(x, END))):
                    if th or i == len(r) % 3:
                        r.append(prog(f"r{name.replace(' ', '')}w{i}", w(P(start, p.s, p.al, p.items, alpha)), alpha=alpha, tok=tok, mods=".sentences(3, 24)" + slow))
    for i, (p, alpha, nests) in enumerate(generic_recursion()):
        r.append(prog(f"rg{i}", p, alpha=alpha, mods="".join(n.mods(depths, alpha) for n in nests) + f".sentences({5 if th else 4}, 40)"))
    return r


def generic_recursion():
    """Generic types that refer to themselves: (applied, alphabet, nestings)."""
    T, U = param("T"), param("U")
    AB, CLOSE = D("a", "b"), C(")")
    r = []
    for k in (None, "char"):
        kw = dict(parse_type=k)
        n = "Fixed" if k else "Open"
        l = S("L" + n, "tuple", [F(T), F(itself(("L" + n, "T"), "Option<Box<{}>>", "opt(boxed({}))"))], params=["T"], prefix=C("("), suffix=CLOSE, **kw)
        t = E("T" + n, [S("Leaf", "named", [F(T)]), S("Node", "tuple", [F(itself(("T" + n, "TU"), "Vec<{}>", "many({})")), F(U)], prefix=C("("))], params=["T", "U"], ignore=[SPC], **kw)
        m = S("M" + n, "named", [F(T, name="key"), F(itself(("M" + n, "TU")), name="all", lst=(U, "maybe", None)), F(Opt(U), name="end")], params=["T", "U"], prefix=C("("), suffix=CLOSE, ignore=[SPC], **kw)
        r.append((l.apply(A), "(a)x", [Nest("(a", "", ")"), Nest("(a", "a", ")")]))
        r.append((l.apply(AB), "(ab)", [Nest("(ab", "", ")")]))
        r.append((t.apply(A, CLOSE), "(a) ", [Nest("(", "a", ")"), Nest("(a ", "", " )")]))
        r.append((t.apply(AB, D(")", ".")), "(ab).", [Nest("(", "ab", ").")]))
        r.append((m.apply(A, C(",")), "(a,) ", [Nest("(a", "", ")"), Nest("(a(a),", "", ",)")]))
        r.append((m.apply(l.apply(A), C(",")), "(a,)", [Nest("((a)", "", ")"), Nest("((a(a))((a)),", "", ")")]))
        r.append((t.apply(l.apply(A), C("]")), "(a)]", [Nest("(", "(a)", "]"), Nest("(a((", "(a)", "]])")]))
    return r


# every level is tried twice: length (and nesting) that can be afforded
SLOW = {"if": 14, "pal2": 10}


def limit_of(name):
    return SLOW.get(name, 5000)
