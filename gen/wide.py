"""Large programs: many fields, variants, rules and parameters, long tags, large sets, long arrays, large maxima."""
import itertools
from core import *
from builtin import *
from derive import *
from families import *

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def around_len(t, other):
    """Texts of about the length of t: equal, cut off anywhere, one wrong anywhere."""
    return [t, t + other, t + t] + [t[:k] for k in range(len(t))] + [t[:k] + other + t[k + 1:] for k in range(len(t))]


def texts(l):
    return ".texts(&[" + ", ".join(st(x) for x in l) + "])"


def wide_text():
    r = []
    many = "".join(chr(0x4E00 + 37 * i) for i in range(90)) + "".join(chr(0x100 + i) for i in range(170)) + "".join(chr(0x1F600 + i) for i in range(40))
    for i, t in enumerate(["a" * 300, many[:270], "\u00e9" * 128 + "x"]):
        r.append(Prog(f"wt{i}", T_Tag(t), alpha=t[0] + "!", mods=texts(around_len(t, "!")) + ".weight(0.02).no_pump().sentences(0, 0)"))
    for i, f in enumerate((T_One, T_Any, T_Any1, T_Not1)):
        ins = [many, many + "!", "!" + many, many * 3] + [c for c in many] + ["!!" + c for c in many]
        ins += [chr(d) + "!" for c in many for d in (ord(c) - 1, ord(c) + 1, ord(c) ^ 0x100, ord(c) + 0x10000, ord(c) & 0xFF) if 0 < d < 0x110000]
        r.append(Prog(f"ws{i}", f(many), alpha=many[0] + many[150] + "!", mods=texts(ins) + ".weight(0.02).no_pump().sentences(0, 0)"))
    return r


def wide_bytes():
    r = []
    alls = list(range(256))
    for i, l in enumerate([[97] * 300, alls + alls[:40], [0x80 | (k % 128) for k in range(257)]]):
        ins = [l, l + [33], l + l] + [l[:k] for k in range(len(l))] + [l[:k] + [l[k] ^ 1] + l[k + 1:] for k in range(len(l))]
        r.append(Prog(f"wb{i}", B_Tag(l), alpha="", tok="u8", mods=f".alphabet({btoks([l[0], l[100], 33])}).weight(0.02).no_pump().sentences(0, 0)" + texts("".join(map(chr, x)) for x in ins)))
    for i, l in enumerate([alls, alls[::2], [x for x in alls if x != 10], alls[:129]]):
        for j, f in enumerate((B_One, B_Any1)):
            ins = [alls, alls + alls, [x for x in alls if x in l] * 3]
            r.append(Prog(f"wc{i}{j}", f(l), alpha="", tok="u8", mods=".alphabet(vec![0, 1, 10, 128, 255]).weight(0.02).no_pump().sentences(0, 0).inputs((0..256u32).map(|x| vec![x]).collect()).inputs((0..65536u32).map(|x| vec![x >> 8, x & 255]).collect())" + texts("".join(map(chr, x)) for x in ins)))
    return r


def wide_combos():
    r = []
    k = itertools.count()
    for n in (9, 16, 17, 31, 32, 33, 65, 100, 130, 257):
        for p, one, more in ((C("a"), "a", ""), (D("a", "b"), "ab", "a")):
            if n > 100 and more:
                continue
            ins = [one * m + x for m in (n - 1, n, n + 1, 2 * n) for x in ("", more, "x")] + [one * m + "x" + one * (n - m) for m in range(0, n, max(1, n // 12))]
            for q, w in ((Arr(n, p), 1), (Opt(Arr(n, p)), 1), (Vec(Arr(n, p)), 2)):
                r.append(Prog(f"wa{next(k)}", q, alpha="abx", mods=texts(ins + [one * (n * w) + x for x in ("", one, "x")]) + ".weight(0.02).no_pump().sentences(0, 0)"))
    # deep nestings
    for p, one in ((C("a"), "a"), (D("a", "b"), "ab")):
        for mk in (lambda q: Opt(Box(q)), lambda q: Arr(1, q), lambda q: Box(Vec1(Seq(q, C(";")))), lambda q: Alt(Seq(q, C("!")), q)):
            q = p
            for _ in range(5):
                q = mk(q)
            r.append(Prog(f"wa{next(k)}", q, alpha="ab;!", mods=".weight(0.1)"))
    return r


def wide_lists():
    r = []
    k = itertools.count()
    for mode in (0, 1, 2, 3):
        for m in (7, 8, 31, 32, 33, 255, 256, 257):
            p = Li(mode, C("a"), "C<'a'>", C(",") if mode else NEVER, C(" "))
            s = "," if mode else ""
            ins = []
            for n in sorted({1, m - 1, m, m + 1, m + 2, 2 * m}):
                for unit in ("a" + s, "a " + s, "a" + s + " "):
                    ins += [unit * n, unit * n + "a", unit * n + "a" + s, (unit * n)[:-1], unit * n + "x"]
            r.append(Prog(f"wl{next(k)}", p, alpha="a, x", text=f"list(mode {mode}, max {m}) {p.r}", mods=f".max({m})" + texts(ins) + ".weight(0.02).no_pump().sentences(0, 0)"))
    return r


def wide_structs():
    r = []
    k = itertools.count()

    def S_(kind, fields, weight=0.1, **kw):
        r.append(prog(f"wS{next(k)}", S(f"Wd{next(k)}", kind, fields, **kw), mods=f".weight({weight}).no_pump().sentences(1, 2)"))

    for kind in ("named", "tuple"):
        S_(kind, [F(C(c)) for c in LETTERS[:40]])
        S_(kind, [F(C(c)) for c in LETTERS[:26]], ignore=[C(" ")])
        S_(kind, [F(C(c), prefix=C(c.upper()) if i % 3 else None, suffix=C(str(i % 10)) if i % 4 == 0 else None) for i, c in enumerate(LETTERS[:22])])
        S_(kind, [F(rot([C(c), Opt(C(c)), Vec(C(c)), Box(C(c))], i)) for i, c in enumerate(LETTERS[:20])])
        S_(kind, [F(C(c)) for c in "ab"], ignore=[C(c) for c in LETTERS[10:30]])
        S_(kind, [F(C(c)) for c in "ab"], ignore=[D(c, "!") for c in LETTERS[10:22]], prefix=C("p"))
        # every field the same, so that the order shows only in the values
        S_(kind, [F(ANY) for _ in range(24)])
        S_(kind, [F(C(c), lst=(rot([None, C(",")], i), rot(["no", "no", "yes", "maybe"], i) if i % 2 else "no", None)) for i, c in enumerate(LETTERS[:14])], ignore=[C(" ")])
    many = [chr(0x4E00 + 37 * i) for i in range(270)]
    for kind, n in (("named", 129), ("tuple", 270)):
        full = "".join(many[:n])
        ins = [full, full + "x"] + [full[:i] for i in range(0, n, 7)] + [full[:i] + "x" + full[i + 1:] for i in range(n)]
        r.append(prog(f"wS{next(k)}", S(f"Wd{next(k)}", kind, [F(C(c)) for c in many[:n]]), alpha=many[0] + many[128] + "x", mods=texts(ins) + ".weight(0.02).no_pump().sentences(0, 0)"))
    return r


def wide_generics():
    ps = ["T", "U", "V", "W", "X", "Y", "Z"]
    r = []
    for i, kind in enumerate(("named", "tuple")):
        d = S(f"Wg{i}", kind, [F(param(x)) for x in ps[::-1]], params=ps, ignore=[C(" ")] if i else [])
        for j in range(2):
            r.append(prog(f"wG{i}{j}", d.apply(*[rot([C(c), D(c, "!"), Opt(C(c))], q + j) for q, c in enumerate("abcdefg")]), mods=".weight(0.1).no_pump().sentences(1, 2)"))
    return r


def wide_enums():
    r = []
    k = itertools.count()

    def E_(vs, alpha=None, **kw):
        r.append(prog(f"wE{next(k)}", E(f"We{next(k)}", vs, **kw), mods=".weight(0.1).no_pump().sentences(1, 2)", alpha=alpha))

    mk = lambda i, c: rot([S(f"V{i}", "unit", [], prefix=C(c)), S(f"V{i}", "tuple", [F(C(c))]), S(f"V{i}", "named", [F(C(c), name="a")])], i)
    E_([mk(i, c) for i, c in enumerate(LETTERS[:52])])
    E_([mk(i, c) for i, c in enumerate(LETTERS[:30])], ignore=[C(" ")], prefix=C("<"), suffix=C(">"))
    many = [chr(0x4E00 + 37 * i) for i in range(270)]
    ins = [a + b for a in many for b in ("", "x")] + ["!" + a for a in many]
    r.append(prog(f"wE{next(k)}", E(f"We{next(k)}", [mk(i, c) for i, c in enumerate(many)]), alpha=many[0] + many[128] + "x!", mods=texts(ins) + ".weight(0.02).no_pump().sentences(0, 0)"))
    r.append(prog(f"wE{next(k)}", E(f"We{next(k)}", [S(f"V{i}", "tuple", [F(C("!")), F(C(c))]) for i, c in enumerate(many[:130])]), alpha=many[0] + many[128] + "x!", mods=texts(ins) + ".weight(0.02).no_pump().sentences(0, 0)"))
    # all begin alike, so that every variant before the right one is undone
    E_([S(f"V{i}", "tuple", [F(W("!")), F(C(c))]) for i, c in enumerate(LETTERS[:26])])
    E_([S(f"V{i}", "named", [F(C("!")), F(C("?")), F(C(c))]) for i, c in enumerate(LETTERS[:26])], suffix=C(";"))
    # the same for everyone: the first one is taken
    E_([S(f"V{i}", "tuple", [F(C("a"))]) for i in range(20)])
    # own ignored tokens of each
    E_([S(f"V{i}", "tuple", [F(C(c)), F(C(c))], ignore=[C(c.upper())]) for i, c in enumerate(LETTERS[:14])], ignore=[C(" ")])
    E_([S(f"V{i}", "named", [F(C("a"), name=f"f{i}"), F(C(c), name=f"g{i}", prefix=C("("), suffix=C(")"))], prefix=C("<"), suffix=C(">")) for i, c in enumerate(LETTERS[:12])])
    # variants with many fields
    E_([S("A", "tuple", [F(C(c)) for c in LETTERS[:12]] + [F(C("!"))]), S("B", "named", [F(C(c)) for c in LETTERS[:12]]), S("C", "tuple", [F(C(c)) for c in LETTERS[:3]])])
    return r


def wide_errors():
    """For the names in errors."""
    r = wide_structs()[:4] + wide_enums()[1:4]
    for i, n in enumerate((11, 33, 101, 257)):
        r.append(Prog(f"wy{i}", Arr(n, C("a")), alpha="ax", mods=texts(["a" * m + x for m in range(n) for x in ("", "x")]) + ".weight(0.02).no_pump().sentences(0, 0)"))
    return r


def some_wide():
    return wide_text()[::3] + wide_bytes()[::4] + wide_combos()[::6] + wide_lists()[::7] + wide_structs()[1::4] + wide_generics()[:1] + wide_enums()[::3]
