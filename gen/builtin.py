"""Programs made of nommy's own token parsers, its combinators and its list functions."""
from core import *


def tks(s):
    return "toks(%s)" % st(s)


def uniq(s):
    return "".join(dict.fromkeys(s))


# ---- text ----
def T_Tag(s):
    return P(f"nommy::text::Tag<{st(s)}>", f"g(G::Tag({tks(s)}))", alpha=uniq(s))


def T_One(s):
    return P(f"nommy::text::OneOf<{st(s)}>", f"g(G::One({tks(s)}))", alpha=uniq(s))


def T_Any(s):
    return P(f"nommy::text::AnyOf<{st(s)}>", f"g(G::Any({tks(s)}))", alpha=uniq(s))


def T_Any1(s):
    return P(f"nommy::text::AnyOf1<{st(s)}>", f"g(G::Any1({tks(s)}))", alpha=uniq(s))


def T_Not1(s):
    return P(f"nommy::text::WhileNot1<{st(s)}>", f"g(G::Not1({tks(s)}))", alpha=uniq(s))


SPACE = P("nommy::text::Space", "g(G::Space)", alpha=" \t")
WHITE = P("nommy::text::WhiteSpace", "g(G::White)", alpha=" \t\r\n")
LINE = P("nommy::text::LineEnding", "g(G::LineEnd)", alpha="\r\n")


def far(s):
    """Characters that are not in s but could be mistaken for one: other case, equal low
    byte, shared first UTF-8 byte."""
    r = ""
    for c in s:
        for d in (c.upper(), chr((ord(c) + 0x100) % 0x110000), chr(ord(c) ^ 1)):
            if len(d) == 1 and d not in s and d not in r and not 0xD800 <= ord(d) < 0xE000:
                r += d
                break
    return r


def text_progs(th):
    r = []
    i = 0

    def add(p, extra="", around=(), weight=None, more=""):
        nonlocal i
        q = Prog(f"t{i}", p, alpha=uniq(p.alpha + extra))
        for a, b in around:
            q.with_(f".around({st(a)}, {st(b)})")
        if weight:
            q.with_(f".weight({weight:.1f})")
        q.with_(more)
        r.append(q)
        i += 1
        return q

    tags = ["", "a", "ab", "aab", "aba", "aaa", "abab", "\u00e9", "\u00e9a", "a\u00e9", "\u65e5\u672c",
            "\U0001f600", "a\U0001f600b", "\r\n", "\u00e9\u00e9", "\u20ac", "\x00", "\u0301a"]
    if th:
        tags += ["abcab", "aabaab", "abcdefgh", "\u65e5\u672c\u8a9e", "a\u65e5b\u672c", "\U0001f600\u00e9\u65e5z", "()", "\\\"", "\t ", "\u2028", "\ufeff"]
    for t in tags:
        around = [(t[:k], t[k + 1:]) for k in range(len(t))] if th else ([("", "")] if t in ("a", "\u00e9") else [])
        add(T_Tag(t), uniq(far(t)[:2] + "x"), around)
    # long tags: input equal to them, one short, one wrong anywhere
    for t in ["ab" * 20, "\u65e5\u672c" * 12, "x" * 70]:
        ins = [t, t + "x", t + t] + [t[:k] for k in range(len(t))] + [t[:k] + "!" + t[k + 1:] for k in range(len(t))]
        add(T_Tag(t), "!", more=".texts(&[" + ", ".join(st(x) for x in ins) + "]).weight(0.05).no_pump()")
    sets = ["", "a", "ab", "aab", "ba", "\u00e9", "a\u00e9", "\u65e5\u672c\u00e9", "\n", "\x00", "\U0001f600a"]
    if th:
        sets += ["abc", "0123456789", "abcdefghijklmnopqrstuvwxyz", " \t\r\n", "\"\\", "a-z", "[^a]", "\u0080\u07ff\u0800\uffff\U00010000\U0010ffff"]
    for s in sets:
        for f in (T_One, T_Any, T_Any1, T_Not1):
            around = []
            if s in ("a", "\u65e5\u672c\u00e9") or th:
                around = [("", "")] + ([(s[0], s[0])] if s and (th or f is not T_One) else [])
            add(f(s), uniq(far(s)[:2] + "x"), around)
    for p in (SPACE, WHITE, LINE):
        add(p, uniq(" \t\r\nx\x0b\u00a0\u0085" + ("\x0c\u2028\u3000" if th else "")), [("", ""), ("\r", ""), ("", "\n")] if th else [("", "")])
    return r


# ---- bytes ----
def bt(l):
    return 'b"' + "".join(chr(b) if 32 <= b < 127 and chr(b) not in '"\\' else "\\x%02x" % b for b in l) + '"'


def btoks(l):
    return "vec![" + ", ".join(map(str, l)) + "]"


def B_Tag(l):
    return P(f"nommy::bytes::Tag<{bt(l)}>".replace('<b', '<{b').replace('">', '"}>'), f"g(G::Tag({btoks(l)}))")


def B_One(l):
    return P("nommy::bytes::OneOf<{%s}>" % bt(l), f"g(G::One({btoks(l)}))")


def B_Any1(l):
    return P("nommy::bytes::AnyOf1<{%s}>" % bt(l), f"g(G::Any1({btoks(l)}))")


def byte_progs(th):
    r = []
    i = 0

    def add(p, l, pairs=False, more=""):
        nonlocal i
        extra = [b ^ 1 for b in l[:2]] + [b ^ 0x20 for b in l[:1]] + [b ^ 0x80 for b in l[:1]] + [120]
        a = list(dict.fromkeys(list(l) + extra))[: max(len(set(l)) + 1, 5)]
        q = Prog(f"b{i}", p, alpha="", tok="u8", mods=f".alphabet({btoks(a)})")
        ins = [f"vec![{x}]" for x in range(256)]
        q.with_(f".inputs((0..256u32).map(|x| vec![x]).collect())")
        if pairs:
            q.with_(f".inputs((0..65536u32).map(|x| vec![x >> 8, x & 255]).collect())")
        q.with_(more)
        r.append(q)
        i += 1

    tags = [b"", b"a", b"ab", b"aab", b"aba", b"aaa", b"abab", b"\x00", b"\xff", b"\xc3\xa9", b"\x80a", b"\r\n", b"\xff\xfe\x00"]
    if th:
        tags += [b"abcab", b"aabaab", b"abcdefgh", b"\x7f\x80", b"\\\"", b"\x00\x00\x01"]
    for t in tags:
        add(B_Tag(t), t, pairs=th or len(t) == 2)
    for t in [b"ab" * 20, bytes(range(1, 80))]:
        ins = [t, t + b"x", t + t] + [t[:k] for k in range(len(t))] + [t[:k] + bytes([t[k] ^ 128]) + t[k + 1:] for k in range(len(t))]
        add(B_Tag(t), t[:2], more=".inputs(vec![" + ", ".join("vec!" + str(list(x)) for x in ins) + "])")
    sets = [b"", b"a", b"ab", b"aab", b"ba", b"\x00", b"\xff", b"\x80\x7f", b"\xc3\xa9", b"\r\n", b"0123"]
    if th:
        sets += [bytes(range(256)), bytes(range(128)), bytes(range(128, 256)), b"\\\"", b"abcdefghijklmnopqrstuvwxyz"]
    for s in sets:
        for f in (B_One, B_Any1):
            add(f(s), s[:4], pairs=th or s in (b"ab", b"\x80\x7f"))
    return r


# ---- combinators ----
def combos(th, depth=2):
    """All nestings of the combinators over elements that fail at once, fail part way,
    or match variable lengths."""
    base = [C("a"), D("a", "b"), W("a"), Seq(W("a"), C("b"))]
    one = lambda p: [Opt(p), Vec(p), Vec1(p), Arr(0, p), Arr(1, p), Arr(2, p), Arr(3, p), Box(p)]
    d1 = [q for p in base for q in one(p)]
    few = lambda p: [Opt(p), Vec(p), Vec1(p), Arr(2, p), Box(p)]
    d2 = [q for p in base[:2] + base[3:] for m in few(p) for q in few(m)]
    seqs = []
    for p in (C("a"), D("a", "b")):
        for m in (Opt(p), Vec(p), Vec1(p), Arr(2, p)):
            s = Seq(m, C("b"))
            seqs += [s, Seq(m, p), Opt(s), Vec(s), Vec1(s), Arr(2, s)]
            seqs += [Alt(s, m), Vec(Seq(C("a"), m))]
    r = base + d1 + d2 + seqs
    if th:
        d3 = [q for p in base[:2] for m in few(p) for n in few(m) for q in few(n)]
        s2 = []
        for p in (C("a"), D("a", "b"), W("b")):
            for m in few(p):
                for n in few(Seq(C("a"), m)) + few(Seq(m, C("a"))) + few(Alt(C("b"), Seq(C("a"), m))):
                    s2.append(n)
        r += d3 + s2
    seen = set()
    out = []
    for p in r:
        if p.r not in seen:
            seen.add(p.r)
            out.append(p)
    return out


def combo_progs(th):
    return [Prog(f"c{i}", p, alpha=uniq(p.alpha + "x") if len(p.alpha) < 2 else p.alpha + "x") for i, p in enumerate(combos(th))]


# ---- list functions ----
def Li(mode, p, q, s, i, cv="Cv::Id"):
    return P(f"Li<{p.r}, {q}, {s.r}, {i.r}, {mode}>", f"li({mode}, {p.s}, {s.s}, {i.s}, {cv})", **merge(p, s, i))


MAXES = ["usize::MAX", "0", "1", "2", "3"]


def lists(th):
    elems = [C("a"), D("a", "b"), W("a"), D("a", ",")]
    seps = [C(","), D(",", ";"), W(","), D(",", " ")]
    igns = [C(" "), D(" ", "_"), NEVER]
    if th:
        elems += [Seq(W("a"), C("b")), D(" ", "a"), Alt(D("a", "a"), C("b"))]
        seps += [D(",", ","), D(",", "a"), C(" ")]
        igns += [W(" "), Alt(D(" ", "_"), C(" ")), D(" ", ","), C(",")]
    r = []
    for e in elems:
        for ig in igns:
            r.append((0, e, e.r, NEVER, ig, "Cv::Id"))
        for s in seps:
            for ig in igns:
                for mode in (1, 2, 3):
                    r.append((mode, e, e.r, s, ig, "Cv::Id"))
    for mode in (0, 1, 2, 3):
        r.append((mode, DIGITS, "Small", C(",") if mode else NEVER, C(" "), "Cv::Small"))
        if th:
            r.append((mode, DIGITS, "Small", D(",", ";") if mode else NEVER, D(" ", "_"), "Cv::Small"))
            r.append((mode, DIGITS, "Small", D(",", "1") if mode else NEVER, W(" "), "Cv::Small"))
    return r


def list_progs(th, maxes=None, every=1, tok="char"):
    r = []
    n = 0
    for k, (mode, e, q, s, ig, cv) in enumerate(lists(th)):
        if k % every:
            continue
        p = Li(mode, e, q, s, ig, cv)
        # all maxima for one program of each kind of element and mode; the rest in turn
        ms = maxes or (MAXES if th or k % 4 == 0 else ["usize::MAX", MAXES[1 + k % 4]])
        for m in ms:
            w = "1.0" if m == "usize::MAX" else "0.3"
            r.append(Prog(f"l{n}", p, alpha=p.alpha, tok=tok, text=f"list(mode {mode}, max {m}) {p.r}", mods=f".max({m}).weight({w})"))
            n += 1
    return r
