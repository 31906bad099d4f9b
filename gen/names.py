"""Names of every kind at every place (C20)."""
import glob
import itertools
import re
from core import *
from derive import *

# the generated code's own words, the prelude's, the primitive types', modules', and unusual ones
LOCAL = ["input", "cursor", "result", "pos", "value", "list", "prefix", "suffix", "ignore", "parser", "parse", "peek", "res", "err", "e", "output", "buf", "buffer",
         "iter", "next", "position", "fast_forward", "field", "elem0", "elem1", "elem", "x", "i", "n", "t", "sep", "max", "out", "v", "vec", "inner", "ok", "c", "p",
         "peek_variant", "parse_variant", "parse_vec", "parse_prefix", "variant", "name", "self_", "this", "loop_", "ret"]
UPPER = ["Ok", "Err", "Some", "None", "Option", "Vec", "Box", "String", "Result", "TryInto", "TryFrom", "Into", "From", "WrapErr", "Parse", "Buffer", "Cursor", "IntoBuf", "Iterator",
         "Default", "Clone", "Error", "Sized", "Fn", "Drop", "T", "P", "I", "B", "Type", "Item", "Output", "Peek", "Report", "Input", "Self_", "ParseGenericType", "Field", "Prefix"]
PRIM = ["usize", "bool", "u8", "str", "u32", "isize"]
MODS = ["std", "core", "eyre", "nommy", "alloc", "vec", "convert", "option"]
RAW = ["r#type", "r#match", "r#fn", "r#struct", "r#enum", "r#let", "r#loop", "r#impl", "r#mut", "r#return", "r#async", "r#try", "r#dyn", "r#where", "r#union", "r#input", "r#use", "r#if"]
ODD = ["_x", "_0", "a1", "größe", "名前", "LongNameWithManyWords", "snake_case_name", "CONST", "x_", "X__y", "o_O"]
CASES = ["Ab", "AB", "aB", "ab", "aB_", "a_b", "A_b"]



def derive_words():
    """Names of types that the sources of the derive macro mention in any way: one of them may reach the generated code."""
    words = set()
    for f in sorted(glob.glob("/repo/nommy-derive/src/**/*.rs", recursive=True)):
        text = re.sub(r"//.*", "", open(f).read())
        words |= set(re.findall(r"(?<![\w#'])[A-Z]\w*", text))
        # names made by filling in a number or another name
        for w in re.findall(r'format_ident!\(\s*"([A-Z]\w*\{[^"]*)"', text):
            words |= {re.sub(r"\{[^}]*\}", x, w) for x in ("0", "1", "A", "Rec", "x")}
    return sorted(w for w in words if w != "Self" and re.fullmatch(r"[A-Za-z]\w*", w))


A, B, SPC = C("a"), C("b"), C(" ")
# lowercase letters of the fields, so that each field can be told from the others
LETTERS = "abcdefghijklmno"


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def full(text, names):
    """Shadowed prelude types, as a user would write them then."""
    paths = {"Vec": "::std::vec::Vec", "Option": "::std::option::Option", "Box": "::std::boxed::Box", "String": "::std::string::String"}
    for n, q in paths.items():
        if n in names:
            text = re.sub(r"(?<![\w:])%s<" % n, q + "<", text)
    return text


def module(defs, names, top, extra_alpha="x", mods="", params_top=None):
    """A module of the user's own with just these definitions."""
    src = "\n".join(full(d.definition(), names) for d in defs)
    if "Parse" in names:
        src = src.replace("#[derive(Parse)]", "#[derive(::nommy::Parse)]")
    m = merge(*[p for d in defs for p in d.parts()])
    al = "\n".join(f"pub type {n} = {r};" for n, r in m["al"].items() if n not in names)
    item = ("pub mod user {\n#![allow(uncommon_codepoints, mixed_script_confusables, confusable_idents)]\nuse ::mc::prims::{C, D, W, M, Digits, Small, Seq, Alt, Never, End};\n"
            + ("" if "Parse" in names else "use ::nommy::Parse;\n") + al + "\n" + src + "\n}\n" + "\n".join(d.companions("user::") for d in defs))
    spec = params_top[1] if params_top else f"{gname(top.name)}()"
    ty = params_top[0] if params_top else f"user::{top.name}"
    p = P(ty, spec, {}, [item], m["alpha"])
    text = src
    q = Prog("", p, alpha=uniq_(m["alpha"] + extra_alpha), text=text, mods=mods)
    return q


def uniq_(s):
    return "".join(dict.fromkeys(s))


def field(i, role, name, c):
    """A field in one of the roles, on its own letter."""
    L = C(c)
    if role == 0:
        return F(L, name=name)
    if role == 1:
        return F(W(c), name=name, ty="::std::string::String")
    if role == 2:
        return F(L, name=name, lst=(C(","), ["no", "yes", "maybe"][i % 3], None), suffix=C(";"))
    if role == 3:
        return F(L, name=name, prefix=C("<"), suffix=C(">"))
    return F(L, name=name, lst=(None, "no", None), prefix=C("<"))


def names_progs(th):
    r = []
    num = itertools.count()

    def add(q):
        q.id = f"v{next(num)}"
        if len(q.alpha) > 7:
            q.with_(".max_pump(200)")
        r.append(q)

    fields = LOCAL + UPPER + PRIM + MODS + RAW + ODD + CASES
    fields = [f for f in dict.fromkeys(fields)]
    lower_types = LOCAL[:: 1 if th else 2] + PRIM + MODS + RAW + ODD + CASES
    # --- fields of structs and of variants ---
    for rot_ in range(5 if th else 2):
        for k, names in enumerate(chunks(fields, 6)):
            fs = [field(i, (i + k + 2 * rot_) % 5, nm, LETTERS[i]) for i, nm in enumerate(names)]
            d = S("Rec", "named", fs, ignore=[SPC] if k % 2 else [], prefix=C("(") if k % 3 == 0 else None)
            add(module([d], names, d))
            vs = []
            for j, part in enumerate(chunks(names, 2)):
                vs.append(S(f"V{j}", "named", [field(i + j, (i + j + k + 2 * rot_ + 1) % 5, nm, LETTERS[i]) for i, nm in enumerate(part)], prefix=C("(")))
            # the same names in several variants
            vs.append(S("Again", "named", [F(C(LETTERS[i]), name=nm) for i, nm in enumerate(names[:3])]))
            d = E("Choice", vs, ignore=[[], [SPC]][k % 2])
            if th or (k + rot_) % 2 == 0:
                add(module([d], names, d))
    # --- types, many in one scope ---
    types = [t for t in dict.fromkeys(UPPER + lower_types) if t not in ("C", "D", "W", "M", "c", "p")]
    for rot_ in range(4 if th else 2):
        for k, names in enumerate(chunks(types, 5)):
            low = {n.lower().replace("r#", "") for n in names}
            defs = []
            for i, nm in enumerate(names):
                kind = (i + k + rot_) % 4
                c = C(LETTERS[i])
                if kind == 0:
                    d = S(nm, "unit", [], prefix=c, suffix=C(";") if i % 2 else None, ignore=[SPC])
                elif kind == 1:
                    d = S(nm, "named", [F(c, name="x"), F(W("z"), name="y", ty="::std::string::String")], ignore=[SPC])
                elif kind == 2:
                    d = S(nm, "tuple", [F(c), F(B, lst=(C(","), "maybe", None)), F(Opt(C("z")))])
                else:
                    d = E(nm, [S("V", "tuple", [F(c), F(C(";"))]), S("U", "unit", [], prefix=c), S("N", "named", [F(C("z"), name="it", prefix=C("y"))], prefix=C(LETTERS[i + 6]))], ignore=[SPC])
                defs.append(d)
            refs = [P(d.name, f"{gname(d.name)}()") for d in defs]
            top = E("Top_", [S(f"V{i}", "tuple", [F(q), F(Opt(C("!")))]) if i % 2 else S(f"V{i}", "named", [F(q, name="f")]) for i, q in enumerate(refs)])
            if (k + rot_) % 2 and len(refs) > 1:
                top = S("Top_", "named", [F(Vec(refs[0]), name="a"), F(refs[1], name="b", lst=(C("-"), "no", None))] + [F(q, name=f"o{i}", prefix=C("0123456"[i])) for i, q in enumerate(refs[2:])])
            add(module(defs + [top], names, top, mods=".sentences(3, 40)"))
    # in every role that a type can have in the attributes of another
    words = [w for w in dict.fromkeys(UPPER + derive_words() + (lower_types if th else [])) if w not in ("C", "D", "W", "M", "c", "p", "Parse", "Top_")]
    for rot_ in range(7 if th else 1):
        for k, names in enumerate(chunks(words, 7)):
            names = names[rot_:] + names[:rot_]
            if len(names) < 7:
                names = names + [f"Other{i}" for i in range(7 - len(names))]
            defs = [S(nm, *[("unit", [], dict(prefix=C(LETTERS[i]))), ("tuple", [F(C(LETTERS[i]))], {}), ("named", [F(C(LETTERS[i]), name="x")], {})][(i + k) % 3][:2],
                      **[dict(prefix=C(LETTERS[i])), {}, {}][(i + k) % 3]) for i, nm in enumerate(names)]
            q = [P(d.name, f"{gname(d.name)}()") for d in defs]
            fs = [F(q[0], name="f", prefix=q[1], suffix=q[2]), F(q[3], name="g", lst=(q[4], "maybe", None))]
            if k % 2:
                top = S("Top_", "named", fs, prefix=q[5], ignore=[q[6]])
            else:
                top = E("Top_", [S("V", "named", fs, prefix=q[5], ignore=[q[6]]), S("U", "tuple", [F(q[0]), F(q[3])], suffix=q[1])], ignore=[q[2]] if k % 4 else [])
            add(module(defs + [top], names, top, mods=".sentences(3, 40)"))
    # one by one
    for k, nm in enumerate(types):
        if not th and k % 3:
            continue
        for kind in range(4) if th else ((k // 3) % 4,):
            if kind == 0:
                d = S(nm, "unit", [], prefix=A, suffix=B, ignore=[SPC])
            elif kind == 1:
                d = S(nm, "named", [F(A, name="input", suffix=C(";")), F(B, name="y", lst=(C(","), "yes", None))], ignore=[SPC], prefix=C("("))
            elif kind == 2:
                d = S(nm, "tuple", [F(Opt(A)), F(DIGITS, ty="Small", cv="Small", lst=(C(","), "no", "Small"))], suffix=C(")"))
            else:
                d = E(nm, [S("V", "tuple", [F(A), F(B)]), S("U", "unit", [], prefix=A), S("N", "named", [F(B, name="it", lst=(C(","), "maybe", None))], prefix=C("("))], suffix=C(";"))
            add(module([d], [nm], d))
    # --- variants ---
    variants = [v for v in dict.fromkeys(CASES + RAW + UPPER + ["Parse"] + LOCAL + PRIM + MODS + ODD)]
    for rot_ in range(3 if th else 1):
        for k, names in enumerate(chunks(variants, 8)):
            vs = []
            for i, nm in enumerate(names):
                c = C(LETTERS[i])
                kind = (i + k + rot_) % 3
                vs.append([S(nm, "unit", [], prefix=c), S(nm, "tuple", [F(c), F(C("z"), lst=(C(","), "no", None))]), S(nm, "named", [F(c, name="input"), F(W("z"), name="r#type", ty="::std::string::String")])][kind])
            d = E("Choice", vs, ignore=[SPC] if k % 2 else [], prefix=C("(") if k % 3 == 0 else None, suffix=C(")") if k % 3 == 1 else None)
            add(module([d], [], d))
    add_cases = [["Ab", "AB", "aB", "ab"], ["AB", "A_B", "A__B", "a_b"], ["r#type", "Type", "TYPE"], ["Foo", "FOO", "foo", "fOO", "FoO"], ["V1", "v1", "V_1"], ["A", "a"], ["Parse", "parse", "PARSE", "Peek", "peek"]]
    for k, names in enumerate(add_cases):
        for rot_ in range(3):
            vs = [[S(nm, "unit", [], prefix=C(LETTERS[i])), S(nm, "tuple", [F(C(LETTERS[i])), F(A)]), S(nm, "named", [F(C(LETTERS[i]), name="q")])][(i + rot_) % 3] for i, nm in enumerate(names)]
            d = E("Choice", vs)
            add(module([d], [], d))
    # fields and types that differ only in case
    for names in add_cases:
        d = S("Rec", "named", [field(i, (i * 2) % 5, nm, LETTERS[i]) for i, nm in enumerate(names)])
        add(module([d], [], d))
        defs = [S(nm, "tuple", [F(C(LETTERS[i])), F(B)]) for i, nm in enumerate(n for n in names if n != "Parse")]
        d = E("Both_", [S(f"X{i}", "tuple", [F(P(q.name, f"{gname(q.name)}()"))]) for i, q in enumerate(defs)])
        add(module(defs + [d], [], d))
    # --- type parameters ---
    params = [v for v in dict.fromkeys(UPPER + ["Parse"] + LOCAL[:: 1 if th else 3] + PRIM + MODS + RAW[::2] + ODD) if v not in ("C", "c", "p")]
    for k, names in enumerate(chunks(params, 3)):
        ps = [P(nm, "") for nm in names]
        fs = [F(q, name=f"f{i}", prefix=C("<") if i == 1 else None) for i, q in enumerate(ps)] + [F(A, name="last", lst=(C(","), "no", None))]
        d = S("Gen", ["named", "tuple"][k % 2], fs, params=list(names), ignore=[SPC] if k % 3 == 0 else [], suffix=C(";") if k % 3 == 1 else None)
        args = [C("b"), W("z"), Opt(C("d"))][:len(names)]
        sub = dict(zip(names, args))
        s2 = S("Gen", d.kind, [F(sub.get(f.p.r, f.p), f.name, prefix=f.prefix, suffix=f.suffix, lst=f.lst) for f in d.fields], suffix=d.suffix, ignore=d.ignore)
        q = module([d], names, d, params_top=(f"user::Gen<{', '.join(a.r for a in args)}>", f"g(G::Struct({s2.spec()}))"))
        q.alpha = uniq_(q.alpha + "bzd")
        # the companions' own parameters may be called anything
        q.items = [i.replace(d.companions("user::"), companions_of_generic(d)) for i in q.items]
        q.p.items = list(q.items)
        add(q)
    # --- everything at once ---
    for k, nm in enumerate(["input", "Ok", "Option", "r#type", "usize", "std", "cursor", "Err", "nommy", "Some", "bool", "eyre", "vec", "Vec", "result", "T"] if th else ["input", "Ok", "r#type", "usize", "std", "Vec", "nommy"]):
        d = E(nm, [S(nm, "named", [F(A, name=nm, lst=(C(","), "maybe", None), prefix=C("("))]), S("Other", "tuple", [F(B)])], ignore=[SPC])
        add(module([d], [nm], d))
        d = S(nm, "named", [F(A, name=nm if nm[0].islower() or nm in UPPER else "x", suffix=C(";")), F(W("z"), name="parser", ty="::std::string::String")], ignore=[SPC])
        add(module([d], [nm], d))
    return r


def companions_of_generic(d):
    import copy
    e = copy.copy(d)
    e.params = [f"Q{i}" for i in range(len(d.params))]
    return e.companions("user::")
