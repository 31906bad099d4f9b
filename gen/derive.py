"""Type definitions: the Rust source and the grammar, from one description."""
import zlib
from core import *


class F:
    """A field. `p`: its parser. `ty`: its type when that differs (then `parser = p`).
    `lst`: (separator or None, "no" | "yes" | "maybe", element type) for a list field of `p`."""

    def __init__(self, p, name=None, ty=None, cv="Id", prefix=None, suffix=None, lst=None, attrs=None):
        self.p, self.name, self.ty, self.cv = p, name, ty, cv
        self.prefix, self.suffix, self.lst, self.attrs = prefix, suffix, lst, attrs

    def parts(self):
        return [self.p, self.prefix, self.suffix] + ([self.lst[0]] if self.lst else [])

    def rust_type(self):
        if self.lst:
            return f"Vec<{self.lst[2] or self.p.r}>"
        return self.ty or self.p.r

    def rules(self):
        r = []
        if self.prefix:
            r.append(f"prefix = {self.prefix.r}")
        if self.lst:
            r.append(f"inner_parser = {self.p.r}")
            if self.lst[0]:
                r.append(f"seperated_by = {self.lst[0].r}")
                if self.lst[1] != "no":
                    r.append(f'trailing = "{self.lst[1]}"')
        elif self.ty:
            r.append(f"parser = {self.p.r}")
        if self.suffix:
            r.append(f"suffix = {self.suffix.r}")
        return r

    def source(self):
        a = self.attrs if self.attrs is not None else block(self.rules())
        return a

    def spec(self, i):
        n = self.name if self.name is not None else f"elem{i}"
        if self.lst:
            trail = {"no": "No", "yes": "Yes", "maybe": "Maybe"}[self.lst[1]]
            kind = f"FieldKind::List {{ elem: {self.p.s}, sep: {some(self.lst[0])}, trail: Trail::{trail}, cv: Cv::{self.cv} }}"
        else:
            kind = f"FieldKind::Plain({self.p.s}, Cv::{self.cv})"
        return f"FieldG {{ name: {st(n)}, prefix: {some(self.prefix)}, suffix: {some(self.suffix)}, kind: {kind} }}"


def block(rules):
    return f"#[nommy({', '.join(rules)})] " if rules else ""


def some(p):
    return f"Some({p.s})" if p else "None"


def veclist(ps):
    return "vec![" + ", ".join(ps) + "]"


class S:
    """A struct, or a variant of an enum."""

    def __init__(self, name, kind, fields=(), prefix=None, suffix=None, ignore=(), parse_type=None, params=(), attrs=None, derives=""):
        self.name, self.kind, self.fields = name, kind, list(fields)
        self.prefix, self.suffix, self.ignore = prefix, suffix, list(ignore)
        self.parse_type, self.params, self.attrs, self.derives = parse_type, list(params), attrs, derives
        if kind == "named":
            for i, f in enumerate(self.fields):
                if f.name is None:
                    f.name = "f%d" % i
        else:
            for f in self.fields:
                f.name = None

    def parts(self):
        return [self.prefix, self.suffix] + self.ignore + [p for f in self.fields for p in f.parts()]

    def rules(self):
        r = []
        if self.parse_type:
            r.append(f"parse_type = {self.parse_type}")
        if self.prefix:
            r.append(f"prefix = {self.prefix.r}")
        for i in self.ignore:
            r.append(f"ignore = {i.r}")
        if self.suffix:
            r.append(f"suffix = {self.suffix.r}")
        return r

    def attr(self):
        return self.attrs if self.attrs is not None else block(self.rules())

    def body(self, public=""):
        if self.kind == "named":
            return " { " + " ".join(f"{f.source()}{public}{f.name}: {f.rust_type()}," for f in self.fields) + " }"
        if self.kind == "tuple":
            return "(" + ", ".join(f"{f.source()}{public}{f.rust_type()}" for f in self.fields) + ")"
        return ""

    def spec(self, tag=None):
        return (f"StructG {{ name: {st(self.name)}, tag: {st(tag or self.name)}, prefix: {some(self.prefix)}, suffix: {some(self.suffix)}, "
                f"ignore: {veclist([i.s for i in self.ignore])}, fields: {veclist([f.spec(i) for i, f in enumerate(self.fields)])} }}")

    def grammar(self):
        return f"g(G::Struct({self.spec()}))"

    def apply(self, *args):
        return apply(self, *args)

    def pattern(self):
        """(pattern, expressions) taking a value apart"""
        n = [f"x{i}" for i in range(len(self.fields))]
        if self.kind == "named":
            return " { " + ", ".join(f"{f.name}: {x}" for f, x in zip(self.fields, n)) + " }", n
        if self.kind == "tuple":
            return "(" + ", ".join(n) + ")", n
        return "", n

    def source(self):
        return self.definition() + "\n" + self.companions()

    def definition(self):
        """What a user writes."""
        ps, _ = params_of(self)
        end = "" if self.kind == "named" else ";"
        return f"""{self.derives}#[derive(Parse)]
{self.attr()}
pub struct {self.name}{ps}{self.body("pub ")}{end}"""

    def companions(self, path=""):
        """The value and the grammar."""
        ps, bounds = params_of(self)
        pat, xs = self.pattern()
        spec = "" if self.params else f"""
pub fn {gname(self.name)}() -> Gr {{ {self.grammar()} }}"""
        return f"""impl{bounds} ToVal for {path}{self.name}{ps} {{
    fn to_val(self) -> Val {{ let {path}{self.name}{pat} = self; Val::R({st(self.name)}.into(), vec![{", ".join(x + ".to_val()" for x in xs)}]) }}
}}{spec}"""

    def p(self, alpha=""):
        m = merge(*self.parts())
        return P(self.name, f"{gname(self.name)}()", m["al"], m["items"] + [self.source()], m["alpha"] + "".join(c for c in alpha if c not in m["alpha"]))

def gname(n):
    return "g_" + n.replace("r#", "")


def params_of(d):
    """The type parameters: as declared or used, and as declared with what their values need."""
    if not d.params:
        return "", ""
    return "<" + ", ".join(d.params) + ">", "<" + ", ".join(f"{a}: ToVal" for a in d.params) + ">"


def param(name):
    """A type parameter as a parser; apply() says what it stands for."""
    return P(name, f"@{name}@")


def itself(d, fmt="{}", spec="{}"):
    """A generic type within its own definition, with its own parameters."""
    name, params = d
    return P(fmt.format(f"{name}<{', '.join(params)}>"), spec.format("g(G::Ref(@SELF@))"))


def apply(d, *args):
    """A generic type with arguments."""
    s = d.grammar()
    for name, a in zip(d.params, args):
        s = s.replace(f"@{name}@", a.s)
    m = merge(*d.parts(), *args)
    items = [i for i in m["items"] if i != d.source()] + [d.source()]
    if "@SELF@" in s:
        f = f"{gname(d.name)}_{zlib.crc32(repr([a.r for a in args]).encode())}"
        items.append(f"pub fn {f}() -> Gr {{ {s.replace('@SELF@', f)} }}")
        s = f"{f}()"
    return P(f"{d.name}<{', '.join(a.r for a in args)}>", s, m["al"], items, m["alpha"])


class E:
    def __init__(self, name, variants, prefix=None, suffix=None, ignore=(), parse_type=None, params=(), attrs=None, derives=""):
        self.name, self.variants, self.params = name, variants, list(params)
        self.prefix, self.suffix, self.ignore, self.parse_type = prefix, suffix, list(ignore), parse_type
        self.attrs, self.derives = attrs, derives

    rules = S.rules
    attr = S.attr
    apply = S.apply

    def parts(self):
        return [self.prefix, self.suffix] + self.ignore + [p for v in self.variants for p in v.parts()]

    def source(self):
        return self.definition() + "\n" + self.companions()

    def definition(self):
        vs = "\n".join(f"    {v.attr()}{v.name}{v.body()}," for v in self.variants)
        return f"""{self.derives}#[derive(Parse)]
{self.attr()}
pub enum {self.name}{params_of(self)[0]} {{
{vs}
}}"""

    def companions(self, path=""):
        arms = ""
        for v in self.variants:
            pat, xs = v.pattern()
            arms += f"\n            {path}{self.name}::{v.name}{pat} => Val::R({st(v.name)}.into(), vec![{', '.join(x + '.to_val()' for x in xs)}]),"
        ps, bounds = params_of(self)
        spec = "" if self.params else f"""
pub fn {gname(self.name)}() -> Gr {{ {self.grammar()} }}"""
        return f"""impl{bounds} ToVal for {path}{self.name}{ps} {{
    fn to_val(self) -> Val {{
        match self {{{arms}
        }}
    }}
}}{spec}"""

    def grammar(self):
        spec = (f"EnumG {{ name: {st(self.name)}, prefix: {some(self.prefix)}, suffix: {some(self.suffix)}, "
                f"ignore: {veclist([i.s for i in self.ignore])}, variants: {veclist([v.spec() for v in self.variants])} }}")
        return f"g(G::Enum({spec}))"

    def p(self, alpha=""):
        m = merge(*self.parts())
        return P(self.name, f"{gname(self.name)}()", m["al"], m["items"] + [self.source()], m["alpha"] + "".join(c for c in alpha if c not in m["alpha"]))


def rec(name, fmt="{}", spec="{}"):
    """A reference to a type that is being defined."""
    return P(fmt.format(name), spec.format(f"g(G::Ref({gname(name)}))"))


def prog(id, d, alpha=None, extra="x", tok="char", mods="", text=None):
    p = d if isinstance(d, P) else d.p()
    if alpha is None:
        alpha = p.alpha + "".join(c for c in extra if c not in p.alpha)
    shown = text or "\n".join(i.split("impl")[0].strip() if i.startswith(("#", "/")) else i for i in p.items) or p.r
    return Prog(id, p, alpha=alpha, tok=tok, text=shown, mods=mods)
