"""Building blocks of the program generator: parser expressions that know both their
Rust type and the grammar they stand for, and the emission of a sharded crate."""
import os


def ch(c):
    """A character as a Rust literal."""
    return {"\n": "'\\n'", "\r": "'\\r'", "\t": "'\\t'", "'": "'\\''", "\\": "'\\\\'"}.get(c, f"'{c}'")


def st(s):
    """A string as a Rust literal."""
    out = '"'
    for c in s:
        out += {"\n": "\\n", "\r": "\\r", "\t": "\\t", '"': '\\"', "\\": "\\\\"}.get(c) or (
            c if 32 <= ord(c) < 127 else "\\u{%x}" % ord(c))
    return out + '"'


class P:
    """A parser: its Rust type, its grammar (a Rust expression of type Gr), and the
    type aliases and items it needs."""

    def __init__(self, r, s, al=None, items=None, alpha=""):
        self.r, self.s = r, s
        self.al = dict(al or {})
        self.items = list(items or [])
        self.alpha = alpha

    def __repr__(self):
        return self.r


def merge(*ps):
    al, items, alpha = {}, [], ""
    for p in ps:
        if p is None:
            continue
        al.update(p.al)
        for i in p.items:
            if i not in items:
                items.append(i)
        for c in p.alpha:
            if c not in alpha:
                alpha += c
    return dict(al=al, items=items, alpha=alpha)


# ---- the harness's own token parsers ----
# makes C the tracked element parser, for the programs about ownership
TRACK = False


def C(c):
    if TRACK:
        return TC(c)
    return P(f"C<{ch(c)}>", f"c({ch(c)})", alpha=c)


def name(c):
    return {",": "c", ";": "s", " ": "_", "_": "u", "(": "l", ")": "r"}.get(c, c if c.isalnum() else "x%x" % ord(c))


def D(a, b):
    n = "D" + name(a) + name(b)
    return P(n, f"d({ch(a)}, {ch(b)})", {n: f"D<{ch(a)}, {ch(b)}>"}, alpha=a + b)


def W(c):
    return P(f"W<{ch(c)}>", f"w({ch(c)})", alpha=c)


def M(c):
    return P(f"M<{ch(c)}>", f"m({ch(c)})", alpha=c)


def TC(c):
    return P(f"TC<{ch(c)}>", f"c({ch(c)})", alpha=c)


EMPTY = P("Empty", "empty()")
NEVER = P("Never", "g(G::Never)")
END = P("End", "g(G::End)")
ANY = P("Any", "g(G::AnyTok)")
DIGITS = P("Digits", "digits()", alpha="13")


# ---- combinators ----
def comb(fmt, spec, *ps):
    return P(fmt.format(*[p.r for p in ps]), spec.format(*[p.s for p in ps]), **merge(*ps))


def Opt(p):
    return comb("Option<{}>", "opt({})", p)


def Vec(p):
    return comb("Vec<{}>", "many({})", p)


def Vec1(p):
    return comb("nommy::Vec1<{}>", "many1({})", p)


def Arr(n, p):
    return comb("[{}; %d]" % n, "arr(%d, {})" % n, p)


def Box(p):
    return comb("Box<{}>", "boxed({})", p)


def Seq(a, b):
    n = "Seq<{}, {}>"
    return comb(n, "seq({}, {})", a, b)


def Alt(a, b):
    return comb("Alt<{}, {}>", "alt({}, {})", a, b)


def alias(n, p):
    """Gives p a one-word name, for attributes."""
    q = P(n, p.s, dict(p.al, **{n: p.r}), p.items, p.alpha)
    return q


class Prog:
    def __init__(self, id, p, alpha=None, tok="char", text=None, mods="", items=(), max_alpha=None):
        self.id, self.p, self.tok = id, p, tok
        a = p.alpha if alpha is None else alpha
        self.alpha = a
        self.text = text or p.r
        self.mods = mods
        self.items = list(p.items) + list(items)
        self.twin = None

    def with_(self, m):
        self.mods += m
        return self

    def source(self):
        twin = ""
        if self.twin:
            al = "\n".join(f"type {n} = {r};" for n, r in self.twin.al.items())
            twin = "pub mod base {\nuse super::super::*;\n" + al + "\n" + "\n".join(self.twin.items) + f"\npub type Top = {self.twin.r};\n}}\n"
            self.with_(".with_twin::<base::Top, char>()")
        al = "\n".join(f"type {n} = {r};" for n, r in self.p.al.items())
        items = "\n".join(self.items)
        return f"""use super::*;
{twin}{al}
{items}
pub fn prog() -> Prog {{
    mc::run::prog::<{self.p.r}, {self.tok}>({st(self.id)}, {st(self.text)}, || {self.p.s}, {st(self.alpha)}){self.mods}
}}
"""


HEAD = """#![allow(dead_code, unused_imports, unused_mut, non_camel_case_types, non_snake_case, unused_variables, clippy::all)]
use mc::prelude::*;
use nommy::Parse;
"""


def emit(out, prop, tier, progs, cfg, shards, mc="../../mc", repo="/repo", hist=False, driver="run"):
    """Writes the crate; returns {shard file: [(first line, last line, program id)]}."""
    os.makedirs(out + "/src/bin", exist_ok=True)
    write(out + "/Cargo.toml", f"""[package]
name = "check_{prop.lower()}"
version = "0.1.0"
edition = "2018"
publish = false

[dependencies]
mc = {{ path = "{mc}" }}
nommy = {{ path = "{repo}/nommy" }}

[workspace]

[profile.dev]
opt-level = 2
debug = 0
incremental = false
""")
    n = min(shards, len(progs))
    lines = {}
    wanted = set()
    for k in range(n):
        mine = progs[k::n]
        src = HEAD
        where = []
        for i, p in enumerate(mine):
            first = src.count("\n") + 1
            src += f"mod p{i} {{\n{p.source()}}}\n"
            where.append((first, src.count("\n"), p.id))
        src += f"fn main() {{\n    mc::{driver}::main(mc::run::Cfg {{" + cfg + "}, vec![\n"
        for i in range(len(mine)):
            src += f"        p{i}::prog(),\n"
        src += "    ]);\n}\n"
        f = f"src/bin/{prop.lower()}{tier[0]}{k}.rs"
        write(f"{out}/{f}", src)
        wanted.add(os.path.basename(f))
        lines[f] = where
    if hist:
        f = f"src/bin/{prop.lower()}{tier[0]}hist.rs"
        write(f"{out}/{f}", f'fn main() {{\n    mc::hist::main("{prop}");\n}}\n')
        wanted.add(os.path.basename(f))
        lines[f] = [(1, 3, "history")]
    for f in os.listdir(out + "/src/bin"):
        if f not in wanted:
            os.remove(out + "/src/bin/" + f)
    return lines


def write(path, text):
    """Only touches the file if it changes, so that cargo's fingerprints stay."""
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)
