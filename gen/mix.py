"""Programs of every kind together, for the properties that concern them all."""
from core import *
from builtin import *
from families import *


def everything(th, quick=None, drop=()):
    """A list of programs from all families. `quick`: {family: take every n-th}."""
    q = dict(text=2, bytes=3, combo=4, lists=12, structs=4, enums=3, fields=3, conv=2)
    if th:
        q = dict(text=1, bytes=1, combo=2, lists=8, structs=4, enums=4, fields=3, conv=1)
    q.update(quick or {})
    fams = dict(text=text_progs, bytes=byte_progs, combo=combo_progs, lists=list_progs, structs=struct_progs, enums=enum_progs,
                fields=listfield_progs, conv=conv_progs)
    r = []
    for f, make in fams.items():
        if f in drop or not q[f]:
            continue
        r += make(th)[:: q[f]]
    return [plain(p) for p in r]


def plain(p):
    """Without the special inputs that are there to compare values only."""
    import re
    p.mods = re.sub(r"\.around\((?:\"(?:[^\"\\]|\\.)*\"(?:, )?){2}\)", "", p.mods)
    p.mods = re.sub(r"\.inputs\(\(0\.\.65536u32\)[^)]*\)\.collect\(\)\)", "", p.mods)
    return p
