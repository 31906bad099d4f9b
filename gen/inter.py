"""Programs whose parses are combined with each other (C21): one family to a shard, so that instances of the same code meet."""
from core import *
from builtin import *
from families import *
from mix import plain
from recursive import recursive_progs
from special import with_entries

SHARDS = 8
MAXES = ["usize::MAX", "3", "2", "usize::MAX", "3", "2", "1"]


def lists(th, n):
    """Of every list function and maximum, over different elements; equal functions next to each other."""
    by = {}
    for p in list_progs(th):
        mode, most = p.text[len("list(mode "):p.text.index(")")].split(", max ")
        by.setdefault((mode, most), []).append(p)
    r = []
    for mode in "0123":
        for i in range(n // 4):
            l = by[mode, MAXES[i % len(MAXES)]]
            r.append(l[(i * 5 + 1) % len(l)])
    return r


def spread(l, n):
    """n of l, evenly, in order (some twice if there are fewer)."""
    return [l[i * len(l) // n] for i in range(n)]


def inter_progs(th):
    n = 84 if th else 28
    rec = [p for p in recursive_progs(th) if "longest" not in p.mods]
    # recursive grammars and everything else in one
    some = [p for f in (text_progs, byte_progs, combo_progs, struct_progs, enum_progs, listfield_progs) for p in spread(f(False), 3 if th else 1)]
    groups = [text_progs(th), byte_progs(th), combo_progs(th), lists(th, n), struct_progs(th), enum_progs(th), listfield_progs(th) + conv_progs(th), None]
    r = [None] * (n * SHARDS)
    for k, g in enumerate(groups):
        if g is None:
            mine = some + spread(rec, n - len(some))
        else:
            mine = spread(g, n)
        seen = {}
        for i, p in enumerate(mine):
            p = plain(p)
            if p.id in seen:
                import copy
                p = copy.copy(p)
                p.id += f"x{i}"
            seen[p.id] = 1
            r[i * SHARDS + k] = p
    return with_entries(r)
