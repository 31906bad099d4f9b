"""Which programs and which oracles decide which property."""
from core import *
from builtin import *
from families import *
from mix import everything
from special import *
from recursive import recursive_progs
from tokens import token_progs
from names import names_progs
from spelling import spelling_progs
from wide import *
from inter import inter_progs, spread


def cfg(prop, oracles, quick, thorough, max_len=64, pump=(1, 2, (9, 33, 130)), pump_th=(1, 2, (9, 17, 33, 65, 130, 300))):
    o = ", ".join(f"{x}: true" for x in oracles)
    pu = lambda p: f"({p[0]}, {p[1]}, &{list(p[2])})"
    return (f'property: "{prop}", oracles: mc::run::Oracles {{ {o}, ..Default::default() }}, quick: {quick}, thorough: {thorough}, '
            f"max_len: {max_len}, pump: {pu(pump)}, pump_thorough: {pu(pump_th)}")


def spread_recursive(th):
    return spread([p for p in recursive_progs(th) if "longest" not in p.mods], 40)


PROPS = {
    "C01": (lambda th: [], lambda: ""),
    "C02": (lambda th: with_entries(everything(th)), lambda: cfg("C02", ["lazy"], 16_000, 150_000)),
    "C03": (lambda th: text_progs(th) + wide_text(), lambda: cfg("C03", ["value"], 30_000, 600_000)),
    "C04": (lambda th: byte_progs(th) + wide_bytes(), lambda: cfg("C04", ["value"], 300_000, 3_000_000)),
    "C05": (lambda th: combo_progs(th) + wide_combos(), lambda: cfg("C05", ["value"], 100_000, 1_000_000)),
    "C06": (lambda th: everything(th) + some_wide(), lambda: cfg("C06", ["peek"], 25_000, 250_000)),
    "C07": (lambda th: everything(th) + some_wide(), lambda: cfg("C07", ["sits"], 3_000, 20_000)),
    "C08": (owned_progs, lambda: cfg("C08", ["own"], 8_000, 80_000)),
    "C09": (lambda th: list_progs(th) + wide_lists(), lambda: cfg("C09", ["value"], 40_000, 400_000)),
    "C10": (lambda th: struct_progs(th) + wide_structs() + wide_generics(), lambda: cfg("C10", ["value"], 30_000, 300_000)),
    "C11": (lambda th: enum_progs(th) + wide_enums(), lambda: cfg("C11", ["value"], 30_000, 400_000)),
    "C12": (listfield_progs, lambda: cfg("C12", ["value"], 60_000, 500_000)),
    "C13": (ends_progs, lambda: cfg("C13", ["ends"], 12_000, 100_000)),
    "C14": (lambda th: error_progs(th) + wide_errors(), lambda: cfg("C14", ["errors"], 60_000, 500_000)),
    "C15": (entry_progs, lambda: cfg("C15", ["entry"], 16_000, 120_000)),
    "C16": (spelling_progs, lambda: cfg("C16", ["value"], 30_000, 300_000)),
    "C17": (recursive_progs, lambda: cfg("C17", ["value"], 100_000, 2_000_000)),
    "C18": (token_progs, lambda: cfg("C18", ["twin"], 40_000, 400_000)),
    "C19": (conv_progs, lambda: cfg("C19", ["value"], 150_000, 1_500_000)),
    "C20": (names_progs, lambda: cfg("C20", ["value"], 12_000, 100_000)),
    "C22": (lambda th: [], lambda: ""),
    "C23": (lambda th: with_walks(everything(th) + spread_recursive(th)), lambda: cfg("C23", ["value"], 0, 0)),
    "C21": (inter_progs, lambda: cfg("C21", ["value"], 1_100, 70_000)),
}

# properties with a driver of their own in mc
DRIVERS = {"C21": "inter", "C23": "space"}

# decided by the compiler's verdict on attribute words: /verif/reject.py
REJECT = ("C22",)

# properties that are also decided on histories of buffer operations
HIST = ("C01", "C02", "C23")

# properties that are also decided on a ladder of long inputs, see /verif/long
LONG = ("C03", "C04", "C05", "C06", "C09", "C10", "C11", "C12", "C13", "C15")

# (addition to the technique, level note) for the manifest
NOTES = {}
