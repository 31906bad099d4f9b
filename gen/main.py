import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import emit
from props import PROPS, DRIVERS, HIST

if __name__ == "__main__":
    prop, tier, out = sys.argv[1:4]
    fn, c = PROPS[prop]
    progs = fn(tier == "thorough")
    lines = emit(out, prop, tier, progs, c(), 8, mc="/verif/mc", hist=prop in HIST, driver=DRIVERS.get(prop, "run"))
    print(prop, tier, len(progs), "programs")
