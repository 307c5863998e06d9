"""The rules of each property: modules r_*.py with RULES = {property: [rule]}."""
import glob, importlib, os


def load():
    out = {}
    for p in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "r_*.py"))):
        m = importlib.import_module("rules." + os.path.basename(p)[:-3])
        for pid, rs in m.RULES.items():
            out.setdefault(pid, []).extend(rs)
    return out
