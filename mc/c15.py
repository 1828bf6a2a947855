from . import machine as M
ASSUMPTIONS = ["groups appended to a grid fit its hierarchy", "no two entries of a tier have the same times and label",
               "intervals that no superset covers (after popping a superset's place) have no path until cleanup"]
F = frozenset({"within", "ids", "intier"})

def spaces(tier):
    return M.edit_spaces(tier, F, depth2=["one", "pts", "het", "wsp"])
