from .core import Space
from . import loose, machine as M, tiers as T
ASSUMPTIONS = ["no two of the intervals have the same start, end and label (the library identifies such intervals)",
               "subset lists are only changed through the interval's own operations"]

F = frozenset({"links"})

def check(w):
    w.check_links()

def run(case, rec):
    loose.run_history(case, rec, check)

def spaces(tier):
    full = lambda un: loose.full_menu(un)
    core = lambda un: loose.core_menu()
    allinit = loose.initial_assignments()
    S = [loose.big_space(tier, run), loose.twin_space(tier, run), loose.alike_space(tier, run)]
    if tier == "quick":
        S.append(Space("one-op", "every operation from each of the 27 assignments of 3 intervals to 2 supersets; 3 hierarchy positions, 3 time scales",
                       loose.gen_histories(["wp", "mid", "low"], ["zero", "neg", "frac"], full, 1, allinit), run))
        S.append(Space("two-ops", "every pair of operations (full menu) from 5 assignments; built-in and mid-hierarchy classes",
                       loose.gen_histories(["wp", "mid"], ["zero"], full, 2, [(-1, -1, -1), (0, 0, 0), (0, 1, 0)]), run))
        S.append(Space("wide", "every operation on 4 intervals and 3 supersets from 6 assignments",
                       loose.gen_histories(["wp", "mid"], ["zero"], lambda un: loose.full_menu(un, 3, 4), 1,
                                           [(0, 0, 0, 0), (0, 1, 2, -1), (0, 0, 1, 2), (2, 2, 1, 1), (1, 0, 1, 0), (2, 2, 2, 0)], 3, 4), run))
        S.append(Space("three-ops", "every sequence of three operations of the core menu",
                       loose.gen_histories(["mid"], ["zero"], core, 3, [(0, 0, 1)]), run))
    else:
        S.append(Space("two-ops", "every pair of operations (full menu) from each of 27 assignments; 3 hierarchy positions, 3 time scales",
                       loose.gen_histories(["wp", "mid", "low"], ["zero", "neg", "frac"], full, 2, allinit), run))
        S.append(Space("wide", "every operation on 4 intervals and 3 supersets from each of 256 assignments, and pairs of core operations",
                       loose.gen_histories(["wp", "mid"], ["zero", "neg"], lambda un: loose.full_menu(un, 3, 4), 1, loose.initial_assignments(3, 4), 3, 4), run))
        S.append(Space("wide-two-ops", "every pair of core operations on 4 intervals and 3 supersets from each of 256 assignments",
                       loose.gen_histories(["wp", "mid"], ["zero"], lambda un: loose.core_menu(3, 4), 2, loose.initial_assignments(3, 4), 3, 4), run))
        S.append(Space("four-ops", "every sequence of four operations of the core menu",
                       loose.gen_histories(["mid"], ["zero"], core, 4, [(0, 0, 1)]), run))
    S += T.tier_spaces(tier, F)
    return S + M.edit_spaces(tier, F)
