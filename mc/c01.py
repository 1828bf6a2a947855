import itertools
from .core import Space, Skip, require, same
from . import loose, machine as M
ASSUMPTIONS = ["when two of the intervals have the same start, end and label, which of them an operation takes is left open (the library identifies such intervals); membership has to stay reciprocal",
               "subset lists are only changed through the interval's own operations"]

F = frozenset({"members", "within"})

def check(w):
    w.check_membership()

def run(case, rec):
    loose.run_history(case, rec, check)

TW = ["x", "y", "z"]


def run_twins(case, rec):
    """x and y have the same times and label: whichever of them an operation takes, membership stays reciprocal."""
    from aligned_textgrid import Word, Phone, custom_classes
    un, init, ops = case
    Up, Low = (Word, Phone) if un == "wp" else custom_classes(["Top", "Up", "Low", "Sub"])[1:3]
    up = [Up((0.0, 2.0, "w")), Up((2.0, 4.0, "v"))]
    low = [Low((0.0, 1.0, "a")), Low((0.0, 1.0, "a")), Low((1.0, 2.0, "b"))]
    zp = None
    for u in (0, 1):
        ls = [l for l in range(3) if init[l] == u]
        if ls: up[u].subset_list = [low[l] for l in ls]
        if init[2] == u: zp = u
    def check(w):
        for u, U in enumerate(up):
            for c in U.subset_list:
                require(any(c is l for l in low), f"{w}: superset {u} lists a stranger")
                require(c.super_instance is U and c.within is U, f"{w}: superset {u} lists {TW[[c is l for l in low].index(True)]}, whose superset is {c.super_instance!r}")
            same([a.start <= b.start for a, b in zip(U, list(U)[1:])], [True] * max(0, len(U) - 1), f"{w}: order")
            same(len(U.subset_list), len({id(c) for c in U.subset_list}), f"{w}: superset {u} lists a child twice")
        for n, c in zip(TW, low):
            s = c.super_instance
            require(s is None or any(s is U for U in up), f"{w}: {n} has a strange superset")
            require(s is None or any(c is m for m in s.subset_list), f"{w}: {n} has a superset that does not list it")
            require(c.within is s, f"{w}: {n} is within {c.within!r}, its superset is {s!r}")
        if zp is not None: require(low[2].super_instance is up[zp] , f"{w}: the membership of z changed")
        else: require(low[2].super_instance is None, f"{w}: the membership of z changed")
    check("at first")
    for op in ops:
        k, u, l = op
        x = low[l]
        if k in ("set_super", "set_word") and x.super_instance is up[u]: raise Skip()
        if k == "set_word" and un != "wp": raise Skip()
        if k in ("append", "set_super", "set_word", "append_list", "iadd", "add"):
            {"append": lambda: up[u].append(x), "set_super": lambda: x.set_super_instance(up[u]), "set_word": lambda: x.set_word(up[u]), "append_list": lambda: up[u].append_subset_list(x)}.get(k, lambda: None)()
            if k == "iadd": up[u].subset_list += [x]
            if l == 2: zp = u
        elif k == "remove":
            up[u].remove_from_subset_list(x)
            if l == 2 and zp == u: zp = None
        elif k == "pop":
            up[u].pop(x)
            if l == 2 and zp == u: zp = None
        elif k == "loose":
            x.remove_superset()
            if l == 2: zp = None
        elif k == "assign":
            up[u].subset_list = [x]
            zp = u if l == 2 else None if zp == u else zp
        elif k == "both":
            up[u].set_subset_list([low[0], low[1]] if l else [low[1], low[0]])
            zp = None if zp == u else zp
        elif k == "take":
            up[u].subset_list = up[1 - u].subset_list
            zp = None if zp == u else u if zp == 1 - u else zp
        rec.step()
        check(f"after {op}")
        rec.state([[TW[[c is l for l in low].index(True)] for c in U] for U in up])


def twins(depth):
    menu = [[k, u, l] for k in ("append", "set_super", "append_list", "iadd", "remove", "pop", "assign", "set_word") for u in (0, 1) for l in (0, 1, 2)]
    menu += [["loose", 0, l] for l in (0, 1, 2)] + [["both", u, l] for u in (0, 1) for l in (0, 1)] + [["take", u, 0] for u in (0, 1)]
    for d in range(1, depth + 1):
        for un in ("wp", "mid"):
            for init in loose.initial_assignments():
                for ops in itertools.product(menu, repeat=d):
                    if d == 1 or un == "wp": yield [un, list(init), [list(o) for o in ops]]


def spaces(tier):
    full = lambda un: loose.full_menu(un)
    core = lambda un: loose.core_menu()
    allinit = loose.initial_assignments()
    S = [loose.big_space(tier, run), loose.twin_space(tier, run), loose.alike_space(tier, run), Space("twins", "every pair of operations on three intervals, two of which have the same times and label, from each of 27 assignments", lambda: twins(2), run_twins)]
    if tier == "quick":
        S.append(Space("one-op", "every operation from each of the 27 assignments of 3 intervals to 2 supersets; 3 hierarchy positions, 3 time scales",
                       loose.gen_histories(["wp", "mid", "low"], ["zero", "neg", "frac"], full, 1, allinit), run))
        S.append(Space("two-ops", "every pair of operations (full menu) from 5 assignments; built-in and mid-hierarchy classes",
                       loose.gen_histories(["wp", "mid"], ["zero"], full, 2, [(-1, -1, -1), (0, 0, 0), (0, 1, 0)]), run))
        S.append(Space("wide", "every operation on 4 intervals and 3 supersets from 6 assignments",
                       loose.gen_histories(["wp", "mid"], ["zero"], lambda un: loose.full_menu(un, 3, 4), 1,
                                           [(0, 0, 0, 0), (0, 1, 2, -1), (0, 0, 1, 2), (2, 2, 1, 1), (1, 0, 1, 0), (2, 2, 2, 0)], 3, 4), run))
        S.append(Space("three-ops", "every sequence of three operations of the core menu",
                       loose.gen_histories(["mid"], ["zero"], core, 3, [(0, 0, 1)]), run))
    else:
        S.append(Space("two-ops", "every pair of operations (full menu) from each of 27 assignments; 3 hierarchy positions, 3 time scales",
                       loose.gen_histories(["wp", "mid", "low"], ["zero", "neg", "frac"], full, 2, allinit), run))
        S.append(Space("wide", "every operation on 4 intervals and 3 supersets from each of 256 assignments, and pairs of core operations",
                       loose.gen_histories(["wp", "mid"], ["zero", "neg"], lambda un: loose.full_menu(un, 3, 4), 1, loose.initial_assignments(3, 4), 3, 4), run))
        S.append(Space("wide-two-ops", "every pair of core operations on 4 intervals and 3 supersets from each of 256 assignments",
                       loose.gen_histories(["wp", "mid"], ["zero"], lambda un: loose.core_menu(3, 4), 2, loose.initial_assignments(3, 4), 3, 4), run))
        S.append(Space("four-ops", "every sequence of four operations of the core menu",
                       loose.gen_histories(["mid"], ["zero"], core, 4, [(0, 0, 1)]), run))
    return S + M.edit_spaces(tier, F)
