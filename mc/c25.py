"""C25: extents and inventories of tiers, groups and grids; assigning times to a tier."""
import itertools
from .core import Space, Skip, Violation, require, same
from . import grid as G, machine as M, c05

ASSUMPTIONS = ["times assigned to a tier keep its entries in order", "entries of a tier do not overlap, except where times are assigned"]
F = frozenset({"extent", "list", "names"})


def ext(ents):
    """Extent of entries given as tuples."""
    ts = [t for e in ents for t in e[:-1]]
    return (min(ts), max(ts)) if ts else (None, None)


def has_extent(x, want, what):
    got = (x.xmin, x.xmax)
    if want[0] is None: require(got == (None, None), f"{what}: extent {got} although there are no entries")
    else:
        require(None not in got, f"{what}: extent {got}, expected {want}")
        same((float(got[0]), float(got[1])), (float(want[0]), float(want[1])), f"{what}: extent")


def inventory(g, cs, names, what):
    require(len(g) == len(cs) and G.is_seq(list(g.entry_classes), cs), f"{what}: entry_classes {g.entry_classes}")
    same(list(g.tier_names), names, f"{what}: tier_names")
    require(G.is_seq(list(g), [g[i] for i in range(len(cs))]), f"{what}: indexing")


def run_bare(case, rec):
    """Tiers and groups as built, some of them empty, in no grid and then in one."""
    from aligned_textgrid import SequenceTier, TierGroup, SequencePointTier, PointsGroup, AlignedTextGrid, custom_classes
    ts, pts, scale = case
    cs = custom_classes(["A", "B", "C"])[:len(ts)]
    ps = custom_classes(["P", "Q"], points=[0, 1])[:len(pts)]
    it, pt = [G.entries([tuple(i) for i in t], scale) for t in ts], [G.points(p, scale) for p in pts]
    tiers = [SequenceTier([c(e) for e in es], c) for c, es in zip(cs, it)]
    ptiers = [SequencePointTier([c(e) for e in es], c) for c, es in zip(ps, pt)]
    for i, t in enumerate(tiers): t.name = f"spk - {i}"
    for t, es in zip(tiers + ptiers, it + pt):
        has_extent(t, ext(es), "tier"); rec.step()
        same(list(t.labels), [e[-1] for e in es], "labels of a tier")
        same([float(v) for v in (t.starts if hasattr(t, "starts") else t.times)], [float(e[0]) for e in es], "starts of a tier")
        if hasattr(t, "ends"): same([float(v) for v in t.ends], [float(e[1]) for e in es], "ends of a tier")
    g, h = TierGroup(tiers), PointsGroup(ptiers)
    now = lambda g: ext([v for t in g for v in G.vals(t)])
    given = ext([e for es in it for e in es])
    has_extent(g, given, "group"); has_extent(h, ext([e for es in pt for e in es]), "points group"); rec.step(2)
    for t in g: has_extent(t, ext(G.vals(t)), "tier of a group")
    inventory(g, cs, [f"spk - {i}" for i in range(len(cs))], "group"); inventory(h, ps, [c.__name__ for c in ps], "points group")
    if ts[0]:
        a = AlignedTextGrid([g, h]); rec.step()
        has_extent(a, ext([v for k in a for t in k for v in G.vals(t)]), "grid")
        has_extent(a, ext([e for es in it + pt for e in es]), "grid, as given")
        same([[c.__name__ for c in k] for k in a.entry_classes], [["A", "B", "C"][:len(ts)], ["P", "Q"][:len(pts)]], "entry_classes of the grid")
        same([list(n) for n in a.tier_names], [[t.name for t in k] for k in a], "tier_names of the grid")
        for k in a:
            has_extent(k, now(k), "group of a grid")
    rec.state(case)


def run_times(case, rec):
    """Assign starts, ends or times to a tier on its own, in a group or in a grid."""
    from aligned_textgrid import SequenceTier, TierGroup, SequencePointTier, PointsGroup, AlignedTextGrid, custom_classes
    import numpy as np
    ts, ti, where, form, ops = case
    pt = ts[0] and not isinstance(ts[0][0], list)
    cs = custom_classes(["A", "B", "C"], points=[0, 1, 2] if pt else [])[:len(ts)]
    ents = [G.points(t) if pt else G.entries([tuple(i) for i in t]) for t in ts]
    tiers = [(SequencePointTier if pt else SequenceTier)([c(e) for e in es], c) for c, es in zip(cs, ents)]
    root = tiers[ti]
    if where != "tier": root = (PointsGroup if pt else TierGroup)(tiers)
    if where == "grid": root = AlignedTextGrid([root])
    t = tiers[ti]
    snap = G.Snap(root, times=False)
    others = [(x, G.show(x)) for u in tiers if u is not t for x in u]
    exp = [list(G.show(x)) for x in t]
    xs = list(t)
    for attr, f in ops:
        vals = [FUN[f](i, e[1] if attr == "ends" else e[0]) for i, e in enumerate(exp)]
        v = np.array(vals) if form == "array" else tuple(vals) if form == "tuple" else list(vals)
        setattr(t, attr, v); rec.step()
        for e, n in zip(exp, vals): e[1 if attr == "ends" else 0] = n
        w = f"{attr} of tier {ti} set to {vals}"
        require(G.is_seq(list(t), xs), w + ": the entries are others")
        same([list(G.show(x)) for x in t], exp, w)
        for x, s in others: same(G.show(x), s, w + ": an entry of another tier")
        snap.unchanged(w)
        if attr == "times": same([float(x) for x in t.times], [float(e[0]) for e in exp], w + ": times")
        else:
            same([float(x) for x in t.starts], [float(e[0]) for e in exp], w + ": starts"); same([float(x) for x in t.ends], [float(e[1]) for e in exp], w + ": ends")
            for x in t:
                u = x.super_instance
                if u is not None:
                    same([float(s) for s in u.sub_starts], [float(k.start) for k in u], w + ": sub_starts of the superset"); same([float(s) for s in u.sub_ends], [float(k.end) for k in u], w + ": sub_ends of the superset")
        has_extent(t, (min(e[0] for e in exp), max(e[-2] for e in exp)), w)
        rec.state((attr, exp))


FUN = {"later": lambda i, t: t + 0.25, "earlier": lambda i, t: t - 7.5, "spread": lambda i, t: t + 0.01 * i, "whole": lambda i, t: int(t) + 3, "same": lambda i, t: t, "zero": lambda i, t: t - t + 0.0 + 0.001 * i, "swell": lambda i, t: t + (10.0 if i == 0 else 0.5)}


def spaces(tier):
    q = tier == "quick"
    N = c05.nested(3, 1) + c05.nested(3, 2) + [[[], [], []], [[], []], [[]], [[[0, 1]], [], []], [[[0, 2]], [[0, 2]], []], [[[1, 3]], [[1, 2], [2, 3]], [[1, 2], [2, 3]]]]
    PS = [[[0]], [[]], [[2, 3], []], [[], [1]], [[1], [0, 3]], [[3], [0]], [[0, 1, 2], [1]]]
    S = [Space("bare", "every nested group of one or two tiers (some empty) and points groups, on their own and in a grid, at six time scales (one mixes whole numbers and fractions)", lambda: ([t, p, sc] for t in N for p in PS for sc in ("int", "whole", "neg", "frac", "late", "mix")), run_bare)]
    T = [[[[0, 1]]], [[[0, 2], [2, 3]]], [[[0, 1], [2, 3], [3, 5]]], [[[0, 2], [2, 3]], [[0, 1], [1, 2], [2, 3]]], [[[0, 3], [3, 4]], [[0, 1], [1, 3], [3, 4]], [[0, 1], [1, 2], [2, 3], [3, 4]]], [[0]], [[0, 2, 3]], [[0, 2], [1]]]
    def g2():
        for t in T:
            pt = not isinstance(t[0][0], list)
            op = [[a, f] for a in (("times",) if pt else ("starts", "ends")) for f in FUN if f != "swell" or a == "ends"]
            for ti in range(len(t)):
                for wh in ("tier", "group", "grid"):
                    for form in ("list", "array", "tuple"):
                        for d in (1, 2):
                            for ops in itertools.product(op, repeat=d): yield [t, ti, wh, form, [list(o) for o in ops]]
    S.append(Space("times", "every assignment, and every pair of assignments, of starts, ends or times to every tier of eight structures, on its own, in a group or in a grid; given as list, array or tuple", g2, run_times))
    return S + M.edit_spaces(tier, F)
