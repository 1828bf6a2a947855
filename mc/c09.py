"""C09: shifting."""
from .core import Space, Skip, require, same, Violation
from . import grid as G, machine as M, c05
import itertools
ASSUMPTIONS = ["times are compared with a tolerance of 1e-9 (floating point addition)"]
INCS = [1.5, -0.5, 0, 3, -7, 0.1, 1e-3]


def times(objs):
    return {id(o): ((float(o.start), float(o.end)) if hasattr(o, "end") else (float(o.time),)) for o in objs}


def entries(groups):
    return [x for g in groups for t in g for x in t]


def exec_ops(groups, root, targets, ops, rec):
    """targets: name -> (object to shift, groups moved)."""
    snap = G.Snap(*( [root] if root is not None else groups), times=False)
    orig = entries(groups)
    t0 = times(orig)
    off = [0.0] * len(groups)
    names = [[t.name for t in g] for g in groups]
    for tgt, inc in ops:
        obj, moved = targets[tgt]
        obj.shift(inc); rec.step()
        for i in moved: off[i] += inc
        w = f"shifting {tgt} by {inc}"
        snap.unchanged(w)
        for gi, g in enumerate(groups):
            for t in g:
                for x in t:
                    now = (x.start, x.end) if hasattr(x, "end") else (x.time,)
                    exp = [v + off[gi] for v in t0[id(x)]]
                    for v, e in zip(now, exp):
                        require(abs(v - e) < 1e-9, f"{w}: {G.show(x)} of group {gi} was at {t0[id(x)]}, expected {exp}")
                    if hasattr(x, "end"):
                        require(abs(x.duration - (t0[id(x)][1] - t0[id(x)][0])) < 1e-9, f"{w}: duration of {G.show(x)}")
                        for v, k in zip(x.sub_starts, x.subset_list): require(v == k.start, f"{w}: sub_starts")
                if len(t):
                    if G.is_point_tier(t):
                        same([float(v) for v in t.times], [float(x.time) for x in t], f"{w}: times of a tier")
                    else:
                        same([float(v) for v in t.starts], [float(x.start) for x in t], f"{w}: starts of a tier")
                        same([float(v) for v in t.ends], [float(x.end) for x in t], f"{w}: ends of a tier")
            if g.xmin is not None:
                lo = min(v for t in g for x in t for v in t0[id(x)]); hi = max(v for t in g for x in t for v in t0[id(x)])
                require(abs(g.xmin - lo - off[gi]) < 1e-9 and abs(g.xmax - hi - off[gi]) < 1e-9, f"{w}: extent of group {gi}: {g.xmin} to {g.xmax}")
        same([[t.name for t in g] for g in groups], names, f"{w}: names")
        if root is not None:
            gs = [g for g in groups if g.xmin is not None]
            require(root.xmin == min(g.xmin for g in gs) and root.xmax == max(g.xmax for g in gs), f"{w}: extent of the grid")
        rec.state((off, [len(g) for g in groups]))


def run_grid(case, rec):
    spec, ops = case
    a, _ = c05.build(**spec)
    gs = list(a)
    tg = {"grid": (a, range(len(gs)))}
    for i, g in enumerate(gs): tg[f"group{i}"] = (g, [i])
    if any(o[0] not in tg for o in ops): raise Skip()
    exec_ops(gs, a, tg, ops, rec)


def run_bare(case, rec):
    """Groups that are in no grid, built from entries (whole-number times included)."""
    from aligned_textgrid import SequenceTier, TierGroup, SequencePointTier, PointsGroup, custom_classes
    ts, pts, scale, delay, ops = case
    cs = custom_classes(["A", "B", "C", "D"])
    groups = [TierGroup([SequenceTier([c(e) for e in G.entries([tuple(i) for i in t], scale)], c) for c, t in zip(cs, ts)], delay_cleanup=bool(delay & 1))]
    P, Q = custom_classes(["P", "Q"], points=[0, 1])
    if delay & 2: Q = P
    groups.append(PointsGroup([SequencePointTier([c(e) for e in G.points(p, scale)], c) for c, p in zip((P, Q), pts)]))
    if delay & 4:
        for g in groups:
            for t in g: t.name = "x"
    exec_ops(groups, None, {"group0": (groups[0], [0]), "group1": (groups[1], [1])}, ops, rec)


def run_edit(case, rec):
    seed, how, pre, ops = case
    m = M.Machine(seed, how)
    for o in pre:
        m.apply(o); rec.step()
    gs = list(m.a)
    if not gs: raise Skip()
    tg = {"grid": (m.a, range(len(gs)))}
    for i, g in enumerate(gs): tg[f"group{i}"] = (g, [i])
    if any(o[0] not in tg for o in ops): raise Skip()
    exec_ops(gs, m.a, tg, ops, rec)


def spaces(tier):
    q = tier == "quick"
    tg = ["grid", "group0", "group1"]
    one = [[[t, i]] for t in tg for i in INCS]
    two = [[[t, i], [u, j]] for t in tg for u in tg for i in (1.5, -0.5, 0.1) for j in (-1.5, 3, -0.1)]
    N2, N3 = c05.nested(2, 2), c05.nested(3, 2)
    few = [[[(0, 2)], [(0, 1), (1, 2)]], [[(0, 1), (2, 3)], [(0, 1)]], [[(1, 3)], [(1, 2), (2, 3)]]]
    def g1():
        for gs in [[g] for g in N3] + [[g, h] for g in few for h in few] + [[g, [h[0]]] for g in few for h in few]:
            for pts, pos in ((None, None), ([[0, 2], [1]], "last"), ([[1]], "first")):
                for ops in one:
                    yield [dict(kind="wp", gs=gs, scale="int", how="object", pts=pts, ptpos=pos, layout="nested"), ops]
    def g2():
        for gs in [[g, h] for g in few for h in few[:2]]:
            for pts, pos in ((None, None), ([[0, 2], [1]], "last"), ([[1]], "first")):
                for ops in two:
                    yield [dict(kind="wp", gs=gs, scale="frac", how="object", pts=pts, ptpos=pos, layout="nested"), ops]
    def g3():
        for ts in c05.nested(3, 1) + N2 + [[[(0, 3)], [(0, 1), (1, 3)], [(0, 1), (1, 2), (2, 3)]], [[(0, 1)], []]]:
            for pts in ([[0, 2]], [[1], [0, 3]], [[], [1]], [[1, 1], [0, 2, 2]]):
                for sc in G.SCALES:
                    for d in (0, 1, 2, 4):
                        for ops in [[["group0", i]] for i in INCS] + [[["group1", i]] for i in INCS] + [[["group0", 1.5], ["group1", -0.5], ["group0", -1.5]]]:
                            yield [ts, pts, sc, d, ops]
    def g4():
        for s in list(M.SEEDS) + list(M.BIG):
            for o in M.menu(s):
                if o[0] == "reload": continue
                if s in M.BIG and o[0] in ("fuse_l", "tier_pop"): continue
                for h in ("tg", "append") if s in M.SEEDS else ("tg",):
                    for ops in [[["grid", 1.5]], [["group0", -0.5], ["grid", 0.25]], [["group1", 2], ["group1", -2]]]:
                        yield [s, h, [o], ops]
    def g5():
        for gs in [[g, h] for g in few for h in few]:
            for pts, pos in ((None, None), ([[0, 2], [1]], "last")):
                for ops in itertools.product([[t, i] for t in tg for i in (1.5, -0.5, 0.1)], repeat=3):
                    yield [dict(kind="wp", gs=gs, scale="off", how="object", pts=pts, ptpos=pos, layout="nested"), [list(o) for o in ops]]
    S = [Space("shift-1", "every target and increment on grids of one or two groups with and without points", g1, run_grid),
         Space("shift-2", "every pair of shifts (opposites included) of the grid or a group", g2, run_grid),
         Space("bare", "groups without a grid, built at six time scales (whole numbers included), one to three tiers, two point tiers of one class or all tiers of one name too", g3, run_bare),
         Space("after-edits", "shifts after every edit of the seed grids", g4, run_edit)]
    if not q:
        S.append(Space("shift-3", "every triple of shifts", g5, run_grid))
    return S
