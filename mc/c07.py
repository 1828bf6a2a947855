"""C07: cleanup of intervals, tiers, groups and grids."""
from .core import Space, Skip, require, same, Violation
from . import grid as G, machine as M, c05
import itertools
ASSUMPTIONS = ["intervals of a tier do not overlap and nest in the tiers above or lie outside all of their intervals",
               "gaps are wide compared with the library's closeness tolerance (1e-8 + 1e-5 of the time)"]
F = frozenset("list members links within intier tiling extent features".split())


class Before:
    """What existed before the cleanup."""
    def __init__(self, groups):
        self.groups = groups
        self.tiers = [[list(t) for t in g] for g in groups]
        self.info = {id(x): (G.show(x), getattr(x, "super_instance", None), list(getattr(x, "subset_list", []))) for g in self.tiers for t in g for x in t}
        self.bounds = sorted({float(v) for g in self.tiers for t in g for x in t if hasattr(x, "end") for v in (x.start, x.end)})

    def check(self, what, lo, hi, extra_bounds=()):
        for gi, g in enumerate(self.groups):
            same(len(g), len(self.tiers[gi]), f"{what}: tiers of group {gi}")
            own = sorted({float(v) for t in self.tiers[gi] for x in t if hasattr(x, "end") for v in (x.start, x.end)} | {lo, hi})
            for ti, t in enumerate(g):
                w = f"{what}: group {gi} tier {ti}"
                old, now = self.tiers[gi][ti], list(t)
                ids = {id(x) for x in old}
                kept = [x for x in now if id(x) in ids]
                require(G.is_seq(kept, old), f"{w}: entries that existed were lost, replaced or reordered: {[G.show(x) for x in now]}, before {[self.info[id(x)][0] for x in old]}")
                for x in old:
                    v, sup, kids = self.info[id(x)]
                    G.want(list(G.show(x)), list(v), f"{w}: an entry that existed changed", 0.0)
                    if sup is not None:
                        require(x.super_instance is sup, f"{w}: {v} changed its superset from {G.show(sup)} to {G.show(x.super_instance)}")
                    if hasattr(x, "subset_list"):
                        k = {id(y) for y in kids}
                        require(G.is_seq([y for y in x.subset_list if id(y) in k], kids), f"{w}: {v} lost a child")
                new = [x for x in now if id(x) not in ids]
                if G.is_point_tier(t):
                    require(not new, f"{w}: points were added")
                    continue
                for x in new:
                    same(x.label, "", f"{w}: label of the added interval {G.show(x)}")
                    require(type(x) is t.entry_class, f"{w}: class of the added interval")
                    require(not any(y is not x and min(x.end, y.end) > max(x.start, y.start) + 1e-9 for y in now), f"{w}: the added interval {G.show(x)} overlaps another one")
                    for v in (x.start, x.end):
                        require(any(abs(v - b) < 1e-9 for b in own), f"{w}: the added interval {G.show(x)} ends or starts where nothing did")
                for x, y in zip(now, now[1:]):
                    require(abs(x.end - y.start) < 1e-9, f"{w}: gap or overlap between {G.show(x)} and {G.show(y)}")
                if len(now):
                    require(abs(now[0].start - lo) < 1e-9 and abs(now[-1].end - hi) < 1e-9, f"{w}: spans {now[0].start} to {now[-1].end}, expected {lo} to {hi}")
                else:
                    require(lo is None, f"{w}: is still empty")


def twice(obj, structure, what):
    snap = G.Snap(structure)
    obj.cleanup()
    snap.unchanged(f"cleaning up {what} a second time")


# ---------------------------------------------------------------- single intervals

def run_interval(case, rec):
    from aligned_textgrid import custom_classes
    n, depth, kids, sub, scale, how = case
    cs = custom_classes(["A", "B", "C"][:depth])
    f = G.SCALES[scale]
    x = cs[0]((f(0), f(n), "x"))
    ks = [cs[1](e) for e in G.entries([tuple(k) for k in kids], scale, [""] if "blank" in how else G.LABELS)] if depth > 1 else []
    for k in ks:
        x.append(k)
    if sub and depth > 2 and ks:
        for k in ks:
            k.append(cs[2]((k.start, k.end, "g")))
    if "tier" in how:
        from aligned_textgrid import SequenceTier
        SequenceTier([x])
    before = [(k, G.show(k), list(k.subset_list)) for k in ks]
    x.cleanup(); rec.step()
    w = f"cleanup of {G.show(x)} with children {[b[1] for b in before]}"
    same(G.show(x), (f(0), f(n), "x"), w)
    if depth == 1:
        require(len(x) == 0, w + ": a bottom interval got children")
        return
    now = list(x.subset_list)
    gaps, pos = [], 0
    for s, e in kids:
        if s > pos: gaps.append((f(pos), f(s)))
        pos = e
    if pos < n: gaps.append((f(pos), f(n)))
    exp = sorted([b[1] for b in before] + [(s, e, "") for s, e in gaps])
    G.want([G.show(k) for k in now], exp, w + ": children")
    ids = {id(b[0]) for b in before}
    require(G.is_seq([k for k in now if id(k) in ids], [b[0] for b in before]), w + ": a child was replaced")
    for k, v, sub_ in before:
        same(G.show(k), v, w + ": an existing child changed")
        require(G.is_seq(list(k.subset_list)[:len(sub_)], sub_), w + ": an existing child lost its children")
    for k in now:
        require(k.super_instance is x and k.within is x, w + ": a child does not know its superset")
        same(type(k), cs[1], w + ": class of a child")
        if depth > 2 and not kids:
            require(len(k) == 1 and G.close(G.show(k[0]), (k.start, k.end, "")), w + ": the new child was not built down to the bottom")
    G.check_chain(now, w)
    require(x.validate(), w + ": does not validate")
    snap = G.Snap(x)
    x.cleanup(); rec.step()
    snap.unchanged("second " + w)
    rec.state((scale, [G.show(k) for k in now]))


# ---------------------------------------------------------------- standalone tiers

def run_tier(case, rec):
    from aligned_textgrid import SequenceTier, Word
    ivs, scale, how = case
    ents = G.entries([tuple(i) for i in ivs], scale)
    if how == "reversed":
        t = SequenceTier([Word(e) for e in ents[::-1]])
    elif how == "appended":
        t = SequenceTier([], Word)
        for e in ents: t.append(Word(e))
    else:
        t = SequenceTier([Word(e) for e in ents])
    old = list(t)
    t.cleanup(); rec.step()
    w = f"cleanup of a tier with {ents}"
    exp = []
    for a, b in zip(ents, ents[1:]):
        exp.append(a)
        if b[0] - a[1] > 1e-9: exp.append((a[1], b[0], ""))
    exp += ents[-1:]
    G.want(G.vals(t), exp, w)
    ids = {id(x) for x in old}
    require(G.is_seq([x for x in t if id(x) in ids], old), w + ": entries were replaced")
    G.check_standalone(t, frozenset("list intier links".split()), w)
    twice(t, t, "a tier"); rec.step()
    rec.state((scale, G.vals(t)))


# ---------------------------------------------------------------- groups

def mk_group(ts, scale, delay, order=None, pops=()):
    from aligned_textgrid import SequenceTier, TierGroup, custom_classes
    cs = custom_classes(["A", "B", "C", "D"][:len(ts)])
    tiers = [SequenceTier([c(e) for e in G.entries([tuple(i) for i in t], scale, k=k)], c) for k, (c, t) in enumerate(zip(cs, ts))]
    g = TierGroup([tiers[i] for i in (order or range(len(ts)))], delay_cleanup=bool(delay))
    for k in pops:
        if k >= len(g[-1]) or len(g[-1]) < 2:
            raise Skip()
        g[-1].pop(g[-1][k])
    return g


def extent(ts, scale):
    f = G.SCALES[scale]
    vs = [v for t in ts for i in t for v in i]
    return f(min(vs)), f(max(vs))


def run_group(case, rec):
    ts, scale, delay, pops = case
    g = mk_group(ts, scale, delay, pops=pops)
    lo, hi = float(g.xmin), float(g.xmax)
    b = Before([g])
    g.cleanup(); rec.step()
    w = f"cleanup of a group"
    b.check(w, lo, hi)
    G.check_group(g, F, what=w)
    twice(g, g, "a group"); rec.step()
    rec.state((scale, [t[2:] for t in G.obs_group(g)]))


def run_group_tier(case, rec):
    """Cleaning up one tier of a group: the tier is gap-free afterwards, everything that was there is kept."""
    ts, scale, k, pops = case
    g = mk_group(ts, scale, False, pops=pops)
    if any(x.super_instance is None for t in list(g)[1:] for x in t):
        raise Skip()
    b = Before([g])
    t = g[k]
    ext = (t.xmin, t.xmax)
    t.cleanup(); rec.step()
    for ti, (tt, old) in enumerate(zip(g, b.tiers[0])):
        ids = {id(x) for x in old}
        require(G.is_seq([x for x in tt if id(x) in ids], old), f"cleanup of tier {k}: entries of tier {ti} were lost or replaced")
        for x in old:
            v, sup, kids = b.info[id(x)]
            G.want(list(G.show(x)), list(v), f"cleanup of tier {k}: an entry changed", 0.0)
            require(sup is None or x.super_instance is sup, f"cleanup of tier {k}: {v} changed its superset")
        for x in tt:
            if id(x) not in ids:
                same(x.label, "", f"cleanup of tier {k}: label of an added interval")
    xs = list(t)
    for x, y in zip(xs, xs[1:]):
        require(abs(x.end - y.start) < 1e-9, f"cleanup of tier {k}: gap or overlap between {G.show(x)} and {G.show(y)}")
    G.check_group(g, F - {"tiling", "links"}, orphans=True, what=f"after cleanup of tier {k}")
    twice(t, g, "a tier of a group"); rec.step()
    rec.state((scale, k, [t[2:] for t in G.obs_group(g)]))


# ---------------------------------------------------------------- grids

def run_grid(case, rec):
    from aligned_textgrid import AlignedTextGrid, SequenceTier, TierGroup, SequencePointTier, PointsGroup, custom_classes
    gs, scale, pts, ptfirst, delay, how = case
    depth = max(len(g) for g in gs)
    cs = custom_classes(["A", "B", "C", "D"][:depth])
    groups = []
    for k, ts in enumerate(gs):
        groups.append(TierGroup([SequenceTier([c(e) for e in G.entries([tuple(i) for i in t], scale, k=k + j)], c) for j, (c, t) in enumerate(zip(cs, ts))], delay_cleanup=bool(delay)))
    if pts is not None:
        P = custom_classes(["P"], points=[0])[0]
        pg = PointsGroup([SequencePointTier([P(e) for e in G.points(pts, scale)], P)])
        groups.insert(0 if ptfirst else len(groups), pg)
    if how == "list":
        a = AlignedTextGrid(groups)
    else:
        a = AlignedTextGrid()
        for g in groups: a.append(g)
    iv = [g for g in a if not G.is_points(g)]
    lo, hi = float(min(g.xmin for g in iv)), float(max(g.xmax for g in iv))
    b = Before(list(a))
    a.cleanup(); rec.step()
    w = "cleanup of a grid"
    same(len(a), len(groups), w + ": groups")
    for g in a:
        require(any(g is x for x in b.groups), w + ": a group was replaced")
    # fillers of a group reach to the extent of the grid
    b.check(w, lo, hi)
    G.check_grid(a, F)
    twice(a, a, "a grid"); rec.step()
    rec.state((scale, G.obs_values(a)))


def probe_far():
    """9 ms gap at 1000 s."""
    from aligned_textgrid import SequenceTier, Word
    t = SequenceTier([Word((1000.0, 1000.5, "a")), Word((1000.509, 1001.0, "b"))])
    t.cleanup()
    require(all(x.end == y.start for x, y in zip(t, t[1:])), "a tier with a 9 ms gap at 1000 s still has it after cleanup")


PROBES = {"far-gap": ("np.allclose compares with a tolerance relative to the time", probe_far)}


def spaces(tier):
    q = tier == "quick"
    S = []
    P = G.partial_tilings
    def g_int():
        for depth in (1, 2, 3):
            for n in (1, 2, 3, 4, 5):
                for kids in P(n):
                    for sub in ((0, 1) if depth > 2 else (0,)):
                        for sc in G.SCALES:
                            for how in ("loose", "tier") if sc not in ("int", "frac") else ("loose", "tier", "blank", "blank-tier"):
                                if depth == 1 and kids: continue
                                yield [n, depth, kids, sub, sc, how]
    S.append(Space("intervals", "every placement of children in an interval of up to 5 units, depths 1 to 3, five time scales", g_int, run_interval))
    def g_tier():
        for n in (3, 5):
            for ivs in P(n):
                for sc in G.SCALES:
                    for how in ("objs", "reversed", "appended"):
                        yield [ivs, sc, how]
    S.append(Space("tiers", "every tier with gaps on up to 5 units, five time scales", g_tier, run_tier))
    def nested0(n, k):
        """nested tiers, some possibly empty, not all"""
        out = [[p] for p in P(n)]
        for _ in range(k - 1):
            out = [ts + [p] for ts in out for p in P(n) if all(G.nests(u, p) for u in ts)]
        return [ts for ts in out if any(ts)]
    N2, N3, N4 = nested0(2, 2), nested0(3, 2), nested0(4, 2)
    W2, W3 = nested0(2, 3), nested0(3, 3)
    def g_grp(sets, scales, delays, pops):
        def g():
            for ts in sets:
                for sc in scales:
                    for d in delays:
                        for p in pops:
                            yield [ts, sc, d, p]
        return g
    S.append(Space("groups-2", "every nested pair of tiers with gaps or empty on 4 units, grouped with and without delayed cleanup", g_grp(N4, ["int", "frac"], (0, 1), [[]]), run_group))
    S.append(Space("groups-2-pop", "the same on 3 units after popping a lower interval", g_grp(N3, ["int", "off", "neg"], (0, 1), [[0], [1], [2], [1, 0], [0, 0], [1, 1], [2, 1]]), run_group))
    S.append(Space("groups-2-gap", "every nested pair of tiers on 4 units after popping two neighbouring lower intervals", g_grp(N4, ["int"] if q else ["int", "frac"], (0,), [[0, 0], [1, 1], [2, 2]]), run_group))
    S.append(Space("groups-3", "every nested triple of tiers with gaps or empty on 3 units", g_grp(W3, ["int"] if q else list(G.SCALES), (0, 1), [[]] if q else [[], [0], [1]]), run_group))
    def g_gt():
        for ts in nested0(3, 2):
            if not all(ts): continue
            for sc in ("int", "frac"):
                for k in (0, 1):
                    for p in ([], [0], [1], [1, 1]):
                        yield [ts, sc, k, p]
    S.append(Space("tiers-in-groups", "cleaning up one tier of every nested pair on 3 units", g_gt, run_group_tier))
    few = [t for t in N3 if all(t)]
    small = [t for t in N2 if all(t)]
    A, B = (small[::1], few[::4]) if q else (few, few)
    def g_grid():
        for gs in [[x, y] for x in A for y in B] + [[x] for x in few] + [[x, y[:1]] for x in B for y in A] + [[x, y, z] for x in small[::3] for y in B[::5] for z in B[::7]]:
            for pts, first in ((None, 0), ([0, 4], 0), ([1], 1)):
                for d, how in ((0, "list"), (1, "append")):
                    yield [gs, "int", pts, first, d, how]
        for sc in ("off", "frac", "neg"):
            for x in small:
                for y in few[::9]:
                    yield [[x, y], sc, [5], 0, 0, "list"]
    S.append(Space("grids", "grids of one to three groups of different extent, with and without points", g_grid, run_grid))
    S += [s for s in M.edit_spaces(tier, F, menu_of=lambda s: [o for o in M.menu(s) if o[0] in ("cleanup", "tier_pop", "append_group", "shift_g", "fuse_r", "pop_class", "append_top", "interleave")])]
    S.append(Space("large", "groups of tiers of 9 and 18 intervals (three levels: 9, 12, 18; four: 4 to 18) with each interval, its children, or both missing", lambda: ([ts, sc, d, []] for k in (2, 3, 4) for ts in G.large(k) for sc, d in ((("late", 0), ("frac", 1)) if k < 4 else (("long", 0),))), run_group))
    S.append(Space("large-grids", "grids of three such groups with points", lambda: ([[ts, G.large(2)[i % 11], [t[2:9] for t in ts][:1 + i % 2]], "frac", [0, 3, 9, 20], i % 2, i % 2, ("list", "append")[i % 2]] for i, ts in enumerate(G.large(2))), run_grid))
    S.append(Space("huge", "groups of tiers of 128 and 256 intervals with intervals, children or both missing at seven places", lambda: ([ts, sc, i % 2, []] for k in (2, 3) for i, ts in enumerate(G.huge(k)) for sc in (("late", "frac")[i % 2],)), run_group))
    S.append(Space("huge-tiers", "tiers of up to 256 intervals with gaps", lambda: ([t, sc, how] for g in G.huge() for t in g for sc in ("int",) for how in ("objs", "reversed", "appended")), run_tier))
    big = [t[1] for t in G.large(2)] + [t[0] for t in G.large(2)]
    S.append(Space("large-tiers", "tiers of up to 18 intervals with gaps", lambda: ([ivs, sc, how] for ivs in big for sc in ("late", "int") for how in ("objs", "reversed", "appended")), run_tier))
    if not q:
        S.append(Space("groups-3-4", "every nested triple of tiers on 4 units, none empty", g_grp([w for w in nested0(4, 3) if all(w)], ["int"], (0,), [[]]), run_group))
    return S
