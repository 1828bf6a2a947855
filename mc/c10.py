"""C10: looking up times."""
from .core import Space, Skip, require, same, Violation
from . import grid as G, machine as M, c05
import itertools
ASSUMPTIONS = ["intervals of a tier do not overlap", "among several nearest points any one is accepted"]


def queries(bounds):
    bs = sorted(set(float(b) for b in bounds))
    if not bs:
        return [-1.0, 0.0, 0, 1.5]
    q = [bs[0] - 1.0, bs[0] - 1e-6]
    for a, b in zip(bs, bs[1:]):
        q += [a, a + (b - a) * 0.3, (a + b) / 2, b - (b - a) * 1e-3]
    return q + [bs[-1], bs[-1] + 1e-6, bs[-1] + 2.0] + ([int(b) for b in bs if b == int(b)])


def covering(ents, t):
    hit = [i for i, e in enumerate(ents) if e[0] <= t < e[1]]
    return hit[0] if hit else None


def is_index(got, exp, what):
    require((got is None) == (exp is None) and (got is None or (got == exp and int(got) == got)), f"{what}: got {got!r}, expected {exp!r}")


def nearest_ok(ents, t, got, what):
    if not ents:
        require(got is None, f"{what}: got {got!r} in an empty tier")
        return
    require(got is not None and 0 <= int(got) < len(ents) and int(got) == got, f"{what}: got {got!r}")
    d = [abs(e[0] - t) for e in ents]
    require(d[int(got)] <= min(d) + 1e-12, f"{what}: got the point at {ents[int(got)]}, but {ents[d.index(min(d))]} is nearer")


def tier_lookup(t, times, what, rec):
    from aligned_textgrid import SequencePoint, SequenceInterval
    ents = G.vals(t)
    for q in times:
        rec.step()
        w = f"{what} {ents} at {q!r}"
        if G.is_point_tier(t):
            i = t.get_nearest_point_index(q)
            nearest_ok(ents, q, i, w)
            p = t.get_nearest_point(q)
            if ents:
                require(any(p is x for x in t), w + ": the nearest point is not on the tier")
                nearest_ok(ents, q, list(t).index(p) if False else next(k for k, x in enumerate(t) if x is p), w)
            else:
                require(p is None, w + ": a nearest point in an empty tier")
        else:
            exp = covering(ents, q)
            is_index(t.get_interval_at_time(q), exp, w)
            if exp is not None:
                require(t[t.get_interval_at_time(q)] is list(t)[exp], w + ": indexing with the result")
            pt = SequencePoint((q, "p"))
            is_index(pt.get_interval_index_at_time(t), exp, w + ": interval index of a point")
            x = pt.get_interval_at_point(t)
            require(x is (None if exp is None else list(t)[exp]), w + f": interval of a point is {G.show(x)}")
    rec.state((what, ents))


def run_tier(case, rec):
    from aligned_textgrid import SequenceTier, Word
    ivs, scale = case
    ents = G.entries([tuple(i) for i in ivs], scale)
    t = SequenceTier([Word(e) for e in ents], Word)
    f = G.SCALES[scale]
    tier_lookup(t, queries([f(i) for i in range(7)] + [v for e in ents for v in e[:2]]), "tier", rec)


def run_points(case, rec):
    from aligned_textgrid import SequencePointTier, SequencePoint
    ts, scale = case
    ents = G.points(ts, scale)
    t = SequencePointTier([SequencePoint(e) for e in ents], SequencePoint)
    f = G.SCALES[scale]
    tier_lookup(t, queries([f(i) for i in range(7)]), "point tier", rec)


def check_grid(a, times, rec):
    gs = list(a)
    for q in times:
        rec.step()
        res = a.get_intervals_at_time(q)
        same(len(res), len(gs), f"lookup of {q} in a grid: groups")
        for gi, g in enumerate(gs):
            r = g.get_intervals_at_time(q)
            w = f"lookup of {q} in group {gi}"
            same(len(r), len(g), w + ": tiers")
            same([None if v is None else int(v) for v in res[gi]], [None if v is None else int(v) for v in r], w + ": grid and group")
            for ti, t in enumerate(g):
                ents = G.vals(t)
                if G.is_points(g):
                    nearest_ok(ents, q, r[ti], w + f" tier {ti}")
                else:
                    is_index(r[ti], covering(ents, q), w + f" tier {ti} {ents}")
            if all(v is not None for v in r):
                e = g[r]
                require(G.is_seq(e, [list(t)[int(i)] for t, i in zip(g, r)]), w + ": indexing the group with the result")
            else:           # nothing in a tier: no entry of that tier may come out
                try: e = g[[None if v is None else int(v) for v in r]]
                except Exception: e = None
                require(e is None or all(hasattr(x, "entry_class") <= (i is not None) for x, i in zip(e, r)), w + f": indexing the group with {r} gave {[G.show(x) for x in e or []]}")
            if G.is_points(g):
                same([None if v is None else int(v) for v in g.get_nearest_points_index(q)], [None if v is None else int(v) for v in r], w + ": nearest points")
        if all(v is not None for r in res for v in r):
            e = a[res]
            require(len(e) == len(gs) and all(G.is_seq(x, [list(t)[int(i)] for t, i in zip(g, r)]) for x, g, r in zip(e, gs, res)), f"indexing the grid with the lookup of {q}")


def run_grid(case, rec):
    a, _ = c05.build(**case)
    check_grid(a, queries([v for g in a for t in g for e in G.vals(t) for v in e[:-1]]), rec)
    rec.state(G.obs_values(a))


def run_loose(case, rec):
    """Groups with gaps (no cleanup), and nothing covering."""
    from aligned_textgrid import SequenceTier, TierGroup, AlignedTextGrid, custom_classes, PointsGroup, SequencePointTier
    ts, us, pts, scale = case
    cs = custom_classes(["A", "B"])
    mk = lambda ts: TierGroup([SequenceTier([c(e) for e in G.entries([tuple(i) for i in t], scale)], c) for c, t in zip(cs, ts)])
    P = custom_classes(["P"], points=[0])[0]
    a = AlignedTextGrid([mk(ts), PointsGroup([SequencePointTier([P(e) for e in G.points(pts, scale)], P)]), mk(us)])
    check_grid(a, queries([v for g in a for t in g for e in G.vals(t) for v in e[:-1]]), rec)
    rec.state(G.obs_values(a))


def run_dist(case, rec):
    from aligned_textgrid import SequencePoint, Word
    import numpy as np
    p, q, s, e = case
    rec.step(2)
    a, b = SequencePoint((p, "a")), SequencePoint((q, "b"))
    d = a.distance_from(b)
    require(abs(float(d) - (p - q)) < 1e-12, f"distance of a point at {p} from one at {q}: {d}")
    w = Word((s, e, "w"))
    d = a.distance_from(w)
    require(len(d) == 2 and abs(float(d[0]) - (p - s)) < 1e-12 and abs(float(d[1]) - (p - e)) < 1e-12, f"distance of a point at {p} from {(s, e)}: {d}")
    rec.state(case)


def run_edit(case, rec):
    seed, how, ops = case
    m = M.Machine(seed, how)
    for o in ops:
        m.apply(o); rec.step()
    if not m.model: raise Skip()
    check_grid(m.a, queries([v for g in m.a for t in g for e in G.vals(t) for v in e[:-1]]), rec)
    rec.state(m.canon())


def spaces(tier):
    q = tier == "quick"
    n = 6
    P = G.partial_tilings(n)
    S = [Space("tiers", "every tier with gaps on 6 units at six time scales; queries at, just before, between, before and after all boundaries", lambda: ([p, sc] for p in P for sc in (G.SCALES if not q else ["int", "whole", "frac", "neg"])), run_tier),
         Space("point-tiers", "every set of up to four points on 6 units at six time scales", lambda: ([list(t), sc] for k in range(5) for t in itertools.combinations(range(7), k) for sc in G.SCALES), run_points),
         Space("tied-points", "every point tier of two to four points of which some are at one time", lambda: ([list(t), sc] for k in (2, 3, 4) for t in itertools.combinations_with_replacement(range(5), k) if len(set(t)) < k and all(t.count(x) < 3 for x in t) for sc in G.SCALES), run_points)]
    N2, N3 = c05.nested(2, 2), c05.nested(3, 2)
    S.append(Space("grids", "grids of one or two groups with and without points", c05.product(kind=["wp"], gs=[[g] for g in N3] + [[g, h] for g in N2[::2] for h in N2[::3]] + [[g, [h[0]]] for g in N2[::3] for h in N2[::3]], scale=["int", "frac", "neg"], how=["object"], pts=[None, [[0, 2]], [[1], [0, 3]]], ptpos=["last", "first"], layout=["nested"]), run_grid))
    few = N2[::2]
    S.append(Space("gaps", "grids of groups with gaps between them", lambda: ([x, y, p, sc] for x in few for y in few for p in ([], [1], [0, 3]) for sc in ("int", "off", "neg")), run_loose))
    vals = [-1.5, 0, 0.0, 0.25, 1, 3.07]
    S.append(Space("distances", "every pair of points and every point and interval over 6 times", lambda: ([p, r, s, e] for p in vals for r in vals for s in vals for e in vals if e > s), run_dist))
    S.append(Space("edited", "lookup after every edit of the seed grids", lambda: ([s, h, [o]] for s in M.SEEDS for h in (["tg"] if q else M.HOWS) for o in M.menu(s)), run_edit))
    big = [t for g in G.large(2) for t in g]
    S.append(Space("large", "tiers of up to 18 intervals with gaps, point tiers of up to 19 points", lambda: ([t, sc] for t in big for sc in ("late", "frac", "whole")), run_tier))
    S.append(Space("huge", "tiers of up to 256 intervals with gaps", lambda: ([t, sc] for g in G.huge() for t in g for sc in ("frac", "whole")), run_tier))
    S.append(Space("huge-points", "point tiers of 130 points with one missing", lambda: ([[i for i in range(130) if i != k], sc] for k in (*G.HUGE, 129) for sc in ("frac", "neg")), run_points))
    S.append(Space("large-points", "point tiers of up to 19 points", lambda: ([[i for i in range(19) if i != k and i % m != 1], sc] for k in range(20) for m in (2, 3, 30) for sc in ("late", "frac", "neg")), run_points))
    S.append(Space("large-grids", "lookup in " + M.BIG_NOTE + " after some edits", lambda: ([s, h, [o]] for s in M.BIG for h in ("tg", "append") for o in (["cleanup"], ["shift", 2.0], ["fuse_r", 0, 1, 3], ["interleave", "New", "above", "Word", "below", True], ["pickle"])), run_edit))
    if not q:
        P7 = G.partial_tilings(7)
        S.append(Space("tiers-7", "every tier with gaps on 7 units", lambda: ([p, sc] for p in P7 for sc in ("int", "frac")), run_tier))
    return S
