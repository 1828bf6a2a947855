"""C16: point tiers and points groups."""
import itertools
from .core import Space, Skip, Violation, require, same
from . import grid as G, tiers as T, machine as M

ASSUMPTIONS = ["no two points of a tier have the same time and label (the library treats them as one)", "points of one time are in any order, which the links then follow", "times are compared exactly, distances with a tolerance of 1e-9"]
F = G.ALL


def check_dist(t):
    xs = list(t)
    for i, p in enumerate(xs):
        f, b = p.fol_distance, p.prev_distance
        if i + 1 < len(xs):
            require(f is not None and abs(f - (xs[i + 1].time - p.time)) < 1e-9, f"fol_distance of {G.show(p)}: {f}, next is {G.show(xs[i+1])}")
        else:
            require(f is None, f"fol_distance of the last point {G.show(p)} is {f}")
        if i:
            require(b is not None and abs(b - (xs[i - 1].time - p.time)) < 1e-9, f"prev_distance of {G.show(p)}: {b}, previous is {G.show(xs[i-1])}")
        else:
            require(b is None, f"prev_distance of the first point {G.show(p)} is {b}")
        require(p.start == p.time, "start of a point")
        for q in xs:
            require(abs(float(p.distance_from(q)) - (p.time - q.time)) < 1e-9, f"distance of {G.show(p)} from {G.show(q)}")


def run_tier(case, rec):
    kind, scale, n, init, how, ops = case
    u = T.TierUni(kind, scale, init, how, n)
    def check():
        u.check(F); check_dist(u.t)
    T.play(u, ops, rec, check)


class PG:
    """A points group in lock-step with a list of sorted lists."""
    def __init__(self, tiers, scale, how="tiers"):
        from aligned_textgrid import SequencePointTier, PointsGroup, custom_classes
        self.cs = custom_classes(["P", "Q", "R", "S"], points=[0, 1, 2, 3])
        self.f = T.TIE.get(scale) or G.SCALES[scale]
        self.tie = scale in T.TIE
        self.m = [[[self.f(t), f"{'pqrs'[i]}{t}"] for t in ts] for i, ts in enumerate(tiers)]
        self.objs = [[c((e[0], e[1])) for e in es] for c, es in zip(self.cs, self.m)]
        ts = [SequencePointTier(list(o), c) for c, o in zip(self.cs, self.objs)]
        for i, t in enumerate(ts): t.name = f"pts - {'pqrs'[i]}"
        for es, os_ in zip(self.m, self.objs):
            pair = sorted(zip(es, os_), key=lambda p: p[0][0])
            es[:] = [p[0] for p in pair]; os_[:] = [p[1] for p in pair]
        if how == "tiers": self.g = PointsGroup(ts)
        elif how == "regroup": self.g = PointsGroup(PointsGroup(ts))
        elif how == "append":
            self.g = PointsGroup(ts[:1])
            for t in ts[1:]: self.g.append(t)
        self.k = 0

    def apply(self, op):
        from aligned_textgrid import SequencePointTier, PointsGroup
        k = op[0]
        if k == "shift":
            self.g.shift(op[1])
            for es in self.m:
                for e in es: e[0] += op[1]
        elif k == "add":            # append a point to tier op[1]
            if op[1] >= len(self.m): raise Skip()
            t = self.f(op[2])
            if not self.tie and any(abs(e[0] - t) < 1e-9 for e in self.m[op[1]]): raise Skip()
            self.k += 1
            p = self.cs[op[1]]((t, f"n{self.k}"))
            self.g[op[1]].append(p)
            self.m[op[1]].append([t, f"n{self.k}"]); self.objs[op[1]].append(p)
            pair = sorted(zip(self.m[op[1]], self.objs[op[1]]), key=lambda q: q[0][0])
            self.m[op[1]] = [q[0] for q in pair]; self.objs[op[1]] = [q[1] for q in pair]
        elif k == "tier":           # append a tier
            i = len(self.m)
            if i > 3: raise Skip()
            es = [[self.f(t), f"{'pqrs'[i]}{t}"] for t in op[1]]
            os_ = [self.cs[i]((e[0], e[1])) for e in es]
            t = SequencePointTier(list(os_), self.cs[i])
            self.g.append(t)
            require(self.g[i] is t, "the appended tier is not in the group")
            pair = sorted(zip(es, os_), key=lambda p: p[0][0])
            self.m.append([p[0] for p in pair]); self.objs.append([p[1] for p in pair])
        elif k == "concat":
            if not all(self.m): raise Skip()
            hi = max(e[0] for es in self.m for e in es)
            new = []
            for i, c in enumerate(self.cs[:len(self.m)]):
                self.k += 1
                new.append([[0.5 + j, f"c{self.k}{j}"] for j in range(op[1])])
            no = [[c((e[0], e[1])) for e in es] for c, es in zip(self.cs, new)]
            self.g.concat(PointsGroup([SequencePointTier(list(o), c) for c, o in zip(self.cs, no)]))
            for i in range(len(self.m)):
                self.m[i] += [[e[0] + hi, e[1]] for e in new[i]]
                self.objs[i] += no[i]
        elif k == "plus":
            if not all(self.m): raise Skip()
            hi = max(e[0] for es in self.m for e in es)
            new = []
            for i in range(len(self.m)):
                self.k += 1
                new.append([[hi + 1 + j, f"a{self.k}{j}"] for j in range(op[1])])
            no = [[c((e[0], e[1])) for e in es] for c, es in zip(self.cs, new)]
            self.g = self.g + PointsGroup([SequencePointTier(list(o), c) for c, o in zip(self.cs, no)])
            for i in range(len(self.m)):
                self.m[i] += new[i]; self.objs[i] += no[i]
        elif k == "re_relate":
            self.g.re_relate()

    def check(self):
        g = self.g
        require(len(g) == len(self.m), f"{len(g)} tiers, expected {len(self.m)}")
        for i, (t, es, os_) in enumerate(zip(g, self.m, self.objs)):
            if self.tie:        # points of one time: take the order found
                at = {id(o): j for j, o in enumerate(t)}
                pair = sorted(zip(es, os_), key=lambda q: (round(q[0][0], 9), at.get(id(q[1]), -1)))
                es[:] = [q[0] for q in pair]; os_[:] = [q[1] for q in pair]
            G.want(G.vals(t), [tuple(e) for e in es], f"points of tier {i}")
            require(G.is_seq(list(t), os_), f"tier {i} does not have the points put in")
            check_dist(t)
        G.check_points_group(g, F)
        es = [e[0] for m in self.m for e in m]
        if es:
            G.want([float(g.xmin), float(g.xmax)], [min(es), max(es)], "extent of the group")
        else:
            require(g.xmin is None and g.xmax is None, "a group without points has an extent")

    def canon(self):
        return [[round(e[0], 6) for e in m] for m in self.m]


def run_group(case, rec):
    tiers, scale, how, ops = case
    u = PG(tiers, scale, how)
    T.play(u, ops, rec, u.check)


def spaces(tier):
    q = tier == "quick"
    sel = [list(c) for r in range(4) for c in itertools.combinations(range(4), r)]
    perm = [list(p) for c in sel for p in itertools.permutations(c)]
    run = run_tier
    menu = [["shift", 1.5], ["shift", -2], ["add", 0, 9], ["add", 0, -1], ["add", 1, 1], ["add", 1, 2], ["tier", [2, 0]], ["tier", []], ["concat", 1], ["concat", 2], ["plus", 1], ["plus", 2], ["re_relate"]]
    def g1():
        for a in perm:
            yield [[a], "int", "tiers", []]
        for a in sel:
            for b in sel:
                for sc in ("int", "neg", "frac", "whole"):
                    for h in ("tiers", "regroup", "append"):
                        yield [[a, b], sc, h, []]
    def g2():
        for ts in [[a] for a in ([], [0], [2, 0], [1, 3, 0])] + [[a, b] for a in ([], [0], [3, 1]) for b in ([], [2], [0, 3, 1])] + [[[0, 1], [2], [3, 0]]]:
            for sc in ("int", "neg", "whole"):
                for ops in itertools.product(menu, repeat=2):
                    yield [ts, sc, "tiers", [list(o) for o in ops]]
    def g3():
        for ts in ([[0]], [[3, 1], [2]]):
            for ops in itertools.product(menu, repeat=3):
                yield [ts, "int", "tiers", [list(o) for o in ops]]
    S = [Space("build", "point tiers of up to 4 points given in every order, built in 6 ways; 4 time scales", T.gen_tier(["tier-P"], list(T.SC), T.inits(), T.TH, 0), run),
         Space("tier-1", "every operation on every point tier of up to 4 points", T.gen_tier(["tier-P"], list(T.SC), T.inits(4, False), T.TH, 1), run),
         Space("tier-2", "every pair of operations", T.gen_tier(["tier-P"], ["int", "neg"], T.inits(4, False), ["objs", "raw"], 2), run),
         Space("tier-3", "every triple of operations from 3 tiers", T.gen_tier(["tier-P"], ["int"], [[], [1], [2, 0]], ["objs"], 3), run),
         Space("groups", "points groups of up to two tiers with every selection of times, built in 3 ways at 4 scales", g1, run_group),
         Space("groups-2", "every pair of operations on points groups (shift, append points and tiers, concatenate, add)", g2, run_group)]
    big = [list(range(14)), list(range(14))[::-1], [3, 1, 4, 15, 9, 2, 6, 5, 35, 8, 97, 93], list(range(0, 30, 2)) + [1, 3]]
    S.append(Space("large", "tiers of up to 13 points in several orders, with points missing, then every operation", T.gen_big(["tier-P"], ["frac", "int"], ["objs", "raw", "praatio"]), run))
    S.append(Space("huge", "tiers of up to 130 points, then operations at eight places", T.gen_big(["tier-P"], ["frac", "int"], ["objs", "raw", "praatio"], n=130), run))
    S.append(Space("large-groups", "points groups of up to four tiers of up to 17 points, then every operation or pair of operations", lambda: ([[big[i % 4] for i in range(j, j + n)], "frac", h, [list(o) for o in ops]] for j in range(4) for n in (1, 2, 4) for h in ("tiers", "append") for d in (0, 1, 2) for ops in itertools.product(menu, repeat=d) if d < 2 or h == "tiers" and j == 0), run_group))
    S.append(Space("ties", "point tiers in which two or all points are at one time, in every order, built in 6 ways, then every operation or pair of operations",
                   lambda: (c for g in (T.gen_tier(["tier-P"], list(T.TIE), T.inits(), T.TH, 1), T.gen_tier(["tier-P"], list(T.TIE), T.inits(4, False), ["objs"], 2)) for c in g()), run))
    S.append(Space("tie-groups", "points groups in which points of a tier share their time, then every operation or pair of operations",
                   lambda: ([ts, sc, h, [list(o) for o in ops]] for ts in ([[3, 0, 1, 2]], [[1, 2], [2, 1, 0]], [[0], [2, 1, 3]], [[], [1, 2]]) for sc in T.TIE for h in ("tiers", "regroup", "append") for d in (0, 1, 2) for ops in itertools.product(menu, repeat=d)), run_group))
    S += [Space("in-grids", "every edit of grids with points", M.gen_machine(["pts", "many"], M.HOWS, 1 if q else 2), lambda c, r: M.run_machine(c, r, F))]
    if not q:
        S.append(Space("groups-3", "every triple of operations on points groups", g3, run_group))
        S.append(Space("tier-3-all", "every triple of operations from 4 tiers", T.gen_tier(["tier-P"], ["neg", "frac"], [[], [0], [1, 3], [0, 1, 2, 3]], ["objs", "praatio"], 3), run))
    return S
