"""C21: concatenation of lists, tiers and groups."""
import itertools
from .core import Space, Skip, Violation, require, same
from . import grid as G, tiers as T, machine as M, c05

ASSUMPTIONS = ["times are compared with a tolerance of 1e-9", "the operands are different objects that share no entries",
               "no right-hand point at time 0 repeats the label of the left operand's last point (equal entries count as one entry)",
               "tiers concatenated on their own are in no group (the lower tiers of a grouped tier are the group's business: groups are concatenated with the group's concat)"]


def at(scale, k):
    """The scale of the k-th operand: "l>r" for a left operand at another one (operands to the right start at or after 0)."""
    return scale if ">" not in scale else scale.split(">")[min(k, 1)]


def vals(xs):
    return [G.show(x) for x in xs]


def moved(vs, inc):
    return [tuple([v + inc for v in e[:-1]] + [e[-1]]) for e in vs]


def run_list(case, rec):
    """A chain of lists or tiers."""
    from aligned_textgrid import SequenceTier, SequencePointTier, custom_classes, SequenceInterval, SequencePoint
    from aligned_textgrid.sequence_list import SequenceList
    kind, iv, parts, scale, cast = case
    A, = custom_classes(["A"]); P, = custom_classes(["P"], points=[0])
    from aligned_textgrid.custom_classes import clone_class
    c = A if iv else P
    d = clone_class(c) if cast is True else c
    lc = clone_class(c) if cast == "left" else c        # the class of the left operand
    Tr = SequenceTier if iv else SequencePointTier
    n = 0
    def mk(cls, part, sc):
        nonlocal n
        out = []
        es = G.entries([tuple(i) for i in part], sc) if iv else G.points(part, sc)
        for e in es:
            n += 1
            out.append(cls(tuple(list(e[:-1]) + [e[-1] + str(n)])))
        return out
    def wrap(xs, cls):
        if kind == "list": return SequenceList(*xs)
        if kind == "plain": return list(xs)
        return Tr(list(xs), cls)
    objs = mk(lc, parts[0], at(scale, 0))
    L = SequenceList(*objs) if kind in ("list", "plain") else Tr(list(objs), lc)
    grid = None
    if cast == "grid":
        from aligned_textgrid import AlignedTextGrid, TierGroup, PointsGroup
        if kind != "tier": raise Skip()
        grid = AlignedTextGrid([(TierGroup if iv else PointsGroup)([L])])
        L, objs, lc = grid[0][0], list(grid[0][0]), grid[0][0].entry_class
    objs = sorted(objs, key=lambda x: G.show(x)[0])
    for part in parts[1:]:
        new = mk(d, part, at(scale, 1))
        R = wrap(new, d)
        new = sorted(new, key=lambda x: G.show(x)[0])
        left, right = vals(objs), vals(new)
        end = max([v[1] if iv else v[0] for v in left], default=0)
        L.concat(R); rec.step()
        w = f"{kind}: {left} concatenated with {right}"
        require(G.is_seq(list(L), objs + new), f"{w}: got {vals(L)}, not the entries of both in order")
        G.want(vals(L), left + moved(right, end), w)
        for x in L: require(type(x) is lc, f"{w}: {G.show(x)} is a {type(x)}")
        same([float(x) for x in (L.starts if iv else (L.starts if kind in ("list", "plain") else L.times))], [float(G.show(x)[0]) for x in L], w + ": starts")
        if kind == "tier":
            if grid is None: G.check_standalone(L, G.ALL, w)
            else: G.check_grid(grid, G.ALL - {"tiling"})
        objs = objs + new
        rec.state((case[0], vals(L)))


def tree_tier(ts, scale, cs, tag):
    """A standalone top tier whose intervals have descendants."""
    from aligned_textgrid import SequenceTier
    rows = [[c(tuple(list(e[:-1]) + [e[-1] + tag])) for e in G.entries([tuple(i) for i in t], scale)] for c, t in zip(cs, ts)]
    for up, low in zip(rows, rows[1:]):
        for u in up:
            for l in low:
                if u.start - 1e-9 <= l.start and l.end <= u.end + 1e-9: u.append(l)
    return rows


def run_trees(case, rec):
    """Tiers and lists of intervals with children: the children move along, once."""
    from aligned_textgrid import SequenceTier, custom_classes
    from aligned_textgrid.sequence_list import SequenceList
    kind, a, b, scale = case
    cs = custom_classes(["A", "B", "C"])
    ra, rb = tree_tier(a, at(scale, 0), cs, "l"), tree_tier(b, at(scale, 1), cs, "r")
    allv = [[vals(r) for r in ra], [vals(r) for r in rb]]
    par = {id(x): x.super_instance for rows in (ra, rb) for r in rows for x in r}
    kids = {id(x): list(x.subset_list) for rows in (ra, rb) for r in rows for x in r}
    mk = (lambda xs: SequenceTier(list(xs), cs[0])) if kind == "tier" else (lambda xs: SequenceList(*xs))
    L, R = mk(ra[0]), mk(rb[0])
    end = max([v[1] for v in allv[0][0]], default=0)
    L.concat(R); rec.step()
    w = f"{kind}: {allv[0]} concatenated with {allv[1]}"
    require(G.is_seq(list(L), ra[0] + rb[0]), f"{w}: entries")
    for r, v in zip(ra, allv[0]): G.want(vals(r), v, w + ": left entries")
    for i, (r, v) in enumerate(zip(rb, allv[1])):
        inset = [x for x in r if i == 0 or root(x, rb[0])]
        G.want(vals(inset), [m for m, x in zip(moved(v, end), r) if any(x is y for y in inset)], w + f": right entries, level {i}")
    for rows in (ra, rb):
        for r in rows:
            for x in r:
                require(x.super_instance is par[id(x)], f"{w}: superset of {G.show(x)}")
                require(G.is_seq(list(x.subset_list), kids[id(x)]), f"{w}: children of {G.show(x)}")
    if kind == "tier": G.check_standalone(L, G.ALL - {"tiling"}, w)
    rec.state((vals(L), kind))


def root(x, tops):
    while x.super_instance is not None: x = x.super_instance
    return any(x is t for t in tops)


def run_group(case, rec):
    from aligned_textgrid import SequenceTier, TierGroup, custom_classes, AlignedTextGrid
    parts, scale, where, clean = case
    k = max(len(p) for p in parts)
    cs = custom_classes(["A", "B", "C"][:k])
    def mk(p, tag, sc):
        ts = [SequenceTier([c(tuple(list(e[:-1]) + [e[-1] + tag if e[-1] else ""])) for e in G.entries([tuple(i) for i in t], sc, k=2 * j)], c) for j, (c, t) in enumerate(zip(cs, p))]
        g = TierGroup(ts)
        if clean: g.cleanup()
        return g
    L = mk(parts[0], "l", at(scale, 0))
    grid = None
    if where == "grid":
        grid = AlignedTextGrid([L, mk(parts[0], "o", at(scale, 0))])
        other = G.Snap(grid[1])
    name = L.name
    for n, p in enumerate(parts[1:]):
        R = mk(p, "r" + str(n), at(scale, 1))
        lo, ro = [list(t) for t in L], [list(t) for t in R]
        lv, rv = [vals(t) for t in lo], [vals(t) for t in ro]
        sup = {id(x): x.super_instance for t in lo + ro for x in t}
        end = max([v[1] for t in lv for v in t], default=0)
        L.concat(R); rec.step()
        w = f"group {lv} concatenated with {rv}"
        orph = any(x.super_instance is None for g in (lo, ro) for t in g[1:] for x in t)
        for i, t in enumerate(L):
            now = list(t)
            ids = {id(x) for x in lo[i] + ro[i]}
            require(G.is_seq([x for x in now if id(x) in ids], lo[i] + ro[i]), f"{w}: tier {i} has {vals(now)}: entries were lost, replaced or reordered")
            G.want(vals([x for x in now if id(x) in ids]), lv[i] + moved(rv[i], end), f"{w}: tier {i}")
            extra = [x for x in now if id(x) not in ids]
            require(not extra or i and (not lo[i] or not ro[i]) and all(x.label == "" for x in extra), f"{w}: tier {i} also has {vals(extra)}")
            if i:
                for x in now:
                    if id(x) in ids: require(x.super_instance is sup[id(x)], f"{w}: the superset of {G.show(x)} is {G.show(x.super_instance)}")
        G.check_group(L, G.ALL - {"tiling"}, orphans=orph, what=w)
        same(L.name, name, "name of the group")
        if clean and scale in ("int", "whole") and all(p[0][0][0] == 0 for p in parts[1:]):
            G.check_tiling(L, w)
        rec.state(("g", [vals(t) for t in L]))
    if grid is not None:
        other.unchanged("concatenating to another group")
        G.check_grid(grid, G.ALL - {"tiling"}, orphans=orph)


def run_points(case, rec):
    from aligned_textgrid import SequencePointTier, PointsGroup, custom_classes
    parts, scale = case
    cs = custom_classes(["P", "Q"], points=[0, 1])[:len(parts[0])]
    def mk(p, tag, sc):
        return PointsGroup([SequencePointTier([c((e[0], e[1] + tag)) for e in G.points(t, sc)], c) for c, t in zip(cs, p)])
    L = mk(parts[0], "l", at(scale, 0))
    for n, p in enumerate(parts[1:]):
        R = mk(p, "r" + str(n), at(scale, 1))
        lo, ro = [list(t) for t in L], [list(t) for t in R]
        lv, rv = [vals(t) for t in lo], [vals(t) for t in ro]
        end = max([v[0] for t in lv for v in t], default=0)
        L.concat(R); rec.step()
        w = f"points group {lv} concatenated with {rv}"
        for i, t in enumerate(L):
            exp = sorted(zip(lv[i] + moved(rv[i], end), lo[i] + ro[i]), key=lambda q: q[0][0])
            G.want(vals(t), [e[0] for e in exp], w)
            require(G.is_seq(list(t), [e[1] for e in exp]), f"{w}: the points are not the ones given")
        G.check_points_group(L, G.ALL, w)
        rec.state(("p", [vals(t) for t in L]))


def run_refuse(case, rec):
    """Operands that do not match are refused and nothing changes."""
    from aligned_textgrid import SequenceTier, TierGroup, custom_classes, SequencePointTier, PointsGroup
    a, b, op = case
    cs = dict(zip("ABC", custom_classes(["A", "B", "C"])))
    other = dict(zip("XY", custom_classes(["X", "Y"])))
    cs.update(other)
    pc = dict(zip("PQ", custom_classes(["P", "Q"], points=[0, 1])))
    def mk(names):
        if names[0] in pc: return PointsGroup([SequencePointTier([pc[n]((0.5, "p"))], pc[n]) for n in names])
        return TierGroup([SequenceTier([cs[n]((0.0, 1.0, "x")), cs[n]((1.0, 2.0, "y"))], cs[n]) for n in names])
    x, y = mk(a), mk(b)
    if op.startswith("tier"): x, y = x[0], y[0]
    s = G.Snap(x, y)
    try:
        x.concat(y) if op.endswith("concat") else x + y
    except Exception:
        rec.step(); s.unchanged(f"{op} of {a} and {b} was refused"); return
    raise Violation(f"{op} of {a} and {b} was not refused")


def spaces(tier):
    q = tier == "quick"
    sel = [[list(i) for i in t] for t in G.partial_tilings(3)]
    psel = [list(c) for r in range(3) for c in itertools.combinations(range(3), r)]
    off = [[[1, 2], [2, 3]], [[0, 1]], [], [[2, 3]], [[0, 2], [2, 3]]]
    def g1():
        for kind in ("list", "plain", "tier"):
            for sc in ("int", "frac", "off", "whole"):
                for a in sel:
                    for b in sel:
                        if q and sc in ("off", "frac") and (len(a) > 2 or len(b) > 2): continue
                        yield [kind, True, [a, b], sc, (len(a) + len(b)) % 2 == 1 and kind != "plain" and bool(a)]
                for a in psel:
                    for b in psel:
                        yield [kind, False, [a, b], sc, False]
                for ch in itertools.product(off, repeat=3):
                    yield [kind, True, list(ch), sc, False]
    def g2():
        for kind in ("list", "tier"):
            for sc in ("int", "frac", "whole"):
                N = c05.nested(3, 2)
                for a in N[::3] if q else N:
                    for b in N:
                        yield [kind, a, b, sc]
                for a in ([[[0, 3]], [[0, 1], [1, 3]], [[0, 1], [1, 2], [2, 3]]], [[[1, 2]], [[1, 2]], [[1, 2]]]):
                    for b in ([[[0, 3]], [[0, 1], [1, 3]], [[0, 1], [1, 2], [2, 3]]], [[[1, 2], [2, 4]], [[1, 2], [2, 3], [3, 4]], [[2, 3]]]):
                        yield [kind, a, b, sc]
    G2 = [[[[0, 2], [2, 3]], [[0, 1], [1, 2], [2, 3]]], [[[0, 1]], [[0, 1]]], [[[1, 3]], [[1, 2], [2, 3]]], [[[0, 1], [2, 3]], [[0, 1], [2, 3]]], [[[0, 2]], [[0, 1]]], [[[0, 1], [1, 2]], [[0, 1]]], [[[0, 1]], [[0, 1], [1, 2]]], [[], []], [[[0, 1]], []]]
    G3 = [[[[0, 3]], [[0, 1], [1, 3]], [[0, 1], [1, 2], [2, 3]]], [[[1, 2], [2, 4]], [[1, 2], [2, 3], [3, 4]], [[1, 2], [2, 3], [3, 4]]], [[[0, 1]], [[0, 1]], [[0, 1]]]]
    def g3():
        N1, N = c05.nested(3, 1), c05.nested(3, 2)
        for sc in ("int", "frac"):
            for a in N1:
                for b in N1:
                    yield [[a, b], sc, "bare", 0]
            for a in (N[::4] if q else N):
                for b in (N[::2] if q else N):
                    yield [[a, b], sc, "bare", 0]
        for sc in ("int", "frac", "whole", "off"):
            for wh in ("bare", "grid"):
                for cl in (0, 1):
                    for a in G2:
                        for b in G2:
                            if cl and not all(t for t in a + b): continue
                            if wh == "grid" and not a[0]: continue
                            yield [[a, b], sc, wh, cl]
                    for a in G3:
                        for b in G3:
                            yield [[a, b], sc, wh, cl]
        for ch in itertools.product(G2[:4], repeat=3):
            yield [list(ch), "int", "bare", 0]
            yield [list(ch), "int", "grid", 1]
    def g4():
        for sc in ("int", "frac", "whole"):
            for a in psel:
                for b in psel:
                    yield [[[a], [b]], sc]
                    for c in psel:
                        for d in ([], [1], [0, 2]):
                            yield [[[a, c], [b, d]], sc]
            for ch in itertools.product([[[0, 2], [1]], [[1], []], [[2], [0]]], repeat=3):
                yield [list(ch), sc]
    def g5():
        for a, b in (("AB", "A"), ("A", "AB"), ("AB", "XY"), ("ABC", "AB"), ("A", "X"), ("A", "P"), ("P", "A"), ("PQ", "P"), ("P", "Q"), ("AB", "PQ")):
            for op in ("group-concat", "group-add"):
                yield [a, b, op]
        for a, b in (("A", "B"), ("A", "X"), ("P", "Q"), ("A", "P"), ("P", "A")):
            for op in ("tier-concat", "tier-add"):
                yield [a, b, op]
    L2, L3 = G.large(2), G.large(3)
    def g6():
        for i, a in enumerate(L2):
            yield [[a, L2[0]], "frac", ("bare", "grid")[i % 2], 0]
            yield [[L2[0], a], "late" if False else "long", ("bare", "grid")[i % 2], i % 2]
            if i % 5 == 0: yield [[a, L2[i // 5], L2[-1 - i]], "int", "bare", 0]
        for i, a in enumerate(L3[::3]): yield [[a, L3[0]], "frac", ("bare", "grid")[i % 2], 0]
    def g7():
        for i, a in enumerate(L2):
            for kind in ("list", "tier"): yield [kind, a, L2[-1 - i], "frac"]
    def g8():
        for i, a in enumerate(L2):
            for kind in ("list", "plain", "tier"):
                yield [kind, True, [a[1], L2[-1 - i][1], a[0]], "frac", False]
                yield [kind, False, [list(range(1, 18, 1 + i % 3)), [k for k in range(1, 15) if k % 7 != i % 7]], "long", False]
    def g9():
        for i in range(12):
            yield [[[list(range(1, 19)), [k for k in range(1, 19) if k % 4 != i % 4]], [[k for k in range(1, 19) if k != i], list(range(2, 14, 1 + i % 3))]], ("int", "frac")[i % 2]]
    H2 = G.huge()
    def h6():
        for i, a in enumerate(H2[::2]): yield [[[a, H2[0]], [L2[1], a], [a, L2[2]]][i % 3], ("frac", "int")[i % 2], ("bare", "grid")[i % 2], i % 2]
    def h7():
        for i, a in enumerate(H2[::3]):
            for kind in ("list", "tier"): yield [kind, a, L2[i] if i % 2 else H2[-1 - i], "frac"]
    def h8():
        for i, a in enumerate(H2[::2]):
            for kind in ("list", "plain", "tier"):
                yield [kind, True, [a[1], L2[i][1], a[0]] if i % 2 else [L2[i][0], a[1], L2[i][1]], "frac", False]
                yield [kind, False, [list(range(1, 131)), [k for k in range(1, 15) if k % 7 != i % 7]][::1 - 2 * (i % 2)], "long", False]
    def h9():
        for i in range(4): yield [[[list(range(1, 131)), list(range(1, 101 + i))], [[k for k in range(1, 19) if k != i], list(range(2, 130))]], ("int", "frac")[i % 2]]
    NG = ["neg3>int", "neg9>off", "negf>int"]
    def g10():
        for sc in NG:
            for kind in ("list", "plain", "tier"):
                for a in sel:
                    for b in sel: yield [kind, True, [a, b], sc, False]
                for a in psel:
                    for b in psel: yield [kind, False, [a, b], sc, False]
                for ch in itertools.product(off, repeat=3): yield [kind, True, list(ch), sc, False]
    def g11():
        for sc in NG:
            for kind in ("list", "tier"):
                for a in c05.nested(2, 2):
                    for b in c05.nested(2, 2): yield [kind, a, b, sc]
    def g12():
        for sc in NG:
            for wh in ("bare", "grid"):
                for GG in (G2[:4], G3):
                    for a in GG:
                        for b in GG: yield [[a, b], sc, wh, 0]
            for ch in itertools.product(G2[:3], repeat=3): yield [list(ch), sc, "bare", 0]
    def g13():
        for sc in NG:
            for a in psel:
                for b in psel:
                    yield [[[a], [b]], sc]
                    for c in psel:
                        for d in ([], [1], [0, 2]): yield [[[a, c], [b, d]], sc]
    def g14():
        for cast in ("left", True, "grid"):
            for kind in ("list", "plain", "tier"):
                if cast == "grid" and kind != "tier": continue
                for sc in ("int", "frac"):
                    for iv, S_ in ((True, sel), (False, psel)):
                        for a in S_:
                            for b in S_:
                                if a: yield [kind, iv, [a, b], sc, cast]
    ovs = [[list(i) for i in c] for n in (1, 2, 3) for c in itertools.combinations([(s, e) for s in range(4) for e in range(s + 1, 5)], n) if all(a[0] < b[0] for a, b in zip(c, c[1:]))]
    def g15():
        for sc in ("int", "frac"):
            for a in ovs:
                for b in ovs[::7] if q else ovs:
                    for kind in ("list", "plain", "tier"): yield [kind, True, [a, b], sc, False]
                    yield [[[a], [b]], sc, ("bare", "grid")[len(a) % 2], 0]
                for b in ovs[::11]: yield ["tier", True, [a, b, ovs[-1]], sc, True]
    def run_over(case, rec): return run_list(case, rec) if len(case) == 5 else run_group(case, rec)
    N = "the same with a left operand that ends at or before 0"
    return [Space("overlapping", "lists, tiers and one-tier groups of up to three intervals over [0,4] that may overlap or contain one another", g15, run_over), Space("cast", "pairs of lists, plain lists and tiers where one side is of a class derived from the other's, or the left one is in a grid", g14, run_list), Space("neg-flat", N, g10, run_list), Space("neg-trees", N, g11, run_trees), Space("neg-groups", N, g12, run_group), Space("neg-points", N, g13, run_points),
            Space("large-groups", "groups with tiers of 9 and 18 intervals with intervals missing", g6, run_group), Space("large-trees", "such tiers on their own, with their children", g7, run_trees),
            Space("large-flat", "lists and tiers of up to 18 entries, chains of three", g8, run_list), Space("large-points", "points groups with up to 18 points per tier", g9, run_points),
            Space("huge-groups", "groups with tiers of up to 256 intervals", h6, run_group), Space("huge-trees", "tiers of 128 intervals with their children", h7, run_trees), Space("huge-flat", "lists and tiers of up to 256 entries", h8, run_list), Space("huge-points", "points groups of up to 130 points per tier", h9, run_points),
            Space("flat", "every pair (and chains of three) of lists, plain lists and tiers of intervals over [0,3] or of points, at 4 time scales", g1, run_list),
            Space("trees", "every pair of standalone tiers and lists of intervals with children", g2, run_trees),
            Space("groups", "pairs of interval groups of one to three tiers, bare or in a grid, cleaned up or not; chains of three", g3, run_group),
            Space("points", "pairs and chains of points groups", g4, run_points),
            Space("refusals", "operands whose classes or numbers of tiers do not match", g5, run_refuse)]
