"""C14: data frames."""
import itertools
from .core import Space, Skip, Violation, require, same
from . import grid as G, machine as M, c05

ASSUMPTIONS = ["columns beyond the documented ones are ignored",
               "with subsets, lower-tier intervals without a superset are outside the domain (grids read or cleaned up have none)"]


def attrs(x):
    d = {"id": x.id, "tier_index": x.tier_index, "label": x.label, "start": x.start}
    if hasattr(x, "end"):
        d["end"] = x.end
    return d


def leaf_rows(x, subsets=True, path=()):
    """One row per lowest-level descendant, found through the subset lists."""
    me = {f"{type(x).__name__}_{k}": v for k, v in attrs(x).items()}
    kids = list(x.subset_list)
    if not kids:
        return [me]
    return [{**me, **r} for k in kids for r in leaf_rows(k)]


def entry_row(x):
    return {**attrs(x), "entry_class": type(x).__name__}


def rows_of(obj, subsets):
    if hasattr(obj, "tier_groups"):
        return [r for g in obj for r in rows_of(g, subsets)]
    if hasattr(obj, "tier_list"):
        if subsets and not G.is_points(obj):
            rs = rows_of(obj[0], True)
        else:
            rs = [r for t in obj for r in rows_of(t, subsets)]
        return [{**r, "name": obj.name} for r in rs]
    if hasattr(obj, "sequence_list"):
        return [r for x in obj for r in rows_of(x, subsets)]
    if hasattr(obj, "subset_list") and subsets:
        return leaf_rows(obj)
    return [entry_row(obj)]


def norm(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    return round(float(v), 9)


def compare(obj, subsets, what, rec):
    from aligned_textgrid.outputs.to_dataframe import to_df
    exp = rows_of(obj, subsets)
    snap = G.Snap(obj)
    df = to_df(obj) if subsets else to_df(obj, with_subset=False); rec.step()
    snap.unchanged(f"to_df of {what}")
    got = df.to_dicts()
    same(len(got), len(exp), f"to_df of {what} with_subset={subsets}: number of rows")
    cols = set().union(*[set(r) for r in exp]) if exp else set()
    require(cols <= set(df.columns), f"to_df of {what} with_subset={subsets}: no columns {sorted(cols - set(df.columns))}")
    key = lambda r: repr([(c, norm(r.get(c))) for c in sorted(cols)])
    a, b = [key(r) for r in got], [key(r) for r in exp]
    for x, y in zip(a, b):
        require(x == y, f"to_df of {what} with_subset={subsets}: got row {x}, expected {y}")


def all_levels(a, rec, kinds):
    for gi, g in enumerate(a):
        for ti, t in enumerate(g):
            for i, x in enumerate(t):
                if "entry" in kinds:
                    for s in (True, False):
                        compare(x, s, f"entry {gi},{ti},{i}", rec)
            for s in (True, False):
                compare(t, s, f"tier {gi},{ti}", rec)
        for s in (True, False):
            compare(g, s, f"group {gi}", rec)
    if len(a):
        for s in (True, False):
            compare(a, s, "the grid", rec)


def run_grid(case, rec):
    a, _ = c05.build(**case)
    all_levels(a, rec, ("entry",) if sum(len(t) for g in a for t in g) < 12 else ())
    rec.state([[G.vals(t) for t in g] for g in a])


def run_edit(case, rec):
    seed, how, ops = case
    m = M.Machine(seed, how)
    for o in ops:
        m.apply(o); rec.step()
    if not m.tight() or not len(m.a): raise Skip()
    all_levels(m.a, rec, ("entry",))
    rec.state(m.canon())


def run_bare(case, rec):
    """Tiers, groups and intervals that are in no grid; times may be whole numbers or mixed."""
    from aligned_textgrid import SequenceTier, TierGroup, SequencePointTier, PointsGroup, custom_classes
    ts, pts, scale, delay = case
    cs = custom_classes(["A", "B", "C", "D"])
    num = (lambda v: int(v) if float(v) == int(v) and scale == "mix" else v)
    sc = "half" if scale == "mix" else scale
    G.SCALES.setdefault("half", lambda x: 0.5 * x)
    mk = lambda c, e: c(tuple([num(v) for v in e[:-1]] + [e[-1]]))
    def tiers():
        return [SequenceTier([mk(c, e) for e in G.entries([tuple(i) for i in t], sc)], c) for c, t in zip(cs, ts)]
    for t in tiers():
        compare(t, False, "a bare tier", rec); compare(t, True, "a bare tier", rec)
    g = TierGroup(tiers(), delay_cleanup=bool(delay))
    P, Q = custom_classes(["P", "Q"], points=[0, 1])
    pg = PointsGroup([SequencePointTier([mk(c, e) for e in G.points(p, sc)], c) for c, p in zip((P, Q), pts)])
    for gr in (g, pg):
        for t in gr:
            for x in t:
                compare(x, True, "an entry", rec); compare(x, False, "an entry", rec)
            for s in (True, False): compare(t, s, "a tier", rec)
        for s in (True, False): compare(gr, s, "a group", rec)
    rec.state([G.vals(t) for t in list(g) + list(pg)])


def run_tree(case, rec):
    """Intervals with descendants to different depths, in no tier."""
    from aligned_textgrid import custom_classes
    shape, whole = case
    A, B, C = custom_classes(["A", "B", "C"])
    def mk(cls, sh, lo, hi, name):
        x = cls((lo, hi, name))
        for i, s in enumerate(sh):
            k = len(sh)
            d = (hi - lo) / k if not whole else max((hi - lo) // k, 1)
            x.append(mk({A: B, B: C}[cls], s, lo + i * d, lo + (i + 1) * d, name + str(i)))
        return x
    x = mk(A, shape, 0, 4, "r")
    compare(x, True, "a tree", rec); compare(x, False, "a tree", rec)
    rec.state(shape)


def run_names(case, rec):
    """Entry classes with odd names: the columns are named after them."""
    from aligned_textgrid import SequenceTier, TierGroup, SequencePointTier, PointsGroup, AlignedTextGrid, custom_classes
    n, m, p = case
    A, B = custom_classes([n, m]); P, = custom_classes([p], points=[0])
    g = TierGroup([SequenceTier([c(e) for e in G.entries([tuple(i) for i in t], "frac")], c) for c, t in zip((A, B), ([(0, 2), (2, 3)], [(0, 1), (1, 2), (2, 3)]))])
    pg = PointsGroup([SequencePointTier([P(e) for e in G.points([0, 2], "frac")], P)])
    a = AlignedTextGrid([g, pg])
    for o in [a, g, pg] + [t for k in a for t in k] + [x for k in a for t in k for x in t]:
        for s in (True, False): compare(o, s, f"classes named {case}", rec)
    rec.state(case)


def run_refuse(case, rec):
    from aligned_textgrid.outputs.to_dataframe import to_df
    obj = {"str": "x", "list": [1], "none": None, "dict": {}, "num": 3}[case]
    try:
        to_df(obj); rec.step()
    except ValueError:
        rec.step(); return
    raise Violation(f"to_df({obj!r}) was not refused")


CN = ["My_Word", "My", "A_B_C", "_x", "word", "Wörd", "X1", "a b", "n.m", "Phone_", "label"]


def spaces(tier):
    q = tier == "quick"
    few = [[[(0, 2)], [(0, 1), (1, 2)]], [[(0, 1), (2, 3)], [(0, 1)]], [[(1, 3)], [(1, 2), (2, 3)]]]
    def g1():
        for gs in [[g] for g in c05.nested(3, 2)] + [[g, h] for g in few for h in few] + [[g, [h[0]]] for g in few for h in few]:
            for pts, pos in ((None, None), ([[0, 2], [1]], "last"), ([[1]], "first")):
                for sc in ("int", "frac"):
                    yield dict(kind="wp", gs=gs, scale=sc, how="object", pts=pts, ptpos=pos, layout="nested")
        for g in [[(0, 3)], [(0, 1), (1, 3)], [(0, 1), (1, 2), (2, 3)]], [[(0, 1), (1, 2)], [(0, 1), (1, 2)], [(0, 1)]]:
            yield dict(kind="c3", gs=[g], scale="int", how="object", layout="nested")
            yield dict(kind="c3", gs=[g, g[:2]], scale="int", how="object", layout="nested", pts=[[1, 2]], ptpos="last")
    def g2():
        for s in M.SEEDS:
            for h in ("tg", "append"):
                yield [s, h, []]
                for o in M.menu(s):
                    yield [s, h, [o]]
    def g2b():
        for s in ("one", "het"):
            for o in itertools.product(M.menu(s), repeat=2):
                yield [s, "tg", [list(x) for x in o]]
    def g3():
        for ts in c05.nested(3, 1) + c05.nested(2, 2) + [[[(0, 3)], [(0, 1), (1, 3)], [(0, 1), (1, 2), (2, 3)]], [[(0, 1)], []], [[], [(0, 1)]], [[(0, 12), (12, 24)], [(i, i + 1) for i in range(24)]], [[(i, i + 2) for i in range(0, 24, 2)], [(i, i + 1) for i in range(24)]]]:
            for pts in ([[0, 2]], [[1], [0, 3]], [[], [1]], [[], []]) + (([list(range(13))],) if len(ts[-1]) > 20 else ()):
                for sc in ("int", "whole", "mix", "frac"):
                    for d in (0, 1):
                        yield [ts, pts, sc, d]
    def g4():
        leaves = [[], [[]], [[], []]]
        for k in range(4):
            for sh in itertools.product(leaves, repeat=k):
                for w in (0, 1):
                    yield [list(sh), w]
    def g5():
        for s in M.BIG:
            for h in ("tg", "append"): yield [s, h, []]
            for o in M.menu(s):
                if o[0] in ("fuse_r", "fuse_l", "tier_pop") and o[3] % 4: continue
                yield [s, "tg", [o]]
    def g6():
        for i, g in enumerate(G.large(2)): yield dict(kind="wp", gs=[g] if i % 3 else [g, G.large(2)[i // 2], g[:1]], scale=("late", "frac")[i % 2], how="object", pts=[list(range(0, 18, 1 + i % 3)), [4, 9]] if i % 2 else None, ptpos="first" if i % 4 == 1 else "last", layout="nested")
        for i, g in enumerate(G.huge()[:7]): yield dict(kind="wp", gs=[g] if i % 3 else [g[:1], g], scale=("late", "frac")[i % 2], how="object", pts=[list(range(130)), [4, 9]] if i % 2 else None, ptpos="first" if i % 4 == 1 else "last", layout="nested")
        for g in G.large(4)[::5]: yield dict(kind="c4", gs=[g], scale="frac", how="object", layout="nested")
    S = [Space("edited-big", "every object of larger grids after edits: " + M.BIG_NOTE, g5, run_edit), Space("grids-large", "grids with tiers of 9 and 18 (up to 128 and 256) intervals, up to four levels, long point tiers", g6, run_grid),
         Space("grids", "every object of grids of one or two groups, one to three tiers, with and without points", g1, run_grid),
         Space("edited", "every object of the seed grids after every edit", g2, run_edit),
         Space("bare", "tiers, groups and entries in no grid, at four time scales (whole and mixed numbers included)", g3, run_bare),
         Space("trees", "intervals with descendants of every shape up to three children and two levels", g4, run_tree),
         Space("names", "entry classes whose names have underscores, blanks, digits, dots, prefixes of one another", lambda: ([a, b, p] for a in CN for b in CN for p in CN if len({a, b, p}) == 3), run_names),
         Space("refusals", "objects that are not of the library", lambda: iter(["str", "list", "none", "dict", "num"]), run_refuse)]
    if not q:
        S.append(Space("edited-2", "every pair of edits of two seed grids", g2b, run_edit))
    return S
