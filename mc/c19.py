"""C19: PoLaR grids."""
import itertools, os
import numpy as np
from .core import Space, Skip, Violation, require, same
from . import grid as G

ASSUMPTIONS = ["the grid has a Levels, a Ranges and a TurningPoints tier (possibly empty)", "point times within a tier are distinct; times of different points differ by at least 0.5 ms below 10 s, and by at least 0.01 s below 100 s (the library compares times with numpy's relative tolerance)",
               "range labels are LOW-HIGH, level labels 1 to 5 with an optional '?'", "relations are those made when the grid is read; they persist through shifting, cleanup and pickling"]
RL = ["70-180", "100-200", "82.5-161.25"]
LL = ["1", "3", "5?", "2", "4?"]
TL = ["0", "0,(120)", "0?", "0,99"]
LAYOUTS = [
    [["Word", "Phone"], ["ToBI", "PrStr", "TurningPoints", "Levels"], ["Ranges"]],
    [["Ranges"], ["Levels", "TurningPoints"]],
    [["Levels", "TurningPoints", "Misc"], ["Ranges"], ["Word", "Phone"]],
    [["TurningPoints"], ["Levels"], ["Ranges"]],
    [["Word", "Phone"], ["Levels"], ["Ranges"], ["PrStr", "TurningPoints"]],
]


def classes():
    from aligned_textgrid import Word, Phone
    from aligned_textgrid.polar.polar_classes import PrStr, ToBI, TurningPoints, Ranges, Levels, Misc
    return {c.__name__: c for c in (Word, Phone, PrStr, ToBI, TurningPoints, Ranges, Levels, Misc)}


def build(layout, ranges, levels, tps, scale, how):
    from aligned_textgrid.polar.polar_grid import PolarGrid
    f = {**G.SCALES, **G.NEAR}[scale]
    ents = {"Ranges": [(f(s), f(e), RL[i % 3]) for i, (s, e) in enumerate(ranges)], "Levels": [(f(t), LL[i % 5]) for i, t in enumerate(levels)], "TurningPoints": [(f(t), TL[i % 4]) for i, t in enumerate(tps)],
            "Word": [(f(0), f(2), "w1"), (f(2), f(4), "w2")], "Phone": [(f(0), f(1), "a"), (f(1), f(2), "b"), (f(2), f(4), "c")], "ToBI": [(f(1), "H*")], "PrStr": [(f(1), "*?"), (f(3), "]")], "Misc": [(f(2), "m")]}
    lo, hi = f(0), f(4)
    if scale == "neg": raise AssertionError
    tg = G.mk_textgrid([("I" if n in ("Ranges", "Word", "Phone") else "P", n, ents[n], lo, hi) for g in layout for n in g])
    cs = classes()
    ec = [[cs[n] for n in g] for g in layout]
    if how == "file":
        p = os.path.join(os.environ["VERIF_SCRATCH"], f"p{os.getpid()}.TextGrid")
        tg.save(p, "long_textgrid", True)
        return PolarGrid(textgrid_path=p, entry_classes=ec), ents
    return PolarGrid(textgrid=tg, entry_classes=ec), ents


def check(p, layout, ents, inc=0.0, what=""):
    want = [n for g in layout for n in g]
    for n in want:
        t = getattr(p, n, None)
        require(t is not None and any(t is u for g in p for u in g), f"{what}: .{n} is not a tier of the grid")
        same(t.entry_class.__name__, n, f"{what}: class of .{n}")
    for n in ("Levels", "TurningPoints"):
        G.want(G.vals(getattr(p, n)), [(t + inc, l) for t, l in ents[n]], f"{what}: {n}")
    rs = list(p.Ranges)
    for l in p.Levels:
        cov = [r for r in rs if r.start <= l.time < r.end]
        require(len(cov) <= 1, "ranges overlap")
        w = f"{what}: levels point {G.show(l)}, ranges {G.vals(p.Ranges)}, turning points {G.vals(p.TurningPoints)}"
        if cov:
            require(l.range_interval is cov[0], f"{w}: its range is {G.show(l.range_interval)}")
        else:
            require(l.range_interval is None, f"{w}: its range is {G.show(l.range_interval)}, though none covers it")
        lv = int(l.label[0])
        same(l.level, lv, w + ": level")
        same(l.certainty, "uncertain" if "?" in l.label else "certain", w + ": certainty")
        if cov and cov[0].label:
            lo, hi = [float(v) for v in cov[0].label.split("-")]
            G.want([float(v) for v in l.band], [lo + (hi - lo) * (lv - 1) / 5, lo + (hi - lo) * lv / 5], w + ": band")
            G.want([float(cov[0].low), float(cov[0].high)], [lo, hi], w + ": range")
            same(len(cov[0].bands), 6, w + ": bands")
        tw = [t for t in p.TurningPoints if abs(t.time - l.time) < 1e-6]
        require((l.turning_point is tw[0]) if tw else l.turning_point is None, f"{w}: its turning point is {G.show(l.turning_point)}")
        require(l.ranges_tier is p.Ranges or not len(rs), w + ": ranges_tier")
    for t in p.TurningPoints:
        w = f"{what}: turning point {G.show(t)}, levels {G.vals(p.Levels)}"
        tw = [l for l in p.Levels if abs(t.time - l.time) < 1e-6]
        require((t.level is tw[0]) if tw else t.level is None, f"{w}: its level is {G.show(t.level)}")
        same(t.certainty, "uncertain" if "?" in t.label else "certain", w + ": certainty")
        same(t.override, t.label.split(",")[1] if "," in t.label else None, w + ": override")


def run(case, rec):
    li, ranges, levels, tps, scale, how, op = case
    layout = LAYOUTS[li]
    p, ents = build(layout, ranges, levels, tps, scale, how); rec.step()
    w = f"layout {layout}"
    check(p, layout, ents, 0.0, w)
    G.check_grid(p, G.ALL - {"names", "tiling"}, orphans=False)
    inc = 0.0
    if op == "shift": p.shift(0.5); inc = 0.5
    elif op == "shift-": p.shift(-0.25); inc = -0.25
    elif op == "cleanup": p.cleanup()
    elif op == "pickle":
        import cloudpickle, pickle
        p = pickle.loads(cloudpickle.dumps(p))
    if op:
        rec.step()
        check(p, layout, ents, inc, w + " after " + op)
    rec.state((li, ranges, levels, tps, scale))


def run_labels(case, rec):
    from aligned_textgrid.polar.polar_classes import PrStr, TurningPoints, Ranges, Levels
    kind, lab, exp = case
    rec.step()
    if kind == "prstr":
        p = PrStr((1.0, lab)); same(p.status, exp[0], f"status of {lab!r}"); same(p.certainty, exp[1], f"certainty of {lab!r}")
    elif kind == "tp":
        p = TurningPoints((1.0, lab)); same(p.override, exp[0], f"override of {lab!r}"); same(p.certainty, exp[1], f"certainty of {lab!r}"); require(p.level is None, "a turning point in no grid has a level")
    elif kind == "level":
        p = Levels((1.0, lab)); same(p.level, exp[0], f"level of {lab!r}"); same(p.certainty, exp[1], f"certainty of {lab!r}")
        require(p.turning_point is None and p.range_interval is None, "a levels point in no grid has a turning point or range")
    else:
        r = Ranges((0.0, 1.0, lab))
        got = [float(v) for v in r.range]
        if exp is None:
            require(len(got) == 2 and all(v != v for v in got) and r.low != r.low and r.high != r.high, f"range of {lab!r}: {got}, expected no numbers")
            require(len(r.bands) == 6, "bands")
        else:
            G.want(got, exp, f"range of {lab!r}"); G.want([float(r.low), float(r.high)], exp, f"low and high of {lab!r}")
            G.want([float(v) for v in r.bands], [exp[0] + (exp[1] - exp[0]) * i / 5 for i in range(6)], f"bands of {lab!r}")
    rec.state((kind, lab))


def subsets(xs, n):
    return [list(c) for r in range(n + 1) for c in itertools.combinations(xs, r)]


def probe_far():
    """A levels point and a turning point 9 ms apart at 1000 s."""
    from aligned_textgrid.polar.polar_grid import PolarGrid
    cs = classes()
    tg = G.mk_textgrid([("P", "TurningPoints", [(1000.2, "0")], 1000.0, 1001.0), ("P", "Levels", [(1000.209, "1")], 1000.0, 1001.0), ("I", "Ranges", [(1000.0, 1001.0, "70-180")], 1000.0, 1001.0)])
    p = G.quiet(PolarGrid, textgrid=tg, entry_classes=[[cs["TurningPoints"], cs["Levels"]], [cs["Ranges"]]])
    require(p.Levels[0].turning_point is None and p.TurningPoints[0].level is None, "points 9 ms apart at 1000 s refer to each other")


PROBES = {"far-match": ("np.allclose compares with a tolerance relative to the time", probe_far)}


def spaces(tier):
    q = tier == "quick"
    T = [0, 0.5, 1, 2, 2.5, 3, 4]
    full = [[list(i) for i in t] for t in G.tilings(4)]
    part = [[list(i) for i in t] for t in G.partial_tilings(4) if t]
    def g1():
        ls = subsets(T, 2) + [[0, 1, 2], [0.5, 1, 2.5], [0, 0.5, 1, 2, 3]]
        for li in range(len(LAYOUTS)):
            for sc in ("int", "off", "milli" if False else "whole"):
                for L in ls:
                    for P in ls:
                        if q and (len(L) > 1 and len(P) > 1) and (li or sc != "int") : continue
                        yield [li, full[2], L, P, sc, "tg", ""]
    def g2():
        for li in (0, 1, 3) if q else range(len(LAYOUTS)):
            for R in full + part:
                for L in [[t] for t in T] + [T]:
                    yield [li, R, L, [0, 2], "int", "tg", ""]
                    if R in full: yield [li, R, L, [1, 3], "off", "tg", ""]
    def g3():
        for li in range(len(LAYOUTS)):
            for R in full[:4] + part[5:8]:
                for L in ([0, 1, 2.5], [4], [2], []):
                    for P in ([0, 2.5], [1], [], [0.5, 4]):
                        for op in ("shift", "shift-", "cleanup", "pickle"):
                            yield [li, R, L, P, "int", "tg", op]
                        if min(L + P + [9]) > 0 or True: yield [li, R, L, P, "int", "file", "cleanup"]
    def g4():
        for q_ in ("", "?"):
            for b, e in (("*", "prominence"), ("]", "edge")):
                for lab in (b + q_, q_ + b): yield ["prstr", lab, [e, "uncertain" if q_ else "certain"]]
            for o, e in (("0", None), ("0,(120)", "(120)"), ("0,99", "99"), ("0,99.5", "99.5")):
                if "," in o and q_:
                    a, b = o.split(",")
                    yield ["tp", a + q_ + "," + b, [e, "uncertain"]]
                else: yield ["tp", o + q_, [e, "uncertain" if q_ else "certain"]]
            for n in "12345":
                yield ["level", n + q_, [int(n), "uncertain" if q_ else "certain"]]
        yield ["level", "?3", [3, "uncertain"]]
        for lo in ("70", "82.5", "0", "100.25"):
            for hi in ("180", "161.25", "300"): yield ["range", f"{lo}-{hi}", [float(lo), float(hi)]]
        for bad in ("", "x", "low-high", "70-x", "?", "10,5-20", "70–180", "70-18x", "7 0-180", "70Hz-180Hz", "70:180", "70/180", "a70-180", "?70-180", "70-180?", "70--x", "--"): yield ["range", bad, None]
    def g5():
        al = [k * 0.25 for k in range(16)]
        R = [[i * 0.5, (i + 1) * 0.5] for i in range(8)]
        for li in range(len(LAYOUTS)):
            for k in range(16):
                L = [t for t in al if t != al[k]]
                yield [li, R, L, al, "int", "tg", ""]; yield [li, R, al, L, "off", "tg", "shift"]
                yield [li, R[:k % 8] + R[k % 8 + 1:], al[::2], al[k % 3::3], "int", "tg", "pickle"]
                yield [li, R, [t + 0.125 for t in al[:k]] + al[k:], al, "int", "tg" if k % 2 else "file", "cleanup"]
    def g6():
        D = [0.0005, 0.001, 0.005, 0.008, 0.02]
        for li in range(len(LAYOUTS)):
            for sc in ("int", "near"):
                for t in (0.5, 1, 2, 3):
                    for d in D:
                        for sg in (1, -1):
                            for sw in (0, 1):
                                for extra in ([], [t]) if d > 0.0005 else ([],):
                                    a, b = [t], sorted(extra + [t + sg * d])
                                    yield [li, full[2], *((a, b) if sw else (b, a)), sc, "tg", ""]
                        yield [li, [[0, 2], [2, 4]], [2 - d, 2 + d], [2], sc, "tg", ""]
                        yield [li, [[0, 2], [2 + d, 4]], [2, 2 + d / 2, 2 + d], [2], sc, "tg", ""]
    return [Space("near", "levels and turning points (and range edges) that differ by 0.5 to 20 ms do not match", g6, run), Space("large", "16 levels and turning points and 8 ranges, with each one missing or moved", g5, run), Space("labels", "every documented label form of the PoLaR classes", g4, run_labels),
            Space("points", "every pair of sets of up to two (and some larger) levels and turning points on a 7-point time grid, 5 layouts, 3 time scales", g1, run),
            Space("ranges", "every tiling of [0,4] by ranges, with and without gaps, and every position of a levels point", g2, run),
            Space("edits", "the relations after shifting, cleanup, pickling and from a file", g3, run)]
