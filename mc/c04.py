from .core import Space, Skip, require, same, Violation
from . import grid as G
from .c05 import nested
import itertools
ASSUMPTIONS = ["intervals of one tier do not overlap", "disagreeing boundaries: both tiers are gap-free and a boundary of the lower tier is off by less than half of any interval"]
F = frozenset("list members within links intier".split())

def classes(k):
    from aligned_textgrid import Word, Phone, custom_classes
    return [Word, Phone] if k == 2 else custom_classes(["Word", "Syl", "Phone", "Sub"][:k])

def build(tiers, cs):
    from aligned_textgrid import SequenceTier
    return [SequenceTier([c(e) for e in t], c) for t, c in zip(tiers, cs)]

def expected_parent(e, uppers):
    ov = [min(e[1], u[1]) - max(e[0], u[0]) for u in uppers]
    if not ov or max(ov) <= 1e-9:
        return None
    return ov.index(max(ov))

def check_related(objs, vals, ts, what, exact=True, tol=0.0):
    """objs/vals: the given intervals per tier, ts: the tiers of the group, from top to bottom."""
    for i, t in enumerate(ts):
        ids = {id(x): k for k, x in enumerate(objs[i])}
        now = list(t)
        got = [ids[id(x)] for x in now if id(x) in ids]
        same(got, list(range(len(objs[i]))), f"{what}: the given intervals of tier {i}, in order")
        for x in now:
            if id(x) not in ids:
                same(x.label, "", f"{what}: label of an interval that was not given, tier {i}")
                require(not any(min(x.end, y.end) - max(x.start, y.start) > 1e-9 for y in now if y is not x), f"{what}: the added interval {G.show(x)} of tier {i} overlaps another one")
        for x, v in zip(objs[i], vals[i]):
            same(x.label, v[2], f"{what}: label on tier {i}")
            if exact:
                G.want([float(x.start), float(x.end)], [v[0], v[1]], f"{what}: times of {v} on tier {i}")
            else:
                require(abs(x.start - v[0]) <= tol + 1e-9 and abs(x.end - v[1]) <= tol + 1e-9, f"{what}: {v} of tier {i} became {G.show(x)}")
        if i:
            for x, v in zip(objs[i], vals[i]):
                p = expected_parent(v, vals[i - 1])
                got = x.super_instance
                if p is None:
                    # not covered by any given interval: unrelated, or child of an added one that covers it
                    require(got is None or not any(got is o for o in objs[i - 1]) and any(got is o for o in ts[i - 1]) and got.start <= x.start + 1e-9 and x.end <= got.end + 1e-9, f"{what}: {v} of tier {i} overlaps no interval of the tier above, but is related to {G.show(got)}")
                else:
                    require(got is objs[i - 1][p], f"{what}: {v} of tier {i} is related to {G.show(got)}, expected {vals[i-1][p]}")
            for u in ts[i - 1]:
                kids = list(u)
                if vals[i]:
                    require(len(kids) > 0, f"{what}: {G.show(u)} of tier {i-1} has no children")
                if len(kids) == 1 and not any(kids[0] is o for o in objs[i]) and u.super_instance is None:
                    G.want([kids[0].start, kids[0].end], [u.start, u.end], f"{what}: extent of the blank child of {G.show(u)}")

def run_nested(case, rec):
    from aligned_textgrid import TierGroup
    scale, tiers, order, prior = case
    cs = classes(len(tiers))
    vals = [G.entries(t, scale, k=2 * i) for i, t in enumerate(tiers)]
    ts = build(vals, cs)
    objs = [list(t) for t in ts]
    if prior == "other-upper":          # the lower tiers were grouped with other supersets before
        lo = min(v[0] for t in vals for v in t) ; hi = max(v[1] for t in vals for v in t)
        other = build([[(lo, hi, "old")]], cs[:1])[0]
        old = list(other)
        TierGroup([other] + ts[1:])
        rec.step()
        # start from the given intervals only
        for t, o in zip(ts, objs):
            t.sequence_list = o
    elif prior == "same":
        TierGroup(ts)
        rec.step()
        for t, o in zip(ts, objs):
            t.sequence_list = o
    elif prior == "wrong":              # every child was given to the last superset by hand
        for i in range(1, len(ts)):
            for x in objs[i]:
                x.set_super_instance(objs[i - 1][-1])
    elif prior == "loose":              # every child has a superset of its own that is in no tier
        loose = []
        for i in range(1, len(ts)):
            for x, v in zip(objs[i], vals[i]):
                loose.append(cs[i - 1]((v[0], v[1], "old")))
                loose[-1].append(x)
    elif prior == "loose-one":          # the children of a tier share a superset that is in no tier
        loose = []
        for i in range(1, len(ts)):
            if objs[i]:
                loose.append(cs[i - 1]((min(v[0] for v in vals[i]), max(v[1] for v in vals[i]), "old")))
                loose[-1].set_subset_list(objs[i])
    g = TierGroup([ts[i] for i in order])
    rec.step()
    require(len(g) == len(ts) and all(g[i] is ts[i] for i in range(len(ts))), f"tiers given in the order {order} are not arranged by hierarchy")
    check_related(objs, vals, ts, "grouping")
    if prior == "other-upper":
        require(not any(k.super_instance is old[0] for o in objs for k in o), "grouping: an interval is still related to its former superset")
        require(not any(any(k is x for o in objs for x in o) for k in old[0].subset_list), "grouping: a former superset still lists an interval")
    if prior.startswith("loose"):
        for u in loose:
            require(not len(u.subset_list) and not len(u), f"grouping: a former superset in no tier still lists {G.show(u)}")
            require(not any(k.super_instance is u or k.within is u for o in objs for k in o), "grouping: an interval is still related to its former superset in no tier")
    G.check_group(g, F, orphans=True)
    rec.state([G.vals(t) for t in ts])
    # regrouping changes nothing
    snap = G.Snap(g)
    g.re_relate()
    rec.step()
    snap.unchanged("grouping the same tiers again")

def jittered(n_max=4):
    """Gap-free upper and lower tiers; at each edge of an upper interval the lower boundary is off by d."""
    for n in range(1, n_max + 1):
        for up in G.tilings(n):
            for low in G.tilings(n):
                if not G.nests(up, low):
                    continue
                edges = sorted({x for u in up for x in u})
                for js in itertools.product((0, -1, 1), repeat=len(edges)):
                    if any(js):
                        yield [[list(u) for u in up], [list(l) for l in low], list(js)]

def run_jitter(case, rec):
    from aligned_textgrid import TierGroup, AlignedTextGrid
    up, low, js, delta, scale, via = case
    f = G.SCALES[scale]
    unit = f(1) - f(0)
    d = dict(zip(sorted({x for u in up for x in u}), js))
    pos = lambda x: f(x) + d.get(x, 0) * delta * unit
    cs = classes(2)
    vals = [[(f(s), f(e), f"w{i}") for i, (s, e) in enumerate(up)], [(pos(s), pos(e), f"p{i}") for i, (s, e) in enumerate(low)]]
    if via == "group":
        ts = build(vals, cs)
        objs = [list(t) for t in ts]
        g = TierGroup(ts)
    elif via == "regroup":
        ts = build(vals, cs)
        objs = [list(t) for t in ts]
        TierGroup(ts); g = TierGroup(ts[::-1])
    else:
        lo, hi = min(v[0] for t in vals for v in t), max(v[1] for t in vals for v in t)
        g = AlignedTextGrid(G.mk_textgrid([("I", "w", vals[0], lo, hi), ("I", "p", vals[1], lo, hi)]), entry_classes=cs)[0]
        ts = list(g)
        objs = [[x for x in t if x.label != ""] for t in ts]
        for i in (0, 1):
            same([x.label for x in objs[i]], [v[2] for v in vals[i]], f"labelled intervals of tier {i}, in order")
    rec.step()
    check_related(objs, vals, ts, "reconciling", exact=False, tol=delta * unit)
    G.check_group(g, F)
    for u in ts[0]:
        k = list(u)
        require(len(k) > 0, f"reconciling: {G.show(u)} has no children")
        G.want([float(k[0].start), float(k[-1].end)], [float(u.start), float(u.end)], f"reconciling: children of {G.show(u)} against its extent")
        for x, y in zip(k, k[1:]):
            G.want(float(x.end), float(y.start), f"reconciling: children of {G.show(u)} do not join up")
    for t in ts:
        for x, y in zip(list(t), list(t)[1:]):
            require(x.end <= y.start + 1e-9, f"reconciling: {G.show(x)} and {G.show(y)} overlap")
    if via == "grid":
        G.check_tiling(g)
    rec.state([G.vals(t) for t in ts])

def jittered3(shapes, both):
    """Gap-free tiers on three levels; the boundaries of the second and third that the tier above has too are off."""
    for ts in shapes:
        edges = [sorted({x for u in t for x in u}) for t in ts]
        for i in range(1, len(ts)):
            require(set(edges[i - 1]) <= set(edges[i]), "the shapes are nested")
        opts = []
        for i in range(1, len(ts)):
            sh = edges[i - 1]
            if both: o = list(itertools.product((0, -1, 1), repeat=len(sh)))
            else: o = [tuple(d if k == j else 0 for k in range(len(sh))) for j in range(len(sh)) for d in (-1, 1)] + [(0,) * len(sh), (1,) * len(sh), (-1,) * len(sh), tuple((-1) ** k for k in range(len(sh)))]
            opts.append(o)
        for js in itertools.product(*opts):
            if any(any(j) for j in js):
                yield [[[list(u) for u in t] for t in ts], [list(j) for j in js]]

def run_jitter3(case, rec):
    from aligned_textgrid import TierGroup, AlignedTextGrid
    shape, js, delta, scale, via = case
    f = G.SCALES[scale]
    unit = f(1) - f(0)
    cs = classes(len(shape))
    vals = [[(f(s), f(e), f"t0.{i}") for i, (s, e) in enumerate(shape[0])]]
    for k in range(1, len(shape)):
        d = dict(zip(sorted({x for u in shape[k - 1] for x in u}), js[k - 1]))
        pos = lambda x: f(x) + d.get(x, 0) * delta * unit
        vals.append([(pos(s), pos(e), f"t{k}.{i}") for i, (s, e) in enumerate(shape[k])])
    if via == "grid":
        lo, hi = min(v[0] for t in vals for v in t), max(v[1] for t in vals for v in t)
        g = AlignedTextGrid(G.mk_textgrid([("I", f"n{i}", v, lo, hi) for i, v in enumerate(vals)]), entry_classes=cs)[0]
        ts = list(g)
        objs = [[x for x in t if x.label != ""] for t in ts]
        for i in range(len(ts)):
            same([x.label for x in objs[i]], [v[2] for v in vals[i]], f"labelled intervals of tier {i}, in order")
    else:
        ts = build(vals, cs)
        objs = [list(t) for t in ts]
        g = TierGroup(ts if via == "group" else ts[::-1])
    rec.step()
    check_related(objs, vals, ts, "reconciling", exact=False, tol=(len(shape) - 1) * delta * unit)
    G.check_group(g, F)
    for k, t in enumerate(ts[:-1]):
        for u in t:
            kids = list(u)
            require(len(kids) > 0, f"reconciling: {G.show(u)} has no children")
            G.want([float(kids[0].start), float(kids[-1].end)], [float(u.start), float(u.end)], f"reconciling: children of {G.show(u)} of tier {k} against its extent")
            for x, y in zip(kids, kids[1:]):
                G.want(float(x.end), float(y.start), f"reconciling: children of {G.show(u)} of tier {k} do not join up")
    if via == "grid":
        G.check_tiling(g)
    snap = G.Snap(g)
    g.re_relate()
    rec.step()
    snap.unchanged("grouping the reconciled tiers again")
    rec.state([G.vals(t) for t in ts])

def spaces(tier):
    q = tier == "quick"
    N3, N4, W3 = nested(3, 2), nested(4, 2), nested(3, 3)
    P3 = [list(p) for p in itertools.permutations(range(3))]
    empty = [[list(p), []] for p in G.partial_tilings(3) if p] + [[[], list(p)] for p in G.partial_tilings(3) if p]
    N2 = nested(2, 2)
    empty3 = [t[:k] + [[]] + t[k:] for t in N2 for k in range(3)] + [[t if i == k else [] for i in range(3)] for t in [list(p) for p in G.partial_tilings(2) if p] for k in range(3)]
    def g(ts, scales, orders, priors):
        return lambda: ([sc, t, o, p] for t in ts for sc in scales for o in orders for p in priors)
    pri = ["none", "other-upper", "same", "wrong", "loose", "loose-one"]
    S = [Space("two-tiers", "every pair of nested tiers with gaps on 4 units, given in both orders", g(N4, ["int"], [[0, 1], [1, 0]], ["none"]), run_nested),
         Space("prior", "every pair of nested tiers on 3 units; related before to other supersets, to the same, or by hand to the wrong ones; 3 time scales", g(N3, ["int", "neg", "frac"], [[0, 1], [1, 0]], pri), run_nested),
         Space("three-tiers", "every triple of nested tiers on 3 units, given in every order", g(W3, ["int"], P3, ["none"]), run_nested),
         Space("three-tiers-prior", "the same after other relations", g(W3, ["int"], [[0, 1, 2], [2, 0, 1]], pri[1:]), run_nested),
         Space("empty", "one of two tiers, or one or two of three, are empty", lambda: itertools.chain(g(empty, ["int"], [[0, 1], [1, 0]], ["none"])(), g(empty3, ["int"], P3, ["none", "same"])()), run_nested)]
    S.append(Space("large", "two tiers of 9 and 18 intervals, three of 9, 12 and 18, four of 4 to 18: complete, and with each interval, each interval with its children, the children of each interval, or two neighbours missing",
                   lambda: ([sc, t, o, p] for k in (2, 3, 4) for t in G.large(k) for sc, o, p in ((("late", list(range(k)), "none"), ("frac", list(range(k))[::-1], "none"), ("int", list(range(k)), "wrong")) if k == 2 or not q else (("long", [(i + 1) % k for i in range(k)], "none"),))), run_nested))
    S.append(Space("huge", "two tiers of 128 and 256 intervals, three of 128, 192 and 256, complete and with intervals or children missing at seven places",
                   lambda: ([sc, t, list(range(k)) if i % 2 else list(range(k))[::-1], ("none", "wrong", "same", "loose", "loose-one")[i % 5]] for k in (2, 3) for i, t in enumerate(G.huge(k)) for sc in (("frac", "late", "int")[i % 3],)), run_nested))
    HU, HL = G.huge()[0]
    HJ = [[HU, HL, [d if j == i else 0 for j in range(129)]] for i in (0, 1, 64, 99, 100, 101, 127, 128) for d in (-1, 1)] + [[HU, HL, [d * (-1) ** (j * alt) for j in range(129)]] for d in (-1, 1) for alt in (0, 1)]
    S.append(Space("jitter-huge", "128 and 256 gap-free intervals with the shared boundary at eight places, or all of them, off", lambda: ([*j, d, sc, via] for i, j in enumerate(HJ) for d, sc in (((0.02, "int"), (0.3, "off"))[i % 2],) for via in ("group", "grid")), run_jitter))
    J = list(jittered(4 if q else 5))
    LJ = [[G.tile(G.UP), G.tile([1] * 18), [0] * (len(G.UP) + 1)]]
    for i in range(len(G.UP) + 1):
        for d in (-1, 1): LJ.append([LJ[0][0], LJ[0][1], [d if j == i else 0 for j in range(len(G.UP) + 1)]])
    LJ = LJ[1:] + [[LJ[0][0], LJ[0][1], [d * (-1) ** (j * alt) for j in range(len(G.UP) + 1)]] for d in (-1, 1) for alt in (0, 1)]
    S.append(Space("jitter-large", "9 and 18 gap-free intervals with each, or all, of the shared boundaries off", lambda: ([*j, d, sc, via] for j in LJ for d, sc in ((0.02, "int"), (0.3, "off"), (0.1, "long"), (0.25, "frac")) for via in ("group", "grid", "regroup")), run_jitter))
    S.append(Space("jitter", "every pair of gap-free nested tiers on up to 4 units with each shared boundary moved by -d, 0 or +d; d = 0.02 or 0.3 of a unit; grouped, regrouped, or read",
                   lambda: ([*j, d, sc, via] for j in J for d, sc in ((0.02, "int"), (0.3, "int"), (0.1, "off"), (0.25, "frac")) for via in (("group", "grid", "regroup") if d == 0.02 else ("group", "grid"))), run_jitter))
    T3 = [[a, b, c] for n in (2, 3) for a in G.tilings(n) for b in G.tilings(n) for c in G.tilings(n) if G.nests(a, b) and G.nests(b, c)]
    T4 = [t + [c] for t in T3 if t[0][-1][1] == 2 for c in G.tilings(2) if G.nests(t[2], c)]
    B3 = [[G.tile([sum(G.UP[:2]), sum(G.UP[2:5]), sum(G.UP[5:6]), sum(G.UP[6:])]), G.tile(G.UP), G.tile([1] * 18)]]
    S.append(Space("jitter-levels", "every triple of gap-free nested tiers on up to 3 units with each shared boundary of the second and of the third moved by -d, 0 or +d; larger ones and four levels with one or all of them moved",
                   lambda: itertools.chain(([*j, d, sc, via] for j in jittered3(T3, True) for d, sc, via in (((0.2, "frac", "group"), (0.02, "int", "grid")) if q else [(d, sc, v) for d, sc in ((0.02, "int"), (0.2, "frac"), (0.1, "off"), (0.15, "long")) for v in ("group", "grid", "reversed")])),
                                           ([*j, d, sc, via] for j in jittered3(T4 + B3, False) for d, sc, via in ((0.02, "int", "reversed"), (0.15, "off", "group"), (0.15, "int", "grid")))), run_jitter3))
    if not q:
        S.append(Space("two-tiers-5", "every pair of nested tiers on 5 units", g(nested(5, 2), ["int"], [[0, 1], [1, 0]], ["none"]), run_nested))
        S.append(Space("three-tiers-4", "every triple of nested tiers on 4 units", g(nested(4, 3), ["int"], [[0, 1, 2], [2, 1, 0]], ["none"]), run_nested))
        S.append(Space("four-tiers", "every four nested tiers on 2 units, given in every order", g(nested(2, 4), ["int"], [list(p) for p in itertools.permutations(range(4))], ["none"]), run_nested))
    return S
