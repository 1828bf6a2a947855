"""C27: warnings name real defects, and appear only where there is one."""
import itertools, re, warnings
from .core import Space, Skip, Violation, require, same
from . import grid as G, machine as M, c26
from .c05 import nested

ASSUMPTIONS = ["warnings are recorded with the filter 'always'; their wording is read only for the classes, counts and lengths it states", "intervals of one tier do not overlap", "disagreement of tiers: every upper interval keeps a child (as in C04), or only two tiers are involved"]


def heard(f):
    """(result, texts of the warnings). The filters of the caller stay as they are."""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        keep = list(warnings.filters)
        r = f()
        require(list(warnings.filters) == keep, "the warning filters were changed")
    return r, [str(w.message) for w in ws if not issubclass(w.category, (DeprecationWarning, ResourceWarning))]


def sticks_out(up, low):
    """Lengths by which intervals of the lower tier exceed the superset they overlap most."""
    out = []
    for s, e, *_ in low:
        ov = max(min(e, u[1]) - max(s, u[0]) for u in up)
        if ov > 0 and e - s > ov: out.append(e - s - ov)
    return out


def told(ws, names, out, what):
    """The warnings about one pair of tiers."""
    mine = [w for w in ws if "match" in w and all(re.search(rf"\b{n}\b", w) for n in names)]
    if not out:
        require(not mine, f"{what}: no interval of {names[1]} exceeds its superset, but there is a warning: {mine}")
        return
    require(mine, f"{what}: {len(out)} intervals of {names[1]} exceed their supersets (by {out}), but there is no warning (warnings: {ws})")
    n, far = re.search(r"There were (\d+)", mine[0]), re.search(r"(\d+\.\d+)\s*s", mine[0])
    require(n and far, f"{what}: the warning does not state how many and how far: {mine[0]}")
    same(int(n.group(1)), len(out), f"{what}: number of mismatches stated for {out}")
    require(abs(float(far.group(1)) - max(out)) < 0.00051, f"{what}: largest mismatch stated in {mine[0]!r}, expected {max(out)}")


def build(tiers, cs, via):
    from aligned_textgrid import SequenceTier, TierGroup, AlignedTextGrid
    if via == "read":
        lo, hi = min(e[0] for t in tiers for e in t), max(e[1] for t in tiers for e in t)
        tg = G.mk_textgrid([("I", f"x - {c.__name__}", t, lo, hi) for c, t in zip(cs, tiers)])
        return lambda: AlignedTextGrid(tg, [cs])
    ts = [SequenceTier([c(e) for e in t], c) for c, t in zip(cs, tiers)]
    if via == "group": return lambda: TierGroup(ts)
    if via == "grid": return lambda: AlignedTextGrid([TierGroup(ts)])
    g = TierGroup(ts[:1])
    if via == "tier appended":
        def f():
            for t in ts[1:]: g.append(t)
            return g
        return f
    raise AssertionError(via)


def run_fit(case, rec):
    from aligned_textgrid import custom_classes
    up, low, scale, via = case
    cs = custom_classes(["Upper", "Lower"])
    ts = [G.entries([tuple(i) for i in t], scale) for t in (up, low)]
    out = sticks_out(*ts)
    for again in ("", " (for the second time)"):        # what was said before is said again
        r, ws = heard(build(ts, cs, via)); rec.step()
        told(ws, ["Upper", "Lower"], out, via + again)
        if not out: same(ws, [], f"{via}{again}: warnings although everything fits")
    rec.outcome("exceeds" if out else "fits"); rec.state([ts, via])


def run_levels(case, rec):
    """Three nested tiers; the boundaries of one of them are then moved within half an interval."""
    from aligned_textgrid import custom_classes
    tiers, k, js, scale, via = case
    names = ["Upper", "Middle", "Lower"]
    cs = custom_classes(names)
    f = G.SCALES[scale]
    ts = [G.entries([tuple(i) for i in t], scale) for t in tiers]
    u = f(1) - f(0)
    if js:
        d = dict(zip(sorted({x for e in ts[k] for x in e[:2]}), js))
        ts[k] = [(s + 0.25 * u * d[s], e + 0.25 * u * d[e], l) for s, e, l in ts[k]]
    r, ws = heard(build(ts, cs, via)); rec.step()
    outs = [sticks_out(a, b) for a, b in zip(ts, ts[1:])]
    told(ws, names[:2], outs[0], via)
    if not outs[0]: told(ws, names[1:], outs[1], via)
    if not any(outs): same(ws, [], f"{via}: warnings although everything fits")
    if not outs[0] and outs[1]: require(not any("Upper" in w for w in ws), f"{via}: the upper tiers fit: {ws}")
    # what was reconciled fits from now on
    g = r[0] if via in ("read", "grid") else r
    _, ws = heard(g.re_relate); rec.step()
    same(ws, [], f"{via}: relating the reconciled tiers again")
    rec.outcome("exceeds" if any(outs) else "fits"); rec.state([ts, via])


def gen_levels():
    for n in (2, 3, 4):
        T = G.tilings(n)
        for a in T:
            for b in T:
                if not G.nests(a, b): continue
                for c in T:
                    if not G.nests(b, c): continue
                    t = [list(map(list, x)) for x in (a, b, c)]
                    for v in ("group", "read", "grid"): yield [t, 0, [], "int" if v != "group" else "frac", v]
                    if n > 3: continue
                    for k in (1, 2):
                        e = len(t[k]) + 1
                        for js in itertools.product((0, 1, -1), repeat=e):
                            if any(js): yield [t, k, list(js), "int", "group"]


def run_lists(case, rec):
    """Sequence lists are added up."""
    from aligned_textgrid import SequenceInterval, SequencePoint, custom_classes
    from aligned_textgrid.sequence_list import SequenceList
    parts, kind, right = case
    C = custom_classes(["Word"])[0] if kind == "user" else SequencePoint if kind == "point" else SequenceInterval
    mk = lambda k, p: [C((float(e[0]), f"{k}{i}")) if kind == "point" else C((float(e[0]), float(e[1]), f"{k}{i}")) for i, e in enumerate(p)]
    for again in range(2):
        objs = [mk("abc"[k], p) for k, p in enumerate(parts)]
        cur, have = SequenceList(*objs[0]), list(objs[0])
        for o in objs[1:]:
            cur, ws = heard(lambda: cur + (SequenceList(*o) if right == "list" else o)); rec.step()
            have += o
            require({id(x) for x in cur} == {id(x) for x in have}, "adding lists: other entries")
            over = kind != "point" and any(min(x.end, y.end) > max(x.start, y.start) for x, y in itertools.combinations(have, 2))
            if over and o: require(any("overlap" in w for w in ws), f"adding {[G.show(x) for x in o]}: entries of the result overlap, but there is no warning")
            if not over: same(ws, [], f"adding {[G.show(x) for x in o]}: no entries of the result overlap")
    rec.outcome("overlap" if kind != "point" and over else "no overlap"); rec.state(case)


def expected_of(m, op):
    """What an operation of the machine on well-formed grids may warn about, as (words, how often)."""
    if op[0] == "pop_class": return [("removed", sum([t[0] for t in g["tiers"]] == [op[1]] for g in m.model))]
    return []


def run_quiet(case, rec):
    seed, how, ops = case
    make = lambda: M.Machine(seed, how)
    m, ws = heard(make)
    dup = lambda: len({g["name"] for g in m.model}) < len(m.model)
    ok = lambda w: dup() and "duplicate" in w or not m.model and "empty" in w.lower()
    same([w for w in ws if not ok(w)], [], f"building a well-formed grid ({how})")
    for op in ops:
        exp = expected_of(m, op)
        _, ws = heard(lambda: m.apply(op)); rec.step()
        for word, n in exp:
            same(sum(word in w for w in ws), n, f"{op}: warnings saying {word!r} in {ws}")
        rest = [w for w in ws if not any(word in w for word, n in exp) and not ok(w)]
        same(rest, [], f"{op} on a well-formed grid")
    rec.state(m.canon())


LOUD = {"no class by name"}


def run_looks(case, rec):
    seed, how = case
    m, _ = heard(lambda: M.Machine(seed, how))
    for what, objs, obs in c26.kinds(m.a):
        for n, f in obs:
            for o in objs:
                def look():
                    try: f(o)
                    except (TypeError, IndexError, ValueError): pass     # not a question to this object
                _, ws = heard(look); rec.step()
                if n in LOUD: same(len(ws), 1, f"{n} of a {what}: {ws}")
                elif n != "gaps": same(ws, [], f"{n} of a {what}")
    rec.state([seed, how])


def run_asks(case, rec):
    """Questions without an answer: distances at the edges, classes a grid does not have, labels without a status."""
    from aligned_textgrid import AlignedTextGrid, SequencePointTier, custom_classes
    from aligned_textgrid.polar.polar_classes import PrStr
    what, arg = case
    if what == "distance":
        C = custom_classes(["P"], points=[0])[0]
        t, ws = heard(lambda: SequencePointTier([C((float(x), "p")) for x in arg], C))
        same(ws, [], "building a point tier")
        lone = C((1.0, "x"))
        for i, x in enumerate(list(t) + [lone]):
            inner = x is not lone
            for at, j in (("fol_distance", i + 1), ("prev_distance", i - 1)):
                d, ws = heard(lambda: getattr(x, at)); rec.step()
                there = inner and 0 <= j < len(arg)
                same((d is None, len(ws)), (not there, int(not there)), f"{at} of point {i} of {arg}: None, and warnings {ws}")
    elif what == "class":
        seed, how = arg
        m, _ = heard(lambda: M.Machine(seed, how))
        have = {t[0] for g in m.model for t in g["tiers"]}
        for n in sorted(have | {"Word", "Phone", "Nobody", "word", "Wor", ""}):
            r, ws = heard(lambda: m.a.get_class_by_name(n)); rec.step()
            if n in have:
                require(r is not None and r.__name__ == n, f"class by name {n!r}: {r}")
                same(ws, [], f"class by name {n!r}")
            else:
                same((r, len(ws)), (None, 1), f"class by name {n!r}, of {sorted(have)}: answer and number of warnings {ws}")
    elif what == "status":
        p, ws = heard(lambda: PrStr((1.0, arg)))
        same(ws, [], "making a point")
        r, ws = heard(lambda: p.status); rec.step()
        same(len(ws), int("*" not in arg and "]" not in arg), f"status of {arg!r}: warnings {ws}")
    elif what == "empty":
        a, ws = heard(lambda: AlignedTextGrid(arg) if arg is not None else AlignedTextGrid()); rec.step()
        same((len(a), len(ws)), (0, 1), f"AlignedTextGrid({arg}): groups and warnings {ws}")
        m, _ = heard(lambda: M.Machine("one", "groups"))
        _, ws = heard(lambda: a.append(M.loose_group(M.SEEDS["one"][0], M.class_objects(M.SEEDS["one"])))); rec.step()
        same(ws, [], "filling an empty grid")
    rec.state(case)


def spaces(tier):
    q = tier == "quick"
    P = [list(map(list, t)) for t in G.partial_tilings(4)]
    S = [Space("fit", "every upper and lower tier of disjoint intervals in [0,4], fitting or not, grouped, put in a grid, appended or read, at four time scales",
               lambda: ([u, l, sc, v] for u in P if u for l in P if l for sc in ("int", "neg", "frac", "late") for v in ("group", "grid", "read", "tier appended")), run_fit),
         Space("levels", "every three nested tilings of up to four units; of up to three units with every subset of boundaries of one lower tier moved either way", gen_levels, run_levels)]
    I = [[s, e] for s in range(4) for e in range(s + 1, 5)]
    L = [[]] + [[i] for i in I] + [[i, j] for i in I for j in I if i[1] <= j[0]]
    def g3():
        for a in L:
            for b in L:
                for k in ("base", "user", "point"):
                    for r in ("list", "plain"): yield [[a, b], k, r]
        S1 = [l for l in L if l and len(l) < 2]
        for a in S1:
            for b in S1:
                for c in S1: yield [[a, b, c], "user", "list"]
    S.append(Space("lists", "every pair of lists of at most two disjoint intervals in [0,4] (and of points), and every chain of three single intervals, added", g3, run_lists))
    S.append(Space("quiet-1", "every operation of the grid menu on every seed grid, built in four ways", M.gen_machine(list(M.SEEDS), M.HOWS, 1), run_quiet))
    S.append(Space("quiet-big", f"every operation of the grid menu on {M.BIG_NOTE}", M.gen_machine(list(M.BIG), M.HOWS[:1] if q else M.HOWS, 1), run_quiet))
    S.append(Space("quiet-2", "every pair of operations of the grid menu", M.gen_machine(["pts", "het"] if q else list(M.SEEDS), ["tg"], 2), run_quiet))
    S.append(Space("looks", "every way to look at anything, on every seed grid", lambda: ([s, h] for s in list(M.SEEDS) + list(M.BIG) for h in M.HOWS), run_looks))
    def g4():
        for n in range(0, 4):
            for t in itertools.combinations(range(5), n): yield ["distance", list(t)]
        for s in list(M.SEEDS) + list(M.BIG):
            for h in M.HOWS: yield ["class", [s, h]]
        for l in ("*", "]", "*?", "*]", "x", "", "?", "#", "a*b", "[", "**"): yield ["status", l]
        yield ["empty", None]; yield ["empty", []]
    S.append(Space("asks", "distances of every point of tiers of up to three points and of a lone point; every class name a grid has and some it has not; point labels with and without a status; empty grids", g4, run_asks))
    return S
