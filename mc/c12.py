"""C12: interleaving and popping classes."""
import itertools
from .core import Space, Skip, Violation, require, same
from . import grid as G, machine as M, c05

ASSUMPTIONS = ["the name of an interleaved class is not one of the grid's classes", "grids are gap-free when classes are edited (as after reading or cleanup; re-grouping other states: C04, C07)",
               "interval classes only: points have no hierarchy"]
CH = {1: ["Word"], 2: ["Word", "Phone"], 3: ["Word", "Syl", "Phone"], 4: ["Word", "Syl", "Phone", "Sub"]}


def model(gs, pts=None):
    n = max(len(g) for g in gs)
    out = [M.g_i((CH[n])[:len(g)], [[tuple(i) for i in t] for t in g], "spk" + "ABC"[i], i) for i, g in enumerate(gs)]
    if pts == "same":
        for g in out:
            g["name"] = "spk"
            for t in g["tiers"]: t[1] = f"spk - {t[0].lower()}"
    elif pts:
        out.insert(1, M.g_p(["Pt", "Qt"][:len(pts)], pts))
    return out


def gobs(a):
    return [(g.name, [(t.entry_class.__name__, t.name) for t in g]) for g in a]


def run(case, rec):
    gs, pts, how, ops = case
    m = M.Machine(gs if isinstance(gs, str) else model(gs, pts), how)
    m.check()
    keep = [x for g in m.a for t in g for x in t]       # held on to, so that ids stay theirs
    names = {id(x): g.name for g in m.a for t in g for x in t}
    for op in ops:
        m.apply(op); rec.step()
        try:
            m.check()
            for g in m.a:
                for t in g:
                    for x in t:
                        require(names.get(id(x), g.name) == g.name, f"the group of {G.show(x)} was called {names.get(id(x))!r} and is now called {g.name!r}")
        except Violation as e:
            raise Violation(f"after {op}: {e}")
        rec.state(m.canon())


def run_restore(case, rec):
    gs, pts, how, ops = case
    m = M.Machine(gs if isinstance(gs, str) else model(gs, pts), how)
    objs = [[list(t) for t in g] for g in m.a]
    o, v = gobs(m.a), G.obs_values(m.a)
    sups = [[[x.super_instance if hasattr(x, "super_instance") else None for x in t] for t in g] for g in m.a]
    links = [[[(x.prev if not G.edge(x.prev) else None, x.fol if not G.edge(x.fol) else None) for x in t] for t in g] for g in m.a]
    for op in ops:
        m.apply(op); rec.step()
    for op in reversed(ops):
        m.apply(["pop_class", op[1]]); rec.step()
    w = f"after {ops} and popping again: "
    same(gobs(m.a), o, w + "groups, classes and names")
    same(G.obs_values(m.a), v, w + "entries and relations")
    for gi, g in enumerate(m.a):
        for ti, t in enumerate(g):
            require(G.is_seq(list(t), objs[gi][ti]), w + f"entries of group {gi} tier {ti} are not the ones before")
            for k, x in enumerate(t):
                if hasattr(x, "super_instance"):
                    require(x.super_instance is sups[gi][ti][k], w + f"superset of {G.show(x)}")
                p, f = links[gi][ti][k]
                require((x.prev is p) if p is not None else G.edge(x.prev), w + f"previous of {G.show(x)}")
                require((x.fol is f) if f is not None else G.edge(x.fol), w + f"following of {G.show(x)}")
    m.check()
    rec.state(m.canon())


def menu(gs, name="New", extra=()):
    n = max(len(g) for g in gs)
    out = []
    for c in CH[n] + list(extra):
        for w in ("above", "below"):
            for tm in ("above", "below"):
                for cl in (True, False):
                    out.append(["interleave", name, w, c, tm, cl])
    return out


def by_class(op):
    return op + ["class"]


def shapes(n, k):
    return [[[list(i) for i in t] for t in g] for g in c05.nested(n, k) if tight(g)]


def tight(g):
    es = [t for t in g]
    return all(t and t[0][0] == es[0][0][0] and t[-1][1] == es[0][-1][1] and all(a[1] == b[0] for a, b in zip(t, t[1:])) for t in es)


def spaces(tier):
    q = tier == "quick"
    W2 = [[[0, 1], [1, 3]], [[0, 1], [1, 2], [2, 3]]]
    W2b = [[[0, 3]], [[0, 2], [2, 3]]]
    W3 = [[[0, 2], [2, 3]], [[0, 1], [1, 2], [2, 3]], [[0, 1], [1, 2], [2, 3]]]
    W3b = [[[0, 3]], [[0, 1], [1, 3]], [[0, 1], [1, 2], [2, 3]]]
    W4 = [[[0, 3], [3, 4]], [[0, 1], [1, 3], [3, 4]], [[0, 1], [1, 2], [2, 3], [3, 4]], [[0, 1], [1, 2], [2, 3], [3, 4]]]
    WS = [[[0, 1], [1, 1.0005], [1.0005, 3]], [[0, 1], [1, 1.0005], [1.0005, 2], [2, 3]]]      # half a millisecond
    S1 = [[g] for k in (1, 2, 3) for g in shapes(3, k)]
    S2 = [[W2, W2b], [W2, W2b[:1]], [W2[:1], W2b], [W3, W3b], [W3, W3b[:2]], [W3[:1], W3b[:2], W3], [W3b[:2], W3], [W2[:1], W2b[:1]], [W4], [W4[:2], W4], [WS]]
    def g1():
        for gs in S1 + S2:
            for pts in ([None] if gs in S1 else [None, [[0, 2], [1]]]):
                for op in menu(gs) + [["pop_class", c] for c in CH[max(len(g) for g in gs)]]:
                    for h in (("tg",) if gs in S1 else ("tg", "append", "groups")):
                        yield [gs, pts, h, [op]]
                        if h == "tg": yield [gs, pts, h, [by_class(op)]]
    def g2():
        for gs in S2 + [[W2], [W3]]:
            for pts in (None, [[0, 2]]):
                for o1 in menu(gs) + [["pop_class", c] for c in CH[max(len(g) for g in gs)]]:
                    if o1[0] == "interleave" and not o1[5] and q: continue
                    for o2 in menu(gs, "Two", ("New",)) + [["pop_class", c] for c in CH[max(len(g) for g in gs)] + ["New"]]:
                        if o2[0] == "interleave" and o2[5] and q: continue
                        if pts and q and len(gs) > 2: continue
                        yield [gs, pts, "tg", [o1, o2]]
    def g3():
        for gs in S1 + S2:
            for op in menu(gs):
                for h in ("tg", "append"):
                    yield [gs, None, h, [op]]
        for gs in S2:
            for pts in (None, [[0, 2]]):
                for o1 in menu(gs):
                    if not o1[5]: continue
                    for o2 in menu(gs, "Two", ("New",)):
                        if o2[5]: continue
                        yield [gs, pts, "tg", [o1, o2]]
    def g4():
        for gs in [[W2], [W2, W2b[:1]], [W3]]:
            base = lambda n, ex: [o for o in menu(gs, n, ex) if o[5]]
            P = [["pop_class", c] for c in CH[max(len(g) for g in gs)] + ["New", "Two"]]
            for o1 in base("New", ()) + P[:-2]:
                for o2 in base("Two", ("New",)) + P:
                    for o3 in base("New", ("Two",)) + P:
                        yield [gs, None, "tg", [o1, o2, o3]]
    def g5():
        others = [["shift", 0.5], ["fuse_r", 0, 0, 0], ["fuse_r", 0, 1, 0], ["fuse_r", 0, 1, 1], ["cleanup"], ["relabel", 0, 1, 0, "zz"], ["pickle"], ["re_relate", 0], ["append_group", "pt"], ["shift_g", 0, 0.25]]
        for gs in S2 + [[W2], [W3]]:
            for o1 in [o for o in menu(gs) if o[5]] + [["pop_class", c] for c in CH[max(len(g) for g in gs)]]:
                for x in others:
                    yield [gs, None, "tg", [o1, x, ["pop_class", "New"]]]
                    yield [gs, None, "tg", [x, o1]]
                    yield [gs, None, "tg", [o1, x]]
    def big():
        for s in M.BIG:
            cs = sorted({t[0] for g in M.BIG[s] for t in g["tiers"] if g["k"] == "I"})
            il = lambda n, ex=(): [["interleave", n, w, c, tm, cl] for c in cs + list(ex) for w in ("above", "below") for tm in ("above", "below") for cl in (True, False)]
            yield s, il, [["pop_class", c] for c in cs]
    def g6():
        for s, il, pops in big():
            for h in ("tg", "append"):
                for o in il("New") + pops: yield [s, None, h, [o]]
            for o1 in [o for o in il("New") if o[5]] + pops:
                for o2 in [o for o in il("Two", ("New",)) if not o[5]] + pops:
                    if q and s != "many" and not (o1[0] == "pop_class" or o2[0] == "pop_class"): continue
                    yield [s, None, "tg", [o1, o2]]
    def g7():
        for s, il, pops in big():
            for o in il("New"):
                yield [s, None, "tg", [o]]
            for o in il("New"):
                if o[5] and (s == "many" or not q):
                    for o2 in il("Two", ("New",)):
                        if not o2[5]: yield [s, None, "tg", [o, o2]]
    S = [Space("edit-big", "every class edit, and pairs of them, on " + M.BIG_NOTE, g6, run), Space("restore-big", "interleaving and popping again on " + M.BIG_NOTE, g7, run_restore),
         Space("edit-1", "every interleaving (class, side, timing, labels; by name or class) and popping, on every gap-free group of one to three tiers over [0,3] and on 10 grids of several groups, with and without points", g1, run),
         Space("edit-2", "every pair of class edits on 12 grids", g2, run),
         Space("restore", "every one or two interleavings followed by popping them", g3, run_restore),
         Space("with-others", "class edits before and after other edits (shift, fusion, cleanup, pickling, appending)", g5, run)]
    S3 = [[W2, W2b], [W3, W3b], [W3, W3b[:2]], [W3b[:2], W3], [W3, W3b, W3], [W4, W4], [W2, W2]]
    def g8():
        for gs in S3:
            pops = [["pop_class", c] for c in CH[max(len(g) for g in gs)]]
            for o in menu(gs) + pops:
                yield [gs, "same", "groups", [o]]
                if o[0] == "pop_class" or q and not o[5]: continue
                for o2 in menu(gs, "Two", ("New",)) + pops:
                    if q and (len(gs) > 2 or o2[0] != "pop_class" and o2[5]): continue
                    yield [gs, "same", "append", [o, o2]]
    S.append(Space("same-names", "class edits, and pairs of them, on 7 grids of groups that all have one name", g8, run))
    if not q:
        S.append(Space("edit-3", "every triple of class edits on 3 grids", g4, run))
    return S
