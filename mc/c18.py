"""C18: refused operations raise and leave everything unchanged."""
import itertools
import numpy as np
from .core import Space, Skip, Violation, require, same
from . import grid as G, machine as M

ASSUMPTIONS = ["only the kinds of request listed by the property are made; requests that the library documents as ignored (setting no superset, removing an entry that is not a child) are not refusals",
               "unchanged means: entries, times, labels, relations, neighbours, classes, names and containers, by identity"]


def class_links(a, extra=()):
    seen, out = [], []
    todo = [t.entry_class for g in a for t in g] + list(extra)
    while todo:
        c = todo.pop()
        if c is None or any(c is s for s in seen): continue
        seen.append(c)
        sup, sub = getattr(c, "superset_class", None), getattr(c, "subset_class", None)
        out.append((c, c.__name__, sup, sub))
        todo += [sup, sub]
    return out


class Scene:
    """A grid in some state, loose objects of its and of foreign classes, and everything that may not change."""
    def __init__(self, seed, how, ops):
        from aligned_textgrid import SequenceTier, SequencePointTier, TierGroup, PointsGroup, custom_classes
        from aligned_textgrid.sequence_list import SequenceList
        self.m = M.Machine(seed, how)
        for op in ops: self.m.apply(op)
        self.a = self.m.a
        self.X, self.Y = custom_classes(["Xx", "Yy"])
        self.P, = custom_classes(["Pp"], points=[0])
        self.x, self.y, self.p = self.X((20.0, 21.0, "x")), self.Y((20.0, 21.0, "y")), self.P((20.0, "p"))
        self.x.append(self.Y((20.0, 20.5, "k")))
        self.xt, self.yt, self.pt = SequenceTier([self.X((20.0, 21.0, "t"))], self.X), SequenceTier([self.Y((20.0, 21.0, "t"))], self.Y), SequencePointTier([self.P((20.0, "t"))], self.P)
        self.xg = TierGroup([SequenceTier([self.X((20.0, 21.0, "g"))], self.X), SequenceTier([self.Y((20.0, 21.0, "g"))], self.Y)])
        self.pg = PointsGroup([SequencePointTier([self.P((20.0, "g"))], self.P)])
        self.loose = [self.x, self.y, self.p, self.xt, self.yt, self.pt, self.xg, self.pg]
        self.extra = []

    def keep(self, *objs):
        self.extra += objs
        return objs[0]

    def tier(self, gi, ti): return self.a[gi][ti]

    def snap(self):
        self.s = G.Snap(self.a, *self.loose, *[e for e in self.extra if not isinstance(e, type)])
        self.c = class_links(self.a, [self.X, self.Y, self.P] + [e for e in self.extra if isinstance(e, type)])
        self.names = [sorted((k, id(v)) for k, v in self.a.__dict__.items() if k[0] != "_" and hasattr(v, "tier_list"))] + [sorted((k, id(v)) for k, v in g.__dict__.items() if k[0] != "_" and hasattr(v, "sequence_list")) for g in self.a]

    def unchanged(self, what):
        self.s.unchanged(what)
        now = class_links(self.a, [self.X, self.Y, self.P] + [e for e in self.extra if isinstance(e, type)])
        for x, y in zip(self.c, now):
            require(all(u is v or u == v and isinstance(u, str) for u, v in zip(x, y)), f"{what}: the class links of {x[1]} changed: {x[2:]} became {y[2:]}")
        same(len(now), len(self.c), what + ": number of classes")
        names = [sorted((k, id(v)) for k, v in self.a.__dict__.items() if k[0] != "_" and hasattr(v, "tier_list"))] + [sorted((k, id(v)) for k, v in g.__dict__.items() if k[0] != "_" and hasattr(v, "sequence_list")) for g in self.a]
        require(names == self.names, f"{what}: named access changed")


def wrong(s, kind, x):
    """An entry that is not of the class asked for, or None."""
    c = {"same": lambda: type(x)((30.0, 31.0, "w")), "foreign": lambda: s.y, "point": lambda: s.p, "sub": lambda: list(x.subset_list)[0] if len(x.subset_list) else None,
         "super": lambda: x.super_instance, "text": lambda: "oops", "tuple": lambda: (0.0, 1.0, "oops"), "self": lambda: x,
         "treed": lambda: s.x, "namesake": lambda: namesake(type(x)), "nsub": lambda: namesake(type(x).subset_class), "nsuper": lambda: namesake(type(x).superset_class)}
    return c[kind]()


def namesake(c):
    """An entry of a class with the names of c and its neighbours, but of another hierarchy."""
    from aligned_textgrid import custom_classes
    if c is None: return None
    if not hasattr(c, "subset_class"):
        return custom_classes([c.__name__], points=[0])[0]((20.0, "n"))
    if c.superset_class is None or c.subset_class is None: return None      # the placeholders above and below every hierarchy
    up = [u.__name__ for u in (c.superset_class,) if u.superset_class is not None]
    down = [d.__name__ for d in (c.subset_class,) if d.subset_class is not None]
    return custom_classes(up + [c.__name__] + down)[len(up)]((20.0, 21.0, "n"))


# each request: name -> list of argument variants; do(s, args) performs it (must raise)
def requests_interval(a):
    for gi, g in enumerate(a):
        for ti, t in enumerate(g):
            for k in range(len(t)):
                yield gi, ti, k


def do(s, req):
    from aligned_textgrid import SequenceInterval, SequencePoint, SequenceTier, SequencePointTier, TierGroup, PointsGroup, AlignedTextGrid
    from aligned_textgrid.sequence_list import SequenceList
    k, *r = req
    a = s.a
    if k in ("super", "child", "append", "subset", "subset_mixed", "subset_set", "add", "fol", "prev"):
        gi, ti, n, w = r
        x = s.tier(gi, ti)[n]
        o = wrong(s, w, x)
        if o is None or not hasattr(x, "subset_list") and k not in ("fol", "prev"): raise Skip()
        if hasattr(o, "label") and not any(o is z for z in s.loose): s.keep(o)
        f = {"super": lambda: x.set_super_instance(o), "child": lambda: x.append_subset_list(o), "append": lambda: x.append(o),
             "subset": lambda: x.set_subset_list([o]), "subset_mixed": lambda: x.set_subset_list(list(x.subset_list) + [o]),
             "subset_set": lambda: setattr(x, "subset_list", list(x.subset_list) + [o]), "add": lambda: x + o,
             "fol": lambda: x.set_fol(o), "prev": lambda: x.set_prev(o)}[k]
        return f
    if k == "t_append":
        gi, ti, w = r
        t = s.tier(gi, ti)
        iv = not G.is_point_tier(t)
        o = {"foreign": s.y, "treed": s.x, "point": s.p, "tier": s.xt, "text": "oops", "tuple": (0.0, 1.0, "oops"), "namesake": namesake(t.entry_class) if w == "namesake" else None,
             "other": next((list(u)[0] for u in a[gi] if u is not t and len(u)), None) if iv or len(a[gi]) > 1 else None}[w]
        if o is None: raise Skip()
        if w == "namesake": s.keep(o)
        return lambda: t.append(o)
    if k == "t_pop":
        gi, ti, w = r
        t = s.tier(gi, ti)
        if G.is_point_tier(t): raise Skip()
        o = s.keep(t.entry_class((50.0, 51.0, "gone"))) if w == "new" else s.y if w == "foreign" else next((list(u)[0] for u in a[gi] if u is not t and len(u) and not any(G.show(v) == G.show(list(u)[0]) for v in t)), None)
        if o is None: raise Skip()
        return lambda: t.pop(o)
    if k == "times":
        gi, ti, attr, d = r
        t = s.tier(gi, ti)
        if (attr == "times") != G.is_point_tier(t) or len(t) + d < 0 or not len(t): raise Skip()
        v = np.linspace(60.0, 70.0, len(t) + d)
        return lambda: setattr(t, attr, v)
    if k in ("t_add", "t_concat"):
        gi, ti, w = r
        t = s.tier(gi, ti)
        o = {"foreign": s.yt, "point": s.pt, "other": next((u for u in a[gi] if u is not t), None), "entry": list(t)[0] if len(t) else None, "treed": s.xt}[w]
        if o is None or w == "entry" and k == "t_concat": raise Skip()
        return (lambda: t + o) if k == "t_add" else (lambda: t.concat(o))
    if k == "g_append":
        gi, w = r
        g = a[gi]
        iv = not G.is_points(g)
        if w == "dup":
            c = g[0].entry_class
            o = s.keep((SequenceTier if iv else SequencePointTier)([c((40.0, 41.0, "d") if iv else (40.0, "d"))], c))
        elif w == "dup-user":
            c = s.m.cls.get(g[len(g) - 1].entry_class.__name__)
            if c is None: raise Skip()
            o = s.keep((SequenceTier if iv else SequencePointTier)([c((40.0, 41.0, "d") if iv else (40.0, "d"))], c)); s.keep(c)
        elif w == "kind": o = s.pt if iv else s.yt
        elif w == "foreign":
            if not iv: raise Skip()
            o = s.yt
        elif w == "foreign-top":
            if not iv: raise Skip()
            o = s.xt
        elif w == "entry": o = s.y if iv else s.p
        elif w == "group": o = s.xg
        return lambda: g.append(o)
    if k == "g_index":
        gi, w = r
        g = a[gi]
        i = {"short": [0] * (len(g) - 1), "long": [0] * (len(g) + 1), "none": []}[w]
        if len(i) == len(g): raise Skip()
        return lambda: g[i]
    if k == "a_index":
        i = {"short": [0] * (len(a) - 1), "long": [0] * (len(a) + 1), "none": []}[r[0]]
        if len(i) == len(a): raise Skip()
        return lambda: a[i]
    if k in ("g_concat", "g_add"):
        gi, w = r
        g = a[gi]
        from aligned_textgrid import TierGroup
        if w in ("short", "long"):      # the same classes, with a tier too few or too many
            iv = not G.is_points(g)
            cs = [t.entry_class for t in g]
            if w == "short": cs = cs[:-1]
            else: cs = cs + [cs[-1].subset_class if iv else s.P]
            if not cs or iv and cs[-1].subset_class is None: raise Skip()
            ts = [(SequenceTier([c((20.0, 21.0, "g"))], c) if iv else SequencePointTier([c((20.0, "g"))], c)) for c in cs]
            o = s.keep((TierGroup if iv else PointsGroup)(ts))
        else: o = {"foreign": s.xg, "points": s.pg}[w]
        return (lambda: g + o) if k == "g_add" else (lambda: g.concat(o))
    if k == "a_append":
        w, = r
        if w == "gap":      # a group that skips a class of the grid
            cs = next(([s.m.cls.get(t.entry_class.__name__) for t in g] for g in a if not G.is_points(g) and len(g) > 2), None)
            raise Skip()
        o = {"tier": s.xt, "entry": s.x, "text": "oops", "list": [s.xg]}[w]
        return lambda: a.append(o)
    if k == "set_groups":
        v = {"text": "oops", "none": None, "mixed": [a[0], "oops"], "tiers": list(a[0]), "group": a[0]}[r[0]]
        return lambda: setattr(a, "tier_groups", v)
    if k == "interleave":
        kw, = r
        kw = dict(kw)
        for side in ("above", "below"):
            if kw.get(side) == "@first": kw[side] = a[0][0].entry_class.__name__
            if kw.get(side) == "@last": kw[side] = next(g for g in a if not G.is_points(g))[-1].entry_class.__name__
        return lambda: a.interleave_class(**kw)
    if k == "edge":
        gi, ti, n, d = r
        t = s.tier(gi, ti)
        if G.is_point_tier(t): raise Skip()
        x = t[n]
        if not G.edge(x.fol if d > 0 else x.prev): raise Skip()
        return (lambda: x.fuse_rightwards()) if d > 0 else (lambda: x.fuse_leftwards())
    if k == "walk":
        gi, ti, n, d = r
        t = s.tier(gi, ti)
        if 0 <= n + d < len(t): raise Skip()
        return lambda: t[n].get_tierwise(d)
    if k == "entry":
        c, v = r
        cl = {"interval": SequenceInterval, "point": SequencePoint, "x": s.X, "p": s.P}[c]
        return lambda: cl(tuple(v))
    if k == "class":
        op, w = r
        c = s.X
        o = {"self": c, "int": int, "text": "oops", "point": s.P}[w]
        return lambda: getattr(c, op)(o)
    if k == "list":
        op, w = r
        L = s.keep(s.xt).sequence_list
        o = {"foreign": s.y, "point": s.p, "text": "oops", "namesake": s.keep(namesake(s.X))}[w]
        return {"append": lambda: L.append(o), "add": lambda: L + [o], "make": lambda: SequenceList(*list(L), o), "concat": lambda: L.concat([o]), "add-mixed": lambda: L + [s.X((70.0, 71.0, "m")), o]}[op]
    raise AssertionError(req)


def run(case, rec):
    seed, how, ops, req = case
    s = Scene(seed, how, ops)
    try:
        f = do(s, req)
    except IndexError:
        raise Skip()
    s.snap()
    w = f"{req} on {seed} built by {how} after {ops}"
    try:
        f()
    except Exception as e:
        rec.outcome(type(e).__name__)
        rec.step()
        s.unchanged(f"{req[0]} {req[-1]} was refused ({type(e).__name__}: {e}): {w}")
        s.m.check()
        rec.state((seed, how, str(ops), str(req)))
        return
    raise Violation(f"{req[0]} {req[-1]} was not refused: {w}")


WR = {"super": ["same", "foreign", "point", "sub", "self", "treed", "text", "nsuper"], "child": ["same", "foreign", "point", "super", "self", "treed", "nsub"],
      "append": ["same", "foreign", "point", "super", "self", "treed", "nsub"], "subset": ["same", "foreign", "point", "super", "nsub"], "subset_mixed": ["same", "foreign", "point", "nsub"],
      "subset_set": ["same", "foreign", "point", "nsub"], "add": ["same", "foreign", "point", "treed", "self", "nsub", "nsuper"], "fol": ["foreign", "self", "point", "sub", "super", "namesake"], "prev": ["foreign", "self", "point", "sub", "super", "namesake"]}


def reqs(model):
    for gi, g in enumerate(model):
        for ti, t in enumerate(g["tiers"]):
            for k in range(len(t[2])):
                for op, ws in WR.items():
                    if g["k"] == "P" and op not in ("fol", "prev"): continue
                    for w in ws:
                        if g["k"] == "P" and w in ("sub", "super", "nsub", "nsuper"): continue
                        yield [op, gi, ti, k, w]
                for d in (1, -1): yield ["edge", gi, ti, k, d]
                for d in (-3, -2, -1, 1, 2, 3): yield ["walk", gi, ti, k, d]
            for w in ("foreign", "treed", "point", "tier", "text", "tuple", "other", "namesake"): yield ["t_append", gi, ti, w]
            for w in ("new", "foreign", "other"): yield ["t_pop", gi, ti, w]
            for at in ("starts", "ends", "times"):
                for d in (-2, -1, 1, 2): yield ["times", gi, ti, at, d]
            for w in ("foreign", "point", "other", "entry", "treed"):
                yield ["t_add", gi, ti, w]; yield ["t_concat", gi, ti, w]
        for w in ("dup", "dup-user", "kind", "foreign", "foreign-top", "entry", "group"): yield ["g_append", gi, w]
        for w in ("short", "long", "none"): yield ["g_index", gi, w]
        for w in ("foreign", "points", "short", "long"): yield ["g_concat", gi, w]; yield ["g_add", gi, w]
    for w in ("short", "long", "none"): yield ["a_index", w]
    for w in ("tier", "entry", "text", "list"): yield ["a_append", w]
    for w in ("text", "none", "mixed", "tiers", "group"): yield ["set_groups", w]
    for kw in ({"name": "New"}, {"name": "New", "above": "@first", "below": "@first"}, {"name": "New", "above": "@last", "below": "@last"}, {"name": "", "above": "@last"}, {"name": None, "below": "@first"},
               {"name": "New", "above": "Nope"}, {"name": "New", "below": "Nope"}, {"name": "New", "above": "@last", "timing_from": "left"}, {"name": "New", "below": "@first", "timing_from": None},
               {"name": "New", "above": "@first", "timing_from": "above"}, {"name": "New", "below": "@last", "timing_from": "below"}):
        yield ["interleave", kw]
    for c in ("interval", "x"):
        for v in ([0, 1, "a", "b"], [0, 1, "a", "b", "c"], [0], [0, 1]): yield ["entry", c, v]
    for c in ("point", "p"):
        for v in ([0, "a", "b"], [0, 1, "a", "b"], [0]): yield ["entry", c, v]
    for op in ("set_superset_class", "set_subset_class"):
        for w in ("self", "int", "text", "point"): yield ["class", op, w]
    for op in ("append", "add", "make", "concat", "add-mixed"):
        for w in ("foreign", "point", "text", "namesake"): yield ["list", op, w]


def run_grouping(case, rec):
    """Tiers that do not form one chain of classes cannot be a group; nothing happens to them."""
    from aligned_textgrid import SequenceTier, TierGroup, AlignedTextGrid, custom_classes
    names, related, how = case
    cs = dict(zip("ABC", custom_classes(["A", "B", "C"]))); cs.update(zip("XY", custom_classes(["X", "Y"])))
    ts = [SequenceTier([cs[n]((0.0, 1.0, n.lower())), cs[n]((1.0, 2.0, n.lower() + "2"))], cs[n]) for n in names]
    chain = sorted(names)
    ok = "".join(chain) in ("A", "B", "C", "AB", "BC", "ABC", "X", "Y", "XY")
    if related and "A" in names and "B" in names:
        TierGroup([ts[names.index("A")], ts[names.index("B")]])
    s = G.Snap(*ts)
    try:
        g = TierGroup(list(ts)) if how == "list" else TierGroup(tuple(ts))
    except Exception as e:
        rec.step(); rec.outcome(type(e).__name__)
        require(not ok, f"grouping tiers of {names} was refused ({e})")
        s.unchanged(f"grouping tiers of {names} was refused"); return
    rec.step(); rec.outcome("grouped")
    require(ok, f"grouping tiers of {names}, which are not one chain of classes, was not refused; the group has {[t.entry_class.__name__ for t in g]}")
    require(len(g) == len(ts) and all(any(t is u for u in g) for t in ts), f"grouping tiers of {names}: the group has {[t.entry_class.__name__ for t in g]}")
    rec.state(names)


def spaces(tier):
    q = tier == "quick"
    def gen(seeds, hows, pre):
        for sd in seeds:
            for h in hows:
                for ops in pre(sd):
                    for rq in reqs(M.SEEDS[sd]): yield [sd, h, ops, rq]
    PRE = [["shift", 0.5], ["cleanup"], ["pickle"], ["interleave", "New", "above", "Phone", "below", True], ["pop_class", "Word"], ["append_top", 0], ["append_group", "pt"], ["fuse_r", 0, 0, 0], ["tier_pop", 0, 1, 0]]
    def g3():
        for n in (1, 2, 3, 4):
            for names in itertools.product("ABCXY", repeat=n):
                for rel in (False, True):
                    for how in ("list", "tuple"): yield ["".join(names), rel, how]
    def g4():
        for sd in M.BIG:
            model = M.BIG[sd]
            for rq in reqs(model):
                if rq[0] in WR or rq[0] in ("edge", "walk"):
                    n = len(model[rq[1]]["tiers"][rq[2]][2])
                    if rq[3] not in (0, n // 2, n - 1): continue
                yield [sd, "tg", [], rq]
    return [Space("big", "the same on larger grids, at the first, a middle and the last entry of each tier: " + M.BIG_NOTE, g4, run), Space("grouping", "every list of up to four tiers of the classes A > B > C and X > Y", g3, run_grouping), Space("fresh", "every kind of invalid request on every entry, tier and group of the seed grids", lambda: gen(list(M.SEEDS), M.HOWS if not q else ["tg", "append"], lambda s: [[]]), run),
            Space("edited", "the same after an edit of the grid", lambda: gen(list(M.SEEDS) if not q else ["one", "pts", "het"], ["tg"], lambda s: [[o] for o in (PRE if q else M.menu(s))]), run)]
