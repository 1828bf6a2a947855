"""C24: entries report their own current values, and everything derived from them follows."""
import itertools
from .core import Space, Skip, Violation, require, same
from . import grid as G, machine as M

ASSUMPTIONS = ["entries labelled '#' have times (without times they are boundaries)", "times of children are set so that their order stays the same", "times are compared exactly"]


def views(x, what):
    """What an interval says about itself and its children, against its children's own values."""
    same(x.duration, x.end - x.start, f"{what}: duration")
    ks = list(x.subset_list)
    require(G.is_seq(list(x), ks) and len(x) == len(ks), f"{what}: iterating gives {[G.show(k) for k in x]}")
    require(G.is_seq([x[i] for i in range(len(ks))], ks), f"{what}: indexing")
    same([float(v) for v in x.sub_starts], [float(k.start) for k in ks], f"{what}: sub_starts")
    same([float(v) for v in x.sub_ends], [float(k.end) for k in ks], f"{what}: sub_ends")
    same(list(x.sub_labels), [k.label for k in ks], f"{what}: sub_labels")
    for i, k in enumerate(ks):
        same(x.index(k), i, f"{what}: index of a child")
        require(k in x, f"{what}: a child is not in it")
    if ks:
        require(x.first is ks[0] and x.last is ks[-1], f"{what}: first and last child are {G.show(x.first)}, {G.show(x.last)}")
    else:
        for a in ("first", "last"):
            try: v = getattr(x, a)
            except IndexError: continue
            raise Violation(f"{what}: {a} of an interval without children is {v!r}")
    if hasattr(type(x), "phones"):
        require(G.is_seq(list(x.phone_list), ks), f"{what}: phone_list")
        same(list(x.phones), [k.label for k in ks], f"{what}: phones")
    if hasattr(type(x), "inword"):
        require(x.inword is x.super_instance, f"{what}: inword")


def praat(x, v, what):
    from praatio.utilities.constants import Interval, Point
    for f in ("return_praatio", "return_interval" if len(v) == 3 else "return_point"):
        p = getattr(x, f)()
        require(type(p) is (Interval if len(v) == 3 else Point) and tuple(p) == tuple(v), f"{what}: {f} gives {p!r}, expected {v}")


def classes():
    from aligned_textgrid import Word, Phone, SequenceInterval, SequencePoint, custom_classes
    from aligned_textgrid.custom_classes import clone_class
    A, B, P = custom_classes(["A", "B", "P"], points=[2])
    return {"SequenceInterval": SequenceInterval, "Word": Word, "Phone": Phone, "A": A, "B": B, "cloneA": clone_class(A), "SequencePoint": SequencePoint, "P": P, "cloneP": clone_class(P)}


def blank_slate(x, c, v, what):
    """A new entry: its class and values, no relations, no place, a boundary on either side."""
    require(type(x) is c and x.entry_class is c, f"{what}: class {type(x)}")
    same(G.show(x), tuple(v), f"{what}: values")
    require(type(x.label) is type(v[-1]), f"{what}: label {x.label!r}")
    if len(v) == 3:
        require(x.super_instance is None and len(x.subset_list) == 0, f"{what}: has relations")
        views(x, what)
        if v[0] is not None: same(x.validate(), True, f"{what}: validate")
    else:
        same(x.time, v[0], f"{what}: time"); same(x.start, v[0], f"{what}: start")
    require(x.intier is None and x.tier_index is None and x.within is None and x.get_tierwise(1) is None, f"{what}: has a place")
    for n, b in (("fol", x.fol), ("prev", x.prev)):
        require(type(b) is c and G.edge(b) and b is not x, f"{what}: {n} is {b!r}")
    require(x.fol is not x.prev, f"{what}: one boundary on both sides")
    praat(x, v, what)


def run_make(case, rec):
    """Every form in which an entry can be given."""
    from praatio.utilities.constants import Interval, Point
    import numpy as np
    cn, v, form, src = case
    C = classes(); c = C[cn]
    iv = not cn in ("SequencePoint", "P", "cloneP")
    if iv != (len(v) == 3): raise Skip()
    w = f"{cn} from {v} as {form}"
    if form == "tuple": x = c(tuple(v))
    elif form == "list":
        l = list(v); x = c(l); same(l, list(v), w + ": the list given")
    elif form == "praatio": x = c(Interval(*v) if iv else Point(*v))
    elif form == "keyword":
        if not iv: raise Skip()
        x = c(Interval=Interval(*v))
    elif form == "numpy": x = c(tuple([np.float64(t) for t in v[:-1]] + [v[-1]]))
    elif form == "entry":        # made from another entry, perhaps of another class and with relations
        s = C[src]
        if iv != (src not in ("SequencePoint", "P", "cloneP")): raise Skip()
        y = s(tuple(v))
        if iv:
            if src in ("A", "Word", "cloneA"): y.append(s.subset_class((v[0], v[1], "kid")))
            if src in ("B", "Phone"): s.superset_class((v[0], v[1], "top")).append(y)
        from aligned_textgrid import SequenceTier, SequencePointTier
        t = (SequenceTier if iv else SequencePointTier)([y], s)
        snap = G.Snap(t)
        x = c(y); rec.step()
        require(x is not y, w + ": the same object")
        snap.unchanged(w)
        x.label = "changed"; same(y.label, v[-1], w + ": label of the source"); x.label = v[-1]
        w += f" of {src}"
    rec.step()
    blank_slate(x, c, v, w)
    z = c(tuple(v))
    require(x.fol is not z.fol and x.prev is not z.prev and (not iv or x.subset_list is not z.subset_list), f"{w}: shares its boundaries or children with another new entry")
    rec.state((cn, v, form, src))


class Uni:
    """Two supersets and three children in lock-step with their values."""
    def __init__(self, kind, link):
        from aligned_textgrid import Word, Phone, custom_classes
        self.U, self.L = (Word, Phone) if kind == "wp" else custom_classes(["A", "B"])
        self.v = {"u0": [0.0, 3.0, "a"], "u1": [3.0, 6.0, "b"], "l0": [0.0, 1.0, "x"], "l1": [1.0, 3.0, ""], "l2": [3.0, 6.0, "x"]}
        self.o = {k: (self.U if k[0] == "u" else self.L)(tuple(v)) for k, v in self.v.items()}
        self.kids = {"u0": [], "u1": []}
        self.feat = {k: {} for k in self.v}
        for l, u in link:
            self.o[u].append(self.o[l]); self.kids[u].append(l)

    def apply(self, op):
        k, *r = op
        o, v = self.o, self.v
        old = {u: list(ks) for u, ks in self.kids.items()}
        if k == "start": o[r[0]].start = v[r[0]][0] + r[1]; v[r[0]][0] += r[1]
        elif k == "end": o[r[0]].end = v[r[0]][1] + r[1]; v[r[0]][1] += r[1]
        elif k == "label": o[r[0]].label = r[1]; v[r[0]][2] = r[1]
        elif k == "feature": o[r[0]].set_feature(r[1], r[2]); self.feat[r[0]][r[1]] = r[2]
        elif k in ("fstart", "fend"): o[r[0]].set_feature(k[1:], v[r[0]][k == "fend"] + r[1]); v[r[0]][k == "fend"] += r[1]
        elif k == "flabel": o[r[0]].set_feature("label", r[1]); v[r[0]][2] = r[1]
        elif k == "append":
            if any(r[0] in ks for ks in self.kids.values()): raise Skip()
            if self.twin(r[0], r[1]): raise Skip()
            o[r[1]].append(o[r[0]]); self.kids[r[1]].append(r[0])
        elif k == "move":
            if r[0] in self.kids[r[1]] or self.twin(r[0], r[1]): raise Skip()
            o[r[0]].set_super_instance(o[r[1]])
            for ks in self.kids.values():
                if r[0] in ks: ks.remove(r[0])
            self.kids[r[1]].append(r[0])
        elif k == "remove":
            u = next((u for u, ks in self.kids.items() if r[0] in ks), None)
            if u is None: raise Skip()
            o[u].remove_from_subset_list(o[r[0]]); self.kids[u].remove(r[0])
        elif k == "assign":
            ls = [l for l in r[1]]
            if len({tuple(v[l]) for l in ls}) < len(ls): raise Skip()
            o[r[0]].subset_list = [o[l] for l in ls]
            for ks in self.kids.values():
                for l in ls:
                    if l in ks: ks.remove(l)
            self.kids[r[0]] = ls
        for u in self.kids:
            self.kids[u].sort(key=lambda l: v[l][0])
            st = [v[l][0] for l in self.kids[u]]
            if len(set(st)) < len(st): raise Skip()         # the order of children is not touched by setting times
            if k in ("start", "fstart") and self.kids[u] != old[u]: raise Skip()

    def twin(self, l, u):
        return any(self.v[k] == self.v[l] for k in self.kids[u])

    def check(self):
        for k, x in self.o.items():
            same(list(G.show(x)), self.v[k], f"values of {k}")
            same((x.start, x.end, x.label), tuple(self.v[k]), f"values of {k}")
            views(x, k)
            praat(x, self.v[k], k)
            for f, val in self.feat[k].items(): require(getattr(x, f) is val or getattr(x, f) == val, f"feature {f} of {k} is {getattr(x, f)!r}, expected {val!r}")
            for k2, y in self.o.items():
                for f in self.feat[k2]:
                    if f not in self.feat[k]: require(not hasattr(x, f), f"{k} has the feature {f} of {k2}")
        for u, ks in self.kids.items():
            require(G.is_seq(list(self.o[u].subset_list), [self.o[l] for l in ks]), f"children of {u}: {self.o[u].sub_labels}, expected {[self.v[l] for l in ks]}")
            for l in ks: require(self.o[l].super_instance is self.o[u], f"superset of {l}")
        for l in ("l0", "l1", "l2"):
            if not any(l in ks for ks in self.kids.values()): require(self.o[l].super_instance is None, f"{l} has a superset")

    def key(self):
        return (sorted((k, tuple(v)) for k, v in self.v.items()), sorted(self.kids.items()), sorted((k, sorted(f)) for k, f in self.feat.items()))


def run_views(case, rec):
    kind, link, ops = case
    u = Uni(kind, link)
    u.check(); rec.state(u.key())
    for op in ops:
        u.apply(op); rec.step()
        try: u.check()
        except Violation as e: raise Violation(f"after {op}: {e}")
        rec.state(u.key())


def run_edit(case, rec):
    """All entries of a grid, after an edit, before and after their times, labels and features are set."""
    seed, how, ops = case
    m = M.Machine(seed, how)
    for o in ops: m.apply(o); rec.step()
    xs = [x for g in m.a for t in g for x in t]
    def all_ok(w):
        for x in xs:
            v = G.show(x)
            praat(x, v, w)
            if len(v) == 3: views(x, f"{w}: {v}")
    all_ok("in the grid")
    for i, x in enumerate(xs):
        s = G.show(x)
        x.label = f"new{i}"; x.set_feature("mark", i) if len(s) == 3 else setattr(x, "mark", i)
        same(G.show(x), tuple(list(s[:-1]) + [f"new{i}"]), "after setting a label")
    rec.step(len(xs))
    all_ok("after setting labels")
    for g in m.a:
        for t in g:
            same(list(t.labels), [x.label for x in t], "labels of a tier after setting them")
    for i, x in enumerate(xs): require(x.mark == i and x.label == f"new{i}", "labels and features of entries")
    rec.state((seed, how, ops))


def spaces(tier):
    q = tier == "quick"
    V = [[0.0, 1.0, "a"], [-2.5, -1.25, ""], [0, 1, "b"], [1834.0712345678, 1834.0719999, "ÀÉ ñ"], [0.1, 0.30000000000000004, " x "], [3.0, 3.0, "zero"], [0, 2.5, "e\u0301 \u2126 ﬁ"], [0.5, 0.75, "a\tb\n"], [0.5, 0.75, "0"], [1.0, 2.0, None]]
    P = [[0.0, "a"], [-2.5, ""], [0, "b"], [1834.0712345678, "ÀÉ ñ"], [0.30000000000000004, " x "], [2.5, "e\u0301 \u2126 ﬁ"], [0.75, "a\tb\n"], [0.75, "0"], [1.0, None]]
    ivs, pts = ["SequenceInterval", "Word", "Phone", "A", "B", "cloneA"], ["SequencePoint", "P", "cloneP"]
    def g1():
        for cs, vs in ((ivs, V), (pts, P)):
            for c in cs:
                for v in vs:
                    for f in ("tuple", "list", "praatio", "keyword", "numpy"): yield [c, v, f, ""]
                    for s in cs: yield [c, v, "entry", s]
    menu = [["start", k, d] for k in ("u0", "l0", "l1") for d in (-0.5, 0.25)] + [["end", k, d] for k in ("u0", "l0", "l2") for d in (0.5, -0.25)] \
        + [["label", k, l] for k in ("u0", "l0", "l1") for l in ("new", "")] + [["feature", "l0", "f", 1], ["feature", "u0", "g", "v"], ["feature", "l1", "f", None], ["flabel", "l0", "z"], ["flabel", "u0", "z"], ["fstart", "u0", 0.5], ["fend", "u0", 1.0], ["fend", "l0", 5.0], ["fstart", "l1", 0.25], ["end", "l0", 4.0]] \
        + [["append", l, u] for l in ("l0", "l1", "l2") for u in ("u0", "u1")] + [["move", l, u] for l in ("l0", "l2") for u in ("u0", "u1")] + [["remove", l] for l in ("l0", "l1", "l2")] \
        + [["assign", "u0", []], ["assign", "u0", ["l1", "l0"]], ["assign", "u1", ["l2", "l1"]]]
    LINK = [[], [["l0", "u0"], ["l1", "u0"], ["l2", "u1"]], [["l1", "u0"]]]
    def g2(d):
        return lambda: ([k, l, [list(o) for o in ops]] for k in ("wp", "own") for l in LINK for n in range(d + 1) for ops in itertools.product(menu, repeat=n))
    S = [Space("make", "every form of giving an entry (tuple, list, praatio entry, keyword, numpy times, another entry with relations), 9 classes, 10 values", g1, run_make),
         Space("views", "every pair of operations (set start, end, label, features, append, move, remove, assign) on two supersets and three children from three assignments", g2(2), run_views),
         Space("edited", "the entries of the seed grids after every edit", lambda: ([s, h, [o]] for s in M.SEEDS for h in (["tg", "append"] if q else M.HOWS) for o in M.menu(s)), run_edit),
         Space("edited-large", "the same for " + M.BIG_NOTE, lambda: ([s, h, [o]] for s in M.BIG for h in ("tg", "append") for o in (["cleanup"], ["shift", 2.0], ["fuse_r", 0, 1, 3], ["interleave", "New", "above", "Word", "below", True], ["pickle"])), run_edit)]
    if not q: S.append(Space("views-3", "every triple of operations", g2(3), run_views))
    return S
