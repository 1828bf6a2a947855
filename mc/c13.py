"""C13: custom and cloned classes."""
import itertools
from .core import Space, Skip, Violation, require, same

ASSUMPTIONS = ["the names of one class list are all different", "hierarchies start at a class whose superset is a top class"]
NAMES = [["A", "B", "C", "D"], ["Word", "Phone", "Syl", "Foot"], ["Topic", "StopTop", "Bottoms", "RockBottom"], ["Interval", "Point", "SequenceInterval", "x y"]]


class Reg:
    """All hierarchies made so far: the model is, per hierarchy, the list of its interval classes and its point classes."""
    def __init__(self):
        from aligned_textgrid import Word, Phone
        self.h = [([Word, Phone], [])]
        self.tops = []

    def check_chain(self, cs):
        from aligned_textgrid.sequences.sequences import Top, Bottom, SequenceInterval
        for c in cs:
            require(isinstance(c, type) and issubclass(c, SequenceInterval), f"{c!r} is not an interval class")
        for a, b in zip(cs, cs[1:]):
            require(a.subset_class is b, f"the subset class of {a.__name__} is {a.subset_class!r}, expected {b!r}")
            require(b.superset_class is a, f"the superset class of {b.__name__} is {b.superset_class!r}, expected {a!r}")
        if cs:
            t, b = cs[0].superset_class, cs[-1].subset_class
            require(isinstance(t, type) and issubclass(t, Top), f"no top class above {cs[0].__name__}: {t!r}")
            require(isinstance(b, type) and issubclass(b, Bottom), f"no bottom class below {cs[-1].__name__}: {b!r}")
            require(t.subset_class is cs[0], f"the top class above {cs[0].__name__} leads to {t.subset_class!r}")
            require(b.superset_class is cs[-1], f"the bottom class below {cs[-1].__name__} leads to {b.superset_class!r}")

    def check(self):
        from aligned_textgrid.points.points import SequencePoint
        from aligned_textgrid.sequences.sequences import SequenceInterval
        seen = {}
        for cs, ps in self.h:
            self.check_chain(cs)
            for p in ps:
                require(issubclass(p, SequencePoint) and not issubclass(p, SequenceInterval), f"{p!r} is not a point class")
                require(getattr(p, "superset_class", None) is None and getattr(p, "subset_class", None) is None, f"the point class {p!r} has class links")
            for c in list(cs) + list(ps) + ([cs[0].superset_class, cs[-1].subset_class] if cs else []):
                require(id(c) not in seen, f"{c!r} is shared by two hierarchies")
                seen[id(c)] = c
        # instances follow their classes
        for cs, ps in self.h:
            for a, b in zip(cs, cs[1:]):
                x, y = a((0, 1, "x")), b((0, 1, "y"))
                x.append(y)
                require(y.super_instance is x and list(x) == [y], f"an instance of {b.__name__} cannot be added to one of {a.__name__}")

    def custom(self, names, points, order, how):
        from aligned_textgrid import custom_classes
        args = {}
        if order is not None:
            args["return_order"] = [names[i] for i in order] if how == "name" else [i - len(names) for i in order] if how == "negative" else list(order)
        if points:
            args["points"] = list(points)
        n0 = list(names)
        out = custom_classes(names, **args)
        same(names, n0, "the class list passed in")
        if order is not None:
            same(args["return_order"], [names[i] for i in order] if how == "name" else [i - len(names) for i in order] if how == "negative" else list(order), "the return order passed in")
        o = list(range(len(names))) if order is None else order
        same([c.__name__ for c in out], [names[i] for i in o], f"custom_classes({names}, return_order={args.get('return_order')}, points={points}): classes returned")
        by = {i: c for i, c in zip(o, out)}
        for i, c in zip(o, out): require(by[i] is c, f"custom_classes({names}, return_order={args.get('return_order')}): two different classes for {names[i]}")
        if len(by) < len(names):       # some classes are not returned: find them through the links
            iv = [i for i in range(len(names)) if i not in points]
            got = [i for i in iv if i in by]
            if not got:
                return
            c, i = by[got[0]], got[0]
            for j in reversed(iv[:iv.index(i)]):
                d = by.get(j + 0) if j in by else c.superset_class
                require(isinstance(d, type) and d.__name__ == names[j], f"above {c.__name__} is {d!r}, expected {names[j]}")
                by[j] = c = d
            c = by[i]
            for j in iv[iv.index(i) + 1:]:
                d = c.subset_class
                require(isinstance(d, type) and d.__name__ == names[j] and by.get(j, d) is d, f"below {c.__name__} is {d!r}, expected {names[j]}")
                by[j] = c = d
        self.h.append(([by[i] for i in range(len(names)) if i not in points], [by[i] for i in points if i in by]))

    def single(self, name, points):
        from aligned_textgrid import custom_classes
        c = custom_classes(name, points=[0]) if points else custom_classes(name)
        require(isinstance(c, type), f"custom_classes({name!r}) gave {c!r}")
        same(c.__name__, name, "name")
        self.h.append(([], [c]) if points else ([c], []))

    def clone(self, hi, pi=None):
        from aligned_textgrid.custom_classes import clone_class
        cs, ps = self.h[hi]
        if pi is not None:
            if pi >= len(ps): raise Skip()
            d = clone_class(ps[pi])
            same(d.__name__, ps[pi].__name__, "name of a clone")
            require(d is not ps[pi] and issubclass(d, ps[pi]), "a clone of a point class is a subclass of it")
            self.h.append(([], [d]))
            return
        if not cs: raise Skip()
        d = clone_class(cs[0])
        new = []
        for c in cs:
            require(isinstance(d, type) and d.__name__ == c.__name__, f"clone of {c.__name__}: {d!r}")
            require(d is not c and issubclass(d, c), f"the clone of {c.__name__} is not a subclass of it")
            new.append(d)
            d = d.subset_class
        self.h.append((new, []))

    def refuse(self, hi, ci):
        from aligned_textgrid.custom_classes import clone_class
        cs = self.h[hi][0]
        if not 0 < ci < len(cs): raise Skip()
        try:
            clone_class(cs[ci])
        except Exception:
            return
        raise Violation(f"cloning {cs[ci].__name__}, which is not at the top, was not refused")

    def hierarchy(self, hi, ci):
        from aligned_textgrid.custom_classes import get_class_hierarchy
        cs = self.h[hi][0]
        if ci >= len(cs): raise Skip()
        got = get_class_hierarchy(cs[ci])
        require(len(got) == len(cs) and all(x is y for x, y in zip(got, cs)), f"the hierarchy of {cs[ci].__name__}: got {got}, expected {cs}")
        got.append(None)                    # whoever receives the list may change it
        got2 = get_class_hierarchy(cs[ci])
        require(len(got2) == len(cs) and all(x is y for x, y in zip(got2, cs)), f"the hierarchy of {cs[ci].__name__}, asked again: got {got2}, expected {cs}")

    def grid(self, hi):
        """Using the classes in a grid and editing it."""
        from aligned_textgrid import AlignedTextGrid, SequenceTier, TierGroup
        import warnings
        cs = self.h[hi][0]
        if not cs: raise Skip()
        tg = TierGroup([SequenceTier([c((0.0, 1.0, "x"))], c) for c in cs])
        a = AlignedTextGrid([tg])
        a.interleave_class("Nn", above=cs[0].__name__, timing_from="below")
        if len(cs) > 1:
            a.pop_class(cs[-1].__name__)

    def apply(self, op):
        if len(self.h) <= (op[1] if op[0] in ("clone", "refuse", "hierarchy", "grid") else 0): raise Skip()
        getattr(self, op[0])(*op[1:])

    def key(self):
        return [([c.__name__ for c in cs], [p.__name__ for p in ps]) for cs, ps in self.h]


def run(case, rec):
    r = Reg()
    for op in case:
        r.apply(op); rec.step()
        try:
            r.check()
        except Violation as e:
            raise Violation(f"after {op}: {e}")
        for hi, (cs, _) in enumerate(r.h):
            for ci in range(len(cs)):
                r.hierarchy(hi, ci)
        rec.state(r.key())


def run_links(case, rec):
    """Hierarchies put together class by class, in any order of linking, from classes that may have the same names."""
    from aligned_textgrid import custom_classes
    from aligned_textgrid.custom_classes import get_class_hierarchy, clone_class
    names, order, how = case
    r = Reg()
    cs = [custom_classes(n) for n in names]
    for k in order:
        if how == "subset": cs[k].set_subset_class(cs[k + 1])
        else: cs[k + 1].set_superset_class(cs[k])
        rec.step()
    def linked():
        for a, b in zip(cs, cs[1:]):
            require(a.subset_class is b and b.superset_class is a, f"{names} linked in the order {order} by {how}: {a.__name__} leads to {a.subset_class!r}, {b.__name__} to {b.superset_class!r}")
        for c in cs:
            got = get_class_hierarchy(c)
            require(len(got) == len(cs) and all(x is y for x, y in zip(got, cs)), f"{names} linked in the order {order} by {how}: the hierarchy of {c.__name__} is {got}")
    linked()
    d, new = clone_class(cs[0]), []
    for c in cs:
        require(isinstance(d, type) and d is not c and issubclass(d, c) and d.__name__ == c.__name__, f"{names}: the clone of {c.__name__} is {d!r}")
        new.append(d); d = d.subset_class
    linked()
    cs = new
    linked()
    rec.state(case)


def one(n):
    for names in NAMES:
        for k in range(1, n + 1):
            for pk in range(0, k + 1):
                for pts in itertools.combinations(range(k), pk):
                    for how in ("index", "name", "negative"):
                        orders = [None] if how == "index" else []
                        for r in range(1, k + 1):
                            orders += itertools.permutations(range(k), r)
                        if k < 4:
                            orders += [o for r in (2, 3) for o in itertools.product(range(k), repeat=r) if len(set(o)) < r]
                        for o in orders:
                            yield ["custom", names[:k], list(pts), None if o is None else list(o), how]


def spaces(tier):
    q = tier == "quick"
    def g1():
        for op in one(4):
            yield [op]
        for n in NAMES:
            for p in (False, True):
                yield [["single", n[0], p]]
    menu = [["custom", ["A", "B", "C"], [], None, "index"], ["custom", ["A", "B", "C"], [1], [2, 0, 1], "index"], ["custom", ["Word", "Phone"], [], [1, 0], "name"],
            ["custom", ["A"], [], None, "index"], ["custom", ["P", "Q"], [0, 1], None, "index"], ["single", "A", False], ["single", "A", True],
            ["clone", 0], ["clone", 1], ["clone", 2], ["clone", 1, 0], ["refuse", 0, 1], ["refuse", 1, 1], ["refuse", 1, 2], ["hierarchy", 1, 0], ["hierarchy", 1, 2], ["hierarchy", 2, 1],
            ["grid", 0], ["grid", 1], ["grid", 2]]
    def seq(d):
        def g():
            for ops in itertools.product(menu, repeat=d):
                yield [list(o) for o in ops]
        return g
    def g4():
        for op in one(3):
            for o in (["clone", 1], ["grid", 1]):
                yield [op, o, ["clone", 1], ["hierarchy", 1, 0]]
    S = [Space("lists", "every class list of up to four names (four name sets, some resembling built-in names), every set of point positions, every full or partial return order by index and by name", g1, run),
         Space("sequences-2", "every pair of class operations (make, clone, refuse, hierarchy, use in a grid)", seq(2), run),
         Space("sequences-3", "every triple of class operations", seq(3), run),
         Space("clone-lists", "cloning, and using in a grid, every custom hierarchy of up to three names", g4, run)]
    L = ["Utt", "Phrase", "Word", "Foot", "Syl", "Part", "Phone", "State"]
    def g5():
        for k in (5, 6, 7, 8):
            names = L[:k]
            ps = [[]] + [[i] for i in range(k)] + [[i, j] for i in range(k) for j in range(i + 1, k)] + [list(range(k)), list(range(0, k, 2)), list(range(1, k, 2)), list(range(k - 1))]
            os_ = [None, list(range(k))[::-1], list(range(k))[2:] + [0, 1], [k - 1], [k - 2, 0, k - 1], list(range(0, k, 2)) + list(range(1, k, 2))] + [[i] for i in range(k)]
            for p in ps:
                for how in ("index", "name"):
                    for o in os_:
                        if o is None and how == "name": continue
                        yield [["custom", names, p, o, how]] + ([["clone", 1], ["grid", 1], ["clone", 1]] if o is None else [])
    S.append(Space("long-lists", "class lists of five to eight names with no, one, two, all or every second a point class, in a dozen return orders", g5, run))
    S.append(Space("links", "hierarchies of up to four classes with every pattern of equal names, linked pair by pair in every order from above or from below", lambda: ([list(n), list(o), h] for k in (1, 2, 3, 4) for n in itertools.product("AB", repeat=k) for o in itertools.permutations(range(k - 1)) for h in ("subset", "superset")), run_links))
    if not q:
        S.append(Space("sequences-4", "every quadruple of class operations", seq(4), run))
    return S
