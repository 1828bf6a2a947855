"""C11: two grids that share the user's classes."""
import itertools
from .core import Space, Skip, Violation, require, same
from . import grid as G, machine as M

ASSUMPTIONS = ["a group belongs to one grid at a time", "groups appended to a grid fit its hierarchy"]
F = frozenset("classes list members".split())


def family(cls):
    """All user classes with the tops and bottoms around them."""
    out = {}
    for c in cls.values():
        cur = [c]
        while cur:
            x = cur.pop()
            if x is None or id(x) in out: continue
            out[id(x)] = x
            cur += [getattr(x, "superset_class", None), getattr(x, "subset_class", None)]
    return list(out.values())


class Classes:
    """The links of the user's classes, by identity."""
    def __init__(self, cls):
        self.fam = family(cls)
        self.data = [self.one(c) for c in self.fam]

    def one(self, c):
        return (c.__name__, getattr(c, "superset_class", None), getattr(c, "subset_class", None), c.__bases__)

    def unchanged(self, what):
        for c, d in zip(self.fam, self.data):
            n = self.one(c)
            for k, x, y in zip(("name", "superset class", "subset class", "bases"), d, n):
                require(x is y or x == y, f"{what}: the {k} of the user's class {c.__name__} was {x!r} and is now {y!r}")


class Links:
    """The class links inside a grid, by identity."""
    def __init__(self, a):
        self.a, self.data = a, self.take(a)

    def take(self, a):
        return [[(t.entry_class, getattr(t.entry_class, "superset_class", None), getattr(t.entry_class, "subset_class", None), [type(x) for x in t]) for t in g] for g in a]

    def unchanged(self, what):
        require(self.take(self.a) == self.data, f"{what}: the classes of the other grid changed from {self.data} to {self.take(self.a)}")


def same_classes_alive(cls, what):
    """The user's classes still work with each other."""
    iv = [c for c in cls.values() if hasattr(c, "superset_class")]
    for c in iv:
        for d in iv:
            if c.subset_class is d:
                x, y = c((0, 2, "x")), d((0, 1, "y"))
                x.append(y)
                require(y.super_instance is x, f"{what}: {d.__name__} no longer fits in {c.__name__}")


def check_grid(m, user, what):
    m.check(F, names=False)
    for g in m.a:
        for t in g:
            u = user.get(t.entry_class.__name__)
            for x in t:
                require(type(x) is t.entry_class, f"{what}: {G.show(x)} is a {type(x)!r}, the tier is of {t.entry_class!r}")
                if u is not None and m.cls.get(u.__name__, u) is u:
                    require(isinstance(x, u), f"{what}: {G.show(x)} is not an instance of the user's class {u!r}")
                    require(t.entry_class is not u, f"{what}: the grid uses the user's class {u.__name__} itself")


def run(case, rec):
    s1, h1, s2, h2, ops = case
    models = M.seed_model(s1) + M.seed_model(s2)
    user = M.class_objects(models)
    for s in (s1, s2):          # the classes of a seed must be neighbours in the shared hierarchy
        for g in M.seed_model(s):
            cs = [user[t[0]] for t in g["tiers"]]
            if g["k"] == "I" and any(x.subset_class is not y for x, y in zip(cs, cs[1:])): raise Skip()
    cl = Classes(user)
    m = [M.Machine(s1, h1, user)]
    cl.unchanged("building the first grid")
    check_grid(m[0], user, "the first grid")
    snap, lk = G.Snap(m[0].a), Links(m[0].a)
    m.append(M.Machine(s2, h2, user))
    cl.unchanged("building the second grid")
    snap.unchanged("building the second grid"); lk.unchanged("building the second grid")
    check_grid(m[1], user, "the second grid")
    for k, op in ops:
        other = m[1 - k]
        snap, lk = G.Snap(other.a), Links(other.a)
        m[k].apply(op); rec.step()
        w = f"{op} on grid {k}"
        cl.unchanged(w); snap.unchanged(w + ": the other grid"); lk.unchanged(w)
        check_grid(m[k], user, w)
        same_classes_alive(user, w)
        c1 = {id(t.entry_class) for g in m[0].a for t in g}
        require(not any(id(t.entry_class) in c1 for g in m[1].a for t in g), f"{w}: the two grids share a class")
        rec.state((m[0].canon(), m[1].canon()))


FAMS = [(["A", "B"], ["X", "Y"]), (["A", "B", "C", "D"], ["X", "Y"]), (["X"], ["A", "B", "C"]), (["A", "B", "C", "D", "E"], ["X", "Y", "Z"]), (["A"], ["B"])]


def run_families(case, rec):
    """Groups of unrelated hierarchies in one grid; then class edits. The user's classes keep their links."""
    fi, swap, build, times, ops = case
    from aligned_textgrid import AlignedTextGrid, custom_classes
    fams = list(FAMS[fi])
    if swap: fams.reverse()
    user = {}
    for f in fams: user.update(zip(f, custom_classes(list(f))))
    user["P"] = custom_classes(["P"], points=[0])[0]
    cl = Classes(user)
    gs = [M.g_i(f, [[(0, 2), (2, 3)]] * len(f), f"s{k}") for k in range(times) for f in fams]
    gs = [dict(g, tiers=[[c, f"{g['name']}{i} - {c}", e] for c, n, e in g["tiers"]]) for i, g in enumerate(gs)]
    if build == "points": gs.insert(1, M.g_p(["P"], [[1, 2]]))
    if build == "tg":
        a = AlignedTextGrid(M.textgrid_of(gs), entry_classes=[[user[t[0]] for t in g["tiers"]] for g in gs])
    elif build == "groups":
        a = AlignedTextGrid([M.loose_group(g, user) for g in gs])
    else:
        a = AlignedTextGrid([M.loose_group(gs[0], user)])
        for g in gs[1:]: a.append(M.loose_group(g, user))
    rec.step()
    def ok(w):
        cl.unchanged(w)
        same_classes_alive(user, w)
        seen = {}
        for g in a:
            for t in g:
                c = t.entry_class
                require(c is not user.get(c.__name__), f"{w}: the grid uses the user's class {c.__name__} itself")
                require(seen.setdefault(c.__name__, c) is c, f"{w}: two classes named {c.__name__} in one grid")
                require(all(type(x) is c for x in t), f"{w}: entries of another class on the tier of {c.__name__}")
    ok("building the grid")
    for op in ops:
        names = [t.entry_class.__name__ for g in a for t in g]
        if op[0] == "new":
            if op[1] not in names: raise Skip()
            a.interleave_class("New", timing_from="below", above=op[1])
        elif op[0] == "pop":
            if op[1] not in names: raise Skip()
            a.pop_class(op[1])
        elif op[0] == "cleanup": a.cleanup()
        elif op[0] == "shift": a.shift(1.5)
        else:
            g = M.g_i(fams[op[1]], [[(0, 3)]] * len(fams[op[1]]), "later")
            a.append(M.loose_group(g, user))
        rec.step(); ok(f"{op} on a grid of {fams}, built with {build}")
    rec.state((fi, swap, build, times, ops))


def fam_cases(depth):
    for fi, f in enumerate(FAMS):
        cs = f[0] + f[1]
        ops = [["new", c] for c in cs] + [["pop", c] for c in cs] + [["cleanup"], ["shift"]]
        for swap in (0, 1):
            for build in ("append", "groups", "tg", "points"):
                for times in (1, 2):
                    for d in range(depth + 1):
                        for os_ in itertools.product(ops + ([["later", 0], ["later", 1]] if d == 1 else []), repeat=d):
                            if sum(o[0] == "new" for o in os_) < 2: yield [fi, swap, build, times, [list(o) for o in os_]]


def run_defaults(case, rec):
    """Structures made without arguments share nothing."""
    from aligned_textgrid import AlignedTextGrid, SequenceTier, TierGroup, SequencePointTier, PointsGroup, SequenceInterval, SequencePoint, Word
    from aligned_textgrid.sequence_list import SequenceList
    ctor = {"tier": SequenceTier, "group": TierGroup, "ptier": SequencePointTier, "pgroup": PointsGroup, "grid": AlignedTextGrid, "list": SequenceList, "interval": SequenceInterval}
    k1, k2, grow = case
    a, b = ctor[k1](), ctor[k2]()
    n = len(b)
    pt = k1 in ("ptier", "pgroup")
    def entry(i):
        return SequencePoint((float(i), f"e{i}")) if pt else SequenceInterval((float(i), i + 1.0, f"e{i}"))
    for i in range(grow):
        rec.step()
        if k1 in ("tier", "ptier", "list"): a.append(entry(i))
        elif k1 in ("group", "pgroup"): a[0].append(entry(i))
        elif k1 == "grid": a.append(TierGroup([SequenceTier([Word((0.0, 1.0, "w"))])]))
        elif k1 == "interval":
            from aligned_textgrid import Phone
            w = Word((0, 5, "w")); w.append(Phone((i, i + 1, "p")))
    c = ctor[k2]()
    for x in (b, c):
        same(len(x), n, f"growing a {k1} changed another {k2}")
        if k2 in ("group", "pgroup"):
            same(len(x[0]), 0, f"growing a {k1}: the tier of another {k2}")
            require(x[0] is not a[0] if k1 == k2 else True, "two default groups share a tier")
    same(len(SequenceTier()), 0, "a new default tier")
    rec.state(case)


def run_classlists(case, rec):
    """The list of classes given stays the caller's: building and editing leave it alone, and changing it leaves the grid alone."""
    from aligned_textgrid import AlignedTextGrid, SequenceInterval, custom_classes
    form, how, ops = case
    W, F_, X = custom_classes(["W", "F", "X"])
    P = custom_classes(["P"], points=[0])[0]
    N = {"W": W, "F": F_, "X": X, "P": P}
    def mk(f): return N[f] if isinstance(f, str) else (tuple if f[0] == "t" else list)(mk(x) for x in f[1:])
    def names(c): return c.__name__ if isinstance(c, type) else [type(c).__name__] + [names(x) for x in c]
    def flat(f): return [f] if isinstance(f, str) else [y for x in f[1:] for y in flat(x)]
    kinds = flat(form)
    if how.endswith("*"): kinds = kinds * 2
    E = {"W": [(0, 2, "a"), (2, 3, "b")], "F": [(0, 1, "c"), (1, 2, "d"), (2, 3, "e")], "X": [(0, 1, "x"), (1, 2, "y"), (2, 3, "z")]}
    tg = G.mk_textgrid([("P", f"n{i}", [(1, "p")], 0, 3) if k == "P" else ("I", f"n{i}", E[k], 0, 3) for i, k in enumerate(kinds)])
    given = mk(form)
    orig, who = names(given), [id(x) for x in given]
    src = tg
    if how.startswith("file"):
        import os
        src = os.path.join(os.environ["VERIF_SCRATCH"], f"cl{os.getpid()}.TextGrid")
        tg.save(src, "long_textgrid", True)
    a = AlignedTextGrid(textgrid_path=src, entry_classes=given) if how == "filekw" else AlignedTextGrid(src, given)
    rec.step()
    def ok(w):
        same(names(given), orig, f"{w}: the class list given")
        same([id(x) for x in given], who, f"{w}: what is in the class list given")
    ok("building")
    b = AlignedTextGrid(tg, given)
    same([[c.__name__ for c in g] for g in b.entry_classes], [[c.__name__ for c in g] for g in a.entry_classes], "classes of a second grid made from the same list")
    ok("building again")
    sa = G.Snap(b)
    for op in ops:
        if op == "cleanup": a.cleanup()
        elif op == "shift": a.shift(1.5)
        elif op == "interleave": a.interleave_class("New", above="W", timing_from="below")
        elif op == "pop": a.pop_class("F")
        elif op == "append": a.append(M.loose_group(M.g_i(["W"], [[(0, 3)]], "later"), N))
        elif op == "own": a.entry_classes.append([X]); a.entry_classes[0].append(X); a[0].entry_classes.clear()
        rec.step(); ok(op)
        sa.unchanged(f"{op} on a grid made from the same class list")
    if type(given) is list:
        was = [[c.__name__ for c in g] for g in b.entry_classes]
        for x in given:
            if type(x) is list: x.clear()
        given.clear()
        sa.unchanged("emptying the class list")
        same([[c.__name__ for c in g] for g in b.entry_classes], was, "emptying the class list: classes of the grid")
        b.cleanup(); b.shift(0.5)
        b.append(M.loose_group(M.g_i(["W"], [[(0, 3)]], "later"), N)); rec.step()
    rec.state(case)


def classlist_cases():
    forms = [[k, "W"] for k in "lt"] + [[k, "W", "F"] for k in "lt"] + [["l", "W", "F", "X"], ["l", "W", "F", "W", "F"], ["t", "W", "F", "W", "F"]]
    for o in "lt":
        for i in "lt":
            forms += [[o, [i, "W", "F"]], [o, [i, "W"], [i, "W"]], [o, [i, "W", "F"], [i, "W", "F"]], [o, [i, "W", "F"], [i, "P"]], [o, [i, "P"], [i, "W", "F"], [i, "W"]], [o, [i, "F", "W"], [i, "W", "F", "X"]]]
    OPS = ["cleanup", "shift", "interleave", "pop", "append", "own"]
    for f in forms:
        one = isinstance(f[1], str) and f.count("W") == 1
        for how in ["tg", "file", "filekw"] + (["tg*", "file*"] if one else []):
            for d in (0, 1, 2):
                for ops in itertools.product(OPS, repeat=d):
                    if "append" in ops and any(o in ("interleave", "pop") for o in ops): continue
                    if ops.count("interleave") > 1 or d == 2 and how.startswith("file"): continue
                    yield [f, how, list(ops)]


def run_given(case, rec):
    """A structure and the list it was made from go separate ways; so do two structures made from one list."""
    from aligned_textgrid import AlignedTextGrid, SequenceTier, TierGroup, SequencePointTier, PointsGroup, custom_classes
    from aligned_textgrid.sequence_list import SequenceList
    what, form, n, ops = case
    W, S_ = custom_classes(["W", "S"])
    PS = custom_classes(list("PQRTUVX"), points=list(range(7)))
    iv = lambda i, c=W: c((float(i), i + 1.0, f"e{i}"))
    chain = custom_classes(list("ABCDE"))
    def wgroup(i):
        g = TierGroup([SequenceTier([iv(i), iv(i + 1)], W)]); g.name = f"g{i}"
        return g
    new = {"tier": iv, "tier set": iv, "kids": lambda i: iv(i, S_), "kids set": lambda i: iv(i, S_), "list": iv, "ptier": lambda i: PS[0]((float(i), f"p{i}")),
           "group": lambda i: SequenceTier([chain[i % 5]((0.0, 1.0, "x"))], chain[i]), "pgroup": lambda i: SequencePointTier([PS[i]((float(i), "p"))], PS[i]),
           "grid": wgroup, "grid set": wgroup}[what]
    def make(given):
        if what == "tier": return SequenceTier(given, W)
        if what == "tier set":
            t = SequenceTier([], W); t.sequence_list = given
            return t
        if what == "kids":
            w = W((0.0, 9.0, "w")); w.set_subset_list(given)
            return w
        if what == "kids set":
            w = W((0.0, 9.0, "w")); w.subset_list = given
            return w
        if what == "list": return SequenceList(*given)
        if what == "ptier": return SequencePointTier(given, PS[0])
        if what == "group": return TierGroup(given)
        if what == "pgroup": return PointsGroup(given)
        if what == "grid": return AlignedTextGrid(given)
        a = AlignedTextGrid(); a.tier_groups = given
        return a
    grow = lambda o, x: o.append(x)
    items = [new(i) for i in range(n)]
    given = list(items) if form == "list" else tuple(items) if form == "tuple" else SequenceList(*items)
    o, other, in_o, in_g, in_other = make(given), None, list(items), list(items), None
    k = n
    if what == "group" and sum("grow" in x or "extend" in x for x in ops) + n > 4: raise Skip()
    for op in ops:
        if op == "grow":
            x = new(len(in_o) if what == "group" else k); k += 1
            grow(o, x); in_o.append(x)
        elif op == "second":
            if other is not None or what in ("kids", "kids set") or not in_g and "group" in what: raise Skip()      # children belong to one interval
            other, in_other = make(given), list(in_g)
        elif op == "grow second":
            if other is None: raise Skip()
            x = new(len(in_other) if what == "group" else k); k += 1
            grow(other, x); in_other.append(x)
        elif form == "tuple": raise Skip()
        elif op == "extend given":
            x = new(len(in_g) if what == "group" else k); k += 1
            given.append(x); in_g.append(x)
        elif op == "shorten given":
            if not in_g or form == "seqlist" and what in ("kids", "kids set"): raise Skip()      # removing from a sequence list ends the relation
            x = in_g.pop()
            given.remove(x) if form == "seqlist" else given.pop()
        rec.step()
        w = f"{what} made from a {form} of {n}, after {op}"
        require(G.is_seq(list(given), in_g), f"{w}: the {form} given has {len(given)} items, expected {len(in_g)}")
        for s, exp, name in ((o, in_o, "the structure"), (other, in_other, "a second structure made from it")):
            if s is not None: require(G.is_seq(list(s), exp), f"{w}: {name} has {len(s)} items, expected {len(exp)}")
    rec.state(case)


def gen_given(depth):
    OPS = ["grow", "extend given", "shorten given", "second", "grow second"]
    for what in ("tier", "tier set", "kids", "kids set", "list", "ptier", "group", "pgroup", "grid", "grid set"):
        for form in ("list", "tuple") + (("seqlist",) if what in ("tier", "tier set", "kids", "kids set", "list", "ptier") else ()):
            for n in (1, 2):
                for d in range(1, depth + 1):
                    for ops in itertools.product(OPS, repeat=d): yield [what, form, n, list(ops)]


def run_args(case, rec):
    """Lists of classes, names and positions given as arguments stay as they were given, whatever is done with the grid."""
    from aligned_textgrid import AlignedTextGrid, custom_classes
    seed, form, op = case
    model = M.seed_model(seed)
    cls = M.class_objects(model)
    ec = [[cls[t[0]] for t in g["tiers"]] for g in model]
    if form == "tuples": ec = [tuple(e) for e in ec]
    if form == "flat":
        if len({tuple(e) for e in ec}) > 1: raise Skip()
        ec = ec[0]
    copy = [list(e) if form != "flat" else e for e in ec]
    a = AlignedTextGrid(M.textgrid_of(model), entry_classes=ec); rec.step()
    held = lambda: require(len(ec) == len(copy) and all(e is c if form == "flat" else G.is_seq(list(e), c) for e, c in zip(ec, copy)), f"entry_classes given are now {ec}, were {copy}")
    held()
    c = model[0]["tiers"][0][0]
    if op == "interleave": a.interleave_class("New", below=c, timing_from="above")
    elif op == "pop": a.pop_class(c)
    elif op == "cleanup": a.cleanup()
    elif op == "shift": a.shift(1.0)
    rec.step(); held()
    names, pts, order = ["X", "Y", "Z"], [1], ["Z", "X", "Y"]
    custom_classes(names, return_order=order, points=pts); custom_classes(names, return_order=[2, 0]); rec.step(2)
    same((names, pts, order), (["X", "Y", "Z"], [1], ["Z", "X", "Y"]), "arguments of custom_classes")
    rec.state(case)


def spaces(tier):
    q = tier == "quick"
    def ops_of(s):
        return [o for o in M.menu(s) if o[0] not in ("fuse_l", "reload", "tier_pop") and not (o[0] == "fuse_r" and o[3] > 0)]
    pairs = [("one", "one"), ("one", "het"), ("wsp", "two-wsp"), ("pts", "two"), ("w", "one"), ("pts", "pts")]
    def g1():
        for s1, s2 in pairs:
            for h1 in ("tg", "append"):
                for h2 in ("tg", "groups"):
                    yield [s1, h1, s2, h2, []]
                    for k, s in ((0, s1), (1, s2)):
                        for o in ops_of(s):
                            yield [s1, h1, s2, h2, [[k, o]]]
    def core(s):
        return [o for o in ops_of(s) if o[0] in ("interleave", "pop_class", "append_group", "append_tier", "cleanup", "append_top", "pickle")]
    def g2():
        for s1, s2 in pairs[:4]:
            for k1, a in ((0, s1), (1, s2)):
                for o1 in core(a):
                    for k2, b in ((0, s1), (1, s2)):
                        for o2 in core(b):
                            if q and k1 == 1 and (s1, s2) != ("pts", "two"): continue
                            yield [s1, "tg", s2, "tg", [[k1, o1], [k2, o2]]]
    def g3():
        for s1, s2 in (("one", "het"), ("pts", "one")):
            small = lambda s: [o for o in core(s) if o[0] in ("interleave", "pop_class", "append_group")]
            for k in itertools.product((0, 1), repeat=3):
                for os_ in itertools.product(*[small((s1, s2)[i]) for i in k]):
                    yield [s1, "tg", s2, "append", [[i, o] for i, o in zip(k, os_)]]
    def g4():
        for s1, s2 in (("many", "many"), ("deep", "deep"), ("wide", "many"), ("pts", "many")):
            for k, s in ((0, s1), (1, s2)):
                yield [s1, "tg", s2, "append", []]
                for o in core(s): yield [s1, "tg", s2, "append", [[k, o]]]
    kinds = ["tier", "group", "ptier", "pgroup", "grid", "list", "interval"]
    S = [Space("pairs-1", "two grids sharing classes (six pairs of seeds, built in two ways each), every operation on either", g1, run),
         Space("pairs-2", "every pair of class-changing operations on two grids", g2, run),
         Space("big", "class-changing operations on pairs of larger grids: " + M.BIG_NOTE, g4, run),
         Space("defaults", "structures made without arguments, grown one after the other", lambda: ([a, b, n] for a in kinds for b in kinds for n in (0, 1, 2)), run_defaults)]
    S.append(Space("given", "every kind of structure made from a list, tuple or sequence list, then every history of growing it, changing the list, making and growing a second one", lambda: gen_given(3 if q else 5), run_given))
    S.append(Space("args", "class lists and names given as arguments, for every seed", lambda: ([s, f, o] for s in M.SEEDS for f in ("lists", "tuples", "flat") for o in ("interleave", "pop", "cleanup", "shift")), run_args))
    S.append(Space("classlists", "class lists in 31 forms (flat, nested, lists or tuples, with points, repeated for more tiers), from objects and files, then every operation or pair of operations", classlist_cases, run_classlists))
    S.append(Space("families", "groups of two unrelated hierarchies (1 to 5 levels each) in one grid, appended or built at once, then every class edit" + ("" if q else " and pair of class edits"), lambda: fam_cases(1 if q else 2), run_families))
    if not q:
        S.append(Space("triples", "every triple of class edits on two grids", g3, run))
    return S
