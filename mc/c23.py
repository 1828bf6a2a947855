"""C23: names reach the current tiers and groups."""
import itertools, os, re, warnings
from .core import Space, Skip, Violation, require, same
from . import grid as G, machine as M

ASSUMPTIONS = ["the longest common part of two tier names of a group is at their beginning",
               "names that are already attributes of a grid or group (xmin, shift, ...) have no shorthand", "groups are not renamed by assignment once they are in a grid"]
F = frozenset({"names"})


def common(names):
    """The name of a group with these tier names, or None if they have nothing (or one character) in common."""
    p = os.path.commonprefix(names) if len(names) > 1 else names[0]
    p = re.sub(r"^[\s_-]+|[\s_-]+$", "", p)
    p = re.sub(r"\W", "_", p)
    return p if len(p) > 1 else None


def track(m):
    """Every name that was ever in use leads to the group or tier now in place, or nowhere."""
    seen = m.__dict__.setdefault("seen", [set(), set()])
    gs = list(m.a)
    seen[0] |= {g.name for g in gs}
    seen[1] |= {t.entry_class.__name__ for g in gs for t in g}
    for n in seen[0]:
        x = getattr(m.a, n, None)
        require(x is None or any(x is g and g.name == n for g in gs), f".{n} of the grid is not a group of that name now in the grid")
    for g in gs:
        for n in seen[1]:
            x = getattr(g, n, None)
            require(x is None or any(x is t and t.entry_class.__name__ == n for t in g), f".{n} of group {g.name} is not a tier of that class now in the group")


def warned(f):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        r = f()
    return r, [str(w.message) for w in ws]


RESERVED = ["xmin", "id", "shift", "append", "within", "contains", "tier_groups", "cleanup", "entry_classes"]


def names_hold(a, exp, ws, what):
    """exp: names of the groups; the shorthand and the warning follow from them."""
    same([g.name for g in a], exp, what + ": group names")
    dup = {n for n in exp if exp.count(n) > 1}
    if dup:
        for n in set(exp):
            require(not hasattr(a, n) or n in RESERVED and not any(getattr(a, n) is g for g in a), f"{what}: group names {exp} are duplicated, but .{n} is available")
        if ws is not None:
            require(any("duplicate" in w.lower() for w in ws), f"{what}: group names {exp} are duplicated, but there is no warning (warnings: {ws})")
    else:
        for i, n in enumerate(exp):
            if n in RESERVED:
                require(getattr(a, n, None) is not a[i], f"{what}: the group {n} hides the attribute {n} of the grid")
            else:
                require(getattr(a, n, None) is a[i], f"{what}: .{n} is not group {i}")
        if ws is not None:
            require(not any("duplicate" in w.lower() for w in ws), f"{what}: group names {exp} are not duplicated, but there is a warning: {ws}")


def classes():
    from aligned_textgrid import Word, Phone, custom_classes
    P, Q = custom_classes(["Pt"], points=[0])[0], custom_classes(["Qt"], points=[0])[0]
    return {"W": Word, "F": Phone, "P": P, "Q": Q}


SUF = {"W": "words", "F": "gg", "P": "k", "Q": "zz"}


def tier_names(prefixes, layout):
    return [[p + SUF[c] for c in g] for p, g in zip(prefixes, layout)]


def build(layout, names, how):
    from aligned_textgrid import AlignedTextGrid, SequenceTier, SequencePointTier, TierGroup, PointsGroup
    cs = classes()
    ent = {"W": [(0.0, 2.0, "a"), (2.0, 3.0, "b")], "F": [(0.0, 1.0, "a"), (1.0, 2.0, "b"), (2.0, 3.0, "c")], "P": [(0.5, "p")], "Q": [(1.5, "q")]}
    ec = [[cs[c] for c in g] for g in layout]
    if how in ("tg", "file"):
        flat = [n for g in names for n in g]
        tg = G.mk_textgrid([("I" if c in "WF" else "P", n, ent[c], 0.0, 3.0) for g, ns in zip(layout, names) for c, n in zip(g, ns)]) if len(set(flat)) == len(flat) else None
        if tg is None: raise Skip()
        if how == "tg": return warned(lambda: AlignedTextGrid(tg, ec))
        p = os.path.join(os.environ["VERIF_SCRATCH"], f"n{os.getpid()}.TextGrid")
        tg.save(p, "long_textgrid", True)
        return warned(lambda: AlignedTextGrid(p, ec))
    gs = []
    for g, ns in zip(layout, names):
        T, GR = (SequenceTier, TierGroup) if g[0] in "WF" else (SequencePointTier, PointsGroup)
        ts = []
        for c, n in zip(g, ns):
            t = T([cs[c](e) for e in ent[c]], cs[c]); t.name = n
            ts.append(t)
        gs.append(GR(ts))
    if how == "groups": return warned(lambda: AlignedTextGrid(gs))
    a, _ = warned(AlignedTextGrid)
    ws = []
    for g in gs: ws = warned(lambda: a.append(g))[1]
    return a, ws


def expected(names):
    out = []
    for i, ns in enumerate(names):
        out.append(common(ns) or f"group_{i}")
    return out


def run_patterns(case, rec):
    layout, prefixes, how, ops = case
    names = tier_names(prefixes, layout)
    a, ws = build(layout, names, how); rec.step()
    exp = expected(names)
    what = f"tier names {names}"
    def ok(what, ws=None):
        same([list(g.tier_names) for g in a], names, what + ": tier names")
        same([[t.name for t in g] for g in a], names, what + ": names of the tiers")
        same(list(a.tier_names), names, what + ": tier_names of the grid")
        names_hold(a, exp, ws, what)
        for g, gl in zip(a, layout):
            for c, t in zip(gl, g):
                require(getattr(g, classes()[c].__name__, None) is t, f"{what}: .{classes()[c].__name__} of group {g.name}")
    ok(what, ws)
    for op in ops:
        rec.step()
        if op == "pickle":
            import cloudpickle
            a = cloudpickle.loads(cloudpickle.dumps(a))
        elif op == "interleave":
            # timing from below exists wherever there is a phone tier
            if not all("F" in g for g in layout if "W" in g): raise Skip()
            a.interleave_class("New", above="Phone", timing_from="below")
            names = [[x for n, c in zip(ns, g) for x in (["New", n] if c == "F" else [n])] for ns, g in zip(names, layout)]
            same([[t.name for t in g] for g in a], names, what + " after interleaving: names of the tiers")
            names_hold(a, exp, None, what + " after interleaving")
            for g in a:
                if not G.is_points(g): require(g.New is g[1] and g.Word is g[0] and g.Phone is g[2], "after interleaving: named tiers")
            a.pop_class("New")
            names = [[n for n in ns if n != "New"] for ns in names]
        elif op == "pop":
            _, w = warned(lambda: a.pop_class("Phone"))
            keep = [i for i, g in enumerate(layout) if g != ["F"]]
            names = [[n for n, c in zip(names[i], layout[i]) if c != "F"] for i in keep]
            exp = [exp[i] for i in keep]
            layout = [[c for c in layout[i] if c != "F"] for i in keep]
            for g in a: require(not hasattr(g, "Phone"), f"{what} after popping Phone: .Phone is available")
        elif op == "cleanup": a.cleanup()
        elif op == "shift": G.quiet(lambda: [g.shift(1.0) for g in a])
        elif op == "rerelate":
            for g in a: g.re_relate()
        ok(what + " after " + op)
    rec.state((layout, prefixes, how, ops))


def run_remove(case, rec):
    """Groups that disappear with their class: names that were duplicated become available, others disappear."""
    layout, prefixes, how, cls = case
    names = tier_names(prefixes, layout)
    a, ws = build(layout, names, how); rec.step()
    exp = expected(names)
    names_hold(a, exp, ws, "before")
    name = {"W": "Word", "F": "Phone"}[cls]
    keep = [i for i, g in enumerate(layout) if g != [cls]]
    warned(lambda: a.pop_class(name)); rec.step()
    left = [exp[i] for i in keep]
    names_hold(a, left, None, f"groups {exp}, after popping {name}")
    for n in set(exp) - set(left):
        require(not hasattr(a, n), f"groups {exp}, after popping {name}: .{n} is still available")
    rec.state(case)


def run_custom(case, rec):
    """Names given by the user to loose tiers and groups."""
    from aligned_textgrid import AlignedTextGrid, SequenceTier, SequencePointTier, TierGroup, PointsGroup
    kind, gname, tnames, op = case
    cs = classes()
    kind, empty = kind[0], kind[1:]         # which of the tiers are empty
    T, GR = (SequenceTier, TierGroup) if kind == "I" else (SequencePointTier, PointsGroup)
    ks = "WF" if kind == "I" else "PQ"
    ent = {"W": [(0.0, 2.0, "a")], "F": [(0.0, 1.0, "a"), (1.0, 2.0, "b")], "P": [(0.5, "p")], "Q": [(1.5, "q")]}
    for c in empty: ent[c] = []
    ts = []
    for c, n in zip(ks, tnames):
        t = T([cs[c](e) for e in ent[c]], cs[c])
        same(t.name, cs[c].__name__, "name of a new tier")
        if n is not None: t.name = n
        ts.append(t)
    want = [n if n is not None else cs[c].__name__ for c, n in zip(ks, tnames)]
    g = GR(ts); rec.step()
    same(list(g.tier_names), want, "tier names of the group")
    if gname is not None: g.name = gname
    exp = gname if gname is not None else common(want)
    if gname is None and tnames[0] is None: exp = None
    same(g.name, exp, "name of the group")
    if op == "rerelate": g.re_relate()
    elif op == "shift": g.shift(1.0)
    elif op == "cleanup":
        if kind == "P": raise Skip()
        g.cleanup()
    elif op == "regroup":
        g = GR(g)
    elif op == "copytier":
        for t, n in zip(g, want):
            same(T(t, t.entry_class).name, n, "name of a tier made from a tier and its class")
            if len(t) or n != t.entry_class.__name__: same(T(t).name, n, "name of a tier made from a tier")
    elif op in ("grid", "grid+", "grids"):
        a, _ = warned(AlignedTextGrid)
        k = 0
        if op == "grid+":
            w = SequenceTier([cs["W"]((0.0, 2.0, "z"))]); w.name = "first"
            a.append(TierGroup([w])); k = 1
        if op == "grids": a = AlignedTextGrid([g])
        else: a.append(g)
        rec.step()
        require(a[k] is g, "the appended group")
        exp = exp or f"group_{k}"
        require(getattr(a, exp, None) is g, f".{exp} is not the group appended")
        if op == "grid+":
            require(a.first is a[0], ".first is not the first group")
        a.cleanup()
        require(getattr(a, exp, None) is a[k], f"after cleanup: .{exp}")
        g = a[k]
    rec.step()
    same(g.name, exp, f"name of the group after {op}")
    same(list(g.tier_names), want, f"tier names after {op}")
    for c, t in zip(ks, g): require(getattr(g, cs[c].__name__, None) is t, f"named tier after {op}")
    rec.state(case)


def run_append(case, rec):
    """Groups appended one by one: the names stand for the groups of the moment."""
    prefixes, kinds = case
    from aligned_textgrid import AlignedTextGrid
    layout = [["W", "F"] if k == "I" else ["P", "Q"] for k in kinds]
    names = tier_names(prefixes, layout)
    a, _ = warned(AlignedTextGrid)
    exp = []
    for i in range(len(names)):
        b, _ = build([layout[i]], [names[i]], "groups")
        g = b[0]
        e = common(names[i])
        if e is None: raise Skip()      # a group that was in another grid keeps the name it had there
        exp.append(e)
        _, ws = warned(lambda: a.append(g)); rec.step()
        require(a[i] is g, "the appended group")
        names_hold(a, exp, ws, f"after appending {i + 1} groups")
        same([[t.name for t in h] for h in a], names[:i + 1], "tier names")
    rec.state(case)


def run_duptiers(case, rec):
    """Two point tiers of one class in a group: no shorthand, and a warning."""
    from aligned_textgrid import SequencePointTier, PointsGroup, AlignedTextGrid, custom_classes
    cl, how = case
    C = {c: custom_classes([c], points=[0])[0] for c in set(cl)}
    pre = "pts - "
    if how == "grid":
        tg = G.mk_textgrid([("P", pre + "abc"[i], [(float(i), "x")], 0.0, 3.0) for i in range(len(cl))])
        a, ws = warned(lambda: AlignedTextGrid(tg, [[C[c] for c in cl]]))
        g = a[0]
    else:
        ts = [SequencePointTier([C[c]((float(i), "x"))], C[c]) for i, c in enumerate(cl)]
        g, ws = warned(lambda: PointsGroup(ts))
    rec.step()
    dup = len(set(cl)) < len(cl)
    require(dup == any("same entry class" in w for w in ws), f"tiers of classes {cl}: warnings {ws}")
    for c in set(cl):
        if dup: require(not hasattr(g, c), f"tiers of classes {cl}: .{c} is available")
        else: require(getattr(g, c) is g[cl.index(c)], f"tiers of classes {cl}: .{c}")
    rec.state(case)


def run_reserved(case, rec):
    kind, n, how = case
    from aligned_textgrid import AlignedTextGrid, SequenceTier, TierGroup, SequencePointTier, PointsGroup, custom_classes
    if kind == "grid":
        layout = [["W", "F"], ["W", "F"]]
        a, ws = build(layout, tier_names([n + " - ", "spk - "], layout), how); rec.step()
        names_hold(a, [n, "spk"], None, f"a group named {n}")
        G.check_grid(a, G.ALL - {"names"})
        G.quiet(a.shift, 1.0); G.quiet(a.cleanup); rec.step(2)
        same(float(a.xmin), 1.0, "xmin")
        G.check_grid(a, G.ALL - {"names"})
    else:
        C, = custom_classes([n], points=[0] if kind == "points" else [])
        T, GR = (SequencePointTier, PointsGroup) if kind == "points" else (SequenceTier, TierGroup)
        t = T([C((1.0, "a")) if kind == "points" else C((1.0, 2.0, "a"))], C); t.name = "tier"
        g = GR([t]); rec.step()
        require(g[0] is t and len(g) == 1, f"a group with a tier of class {n}")
        same(g.name, "tier", f"name of a group with a tier of class {n}")
        g.shift(1.0)
        same(float(g.xmin), 2.0, f"xmin of a group with a tier of class {n}")
        same(list(g.tier_names), ["tier"], "tier names")
    rec.state(case)


def lcs(a, b):
    return max((len(a[i:j]) for i in range(len(a)) for j in range(i, len(a) + 1) if a[i:j] in b), default=0)


def run_triple(case, rec):
    """Three or four tiers that share prefixes of different lengths."""
    from aligned_textgrid import AlignedTextGrid, SequenceTier, SequencePointTier, TierGroup, PointsGroup, custom_classes
    kind, names, how, order = case
    if any(lcs(a, b) > len(os.path.commonprefix([a, b])) for a, b in itertools.combinations(names, 2)): raise Skip()
    n = len(names)
    cs = custom_classes([f"C{i}" for i in range(n)], points=list(range(n)) if kind == "P" else [])
    exp = common(names)
    ent = [(1.0, "p")] if kind == "P" else [(0.0, 2.0, "a")]
    if how == "tg":
        if len(set(names)) < n: raise Skip()
        a = AlignedTextGrid(G.mk_textgrid([(kind, names[i], ent, 0.0, 2.0) for i in order]), [[cs[i] for i in order]])
        g = a[0]
        exp = common([names[i] for i in order]) or "group_0"
        want = [names[i] for i in (order if kind == "P" else range(n))]
    else:
        ts = []
        for c, nm in zip(cs, names):
            t = (SequencePointTier if kind == "P" else SequenceTier)([c(e) for e in ent], c); t.name = nm; ts.append(t)
        ts = [ts[i] for i in order]
        want = [names[i] for i in (order if kind == "P" else range(n))]
        g = (PointsGroup if kind == "P" else TierGroup)(ts)
        if how == "grid":
            a = AlignedTextGrid([g]); exp = exp or "group_0"
            require(getattr(a, exp, None) is g, f"tiers {want}: .{exp} is not the group")
    rec.step()
    same(g.name, exp, f"name of a group of tiers {want}")
    same(list(g.tier_names), want, "tier names")
    rec.state(case)


def run_class_names(case, rec):
    """Classes are found by their exact names."""
    from aligned_textgrid import AlignedTextGrid, SequenceTier, TierGroup, SequencePointTier, PointsGroup, custom_classes
    names, points, how = case
    cs = custom_classes(names, points=list(range(len(names)))) if points else custom_classes(names)
    T, GR = (SequencePointTier, PointsGroup) if points else (SequenceTier, TierGroup)
    a = AlignedTextGrid([GR([T([c((0.5, "x")) if points else c((0.0, 1.0, "x"))], c) for c in cs])])
    if how: a.append(TierGroup([SequenceTier([c((0.0, 1.0, "x"))], c) for c in custom_classes(["Other"])]))
    rec.step()
    for t, n in zip(a[0], names):
        got = G.quiet(a.get_class_by_name, n); rec.step()
        require(got is t.entry_class, f"class {n!r} among {names}: got {got!r}, expected {t.entry_class!r}")
        tier = getattr(a[0], n, None)
        require(tier is t or hasattr(GR, n) or n in ("name",), f"tier of the class {n!r} among {names}: {tier!r}")
        for m in (n.upper(), n.lower(), n + "s", n[:-1], " " + n):
            if m in names or m == "Other": continue
            got = G.quiet(a.get_class_by_name, m); rec.step()
            require(got is None, f"class {m!r} among {names}: got {got!r}, expected none")
    rec.state(case)


def spaces(tier):
    q = tier == "quick"
    PRE = ["spk", "spk - ", "spk_", "a b - ", "A-", "x1.2 - ", "s", "", " - ", "É t - ", "group_0 - ", "group_1 - "]
    LAY = [[["W", "F"], ["W", "F"]], [["W", "F"], ["P", "Q"]], [["P", "Q"], ["W", "F"]], [["W"], ["W", "F"]], [["W", "F"], ["P"]]]
    def clean(p, g):      # a single tier is named after itself
        return True
    def g1():
        for lay in LAY:
            for a in PRE:
                for b in PRE:
                    for how in (["tg", "append"] if q else M.HOWS):
                        yield [lay, [a, b], how, []]
        for a, b, c in itertools.product(["spk - ", "B - ", "", "group_1 - ", "zed_"], repeat=3):
            yield [[["W", "F"]] * 3, [a, b, c], "tg", []]
            yield [[["W", "F"], ["P", "Q"], ["W", "F"]], [a, b, c], "groups", []]
    def g2():
        ops = ["pickle", "interleave", "pop", "cleanup", "shift", "rerelate"]
        for lay in LAY[:4]:
            for ps in (["spk - ", "other - "], ["spk - ", "spk "], ["", "zed_"], ["zed_", ""], ["", ""]):
                for how in (["tg", "groups"] if q else M.HOWS):
                    for o in itertools.product(ops, repeat=2): yield [lay, ps, how, list(o)]
    def g3():
        for cls in "WF":
            for lay in ([["W", "F"], ["W"], ["W"]], [["W"], ["W", "F"]], [["W"], ["W"], ["P", "Q"]], [["W", "F"], ["W"], ["W", "F"]], [["W"], ["P"]]):
                for ps in itertools.product(["spk - ", "B - ", "zed_"], repeat=len(lay)):
                    for how in ("tg", "groups", "append"): yield [lay, list(ps), how, cls]
    def g4():
        for kind in ("I", "P", "IF", "IWF", "PP", "PQ", "PPQ"):
            for gn in (None, "mine", "my group", "é"):
                for tn in ([None, None], ["spk - a", "spk - b"], ["left", "zork"], ["spk - a", None]):
                    if gn == "my group" and False: continue
                    for op in ("", "rerelate", "shift", "cleanup", "regroup", "copytier", "grid", "grid+", "grids"):
                        yield [kind, gn, tn, op]
    def g5():
        for n in (2, 3):
            for ps in itertools.product(["spk - ", "B_2 - ", "zed_"], repeat=n):
                for ks in itertools.product("IP", repeat=n): yield [list(ps), list(ks)]
    def g6():
        for n in (1, 2, 3):
            for cl in itertools.product(["Pt", "Qt", "Rt"], repeat=n):
                for how in ("grid", "group"): yield [list(cl), how]
    def g7():
        for n in RESERVED:
            for how in M.HOWS: yield ["grid", n, how]
        for n in ["xmin", "name", "tier_list", "shift", "append", "within", "contains", "entry_classes", "tier_names", "id"]:
            yield ["group", n, ""]; yield ["points", n, ""]
    def g8():
        for n in (8, 11, 12):
            for pat in (["spk - ", ""], [""], ["zed_"], [f"s{i} - " for i in range(12)], [f"spk{i}_" for i in range(12)], ["B - "] + [f"s{i} - " for i in range(10)] + ["B - "]):
                ps = [pat[i % len(pat)] for i in range(n)]
                for lay in ([["W", "F"]] * n, [["W", "F"] if i % 3 else ["P", "Q"] for i in range(n)]):
                    for how in M.HOWS:
                        for o in ([], ["cleanup", "pickle"], ["interleave"], ["pop"]): yield [lay, ps, how, o]
    def g9():
        pre = ["mary - ", "mary smith - ", "mary smith_2 - ", "mark - ", "MARY - ", "mary/smith - ", "Zoë - "]
        for ns in (["Bob - W", "Bob - w"], ["bob - Tier", "bob - tier", "bob - TIER"], ["Bob - words", "bob - words"], ["BOBw", "BOBW", "BOBx"], ["Ann_Éa", "Ann_éa"], ["x_w", "x_W"]):
            for kind in "IP":
                for how in ("group", "grid", "tg"):
                    for order in itertools.permutations(range(len(ns))): yield [kind, ns, how, list(order)]
        for n in (3, 4):
            for ps in itertools.product(pre[:4] if n == 4 else pre, repeat=n):
                names = [p + "wxvz"[i] for i, p in enumerate(ps)]
                for kind in "IP":
                    for how in ("group", "grid", "tg"):
                        for order in ([list(range(n)), list(range(n))[::-1]] if n == 4 else [list(o) for o in itertools.permutations(range(n))]): yield [kind, names, how, order]
    CNS = [["Word", "word"], ["word", "WORD", "Word"], ["Ab", "A", "b"], ["Wörd", "Word"], ["A_b", "A_B"], ["X1", "X", "x1"], ["phone", "Phone", "Phones"]]
    sp = [Space("class-names", "7 lists of classes whose names differ in case or are parts of one another, in every order", lambda: ([list(p), k, h] for ns in CNS for p in itertools.permutations(ns) for k in (0, 1) for h in (0, 1)), run_class_names), Space("unequal-prefixes", "groups of three or four tiers whose names share prefixes of different lengths, in several orders", g9, run_triple), Space("many-groups", "8 to 12 groups with distinct, repeated or no common names, before and after edits", g8, run_patterns),
          Space("patterns", "every pair of 12 prefixes for 5 layouts of groups, and triples", g1, run_patterns),
          Space("patterns-edits", "every pair of operations on grids with 5 name patterns", g2, run_patterns),
          Space("removed", "groups that disappear with their class", g3, run_remove),
          Space("custom", "names given to loose tiers and groups", g4, run_custom),
          Space("appended", "every sequence of up to three appended groups with equal or different names", g5, run_append),
          Space("duplicate-tiers", "every list of up to three point classes", g6, run_duptiers),
          Space("reserved", "names that are attributes of grids and groups", g7, run_reserved)]
    return sp + M.edit_spaces(tier, F, names=True, extra=track)
